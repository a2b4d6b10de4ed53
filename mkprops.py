#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["metaknowledge/" + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Collections are sets of records under every operation history",
  "After any sequence of collection operations (add, add another collection with +, discard, remove and their by-ID forms, pop, clear, copy, chunk, split, and the pure and in-place union, intersection, difference and symmetric difference) a collection contains exactly the records a mathematical set would, with no duplicates and with length, membership, iteration, equality and ID lookup agreeing. Pure operations never change their operands, and a copy or result never changes when the original changes afterwards. Chunking or splitting yields disjoint parts no larger than asked whose union is the original, and adding a disallowed element or combining with something that is not a collection is refused without any effect.",
  ["histories", "inputs"], "all operation sequences up to a depth over a small universe of records (including two distinct objects for the same record), on record and grant collections",
  "test_recordcollection samples single operations on one 32-record file; aliasing between a result and its operand needs a later mutation, i.e. a history",
  ["mkCollection.py", "recordCollection.py", "grantCollection.py"],
  [("set operators, copy, chunk, split", "mkCollection.py Collection"), ("ID based access", "mkCollection.py CollectionWithIDs")],
  [("records", "the stored set", "Collection._collection")], ["len, in, iteration, ==, getID/containsID after each step"])

p("C02", "Damage is never forgotten and always attributable",
  "A collection read from damaged input is flagged bad and names each damaged source with its error, and combining, copying, or updating collections keeps the flag and every operand's errors. The bad entries of a collection are exactly its records flagged bad, dropping them removes exactly those and clears the collection's flag and errors, and clearing empties flag, errors and records together. A collection built only from undamaged sources is never flagged.",
  ["histories", "fault_sequences"], "all operation sequences up to a depth over collections with every combination of good/bad flag, recorded errors, and good/bad records",
  "tests only check the flag of one bad file; flags after combining collections are never tested",
  ["mkCollection.py", "recordCollection.py"], [("bad and errors propagation", "mkCollection.py set operators"), ("badEntries/dropBadEntries", "mkCollection.py")],
  [("bad, errors", "damage flag and source->error map", "Collection.bad, Collection.errors")], ["bad, errors, badEntries()"])

p("C03", "Writing WOS records and reading them back changes nothing",
  "For any non-empty collection of valid Web of Science records, however it was obtained (read, unioned, intersected, filtered, chunked, copied, added to), writing it to a file and reading that file gives an equal, undamaged collection in which every record has exactly the same tags and field lines. The bytes form of a record and of a collection is consistent with what is written.",
  ["inputs", "histories"], "all small record sets with every shape of field (one line, many lines, blanks, repeated text, non-ASCII) reached through every short history of collection operations",
  "test_wos writes one fixed file back; no test writes a collection that is the result of an operation",
  ["recordCollection.py", "WOS/recordWOS.py", "WOS/wosHandlers.py"], [("writeFile / writeRecord", "recordCollection.py, recordWOS.py"), ("wosParser / recordParser", "WOS/")],
  [("tag order and lines", "raw field lines of a record", "Record._fieldDict")], ["file written by writeFile, RecordCollection(file)"])

p("C04", "Damage to a WOS file loses only the damaged part and is reported",
  "Reading a Web of Science file cut off at any line or character, or with any line deleted, duplicated or corrupted, never crashes or hangs (an unrecognisable header is refused with the documented exception): every record that ended before the damage is returned intact, damage inside one record leaves the others intact, and unless the remaining file is itself a well-formed file the damage is reported, as an error of the collection or as a record flagged bad. A well-formed file is read completely and never flagged.",
  ["crash_points", "fault_sequences", "inputs"], "every truncation point and every single-line and single-structural-token fault of several small files",
  "badFile.isi is one sample of damage; which records survive a cut is untested",
  ["WOS/wosHandlers.py", "WOS/recordWOS.py", "recordCollection.py"], [("wosParser error returns", "WOS/wosHandlers.py"), ("recordParser", "WOS/recordWOS.py")],
  [("pError", "error returned with the partial record set", "wosParser")], ["RecordCollection(file).bad/errors/contents"])

p("C05", "A record is one consistent, read-only mapping however it is accessed",
  "For every record of every source, reading a field by short tag, long name, attribute-style helpers, get, subDict, values, items or a copy gives the same value regardless of which fields were read before and in what order, and never alters the raw data. Membership, keys, length and iteration agree with each other and with what can be read, missing fields give the documented default or KeyError, and equal IDs (only) make records equal, with equal hashes.",
  ["histories", "inputs"], "all short sequences of accesses (getters, memberships, copies, raw reads) on records of each source type",
  "the memoised getters give right answers when first called in the sampled order; order dependence needs all sequences",
  ["mkRecord.py", "WOS/recordWOS.py", "medline/recordMedline.py", "scopus/recordScopus.py", "proquest/recordProQuest.py", "grants/baseGrant.py"],
  [("lazy memo table", "mkRecord.py ExtendedRecord"), ("tag aliases", "mkRecord.py / tagProcessing")],
  [("computed fields", "memo of processed values", "ExtendedRecord._computedFields")], ["R[tag], R.get, in, keys, values, items, subDict, copy"])

p("C06", "WOS fields decode to their documented form for any lines",
  "For every Web of Science tag and any list of raw field lines, the value read is the documented decoding of those lines: one-entry-per-line lists keep every line in order, single-valued fields give their line, joined texts keep every line separated by one blank, delimiter-separated fields give every part between the documented delimiters in order, years and counts are integers, months in the documented forms (month or season first) are the month's number, addresses are complete, and nothing is dropped, duplicated or reordered. Long names and tags map one to one.",
  ["inputs"], "all tags x all small line lists over an alphabet containing the field separators of the format",
  "tests read each tag from one example record; multi-line and separator edge cases are not sampled",
  ["WOS/tagProcessing/tagFunctions.py", "WOS/tagProcessing/funcDicts.py", "WOS/tagProcessing/helpFuncs.py"], [("tag functions", "WOS/tagProcessing/tagFunctions.py"), ("tag/name tables", "WOS/tagProcessing/funcDicts.py")], (), ["R[tag], R.get(name)"])

p("C07", "Citation strings parse consistently and compare soundly",
  "For any citation string in the WOS style (author or year, then journal, volume, page and DOI, each optional but the last three only with a journal) or the Scopus style (authors, optional title, year, journal, then optionally volume, issue and pages) the parsed parts are exactly those given and absent parts are absent. An incomplete or otherwise unrecognised string yields a citation flagged bad with its error (a trailing unrecognised part of a WOS citation is kept as misc), never an exception. Equality is symmetric and agrees with hashing, two citations are equal exactly when their IDs (the parsed author, year and journal) agree, whatever the letter case of the strings, and the ID, extra and anonymous accessors work on every citation.",
  ["inputs"], "all combinations of present/absent/empty parts, and all pairs of the resulting citations",
  "tests use a handful of real citations; pairwise equality/hash consistency needs all pairs",
  ["citation.py"], [("regex parse, __eq__, __hash__, ID", "citation.py Citation")], (), ["Citation(str) attributes, ==, hash, ID(), Extra(), isAnonymous()"])

p("C08", "Mode networks count exactly what the records contain",
  "For any collection and tags, one-, two-, multi-mode and multi-level networks have exactly one node per distinct (stemmed) non-empty value, node counts equal to the number of occurrences in the collection, edges exactly between values that co-occur in a record under the mode's rule with weights equal to the number of co-occurrences, and node/edge attributes (a node's attribute lists the distinct values of its records), types (a tag that produced the node) and directedness as requested. Switching counts, weights or attributes off changes only those annotations, never the nodes or edges.",
  ["inputs", "configurations"], "all small record collections with present/absent/single/shared/duplicate tag values x all option settings",
  "tests compare totals on one file, so per-node counts and edge cases such as a value without partners are unconstrained",
  ["mkCollection.py"], [("networkOneMode/TwoMode/MultiMode/MultiLevel", "mkCollection.py")], (), ["returned networkx graph"])

p("C09", "Co-authorship and co-investigator networks match the records",
  "For any collection, the co-authorship network has exactly one node per distinct author name and an edge between two authors exactly when they share a record, with weight and node count equal to the number of shared and own records (a name listed k times in one record counts k times); the same holds for investigators and grants in a grant collection. Options for counts, weights, details and detailed attributes only add or remove those annotations.",
  ["inputs", "configurations"], "all small author/investigator incidence structures x all options",
  "test_coAuth checks totals on one file",
  ["recordCollection.py", "grantCollection.py"], [("networkCoAuthor", "recordCollection.py"), ("networkCoInvestigator", "grantCollection.py")], (), ["returned networkx graph"])

p("C10", "Citation networks contain exactly the cited links",
  "For any collection the citation network has an edge from the citing record to each of its (unfiltered) citations and nothing else, directed as asked, weighted by the number of such links, with node counts equal to the number of citing plus cited occurrences, and core-only, anonymous/journal/keyword filters and every node type (full, original, author, journal, year) applied as documented. Turning weights, counts or extra information on or off never changes the node or edge set.",
  ["inputs", "configurations"], "all small citing structures x node types x options",
  "tests check a few totals on one file and node types other than full are barely sampled",
  ["recordCollection.py"], [("networkCitation, addToNetwork, filterCites", "recordCollection.py")], (), ["returned networkx graph"])

p("C11", "Co-citation networks contain exactly the co-cited pairs",
  "For any collection the co-citation network has one node per (unfiltered) citation (or value of the chosen node type), counted by number of citing occurrences, and an edge between two of them exactly when a record cites both, weighted by the number of times they are cited together, with core-only and the filters and node types applied as documented. Turning weights, counts or extra information on or off never changes the node or edge set.",
  ["inputs", "configurations"], "all small citing structures x node types x options", "tests check totals on one file",
  ["recordCollection.py"], [("networkCoCitation, addToNetwork, filterCites", "recordCollection.py")], (), ["returned networkx graph"])

p("C12", "Bibliographic coupling weights equal the shared citations",
  "For any collection the bibliographic coupling network has one node per record of the collection that cites anything or is cited by another one that does, and an edge between two records exactly when they share at least one citation, weighted by the number of distinct shared citations when weighted.",
  ["inputs", "configurations"], "all small citing structures and processing orders x options", "tests check totals on one file",
  ["recordCollection.py"], [("networkBibCoupling", "recordCollection.py")], (), ["returned networkx graph"])

p("C13", "Graphs survive being written to and read from files",
  "For any graph (directed or not, with any mixture of node and edge attributes, isolated nodes, or empty), writing it and reading the files back gives the same nodes, edges and attribute values (as text), under every option that keeps them, and file names, overwrite protection and header-only files follow the documentation. Two-mode tnet files list exactly the graph's edges from first mode to second mode and invalid mode structures are refused.",
  ["inputs", "configurations"], "all graphs on up to 3 nodes with attribute assignments x writer options",
  "test_graphhelpers writes one graph", ["graphHelpers.py"], [("writeGraph/readGraph/writeEdgeList/writeNodeAttributeFile/writeTnetFile", "graphHelpers.py")], (), ["files on disk, readGraph"])

p("C14", "Graph filtering, merging and statistics match their definition",
  "Dropping edges or nodes by weight, count, degree or parameter, merging graphs and computing statistics on any graph gives exactly the result of the documented definition at and around each threshold, with either in-place or copying behaviour as documented and with the input otherwise untouched.",
  ["inputs", "configurations"], "all graphs on up to 3-4 nodes with small weights x all threshold settings",
  "tests use one graph and one threshold", ["graphHelpers.py"], [("dropEdges, dropNodesByDegree, dropNodesByCount, mergeGraphs, graphStats", "graphHelpers.py")], (), ["returned graphs/strings"])

p("C15", "Diffusion graphs and counts match who cites whom",
  "For any source and target collections, the diffusion graph links a source to a target exactly when a target record cites that source, and diffusion counts equal the number of citations by target records (per extra value of the citing record when asked), whatever node type, author-matching, comparison and output form is chosen; counts added to a graph equal the computed counts. Records nobody cites count zero.",
  ["inputs", "configurations"], "all small source/target citing structures x options", "test_diffusion checks totals on one file",
  ["diffusion.py"], [("diffusionGraph, diffusionCount, diffusionAddCountsFromSource", "diffusion.py")], (), ["returned graph/dict"])

p("C16", "A cached directory read always equals a fresh read",
  "Reading a directory with caching on gives the same records, name, flag and errors as reading it without cache, after any history of reads with any extensions or names, file additions, removals and changes, and after the cache file was left missing, truncated at any byte, or corrupted; a stale or damaged cache is replaced, never trusted and never fatal. Caching never changes the data files, for record and grant collections alike.",
  ["histories", "crash_points", "fault_sequences"], "all operation histories up to a depth over a small directory, and every truncation point of the cache file",
  "the tests read a cache once without changing the directory", ["mkCollection.py", "recordCollection.py", "grantCollection.py"], [("_loadFromCache/_createCache", "mkCollection.py")],
  [("cache file", "pickled collection with file times", "*.mkRecordDirCache / *.mkGrantDirCache")], ["collection returned, files on disk"])

p("C17", "Medline records survive reading, writing and damage",
  "For any well-formed Medline file every record and every field line (including continuation lines, repeated tags and author affiliations in order) is read, writing the records and reading them back gives equal records with the same values, and processed fields are the documented decoding. A file cut or damaged at any line never crashes: the preceding records are kept and the damage is flagged.",
  ["inputs", "crash_points"], "all small files over an alphabet of field shapes, every cut and single-line fault", "test_medline reads and writes one file",
  ["medline/medlineHandlers.py", "medline/recordMedline.py", "medline/tagProcessing/tagFunctions.py"], [("medlineParser, medlineRecordParser, writeRecord", "medline/")], (), ["RecordCollection(file), writeFile"])

p("C18", "Scopus records survive reading, writing and damage",
  "For any well-formed Scopus CSV file every row becomes one record with every column's value, decoded as documented, and writing and re-reading gives equal records with equal values. Rows with a wrong number of columns or without an ID, and files cut at any character, never crash: undamaged rows are kept and the damage is flagged.",
  ["inputs", "crash_points"], "all small files over an alphabet of column values, every cut and row fault", "test_scopus reads and writes one file",
  ["scopus/scopusHandlers.py", "scopus/recordScopus.py", "scopus/tagProcessing/tagFunctions.py"], [("scopusParser, scopusRecordParser, writeRecord", "scopus/")], (), ["RecordCollection(file), writeFile"])

p("C19", "ProQuest files are read completely",
  "For any well-formed ProQuest file every record listed is read with exactly its fields and multi-line values, decoded as documented; a cut or damaged file never crashes, keeps the preceding records and is flagged.",
  ["inputs", "crash_points"], "all small files over an alphabet of fields, every cut and single-line fault", "test_proquest reads one file",
  ["proquest/proQuestHandlers.py", "proquest/recordProQuest.py"], [("proQuestParser, proQuestRecordParser", "proquest/")], (), ["RecordCollection(file)"])

p("C20", "Grant files are read completely and merged without loss",
  "For any well-formed grant file of each supported agency every row becomes a grant with every column's value and the institutions, investigators and amounts it names; collaborator rows are merged into the same grant whatever the order of files and rows; unreadable input is flagged bad with the error and never crashes. Grants embedded in records carry the text they came from.",
  ["inputs", "histories", "fault_sequences"], "all small files, all orders of rows and files, all row faults", "test_grants reads one file per agency",
  ["grantCollection.py", "grants/nsercGrant.py", "grants/cihrGrant.py", "grants/nsfGrant.py", "grants/baseGrant.py", "grants/medlineGrant.py", "grants/scopusGrant.py"], [("parsers and csvAndLinesReader", "grants/"), ("GrantCollection constructor", "grantCollection.py")], (), ["GrantCollection(path)"])

p("C21", "Ranked and time series and co-occurrence counts are exact",
  "For any collection, ranked series give every tag value with its exact number of occurrences in order of frequency with dense ranks consistent in both orders, time series give the exact count per value and year, co-occurrence counts give the exact number of joint occurrences, and citation counts the exact number of occurrences of each citation; limits, output forms and files agree with each other.",
  ["inputs", "configurations"], "all small collections x all output options", "tests check a few totals",
  ["mkCollection.py", "recordCollection.py"], [("rankedSeries, timeSeries, cooccurrenceCounts, localCiteStats, getCitations", "mkCollection.py, recordCollection.py")], (), ["returned lists/dicts and CSV files"])

p("C22", "Filters select exactly the records that satisfy them",
  "Year ranges, citation filters on every field, local citation lookup by record, citation or ID, and journal filtering return exactly the records of the collection meeting the documented condition, a filter and its reverse partition the collection, and the original collection is unchanged unless the operation is documented as in-place.",
  ["inputs", "configurations"], "all small collections x all filter arguments", "tests check a few totals",
  ["recordCollection.py"], [("yearSplit, citeFilter, localCitesOf, dropNonJournals", "recordCollection.py")], (), ["returned collections"])

p("C23", "CSV and dictionary exports contain every record and value",
  "For any collection, the dictionary and CSV exports have one row per record (per split value when splitting) and every requested field of every record in its column, missing values empty, long names, author and gender counts as requested; all columns have equal length, rows stay aligned across columns, and arguments passed in are not modified.",
  ["inputs", "configurations"], "all small heterogeneous collections x all options", "tests check only file sizes or a few columns",
  ["recordCollection.py", "mkRecord.py"], [("makeDict, writeCSV", "recordCollection.py")], (), ["dict / CSV files"])

p("C24", "BibTeX output keeps every value whole",
  "For any collection of records the BibTeX file holds one well-formed entry per record with every exported field present and complete: values longer than the line limit are wrapped, never cut, braces stay balanced, and lists keep every member in order. Options choose names, fields and keys as documented and records that cannot be exported do not prevent the others.",
  ["inputs", "configurations"], "all string lengths around the wrap limit x value kinds x options", "tests compare one short record",
  ["mkRecord.py", "recordCollection.py"], [("bibString, _bibFormatter", "mkRecord.py"), ("writeBib", "recordCollection.py")], (), ["writeBib file, bibString"])

p("C25", "Text and burst exports list every record in order",
  "For any collection, the natural-language export has one row per record with its ID, year, title, keywords and (cleaned or raw) abstract and the burst export one row per word of every dated record with its year, each in the requested form, with copyright removal and stemming applied only when asked; the returned dictionary and the file agree.",
  ["inputs", "configurations"], "all small collections x options", "not tested beyond not failing", ["recordCollection.py"], [("forNLP, forBurst, findProbableCopyright", "recordCollection.py")], (), ["dict / CSV files"])

p("C26", "Reference publication year spectra count every cited year",
  "For any collection the reference-year spectrum gives, for each year of the range exactly once and in order, the number of citations to that year and its deviation from the median of the surrounding window, honouring minimum, maximum and dropped years and reporting ranks consistently.",
  ["inputs", "configurations"], "all small multisets of cited years x all option settings", "not tested beyond one total", ["recordCollection.py"], [("rpys", "recordCollection.py")], (), ["returned dict"])

p("C27", "The journal abbreviation store keeps what it is given",
  "After any sequence of adding, excluding and re-adding journal names, in any order and with reopening in between, the store reports exactly the names currently added, lookups and journal filtering of citations follow it, and an update from the WOS pages that fails or is interrupted at any page loses no previously stored name.",
  ["histories", "crash_points"], "all operation sequences up to a depth over two abbreviations and three names", "not tested (needs the network at first use)",
  ["journalAbbreviations/backend.py", "citation.py"], [("getj9dict, addToDB, excludeFromDB, updatej9DB", "journalAbbreviations/backend.py"), ("isJournal, FullJournalName, filterNonJournals", "citation.py")], (), ["getj9dict(), Citation.isJournal()"])

p("C28", "Progress display never affects results and always ends",
  "With verbose mode on, every interleaving of the display thread with the worker gives the same results as with it off, ends with exactly one final line showing the last message, leaves no thread running and writes nothing after finishing, also when the operation has nothing to do or raises.",
  ["schedules"], "all interleavings of display thread and worker up to a bound of preemptions, over terminal widths", "test_graphhelpers/test_progress run one schedule",
  ["progressBar.py"], [("_ProgressBar thread protocol", "progressBar.py")], [("finished, per, inputString", "shared between threads", "progressBar.py")], ["output stream writes, thread liveness"])

p("C29", "Analyses are read-only and independent of what ran before",
  "Every analysis, export and network call on a collection gives the same result whatever other analyses were run before it, on the same objects (also when those were changed in between) or on others of the same names and IDs, and leaves the collection, its records, its arguments and process-wide settings as they were (operations documented as in-place excepted).",
  ["histories"], "all ordered pairs of API calls (and triples in depth) over collections of each kind", "tests call each analysis once on a fresh collection",
  ["recordCollection.py", "mkCollection.py", "mkRecord.py", "diffusion.py", "graphHelpers.py", "citation.py", "grantCollection.py"], [("memoised records shared by all analyses", "mkRecord.py")], (), ["results and canonical state before/after"])

p("C30", "A directory reads as the union of its recognised files",
  "Every file is recognised as exactly the format it is written in, whatever its name and whatever the path held before, and reading a directory gives the union of reading each matching file alone, skipping unrecognised files unless their extension was requested (then refusing them by name), with the name, damage flag and per-file errors of the parts, whatever the listing order.",
  ["inputs", "configurations"], "all directories of up to 3 files over all formats, damaged and unknown files, subdirectories, extensions, all listing orders", "tests read one directory",
  ["recordCollection.py", "fileHandlers.py", "WOS/wosHandlers.py", "medline/medlineHandlers.py", "scopus/scopusHandlers.py", "proquest/proQuestHandlers.py"], [("recordHandlers detection", "fileHandlers.py"), ("RecordCollection constructor", "recordCollection.py")], (), ["RecordCollection(dir)"])

p("C31", "The command line menus do what the chosen entry says",
  "For any sequence of menu choices and answers, including invalid ones, the command line program either performs exactly the named operation on the loaded records (same graph, file or records as the library call) or asks again; it never crashes, never acts on an answer that was not given, and always can be left.",
  ["histories", "inputs"], "all input sequences up to a depth over valid and invalid answers", "test_cli walks five fixed scripts",
  ["bin/metaknowledgeCLI.py"], [("menus", "bin/metaknowledgeCLI.py")], (), ["calls made, files written, returned values"])

p("C32", "Gender counts account for every author exactly once",
  "For any collection each author of each record is counted exactly once as male, female or unknown according to the name table, totals equal the number of authors, the per-record and per-collection statistics and CSV columns agree, and unknown or malformed names are counted unknown rather than failing.",
  ["inputs"], "all small author lists over names of every form and class", "genderStats needs the network and is not run",
  ["genders/nameGender.py", "mkRecord.py", "recordCollection.py"], [("recordGenders, nameStringGender", "genders/nameGender.py"), ("genderStats", "recordCollection.py")], (), ["authGenders, genderStats"])

p("C33", "A glimpse shows the true top of every ranking within the terminal",
  "For any collection, tags, style and terminal size, glimpse() shows for every requested tag the most frequent values in order with their true ranks, none skipped, repeated or mixed between columns, as many as the height allows; a shortened value is the beginning of the true one; unused cells say so; no line is wider than the terminal, and the collection is left as it was.",
  ["inputs", "configurations"], "all small collections x terminal sizes around every limit x orders of tags x both styles", "one test compares one table at 80x24",
  ["RCglimpse.py", "mkCollection.py"], [("makeTable, makeHeader", "RCglimpse.py"), ("glimpse, rankedSeries", "mkCollection.py")], (), ["the returned text"])

p("C34", "A failing disk or interrupt is reported, never mistaken for the end of a file",
  "If reading any part of an input file (of any recognised format, given as a file, from a directory or as an edge or node list) fails or is interrupted, the call raises, or returns a collection flagged bad that names the file and contains only entries that are in the files, everything from the other files included; a partial read is never returned as whole. A failure or interrupt while writing any output file is raised, leaves what was being written unchanged in memory, and does not affect a later attempt. A cache that cannot be read or written never changes what a directory contains.",
  ["fault_sequences", "crash_points"], "a failure or interrupt at every byte of every file read or written by every reader and writer", "no test makes a disk fail",
  ["WOS/wosHandlers.py", "medline/medlineHandlers.py", "scopus/scopusHandlers.py", "proquest/proQuestHandlers.py", "grants/", "mkCollection.py", "recordCollection.py", "graphHelpers.py"],
  [("parsers", "*/…Handlers.py, grants/*Grant.py"), ("_loadFromCache, _createCache", "mkCollection.py"), ("writers", "recordCollection.py, graphHelpers.py")], (), ["the outcome of the call, the collection, the files"])

p("C35", "A markdown file becomes a notebook that holds all of it",
  "For any markdown texts given to metaknowledge-mdToNb, each is turned into a valid notebook (nbformat 4) beside it, named after it, in which every line that is not blank appears exactly once, unaltered and in order, whatever characters it holds and whether or not the text ends with a newline: lines that start with a bracketed number as code without the bracket, neighbouring ones with the same number in one code cell, all others as markdown, with blank lines between lines of one markdown cell kept. The markdown files and other files stay as they are.",
  ["inputs"], "every text up to a number of lines of an alphabet of difficult lines", "the tests do not run the converter at all",
  ["bin/metaknowledgeMdToNb.py"],
  [("convertString, stringPreprossesing, convert", "bin/metaknowledgeMdToNb.py")], (), ["the notebook files"])
p("C36", "The plots show exactly the graph",
  "For any graph, quickVisual draws every node exactly once at its place in the layout, every edge between the places of its ends and, when asked, every label; nodes have the same colour exactly when they have the same type (up to eight types) and a graph of which only some nodes have a type is refused. graphDensityContourPlot draws the blurred number of nodes in each cell of the grid laid over the whole layout, for a given layout anywhere within the stated square around the origin as for its own, in the requested form, and the overlay shows every node at its place. The graph and the layout are left as they were.",
  ["inputs"], "all small graphs, type assignments and layouts on a lattice", "the tests do not draw anything",
  ["contour/plotting.py"],
  [("quickVisual", "contour/plotting.py"), ("graphDensityContourPlot", "contour/plotting.py")], (), ["the artists of the figure", "the graph and layout afterwards"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
