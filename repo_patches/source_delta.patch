From ac323222f4726ec4b459ddae314e69c11aeedd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:22 +0000
Subject: [PATCH 001/120] fix: do not lose the contents of one-shot iterables
 given to collection constructors

---
 metaknowledge/grantCollection.py  | 4 +++-
 metaknowledge/recordCollection.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 54fc347..27a1d8f 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -123,10 +123,12 @@ class GrantCollection(CollectionWithIDs):
                 PBar.updateVal(.5, "GrantCollection started from {}".format(type(inGrants).__name__))
                 if not name:
                     name = "Grants-from-a-{}".format(type(inGrants).__name__)
+                #The iterable may only be traversable once, e.g. a generator
+                grantsSet = set()
                 for G in inGrants:
                     if not isinstance(G, Grant):
                         raise GrantCollectionException("A GrantCollection cannot be created from a Iterable containing {}".format(G))
-                grantsSet = set(inGrants)
+                    grantsSet.add(G)
             else:
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index af0e417..171b89a 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -151,10 +151,12 @@ class RecordCollection(CollectionWithIDs):
                     raise RCTypeError("'{}' is not a path to a directory or file. Strings cannot be used to initialize RecordCollections".format(inCollection))
             elif isinstance(inCollection, collections.abc.Iterable):
                 PBar.updateVal(.5, "RecordCollection from an iterable started")
+                #The iterable may only be traversable once, e.g. a generator
+                recordsSet = set()
                 for R in inCollection:
                     if not isinstance(R, Record):
                         raise RCTypeError("RecordCollections can only contain Records, '{}' is not a valid part of an input iterable.".format(R))
-                recordsSet = set(inCollection)
+                    recordsSet.add(R)
             else:
                 raise RCTypeError("A RecordCollection cannot be created from {}.".format(inCollection))
             CollectionWithIDs.__init__(self, recordsSet, Record, recordTypes, name, bad, errors)
-- 
2.43.0


From 9c047c0495779c6b2d05ff1f1ccdadbcca06cbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:33 +0000
Subject: [PATCH 002/120] fix: keep the errors of both operands when
 collections are combined

---
 metaknowledge/mkCollection.py     | 4 ++++
 metaknowledge/recordCollection.py | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index a9afbbe..3abf232 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -237,6 +237,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection | other._collection, name = '{} | {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -247,6 +248,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection & other._collection, name = '{} & {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -257,6 +259,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection - other._collection, name = '{} - {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -267,6 +270,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection ^ other._collection, name = '{} ^ {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 171b89a..9e795ca 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -189,6 +189,11 @@ class RecordCollection(CollectionWithIDs):
         for rec in other:
             new_col.add(rec)
 
+        for col in (self, other):
+            if getattr(col, 'bad', False):
+                new_col.bad = True
+                new_col.errors.update(col.errors)
+
         return new_col
 
     def dropNonJournals(self, ptVal = 'J', dropBad = True, invert = False):
-- 
2.43.0


From a72764690c07a297677e9b1b06089c02f63bc3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:47 +0000
Subject: [PATCH 003/120] fix: write the file header of collections that are
 the result of an operation

---
 metaknowledge/recordCollection.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 9e795ca..c9c5eaa 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -172,6 +172,8 @@ class RecordCollection(CollectionWithIDs):
                 PBar.finish("Done making a RecordCollection. Warning an error occured.")
 
     def __bytes__(self):
+        if len(self) < 1:
+            return b''
         encoding = self.peek().encoding()
         try:
             return bytes('\n', encoding = encoding).join((bytes(R) for R in self))
@@ -229,7 +231,11 @@ class RecordCollection(CollectionWithIDs):
 
         > Default `None`, if given the output file will written to _fanme_, if `None` the `RecordCollection`'s name's first 200 characters are used with the suffix .isi
         """
-        if len(self._collectedTypes) < 2:
+        #The types are taken from the Records as the RecordCollection may be the result of an operation on others
+        recordTypes = set(type(R).__name__ for R in self._collection)
+        if not recordTypes:
+            recordTypes = self._collectedTypes
+        if len(recordTypes) < 2 and len(self._collection) > 0:
             recEncoding = self.peek().encoding()
         else:
             recEncoding = 'utf-8'
@@ -237,17 +243,17 @@ class RecordCollection(CollectionWithIDs):
             f = open(fname, mode = 'w', encoding = recEncoding)
         else:
             f = open(self.name[:200] + '.txt', mode = 'w', encoding = recEncoding)
-        if self._collectedTypes == {'WOSRecord'}:
+        if recordTypes == {'WOSRecord'}:
             f.write("\ufeffFN Thomson Reuters Web of Science\u2122\n")
             f.write("VR 1.0\n")
-        elif self._collectedTypes == {'MedlineRecord'}:
+        elif recordTypes == {'MedlineRecord'}:
             f.write('\n')
-        elif self._collectedTypes == {'ScopusRecord'}:
+        elif recordTypes == {'ScopusRecord'}:
             f.write("\ufeff{}\n".format(','.join(scopusHeader)))
         for R in self._collection:
             R.writeRecord(f)
             f.write('\n')
-        if self._collectedTypes == {'WOSRecord'}:
+        if recordTypes == {'WOSRecord'}:
             f.write('EF')
         f.close()
 
-- 
2.43.0


From 8df3296fed254f22b4b5847c495c23e3e8fa82bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:33 +0000
Subject: [PATCH 004/120] fix: keep the actual error of malformed WOS records

---
 metaknowledge/WOS/recordWOS.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index a26acf3..42733f3 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -78,16 +78,17 @@ class WOSRecord(ExtendedRecord):
             else:
                 raise TypeError("Unsupported input type '{}', WOSRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadWOSRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'UT' in fieldDict:
                 self._wosNum = fieldDict['UT'][0]
             else:
                 self._wosNum = 'WOS:Missing'
-                bad = True
-                error = BadWOSRecord("Missing WOS number")
+                if not bad:
+                    bad = True
+                    error = BadWOSRecord("Missing WOS number")
         ExtendedRecord.__init__(self, fieldDict, self._wosNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
-- 
2.43.0


From 353283bbdd1dcb780bb3b370fd2839c7eaedcf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:33 +0000
Subject: [PATCH 005/120] fix: report WOS records lost to malformed lines

---
 metaknowledge/WOS/recordWOS.py   | 2 ++
 metaknowledge/WOS/wosHandlers.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index 42733f3..bddbebe 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -184,6 +184,8 @@ def recordParser(paper):
             raise BadWOSFile("Field tag not formed correctly on line " + str(l[0]) + " : " + l[1])
         elif '   ' in l[1][:3]: #the string is three spaces in row
             #No new tag append line to current tag (last tag in tagList)
+            if len(tagList) < 1:
+                raise BadWOSRecord("Continuation of a field before any field on line {} : {}".format(l[0], l[1]))
             tagList[-1][1].append(l[1][3:-1])
         else:
             #New tag create new entry at the end of tagList
diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 69c7da5..8d3c65d 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -73,6 +73,7 @@ def wosParser(isifile):
                     try:
                         plst.add(WOSRecord(itertools.chain([line], f), sFile = isifile, sLine = line[0]))
                     except BadWOSFile as e:
+                        error = BadWOSFile("The file '{}' has a malformed record:\n{}".format(isifile, str(e)))
                         try:
                             s = f.__next__()[1]
                             while s[:2] != 'ER':
-- 
2.43.0


From c889bfa1cc7f51a4d46381e13260b099c003b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:37 +0000
Subject: [PATCH 006/120] fix: blank lines in the WOS address field do not make
 it unreadable

---
 metaknowledge/WOS/tagProcessing/tagFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/WOS/tagProcessing/tagFunctions.py b/metaknowledge/WOS/tagProcessing/tagFunctions.py
index 672acc2..8e76bb2 100644
--- a/metaknowledge/WOS/tagProcessing/tagFunctions.py
+++ b/metaknowledge/WOS/tagProcessing/tagFunctions.py
@@ -412,7 +412,7 @@ def authAddress(val):
     """
     ret = []
     for a in val:
-        if a[0] == '[':
+        if a.startswith('['):
             ret.append('] '.join(a.split('] ')[1:]))
         else:
             ret.append(a)
-- 
2.43.0


From 367fdc975402ea1392f86291a682979b1c021f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 007/120] fix: use the node attribute access of current
 networkx

---
 metaknowledge/diffusion.py       | 16 ++++-----
 metaknowledge/grantCollection.py |  6 ++--
 metaknowledge/graphHelpers.py    |  6 ++--
 metaknowledge/mkCollection.py    | 58 ++++++++++++++++----------------
 4 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 92f9bb4..b9ce40a 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -105,7 +105,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                     if val not in workingGraph:
                         workingGraph.add_node(val, source = False, target = True, **RtExtras)
                     else:
-                        workingGraph.node[val]["target"] = True
+                        workingGraph.nodes[val]["target"] = True
                     targetCites = Rt.get('CR')
                     if targetCites:
                         for Rs in (sourceDict[c] for c in targetCites if c in sourceDict):
@@ -419,24 +419,24 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         except StopIteration:
             pass
         count = 0
-        for n in grph.nodes_iter():
+        for n in grph.nodes():
             PBar.updateVal(.5 + .5 * (count / len(grph)), "Adding count for '{}'".format(n))
             if extraType is not None:
                 if extraKeys:
                     for key in extraKeys:
-                        grph.node[n][key] = 0
-                grph.node[n][diffusionLabel] = 0
+                        grph.nodes[n][key] = 0
+                grph.nodes[n][diffusionLabel] = 0
                 try:
                     for k, v in countsDict[n].items():
                         if k == 'TargetCount':
-                            grph.node[n][diffusionLabel] = v
+                            grph.nodes[n][diffusionLabel] = v
                         else:
                             if k:
-                                grph.node[n][k] = v
+                                grph.nodes[n][k] = v
                 except KeyError:
-                    grph.node[n][diffusionLabel] = 0
+                    grph.nodes[n][diffusionLabel] = 0
             else:
-                grph.node[n][diffusionLabel] = countsDict.get(n, 0)
+                grph.nodes[n][diffusionLabel] = countsDict.get(n, 0)
             count += 1
         PBar.finish("Done adding diffusion counts to a graph")
     return countsDict
diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 27a1d8f..6927981 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -200,7 +200,7 @@ class GrantCollection(CollectionWithIDs):
                             else:
                                 grph.add_node(invest1[0], field = invest1[1])
                         elif count:
-                            grph.node[invest1[0]]['count'] += 1
+                            grph.nodes[invest1[0]]['count'] += 1
                         for invest2 in investList[i + 1:]:
                             if invest2[0] not in grph:
                                 if count:
@@ -208,7 +208,7 @@ class GrantCollection(CollectionWithIDs):
                                 else:
                                     grph.add_node(invest2[0], field = invest2[1])
                             elif count:
-                                grph.node[invest2[0]]['count'] += 1
+                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
@@ -223,7 +223,7 @@ class GrantCollection(CollectionWithIDs):
                         else:
                             grph.add_node(invest1[0], field = invest1[1])
                     elif count:
-                        grph.node[invest1[0]]['count'] += 1
+                        grph.nodes[invest1[0]]['count'] += 1
             if _institutionLevel:
                 PBar.finish("Done making a co-institution network from {}".format(self))
             else:
diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 3eb5389..9db19bb 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -439,9 +439,9 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
                 else:
                     eTimeString = ''
                 if weighted:
-                    f.write("{}{} {} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString], eDict[weightString]))
+                    f.write("{}{} {} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString], eDict[weightString]))
                 else:
-                    f.write("{}{} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString]))
+                    f.write("{}{} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString]))
         PBar.finish("Done writing tnet file '{}'".format(name))
 
 def getWeight(grph, nd1, nd2, weightString = "weight", returnType = int):
@@ -715,7 +715,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
     for addedNode, attribs in addedGraph.nodes(data = True):
         if incrementedNodeVal:
             try:
-                targetGraph.node[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
+                targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
             except KeyError:
                 targetGraph.add_node(addedNode, **attribs)
         else:
diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 3abf232..2da31a9 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -911,21 +911,21 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                                 if nodeCount:
                                     try:
-                                        grph.node[node1]['count'] += 1
+                                        grph.nodes[node1]['count'] += 1
                                     except KeyError:
-                                        grph.node[node1]['count'] = 1
+                                        grph.nodes[node1]['count'] = 1
                                 if nodeAttribute:
                                     try:
-                                        currentAttrib = grph.node[node1][nodeAttribute]
+                                        currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.node[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = nodeVals
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                            grph.node[node1][nodeAttribute].append(nodeValue)
+                                            grph.nodes[node1][nodeAttribute].append(nodeValue)
                         elif len(tmplst) == 1:
                             if nodeCount:
                                 try:
-                                    grph.node[tmplst[0]]['count'] += 1
+                                    grph.nodes[tmplst[0]]['count'] += 1
                                 except KeyError:
                                     grph.add_node(tmplst[0], count = 1)
                             else:
@@ -933,12 +933,12 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(tmplst[0])
                             if nodeAttribute:
                                 try:
-                                    currentAttrib = grph.node[tmplst[0]][nodeAttribute]
+                                    currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.node[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                        grph.node[tmplst[0]][nodeAttribute].append(nodeValue)
+                                        grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
                         else:
                             pass
                     else:
@@ -948,7 +948,7 @@ class CollectionWithIDs(Collection):
                             nodeVal = str(contents)
                         if nodeCount:
                             try:
-                                grph.node[nodeVal]['count'] += 1
+                                grph.nodes[nodeVal]['count'] += 1
                             except KeyError:
                                 grph.add_node(nodeVal, count = 1)
                         else:
@@ -956,12 +956,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_node(nodeVal)
                         if nodeAttribute:
                             try:
-                                currentAttrib = grph.node[nodeVal][nodeAttribute]
+                                currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.node[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                    grph.node[nodeVal][nodeAttribute].append(nodeValue)
+                                    grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
             if PBar:
                 PBar.finish("Done making a {} from {}".format(_networkTypeString, modes))
         return grph
@@ -1131,12 +1131,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_edge(node1, node2)
                     if nodeCount:
                         try:
-                            grph.node[node1]['count'] += 1
+                            grph.nodes[node1]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node1]['count'] = 1
+                                grph.nodes[node1]['count'] = 1
                                 if recordType:
-                                    grph.node[node1]['type'] = tag1
+                                    grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
                                     grph.add_node(node1, type = tag1)
@@ -1149,22 +1149,22 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node1)
                         elif recordType:
-                            if 'type' not in grph.node[node1]:
-                                grph.node[node1]['type'] = tag1
+                            if 'type' not in grph.nodes[node1]:
+                                grph.nodes[node1]['type'] = tag1
 
                 for node2 in contents2:
                     if nodeCount:
                         try:
-                            grph.node[node2]['count'] += 1
+                            grph.nodes[node2]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node2]['count'] = 1
+                                grph.nodes[node2]['count'] = 1
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                             except KeyError:
                                 grph.add_node(node2, count = 1)
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                     else:
                         if not grph.has_node(node2):
                             if recordType:
@@ -1172,8 +1172,8 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node2)
                         elif recordType:
-                            if 'type' not in grph.node[node2]:
-                                grph.node[node2]['type'] = tag2
+                            if 'type' not in grph.nodes[node2]:
+                                grph.nodes[node2]['type'] = tag2
             if PBar:
                 PBar.finish("Done making a two mode network of " + tag1 + " and " + tag2)
         return grph
@@ -1285,12 +1285,12 @@ class CollectionWithIDs(Collection):
                                         grph.add_edge(node1, node2)
                         if nodeCount:
                             try:
-                                grph.node[node1]['count'] += 1
+                                grph.nodes[node1]['count'] += 1
                             except KeyError:
                                 try:
-                                    grph.node[node1]['count'] = 1
+                                    grph.nodes[node1]['count'] = 1
                                     if recordType:
-                                        grph.node[node1]['type'] = vlst1[0]
+                                        grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
                                         grph.add_node(node1, type = vlst1[0])
@@ -1304,9 +1304,9 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                             elif recordType:
                                 try:
-                                    grph.node[node1]['type'] += vlst1[0]
+                                    grph.nodes[node1]['type'] += vlst1[0]
                                 except KeyError:
-                                    grph.node[node1]['type'] = vlst1[0]
+                                    grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
                 PBar.finish("Done making a {}-mode network of: {}".format(len(tags), ', '.join(tags)))
         return grph
-- 
2.43.0


From 5e2db95ac6a58f27edf5cdb58c29d9cad986a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 008/120] fix: count the first occurrence of nodes without
 partners in two and multi mode networks

---
 metaknowledge/mkCollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 2da31a9..f35de85 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1139,9 +1139,9 @@ class CollectionWithIDs(Collection):
                                     grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
-                                    grph.add_node(node1, type = tag1)
+                                    grph.add_node(node1, count = 1, type = tag1)
                                 else:
-                                    grph.add_node(node1)
+                                    grph.add_node(node1, count = 1)
                     else:
                         if not grph.has_node(node1):
                             if recordType:
@@ -1293,9 +1293,9 @@ class CollectionWithIDs(Collection):
                                         grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
-                                        grph.add_node(node1, type = vlst1[0])
+                                        grph.add_node(node1, count = 1, type = vlst1[0])
                                     else:
-                                        grph.add_node(node1)
+                                        grph.add_node(node1, count = 1)
                         else:
                             if not grph.has_node(node1):
                                 if recordType:
-- 
2.43.0


From 68126224a4c22f18b54f928e295d4b737dd9562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 009/120] fix: do not repeat the type of multi mode nodes when
 counts are off

---
 metaknowledge/mkCollection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index f35de85..e3c651d 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1303,9 +1303,7 @@ class CollectionWithIDs(Collection):
                                 else:
                                     grph.add_node(node1)
                             elif recordType:
-                                try:
-                                    grph.nodes[node1]['type'] += vlst1[0]
-                                except KeyError:
+                                if 'type' not in grph.nodes[node1]:
                                     grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
                 PBar.finish("Done making a {}-mode network of: {}".format(len(tags), ', '.join(tags)))
-- 
2.43.0


From e7a4b578b312372e06b3c228f5b9fe6fe527fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 010/120] fix: edge and node attributes of multi level and
 multi mode networks

---
 metaknowledge/mkCollection.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index e3c651d..eb13d66 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -866,9 +866,15 @@ class CollectionWithIDs(Collection):
                     count += 1
                     PBar.updateVal(count / len(self), "Analyzing: " + str(R))
                 if edgeAttribute:
-                    edgeVals = [str(v) for v in R.get(edgeAttribute, [])]
+                    edgeVals = R.get(edgeAttribute, [])
+                    if not isinstance(edgeVals, list):
+                        edgeVals = [edgeVals]
+                    edgeVals = [str(v) for v in edgeVals]
                 if nodeAttribute:
-                    nodeVals = [str(v) for v in R.get(nodeAttribute, [])]
+                    nodeVals = R.get(nodeAttribute, [])
+                    if not isinstance(nodeVals, list):
+                        nodeVals = [nodeVals]
+                    nodeVals = [str(v) for v in nodeVals]
                 contents = []
                 for attr in modes:
                     tmpContents = R.get(attr, [])
@@ -889,10 +895,7 @@ class CollectionWithIDs(Collection):
                                         for edgeVal in edgeVals:
                                             if grph.has_edge(node1, node2, key = edgeVal):
                                                 if edgeWeight:
-                                                    for i, a in grph.edges[node1, node2].items():
-                                                        if a['key'] == edgeVal:
-                                                            grph[node1][node2][i]['weight'] += 1
-                                                            break
+                                                    grph.edges[node1, node2, edgeVal]['weight'] += 1
                                             else:
                                                 if edgeWeight:
                                                     attrDict = {'key' : edgeVal, 'weight' : 1}
@@ -1242,6 +1245,10 @@ class CollectionWithIDs(Collection):
                 if PBar:
                     count += 1
                     PBar.updateVal(count / len(self), "Analyzing: " + str(R))
+                if edgeAttribute is not None:
+                    edgeVals = R.get(edgeAttribute, [])
+                    if not isinstance(edgeVals, list):
+                        edgeVals = [edgeVals]
                 contents = []
                 for t in tags:
                     tmpVal = R.get(t)
@@ -1265,10 +1272,7 @@ class CollectionWithIDs(Collection):
                                     for edgeVal in edgeVals:
                                         if grph.has_edge(node1, node2, key = edgeVal):
                                             if edgeWeight:
-                                                for i, a in grph.edges[node1, node2].items():
-                                                    if a['key'] == edgeVal:
-                                                        grph[node1][node2][i]['weight'] += 1
-                                                        break
+                                                grph.edges[node1, node2, edgeVal]['weight'] += 1
                                         else:
                                             if edgeWeight:
                                                 attrDict = {'key' : edgeVal, 'weight' : 1}
-- 
2.43.0


From 8762802d07560595c23aa838af97a49672202b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 011/120] fix: do not share node attribute lists between the
 nodes of a record

---
 metaknowledge/mkCollection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index eb13d66..cf1567b 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -921,7 +921,7 @@ class CollectionWithIDs(Collection):
                                     try:
                                         currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.nodes[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = list(nodeVals)
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                             grph.nodes[node1][nodeAttribute].append(nodeValue)
@@ -938,7 +938,7 @@ class CollectionWithIDs(Collection):
                                 try:
                                     currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = list(nodeVals)
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                         grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
@@ -961,7 +961,7 @@ class CollectionWithIDs(Collection):
                             try:
                                 currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = list(nodeVals)
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                     grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
-- 
2.43.0


From 54024f95b624d6d2804a8bfe83651a7ee63523a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:22 +0000
Subject: [PATCH 012/120] fix: count co-authors and co-investigators once per
 record

---
 metaknowledge/grantCollection.py  | 10 ++--------
 metaknowledge/recordCollection.py | 13 ++-----------
 2 files changed, 4 insertions(+), 19 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 6927981..8ff49c1 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -193,7 +193,7 @@ class GrantCollection(CollectionWithIDs):
                 else:
                     investList = G.getInvestigators(tags = targetTags, seperator = tagSeperator, _getTag = True)
                 if len(investList) > 1:
-                    for i, invest1 in enumerate(investList):
+                    for invest1 in investList:
                         if invest1[0] not in grph:
                             if count:
                                 grph.add_node(invest1[0], count = 1, field = invest1[1])
@@ -201,14 +201,8 @@ class GrantCollection(CollectionWithIDs):
                                 grph.add_node(invest1[0], field = invest1[1])
                         elif count:
                             grph.nodes[invest1[0]]['count'] += 1
+                    for i, invest1 in enumerate(investList):
                         for invest2 in investList[i + 1:]:
-                            if invest2[0] not in grph:
-                                if count:
-                                    grph.add_node(invest2[0], count = 1, field = invest2[1])
-                                else:
-                                    grph.add_node(invest2[0], field = invest2[1])
-                            elif count:
-                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index c9c5eaa..3c5aefa 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1039,7 +1039,7 @@ class RecordCollection(CollectionWithIDs):
                     detailedInfo = attributeMaker(R)
                     if citeProfile:
                         citesLst = R.get('citations', [])
-                    for i, auth1 in enumerate(authsList):
+                    for auth1 in authsList:
                         if auth1 not in grph:
                             grph.add_node(auth1, **detailedInfo.copy())
                         elif count:
@@ -1050,17 +1050,8 @@ class RecordCollection(CollectionWithIDs):
                                     grph.nodes[auth1]['citeProfile'][c] += 1
                                 except KeyError:
                                     grph.nodes[auth1]['citeProfile'][c] = 1
+                    for i, auth1 in enumerate(authsList):
                         for auth2 in authsList[i + 1:]:
-                            if auth2 not in grph:
-                                grph.add_node(auth2, **detailedInfo.copy())
-                            elif count:
-                                grph.nodes[auth2]['count'] += 1
-                            if citeProfile:
-                                for c in citesLst:
-                                    try:
-                                        grph.nodes[auth2]['citeProfile'][c] += 1
-                                    except KeyError:
-                                        grph.nodes[auth2]['citeProfile'][c] = 1
                             if grph.has_edge(auth1, auth2) and weighted:
                                 grph.edges[auth1, auth2]['weight'] += 1
                             elif weighted:
-- 
2.43.0


From 85ca476f376a90dcbdb01f8189dbc44dbcbea84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:22 +0000
Subject: [PATCH 013/120] fix: do not report every CSV grant file as broken

---
 metaknowledge/grants/baseGrant.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c0c443d..c2e8470 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -119,13 +119,10 @@ def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
     'currentLineString' : '',
     }
     def readerWithSideEffects(target, datDict):
-        while True:
-            datDict['currentLineNum'], datDict['currentLineString'] = next(target)
+        for datDict['currentLineNum'], datDict['currentLineString'] in target:
             yield datDict['currentLineString']
     reader = csv.DictReader(readerWithSideEffects(enumeratedFile, currentData), *csvArgs, **csvKwargs)
-    readerIter = reader.__iter__()
-    while True:
-        row = next(readerIter)
+    for row in reader:
         yield currentData['currentLineNum'], currentData['currentLineString'], row
 
 class FallbackGrant(Grant):
-- 
2.43.0


From a23905da4bdf71e8f76c90492a8d8a8e3fc962e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:34 +0000
Subject: [PATCH 014/120] fix: do not share citation profiles between
 co-authors

---
 metaknowledge/recordCollection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 3c5aefa..ca49dc8 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1036,12 +1036,11 @@ class RecordCollection(CollectionWithIDs):
                     authsList = R.get('authorsFull', [])
                 if authsList:
                     authsList = list(authsList)
-                    detailedInfo = attributeMaker(R)
                     if citeProfile:
                         citesLst = R.get('citations', [])
                     for auth1 in authsList:
                         if auth1 not in grph:
-                            grph.add_node(auth1, **detailedInfo.copy())
+                            grph.add_node(auth1, **attributeMaker(R))
                         elif count:
                             grph.nodes[auth1]['count'] += 1
                         if citeProfile:
-- 
2.43.0


From 06fe23c56b71195ee306a243a9087250983825a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:34 +0000
Subject: [PATCH 015/120] fix: do not change the tags given to grant
 investigator look ups

---
 metaknowledge/grants/nsercGrant.py | 4 ++++
 metaknowledge/grants/nsfGrant.py   | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 75ff383..849f34a 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -38,6 +38,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'name-' in k.lower() and k not in tags:
                 tags.append(k)
@@ -56,6 +58,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'institution' in k.lower() and k not in tags:
                 tags.append(k)
diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index 0a4953e..fcd1399 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -33,7 +33,7 @@ class NSFGrant(Grant):
         elif isinstance(tags, str):
             tags = ['Investigator', tags]
         else:
-            tags.append('Investigator')
+            tags = list(tags) + ['Investigator']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
     def getInstitutions(self, tags = None, seperator = ";", _getTag = False):
@@ -50,7 +50,7 @@ class NSFGrant(Grant):
         elif isinstance(tags, str):
             tags = ['Institution', tags]
         else:
-            tags.append('Institution')
+            tags = list(tags) + ['Institution']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
 def isNSFfile(fileName, useFileName = True):
-- 
2.43.0


From e0e264d19c30b39e90aea5732e96c53fd4640955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 016/120] fix: unweighted and cite-to-record citation networks
 of every node type

---
 metaknowledge/recordCollection.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index ca49dc8..f144bf7 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1672,8 +1672,10 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                             grph.add_edge(hID, nID, weight=1, yearDiff=yearDiff)
                         else:
                             grph.add_edge(nID, hID, weight=1, yearDiff=yearDiff)
-                elif nID not in grph[hID]:
+                elif recordToCite:
                     addedEdges.append((hID, nID))
+                else:
+                    addedEdges.append((nID, hID))
 
             elif weighted:
                 try:
@@ -1685,9 +1687,11 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                     if recordToCite:
                         grph.add_edge(hID, nID, weight=1)
                     else:
-                        grph.add_edge(hID, nID, weight=1)
-            elif nID not in grph[hID]:
-                addedEdges.append((hID, nID, {yearDiff: yearDiff}))
+                        grph.add_edge(nID, hID, weight=1)
+            elif recordToCite:
+                addedEdges.append((hID, nID))
+            else:
+                addedEdges.append((nID, hID))
     elif len(idList) > 1:
         for i, outerID in enumerate(idList):
             for innerID in idList[i + 1:]:
-- 
2.43.0


From ee1e4acad17c46b732226938deb87ca105d8c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 017/120] fix: records without author, year and journal are not
 a co-citation

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index f144bf7..1afe4ce 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1651,7 +1651,7 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
         idList.append(nID)
 
     addedEdges = []
-    if hID:
+    if headNd is not None:
         for i in range(len(idList)):
             nID = idList[i]
             if nodeType == 'full' or nodeType == 'original':
-- 
2.43.0


From ba65e56645ae245c588ae7812b7da81cf886be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 018/120] fix: citation network counts do not depend on the
 order of the records

---
 metaknowledge/recordCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 1afe4ce..05463ef 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1630,6 +1630,8 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
         if hID not in grph:
             nodeName, nodeDat = makeNodeTuple(headNd, hID, nodeInfo, fullInfo, nodeType, count, coreCitesDict, coreValues, detailedValues, addCR)
             grph.add_node(nodeName, **nodeDat)
+        elif count:
+            grph.nodes[hID]['count'] += 1
     else:
         hID = None
     idList = []
-- 
2.43.0


From bf1950663920a293d94bee0fff055bbd0fdb517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 019/120] fix: leave out citations that lack the requested node
 type instead of failing

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 05463ef..16116d9 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1772,7 +1772,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
 def filterCites(cites, nodeType, dropAnon, dropNonJournals, keyWords, coreCites):
     filteredCites = []
     for c in cites:
-        if nodeType != "full" and hasattr(c, nodeType) and not getattr(c, nodeType):
+        if nodeType != "full" and not getattr(c, nodeType, None):
             pass
         elif dropNonJournals and not c.isJournal():
             pass
-- 
2.43.0


From e1eeddeaad32c337693e342d48a8f49a5fce0471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:48 +0000
Subject: [PATCH 020/120] fix: Extra() of Scopus citations

---
 metaknowledge/citation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 13557e8..1a9d8e1 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -253,7 +253,7 @@ class Citation(collections.abc.Hashable):
         extraTags = ['V', 'P', 'DOI', 'misc']
         retVal = ""
         for tag in extraTags:
-            if getattr(self, tag):
+            if getattr(self, tag, False):
                 retVal += getattr(self, tag) + ', '
         if len(retVal) > 2:
             return retVal[:-2]
-- 
2.43.0


From b0090cfed78fb4cc356310da805e470d7dc7359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:48 +0000
Subject: [PATCH 021/120] fix: keep the unrecognised part and the DOI of
 citations

---
 metaknowledge/citation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 1a9d8e1..ed461d5 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -58,7 +58,7 @@ class Citation(collections.abc.Hashable):
 
     > A str containing a WOS style citation.
     """
-    wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((.+?)(, DOI (.+))?))")
+    wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((.+?)(, DOI (.+))?$))", re.DOTALL)
 
     scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, ([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
 
@@ -119,7 +119,7 @@ class Citation(collections.abc.Hashable):
             self.P = regex.group(9)
             self.DOI = regex.group(11)
             if regex.group(12) is not None:
-                self.misc = regex.group(12)
+                self.misc = regex.group(13).lstrip(', ')
                 self.DOI = regex.group(15)
                 self.bad = True
                 self.error = BadCitation("The citation did not fully match the expected pattern")
-- 
2.43.0


From b2849ce56bb2c05dfbe606df9b2be0ecdcccd7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:48 +0000
Subject: [PATCH 022/120] fix: pages of Scopus citations without a volume

---
 metaknowledge/citation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index ed461d5..c0e2c70 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -60,7 +60,7 @@ class Citation(collections.abc.Hashable):
     """
     wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((.+?)(, DOI (.+))?$))", re.DOTALL)
 
-    scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, ([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
+    scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, (?!P?P\. )([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
 
 
     #(.*?, )?[^,(]*\((\d{2,5}\))[^,]*(, [^,(]*( \(\d+\))?)?(, (p?p\. .*))?")
-- 
2.43.0


From 47b9e15216100cdb167234b43595592c0e97bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 023/120] fix: Medline lines that are cut short

---
 metaknowledge/medline/recordMedline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index ca077af..3929c0f 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -107,8 +107,8 @@ def medlineRecordParser(record):
     mostRecentAuthor = None
     for lineNum, line in record:
         tmptag = line[:4].rstrip()
-        contents = line[6:-1]
-        if tmptag.isalpha() and line[4] == '-':
+        contents = line[6:].rstrip('\n')
+        if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
             if tag == 'AU':
                 mostRecentAuthor = contents
@@ -119,7 +119,7 @@ def medlineRecordParser(record):
             except KeyError:
                 tagDict[tag] = [contents]
         elif line[:6] == '      ':
-            tagDict[tag][-1] += '\n' + line[6:-1]
+            tagDict[tag][-1] += '\n' + contents
         elif line == '\n':
             break
         else:
-- 
2.43.0


From d8ae0f81b9b51a0cd030115cd747f0508430f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 024/120] fix: keep the actual error of malformed Medline,
 Scopus and ProQuest records

---
 metaknowledge/medline/recordMedline.py   | 7 ++++---
 metaknowledge/proquest/recordProQuest.py | 7 ++++---
 metaknowledge/scopus/recordScopus.py     | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 3929c0f..d46d80b 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -35,8 +35,8 @@ class MedlineRecord(ExtendedRecord):
             else:
                 raise RCTypeError("Unsupported input type '{}', PubmedRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadPubmedRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'PMID' in fieldDict:
@@ -44,7 +44,8 @@ class MedlineRecord(ExtendedRecord):
             else:
                 self._pubNum = None
                 bad = True
-                error = BadPubmedRecord("Missing PMID")
+                if error is None:
+                    error = BadPubmedRecord("Missing PMID")
         ExtendedRecord.__init__(self, fieldDict, self._pubNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/proquest/recordProQuest.py b/metaknowledge/proquest/recordProQuest.py
index e983fe3..adf31d0 100644
--- a/metaknowledge/proquest/recordProQuest.py
+++ b/metaknowledge/proquest/recordProQuest.py
@@ -36,15 +36,16 @@ class ProQuestRecord(ExtendedRecord):
             else:
                 raise TypeError("Unsupported input type '{}', ProQuestRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadProQuestRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         try:
             self._proID = "PROQUEST:{}".format(fieldDict["ProQuest document ID"][0])
         except KeyError:
             self._proID = "PROQUEST:MISSING"
             bad = True
-            error = BadProQuestRecord("Missing ProQuest document ID")
+            if error is None:
+                error = BadProQuestRecord("Missing ProQuest document ID")
         ExtendedRecord.__init__(self, fieldDict, self._proID, bad, error, sFile =sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index a349075..23d13db 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -72,8 +72,8 @@ class ScopusRecord(ExtendedRecord):
             else:
                 raise RCTypeError("Unsupported input type '{}', ScopusRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except (BadScopusRecord, IndexError) as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'EID' in fieldDict:
@@ -81,7 +81,8 @@ class ScopusRecord(ExtendedRecord):
             else:
                 self._scopusNum = None
                 bad = True
-                error = BadScopusRecord("Missing EID")
+                if error is None:
+                    error = BadScopusRecord("Missing EID")
         ExtendedRecord.__init__(self, fieldDict, self._scopusNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
-- 
2.43.0


From a8fd0a5196b8196e0a8b39d8a27053d0614b9c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 025/120] fix: write Medline affiliations that come before the
 first author

---
 metaknowledge/medline/recordMedline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index d46d80b..c9f34a8 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -80,7 +80,10 @@ class MedlineRecord(ExtendedRecord):
                         authTags[split[0]] = ["{0}{1}- {2}\n".format(tag, ' ' * (4 - len(tag)),' : '.join(split[1:]).replace('\n', '\n      '))]
             for tag, value in self._fieldDict.items():
                 if tag in authorBasedTags:
-                    continue
+                    #Those given before the first author, the rest are written with their author
+                    for v in value:
+                        if v.startswith('None : '):
+                            f.write("{0}{1}- {2}\n".format(tag, ' ' * (4 - len(tag)), v[7:].replace('\n', '\n      ')))
                 else:
                     for v in value:
                         f.write("{0}{1}- {2}\n".format(tag, ' ' * (4 - len(tag)), v.replace('\n', '\n      ')))
-- 
2.43.0


From e4172c68b4173aeb14a7e9ac6bfb7f691e2e76f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 026/120] fix: do not silently merge Medline records whose
 separator is missing

---
 metaknowledge/medline/recordMedline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index c9f34a8..20fa33f 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -114,6 +114,8 @@ def medlineRecordParser(record):
         contents = line[6:].rstrip('\n')
         if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
+            if tag == 'PMID' and tag in tagDict:
+                raise BadPubmedRecord("A second PMID was found in the record on line {}, the line separating it from the next record is missing: '{}'".format(lineNum, line))
             if tag == 'AU':
                 mostRecentAuthor = contents
             if tag in authorBasedTags:
-- 
2.43.0


From efddc2eb04c08cd5362dc1292baa26645af00d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:49 +0000
Subject: [PATCH 027/120] fix: flag Medline records whose PMID is empty

---
 metaknowledge/medline/recordMedline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 20fa33f..4489f23 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -39,7 +39,7 @@ class MedlineRecord(ExtendedRecord):
             error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
-            if 'PMID' in fieldDict:
+            if 'PMID' in fieldDict and fieldDict['PMID'][0]:
                 self._pubNum = "PMID:{}".format(fieldDict['PMID'][0])
             else:
                 self._pubNum = None
-- 
2.43.0


From f2b50428693a7e7a508e9ea496d337f6aaaacaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 028/120] fix: unknown tags of Medline and Scopus records can
 be read

---
 metaknowledge/medline/recordMedline.py | 3 ++-
 metaknowledge/scopus/recordScopus.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 4489f23..afc154d 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -57,7 +57,8 @@ class MedlineRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return medlineTagToFunc[tag]
+        #Tags not known to metaknowledge are given as they are
+        return medlineTagToFunc.get(tag, lambda x: x)
 
     def specialFuncs(self, key):
         #This will usually raise a key error that needs to be caught higher up
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 23d13db..2cd7b4b 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -94,7 +94,8 @@ class ScopusRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return scopusTagToFunction[tag]
+        #Columns not known to metaknowledge are given as they are
+        return scopusTagToFunction.get(tag, lambda x: x)
 
     def specialFuncs(self, key):
         return scopusSpecialTagToFunc[key](self)
-- 
2.43.0


From f9de841a077e95833ce50e8dd8026fcc17e8d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:34 +0000
Subject: [PATCH 029/120] fix: quoted empty Scopus columns are not a value

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 2cd7b4b..0dce391 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -192,7 +192,7 @@ def scopusRecordParser(record, header = None):
     quoted = False
     for key in reversed(header):
         currentVal = splitRecord.pop()
-        if currentVal == '':
+        if currentVal == '' or currentVal == '""':
             pass
         elif currentVal[-1] == '"':
             if re.match(firstQuotingRegex, currentVal) is None:
-- 
2.43.0


From 98bb828935c84be53bded0ae4bcfebc5758ebe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:34 +0000
Subject: [PATCH 030/120] fix: Scopus files with reordered columns or without a
 final newline

---
 metaknowledge/scopus/recordScopus.py   | 2 +-
 metaknowledge/scopus/scopusHandlers.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 0dce391..b1768a0 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -187,7 +187,7 @@ def scopusRecordParser(record, header = None):
     """
     if header is None:
         header = scopusHeader
-    splitRecord = record[:-1].split(',')
+    splitRecord = record.rstrip('\n').split(',')
     tagDict = {}
     quoted = False
     for key in reversed(header):
diff --git a/metaknowledge/scopus/scopusHandlers.py b/metaknowledge/scopus/scopusHandlers.py
index 6cc1077..5ac7664 100644
--- a/metaknowledge/scopus/scopusHandlers.py
+++ b/metaknowledge/scopus/scopusHandlers.py
@@ -36,7 +36,7 @@ def isScopusFile(infile, checkedLines = 2, maxHeaderDiff = 3):
             if openfile.read(1) != "\ufeff":
                 return False
             for i in range(checkedLines):
-                if len(set(openfile.readline()[:-1].split(',')) ^ set(scopusHeader)) < maxHeaderDiff:
+                if len(set(openfile.readline().rstrip('\n').split(',')) ^ set(scopusHeader)) < maxHeaderDiff:
                     return True
     except (StopIteration, UnicodeDecodeError):
         return False
@@ -68,8 +68,8 @@ def scopusParser(scopusFile):
         with open(scopusFile, 'r', encoding = 'utf-8') as openfile:
             #Get rid of the BOM
             openfile.read(1)
-            header = openfile.readline()[:-1].split(',')
-            if len(set(header) ^ set(scopusHeader)) == 0:
+            header = openfile.readline().rstrip('\n').split(',')
+            if header == scopusHeader:
                 header = None
             lineNum = 0
             try:
-- 
2.43.0


From 2373d6b74448409eadb09a65e3f19898ff2d5270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:35 +0000
Subject: [PATCH 031/120] fix: Scopus rows with leading commas, special
 characters or broken quoting

---
 metaknowledge/scopus/recordScopus.py | 52 +++++++++-------------------
 1 file changed, 16 insertions(+), 36 deletions(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index b1768a0..169c553 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -165,8 +165,8 @@ class ScopusRecord(ExtendedRecord):
                 ret.journal = self.get("journal", '').upper()
             return ret
 
-firstQuotingRegex = re.compile(r'("")*"([^"]|"$)')
-innerQuotingRegex = re.compile(r'("")*"([^"|$])')
+#A column is either quoted, with the quotes inside of it doubled, or does not contain any quotes
+columnRegex = re.compile(r'"((?:[^"]|"")*)"|([^",]*)')
 
 def scopusRecordParser(record, header = None):
     """The parser [ScopusRecords](../classes/ScopusRecord.html#metaknowledge.scopus.ScopusRecord) use. This takes a line from [scopusParser()](#metaknowledge.scopus.scopusHandlers.scopusParser) and parses it as a part of the creation of a `ScopusRecord`.
@@ -187,37 +187,17 @@ def scopusRecordParser(record, header = None):
     """
     if header is None:
         header = scopusHeader
-    splitRecord = record.rstrip('\n').split(',')
-    tagDict = {}
-    quoted = False
-    for key in reversed(header):
-        currentVal = splitRecord.pop()
-        if currentVal == '' or currentVal == '""':
-            pass
-        elif currentVal[-1] == '"':
-            if re.match(firstQuotingRegex, currentVal) is None:
-                valString = ',' + currentVal[:-1]
-                currentVal = splitRecord.pop()
-                #double quotes (") are escaped by proceeding them with another double quote
-                #So an entry containing:
-
-                #',"stuff,""quoted"",more stuff,""more quoted""",'
-
-                #would be a single string belonging to 1 column that looks like:
-
-                #'stuff,"quoted",more stuff,"more quoted"'
-
-                #We are not going to unescape the quotation marks but we do have to deal with them
-                while re.match(innerQuotingRegex, currentVal) is None:
-                    valString = ',' + currentVal + valString
-                    currentVal = splitRecord.pop()
-                valString = currentVal[1:] + valString
-            else:
-                try:
-                    valString = currentVal[1:-1]
-                except ValueError:
-                    valString = currentVal[1:-1]
-            tagDict[key] = valString
-        else:
-            tagDict[key] = currentVal
-    return tagDict
+    line = record.rstrip('\n')
+    values = []
+    pos = 0
+    while pos <= len(line):
+        column = columnRegex.match(line, pos)
+        if column.end() < len(line) and line[column.end()] != ',':
+            raise BadScopusRecord("The quoting of the record is broken at character {}".format(column.end()))
+        #double quotes (") are escaped by proceeding them with another double quote
+        #We are not going to unescape the quotation marks
+        values.append(column.group(1) or column.group(2))
+        pos = column.end() + 1
+    if len(values) != len(header):
+        raise BadScopusRecord("The record has {} columns instead of {}".format(len(values), len(header)))
+    return {key : val for key, val in zip(header, values) if val}
-- 
2.43.0


From 765be8648ef5da831b76a649f8ce72af9aebe088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:35 +0000
Subject: [PATCH 032/120] fix: separate the author from the title in Scopus
 multi author citations

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 169c553..ff352be 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -144,7 +144,7 @@ class ScopusRecord(ExtendedRecord):
         if self.get("beginningPage", False):
             valsStr += 'PP. ' + str(self.get('beginningPage'))
         if multiCite and len(auths) > 0:
-            ret = (tuple((Citation(a + valsStr, scopusMode = True) for a in auths)))
+            ret = (tuple((Citation(a + ', ' + valsStr, scopusMode = True) for a in auths)))
         elif multiCite:
             ret = Citation(valsStr, scopusMode = True),
         else:
-- 
2.43.0


From 7da50a0379b50b562f406f10e1dee39ab8de2a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 033/120] fix: authors of ProQuest records

---
 metaknowledge/proquest/tagProcessing/specialFunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/proquest/tagProcessing/specialFunctions.py b/metaknowledge/proquest/tagProcessing/specialFunctions.py
index b694d22..84f90b9 100644
--- a/metaknowledge/proquest/tagProcessing/specialFunctions.py
+++ b/metaknowledge/proquest/tagProcessing/specialFunctions.py
@@ -1,6 +1,6 @@
 proQuestSpecialTagToFunc = {
     #'DOI' : lambda R : None,
-    'authorsShort' : lambda R : R['Author'],
+    'authorsShort' : lambda R : [R['Author']],
     #'grants' : lambda R : [],
     #'address' : '',
     'selfCitation' : lambda R: R.createCitation(),
@@ -8,7 +8,7 @@ proQuestSpecialTagToFunc = {
     'keywords' : lambda R : R['Identifier / keyword'],
     'abstract' : lambda R : R['Abstract'],
     #'citations' : '',
-    'authorsFull' : lambda R : 'Author',
+    'authorsFull' : lambda R : [R['Author']],
     #'volume' : '',
     'year' : lambda R : R['Degree date'],
     #'j9' : '',
-- 
2.43.0


From 6ef3f0d074a050838f0ceffa5f803ac03c1f45f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 034/120] fix: the year of ProQuest records is a number like
 that of all other records

---
 metaknowledge/proquest/tagProcessing/specialFunctions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/proquest/tagProcessing/specialFunctions.py b/metaknowledge/proquest/tagProcessing/specialFunctions.py
index 84f90b9..78d7eb3 100644
--- a/metaknowledge/proquest/tagProcessing/specialFunctions.py
+++ b/metaknowledge/proquest/tagProcessing/specialFunctions.py
@@ -1,3 +1,9 @@
+def year(R):
+    try:
+        return int(R['Degree date'])
+    except ValueError:
+        raise KeyError("Unable to extract a year")
+
 proQuestSpecialTagToFunc = {
     #'DOI' : lambda R : None,
     'authorsShort' : lambda R : [R['Author']],
@@ -10,7 +16,7 @@ proQuestSpecialTagToFunc = {
     #'citations' : '',
     'authorsFull' : lambda R : [R['Author']],
     #'volume' : '',
-    'year' : lambda R : R['Degree date'],
+    'year' : year,
     #'j9' : '',
     #'journal' : '',
     'title' : lambda R : R['Title'],
-- 
2.43.0


From 46084d8873a4cca3570c2e582ca3e8d77f05d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 035/120] fix: links and colons in the multi line fields of
 ProQuest records

---
 metaknowledge/proquest/recordProQuest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/proquest/recordProQuest.py b/metaknowledge/proquest/recordProQuest.py
index adf31d0..2efb992 100644
--- a/metaknowledge/proquest/recordProQuest.py
+++ b/metaknowledge/proquest/recordProQuest.py
@@ -98,7 +98,7 @@ def proQuestRecordParser(enRecordFile, recNum):
         elif currentEntry is 'Name' or currentEntry is 'url':
             tagDict[currentEntry] = [line.rstrip()]
             currentEntry = None
-        elif ':' in line and not line.startswith('http://'):
+        elif ': ' in line and not line.startswith(('http://', 'https://')):
             splitLine = line.split(': ')
             currentEntry = splitLine[0]
             tagDict[currentEntry] = [': '.join(splitLine[1:]).rstrip()]
-- 
2.43.0


From 14e63257071aa069e697c5c6765fe0bc2cfada2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 036/120] fix: damaged ProQuest files raised KeyError

---
 metaknowledge/proquest/proQuestHandlers.py | 4 ++--
 metaknowledge/proquest/recordProQuest.py   | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/proquest/proQuestHandlers.py b/metaknowledge/proquest/proQuestHandlers.py
index b32a70c..111911e 100644
--- a/metaknowledge/proquest/proQuestHandlers.py
+++ b/metaknowledge/proquest/proQuestHandlers.py
@@ -76,7 +76,7 @@ def proQuestParser(proFile):
                     break
                 else:
                     s = line.split('. ')
-                    nameDict[int(s[0])] = '. '.join(s[1:])[:-1]
+                    nameDict[int(s[0])] = '. '.join(s[1:]).rstrip()
             while True:
                 #import pdb; pdb.set_trace()
                 lineNum, line = next(f)
@@ -94,7 +94,7 @@ def proQuestParser(proFile):
                     #Parsing failed
                     error = BadProQuestFile("The file '{}' has parts of it that are unparsable starting at line: {}. It is likely that the seperators between the records are incorrect".format(proFile, lineNum))
                     raise StopIteration
-    except (UnicodeDecodeError, StopIteration, ValueError) as e:
+    except (UnicodeDecodeError, StopIteration, ValueError, KeyError) as e:
         if error is None:
             error = BadProQuestFile("The file '{}' has parts of it that are unparsable starting at line: {}.\nThe error was: '{}'".format(proFile, lineNum, e))
     return recSet, error
diff --git a/metaknowledge/proquest/recordProQuest.py b/metaknowledge/proquest/recordProQuest.py
index 2efb992..541383c 100644
--- a/metaknowledge/proquest/recordProQuest.py
+++ b/metaknowledge/proquest/recordProQuest.py
@@ -104,6 +104,8 @@ def proQuestRecordParser(enRecordFile, recNum):
             tagDict[currentEntry] = [': '.join(splitLine[1:]).rstrip()]
             if currentEntry == 'Author':
                 currentEntry = 'url'
+        elif currentEntry is None:
+            raise BadProQuestRecord("Line {} does not belong to any field: '{}'".format(lineNum, line))
         else:
             tagDict[currentEntry].append(line.rstrip())
     return tagDict
-- 
2.43.0


From cbc72ae8f4914ecea6295e75baeaf99a5e48207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 037/120] fix: undecodable bytes in a WOS file only affect the
 record they are in

---
 metaknowledge/WOS/recordWOS.py   | 4 ++++
 metaknowledge/WOS/wosHandlers.py | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index bddbebe..d4732c6 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -172,6 +172,10 @@ def recordParser(paper):
     doneReading = False
     l = (0, '')
     for l in paper:
+        try:
+            l[1].encode('utf-8')
+        except UnicodeEncodeError:
+            raise BadWOSFile("There is a unicode issue on line {} : {!a}".format(l[0], l[1]))
         if len(l[1]) < 3:
             #Line too short
             raise BadWOSRecord("Missing field on line {} : {}".format(l[0], l[1]))
diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 8d3c65d..74486c7 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -23,7 +23,7 @@ def isWOSFile(infile, checkedLines = 3):
     > `True` if the file is a WOS file
     """
     try:
-        with open(infile, 'r', encoding='utf-8-sig') as openfile:
+        with open(infile, 'r', encoding='utf-8-sig', errors='surrogateescape') as openfile:
             f = enumerate(openfile, start = 0)
             for i in range(checkedLines):
                 if "VR 1.0" in f.__next__()[1]:
@@ -55,7 +55,8 @@ def wosParser(isifile):
     plst = set()
     error = None
     try:
-        with open(isifile, 'r', encoding='utf-8-sig') as openfile:
+        #Undecodable bytes are dealt with by the record they are in, otherwise everything around them would be lost
+        with open(isifile, 'r', encoding='utf-8-sig', errors='surrogateescape') as openfile:
             f = enumerate(openfile, start = 0)
             while "VR 1.0" not in f.__next__()[1]:
                 pass
-- 
2.43.0


From 594e1f9ae616d11c4cc49ce6cfa590623639770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 038/120] fix: undecodable bytes in Scopus and ProQuest files
 only affect the record they are in

---
 metaknowledge/proquest/proQuestHandlers.py | 5 +++--
 metaknowledge/proquest/recordProQuest.py   | 4 ++++
 metaknowledge/scopus/recordScopus.py       | 4 ++++
 metaknowledge/scopus/scopusHandlers.py     | 5 +++--
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/proquest/proQuestHandlers.py b/metaknowledge/proquest/proQuestHandlers.py
index 111911e..68aaf44 100644
--- a/metaknowledge/proquest/proQuestHandlers.py
+++ b/metaknowledge/proquest/proQuestHandlers.py
@@ -26,7 +26,7 @@ def isProQuestFile(infile, checkedLines = 2):
     > `True` if the file is a valid ProQuest file
     """
     try:
-        with open(infile, 'r', encoding='utf-8') as openfile:
+        with open(infile, 'r', encoding='utf-8', errors='surrogateescape') as openfile:
             f = enumerate(openfile, start = 0)
             for i in range(checkedLines):
                 #This seems like enough checking
@@ -62,7 +62,8 @@ def proQuestParser(proFile):
     error = None
     lineNum = 0
     try:
-        with open(proFile, 'r', encoding = 'utf-8') as openfile:
+        #Undecodable bytes are dealt with by the record they are in, otherwise everything around them would be lost
+        with open(proFile, 'r', encoding = 'utf-8', errors = 'surrogateescape') as openfile:
             f = enumerate(openfile, start = 1)
             for i in range(12):
                 lineNum, line = next(f)
diff --git a/metaknowledge/proquest/recordProQuest.py b/metaknowledge/proquest/recordProQuest.py
index 541383c..7a90c49 100644
--- a/metaknowledge/proquest/recordProQuest.py
+++ b/metaknowledge/proquest/recordProQuest.py
@@ -91,6 +91,10 @@ def proQuestRecordParser(enRecordFile, recNum):
     currentEntry = 'Name'
     while True:
         lineNum, line = next(enRecordFile)
+        try:
+            line.encode('utf-8')
+        except UnicodeEncodeError:
+            raise BadProQuestRecord("There is a unicode issue on line {} : {!a}".format(lineNum, line))
         if line == '_' * 60 + '\n':
             break
         elif line == '\n':
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index ff352be..b5f1705 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -188,6 +188,10 @@ def scopusRecordParser(record, header = None):
     if header is None:
         header = scopusHeader
     line = record.rstrip('\n')
+    try:
+        line.encode('utf-8')
+    except UnicodeEncodeError:
+        raise BadScopusRecord("The record has a unicode issue")
     values = []
     pos = 0
     while pos <= len(line):
diff --git a/metaknowledge/scopus/scopusHandlers.py b/metaknowledge/scopus/scopusHandlers.py
index 5ac7664..ae7cb26 100644
--- a/metaknowledge/scopus/scopusHandlers.py
+++ b/metaknowledge/scopus/scopusHandlers.py
@@ -32,7 +32,7 @@ def isScopusFile(infile, checkedLines = 2, maxHeaderDiff = 3):
     > `True` if the file is a Scopus csv file
     """
     try:
-        with open(infile, 'r', encoding='utf-8') as openfile:
+        with open(infile, 'r', encoding='utf-8', errors='surrogateescape') as openfile:
             if openfile.read(1) != "\ufeff":
                 return False
             for i in range(checkedLines):
@@ -65,7 +65,8 @@ def scopusParser(scopusFile):
     error = None
     lineNum = 0
     try:
-        with open(scopusFile, 'r', encoding = 'utf-8') as openfile:
+        #Undecodable bytes are dealt with by the record they are in, otherwise everything around them would be lost
+        with open(scopusFile, 'r', encoding = 'utf-8', errors = 'surrogateescape') as openfile:
             #Get rid of the BOM
             openfile.read(1)
             header = openfile.readline().rstrip('\n').split(',')
-- 
2.43.0


From 0556dfe204ee857ca651892d3b85210093b1c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:26 +0000
Subject: [PATCH 039/120] fix: edge lists without attributes and the
 allSameAttribute option of the graph writers

---
 metaknowledge/graphHelpers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 9db19bb..ae92e79 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -213,7 +213,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
         if extraInfo:
             csvHeader = []
             if allSameAttribute:
-                csvHeader = ['Source'] +  ['Target'] + list(grph.edges(data = True).__next__()[2].keys())
+                csvHeader = ['Source'] +  ['Target'] + list(next(iter(grph.edges(data = True)))[2].keys())
             else:
                 extraAttribs = set()
                 for eTuple in grph.edges(data = True):
@@ -238,6 +238,8 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                 if count % 1000 == 0:
                     PBar.updateVal(count / eMax * .90 + .10, "Writing edge: '{}' to '{}'".format(e[0], e[1]))
                 eDict = e[2].copy()
+                if allSameAttribute and len(eDict) != len(csvHeader) - 2:
+                    raise ValueError("Some edges in The graph do not have the same attributes")
                 eDict['Source'] = e[0]
                 eDict['Target'] = e[1]
                 try:
@@ -253,8 +255,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                 count += 1
                 if count % 1000 == 0:
                     PBar.updateVal(count / eMax * .90 + .10, "Writing edge: '{}' to '{}'".format(e[0], e[1]))
-                eDict['Source'] = e[0]
-                eDict['Target'] = e[1]
+                eDict = {'Source' : e[0], 'Target' : e[1]}
                 try:
                     outFile.writerow(eDict)
                 except UnicodeEncodeError:
@@ -305,7 +306,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
     else:
         csvHeader = []
         if allSameAttribute:
-            csvHeader = ['ID'] + list(grph.nodes(data = True).__next__()[1].keys())
+            csvHeader = ['ID'] + list(next(iter(grph.nodes(data = True)))[1].keys())
         else:
             extraAttribs = set()
             for n, attribs in grph.nodes(data = True):
@@ -327,6 +328,8 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
             if count % 100 == 0:
                 PBar.updateVal(count / nMax * .90 + .10, "Writing node: '{}'".format(n[0]))
             nDict = n[1].copy()
+            if allSameAttribute and len(nDict) != len(csvHeader) - 1:
+                raise ValueError("Some nodes in the graph do not have the same attributes")
             nDict['ID'] = n[0]
             try:
                 outFile.writerow(nDict)
-- 
2.43.0


From c4a968a3aa30f62a05fd079d8a477af5641b0286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:26 +0000
Subject: [PATCH 040/120] fix: keep carriage returns inside values when reading
 graphs

---
 metaknowledge/graphHelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index ae92e79..ff6ef76 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -65,7 +65,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
             grph = nx.Graph()
         if nodeList:
             PBar.updateVal(0, "Reading " + nodeList)
-            f = open(os.path.expanduser(os.path.abspath(nodeList)))
+            f = open(os.path.expanduser(os.path.abspath(nodeList)), newline = '')
             nFile = csv.DictReader(f)
             for line in nFile:
                 vals = line
@@ -77,7 +77,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
                     grph.add_node(ndID)
             f.close()
         PBar.updateVal(.25, "Reading " + edgeList)
-        f = open(os.path.expanduser(os.path.abspath(edgeList)))
+        f = open(os.path.expanduser(os.path.abspath(edgeList)), newline = '')
         eFile = csv.DictReader(f)
         for line in eFile:
             vals = line
-- 
2.43.0


From 95e582f84af3d7ce4483caa73e5bbde6fd4e5bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:26 +0000
Subject: [PATCH 041/120] fix: writeGraph names that are empty or a directory

---
 metaknowledge/graphHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index ff6ef76..5c533b9 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -147,7 +147,7 @@ def writeGraph(grph, name, edgeInfo = True, typing = False, suffix = 'csv', over
                 grphType = "_undirected"
         else:
             grphType = ''
-        nameCompts = os.path.split(os.path.expanduser(os.path.normpath(name)))
+        nameCompts = os.path.split(os.path.expanduser(name))
         if nameCompts[0] == '' and nameCompts[1] == '':
             edgeListName = "edgeList"+ grphType + '.' + suffix
             nodesAtrName = "nodeAttributes"+ grphType + '.' + suffix
-- 
2.43.0


From 6272df6dfd3d10de9c975f45ca2d0c87d706dd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:26 +0000
Subject: [PATCH 042/120] fix: write the requested time attribute to tnet files

---
 metaknowledge/graphHelpers.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 5c533b9..55c78d7 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -420,13 +420,10 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
             raise RCValueError("Too few modes of '{}' found in the network. There must be exactly 2 modes.".format(modeNameString))
         with open(name, 'w', encoding = 'utf-8') as f:
             edgesCaller = {'data' : True}
-            if timeString is not None:
+            if timeString is not None and grph.is_multigraph():
                 edgesCaller['keys'] = True
             for *nodes, eDict in grph.edges(**edgesCaller):
-                if timeString is not None:
-                    n1, n2, keyVal = nodes
-                else:
-                    n1, n2 = nodes
+                n1, n2 = nodes[:2]
                 count += 1
                 if count % 1000 == 1:
                     PBar.updateVal(count/ eMax * .9 + .1, "writing edge: '{}'-'{}'".format(n1, n2))
@@ -438,7 +435,11 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
                 else:
                     raise RCValueError("The nodes '{}' and '{}' have an edge and the same type. The network must be purely 2-mode.".format(n1, n2))
                 if timeString is not None:
-                    eTimeString = '"{}" '.format(keyVal)
+                    #The times of multigraphs made by metaknowledge are the keys of the edges
+                    if timeString not in eDict and grph.is_multigraph():
+                        eTimeString = '"{}" '.format(nodes[2])
+                    else:
+                        eTimeString = '"{}" '.format(eDict[timeString])
                 else:
                     eTimeString = ''
                 if weighted:
-- 
2.43.0


From 41620149a3663e22069034f7e21c7dd5d120c342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:26 +0000
Subject: [PATCH 043/120] fix: drop the right one of parallel edges

---
 metaknowledge/graphHelpers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 55c78d7..a4d5de5 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -546,9 +546,13 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
                 grph.remove_edge(e[0], e[1])
         edgesToDrop = []
         if minWeight != - float('inf') or maxWeight != float('inf'):
-            for e in grph.edges(data = True):
+            if grph.is_multigraph():
+                edges = grph.edges(keys = True, data = True)
+            else:
+                edges = grph.edges(data = True)
+            for e in edges:
                 try:
-                    val = e[2][parameterName]
+                    val = e[-1][parameterName]
                 except KeyError:
                     if not ignoreUnweighted:
                         raise KeyError("One or more Edges do not have weight or " + str(parameterName), " is not the name of the weight")
@@ -560,7 +564,7 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
                     if count % 100000 == 0:
                         PBar.updateVal(count/ total, str(count) + " edges analysed and " + str(total -len(grph.edges())) + " edges dropped")
                     if val > maxWeight or  val < minWeight:
-                        edgesToDrop.append((e[0], e[1]))
+                        edgesToDrop.append(e[:-1])
         grph.remove_edges_from(edgesToDrop)
         PBar.finish(str(total - len(grph.edges())) + " edges out of " + str(total) + " dropped, " + str(len(grph.edges())) + " returned")
 
-- 
2.43.0


From a04391d0a1857ced28fecfb8b0c6e34f8c1c459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 044/120] fix: the degree of nodes of directed graphs includes
 incoming edges

---
 metaknowledge/graphHelpers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index a4d5de5..856329f 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -616,8 +616,12 @@ def dropNodesByDegree(grph, minDegree = -float('inf'), maxDegree = float('inf'),
                 if count % 10000 == 0:
                     PBar.updateVal(count/ total, str(count) + " nodes analysed and " + str(len(badNodes)) + " nodes dropped")
             val = 0
+            edges = list(grph.edges(n, data = True))
+            if grph.is_directed():
+                #edges() only gives the outgoing edges
+                edges += [e for e in grph.in_edges(n, data = True) if e[0] != n]
             if useWeight:
-                for e in grph.edges(n, data = True):
+                for e in edges:
                     try:
                         val += e[2][parameterName]
                     except KeyError:
@@ -626,7 +630,7 @@ def dropNodesByDegree(grph, minDegree = -float('inf'), maxDegree = float('inf'),
                         else:
                             val += 1
             else:
-                val = len(grph.edges(n))
+                val = len(edges)
             if val < minDegree or val > maxDegree:
                 badNodes.append(n)
         if PBar:
-- 
2.43.0


From ac9bcf285524ac5d79f1e032f62f06111985fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 045/120] fix: merging graphs gives the target precedence and
 can be done without counts

---
 metaknowledge/graphHelpers.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 856329f..9e8787e 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -725,23 +725,21 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
     """
 
     for addedNode, attribs in addedGraph.nodes(data = True):
-        if incrementedNodeVal:
-            try:
-                targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
-            except KeyError:
-                targetGraph.add_node(addedNode, **attribs)
-        else:
-            if not targetGraph.has_node(addedNode):
-                targetGraph.add_node(addedNode, **attribs)
-    for edgeNode1, edgeNode2, attribs in addedGraph.edges(data = True):
-        if incrementedEdgeVal:
-            try:
-                targetGraph.edges[edgeNode1, edgeNode2][incrementedEdgeVal] += attribs[incrementedEdgeVal]
-            except KeyError:
-                targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
-        else:
-            if not targetGraph.Graph.has_edge(edgeNode1, edgeNode2):
-                targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
+        if not targetGraph.has_node(addedNode):
+            targetGraph.add_node(addedNode, **attribs)
+        elif incrementedNodeVal and incrementedNodeVal in attribs:
+            targetAttribs = targetGraph.nodes[addedNode]
+            targetAttribs[incrementedNodeVal] = targetAttribs.get(incrementedNodeVal, 0) + attribs[incrementedNodeVal]
+    if addedGraph.is_multigraph():
+        addedEdges = addedGraph.edges(keys = True, data = True)
+    else:
+        addedEdges = addedGraph.edges(data = True)
+    for *edge, attribs in addedEdges:
+        if not targetGraph.has_edge(*edge):
+            targetGraph.add_edge(*edge, **attribs)
+        elif incrementedEdgeVal and incrementedEdgeVal in attribs:
+            targetAttribs = targetGraph.edges[tuple(edge)]
+            targetAttribs[incrementedEdgeVal] = targetAttribs.get(incrementedEdgeVal, 0) + attribs[incrementedEdgeVal]
 
 def graphStats(G, stats = ('nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity'), makeString = True, sentenceString = False):
     """Returns a string or list containing statistics about the graph _G_.
-- 
2.43.0


From 8e7eded110c498db4eb17f3c078e70b998d8449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 046/120] fix: report ProQuest files that contain fewer records
 than they list

---
 metaknowledge/proquest/proQuestHandlers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metaknowledge/proquest/proQuestHandlers.py b/metaknowledge/proquest/proQuestHandlers.py
index 68aaf44..a1cc700 100644
--- a/metaknowledge/proquest/proQuestHandlers.py
+++ b/metaknowledge/proquest/proQuestHandlers.py
@@ -58,6 +58,7 @@ def proQuestParser(proFile):
     """
     #assumes the file is ProQuest
     nameDict = {}
+    readNums = set()
     recSet = set()
     error = None
     lineNum = 0
@@ -82,9 +83,12 @@ def proQuestParser(proFile):
                 #import pdb; pdb.set_trace()
                 lineNum, line = next(f)
                 if line == 'Bibliography\n':
+                    if len(readNums) != len(nameDict):
+                        error = BadProQuestFile("The file '{}' lists {} records but only contains {}.".format(proFile, len(nameDict), len(readNums)))
                     break
                 elif line.startswith('Document '):
                     n = int(line[9:].split(' of ')[0])
+                    readNums.add(n)
                     R = ProQuestRecord(f, sFile = proFile, sLine = lineNum)
                     if R.get('Title') != nameDict[n]:
                         error = BadProQuestFile("The numbering of the titles at the beginning of the file does not match the records inside. Line {} has a record titled '{}' with number {}, the name should be '{}'.".format(lineNum, R.get('Title', "TITLE MISSING"), n, nameDict[n]))
-- 
2.43.0


From b2108c04332aeccce81122a49a4f736a6202abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:20 +0000
Subject: [PATCH 047/120] fix: labelled edges of diffusion graphs

---
 metaknowledge/diffusion.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index b9ce40a..c5a36ba 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -114,16 +114,14 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                                     for edgeVal in (str(ev) for ev in edgeVals):
                                         if weighted:
                                             if workingGraph.has_edge(sVal, val, key = edgeVal):
-                                                for i, a in workingGraph[sVal][val].items():
-                                                    if a['key'] == edgeVal:
-                                                        workingGraph[sVal][val][i]['weight'] += 1
-                                                        break
+                                                workingGraph[sVal][val][edgeVal]['weight'] += 1
                                             else:
-                                                attrDict = {'key' : edgeVal, 'weight' : 1}
-                                                workingGraph.add_edge(sVal, val, attr_dict = attrDict)
+                                                workingGraph.add_edge(sVal, val, key = edgeVal, weight = 1)
+                                                workingGraph[sVal][val][edgeVal]['key'] = edgeVal
                                         else:
                                             if not workingGraph.has_edge(sVal, val, key = edgeVal):
                                                 workingGraph.add_edge(sVal, val, key = edgeVal)
+                                                workingGraph[sVal][val][edgeVal]['key'] = edgeVal
                                 else:
                                     if weighted:
                                         try:
-- 
2.43.0


From e19f739f605a4aaa53b1c2e4dff458eb150ece8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:20 +0000
Subject: [PATCH 048/120] fix: diffusion graphs of records that are not from
 WOS

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index c5a36ba..717b6c7 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -106,7 +106,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                         workingGraph.add_node(val, source = False, target = True, **RtExtras)
                     else:
                         workingGraph.nodes[val]["target"] = True
-                    targetCites = Rt.get('CR')
+                    targetCites = Rt.get('citations')
                     if targetCites:
                         for Rs in (sourceDict[c] for c in targetCites if c in sourceDict):
                             for sVal in Rs:
-- 
2.43.0


From f2bc14f9d945082dddfb6f11816311df7a764654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:21 +0000
Subject: [PATCH 049/120] fix: sources with the same citation replaced each
 other in diffusions

---
 metaknowledge/diffusion.py | 49 +++++++++++++-------------------------
 1 file changed, 17 insertions(+), 32 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 717b6c7..cd3ae83 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -81,7 +81,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                 PBar.updateVal(count / maxCount * .25, "Analyzing source: " + str(Rs))
             RsVal, RsExtras = makeNodeID(Rs, sourceType)
             if RsVal:
-                sourceDict[Rs.createCitation()] = RsVal
+                sourceDict.setdefault(Rs.createCitation(), {}).update(dict.fromkeys(RsVal))
                 for val in RsVal:
                     if val not in workingGraph:
                         workingGraph.add_node(val, source = True, target = False, **RsExtras)
@@ -201,32 +201,28 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
         PBar = _ProgressBar("Starting to analyse a diffusion network", dummy = True)
     count = 0
     maxCount = len(source)
+    #Records can have the same citation so it is mapped to the ids of all of them
     sourceDict = {}
-    #Tells the function if the IDs are made of lists or of str
-    listIds = None
+    sourceIds = set()
 
     for Rs in source:
-        if listIds is None and Rs.get(sourceType) is not None:
-            listIds = isinstance(Rs.get(sourceType), list)
         count += 1
         PBar.updateVal(count / maxCount * .10, "Analyzing source: " + str(Rs))
         RsVal, RsExtras = makeNodeID(Rs, sourceType)
         if RsVal:
+            if not isinstance(RsVal, tuple):
+                RsVal = (RsVal,)
+            sourceIds.update(RsVal)
             if useAllAuthors:
-                for c in Rs.createCitation(multiCite = True):
-                    sourceDict[c] = RsVal
+                cites = set(Rs.createCitation(multiCite = True))
             else:
-                sourceDict[Rs.createCitation()] = RsVal
+                cites = {Rs.createCitation()}
+            for c in cites:
+                sourceDict.setdefault(c, set()).update(RsVal)
     if extraValue is not None:
-        if listIds:
-            sourceCounts = {s : {targetCountString : 0} for s in itertools.chain.from_iterable(sourceDict.values())}
-        else:
-            sourceCounts = {s : {targetCountString : 0} for s in sourceDict.values()}
+        sourceCounts = {s : {targetCountString : 0} for s in sourceIds}
     else:
-        if listIds:
-            sourceCounts = {s : 0 for s in itertools.chain.from_iterable(sourceDict.values())}
-        else:
-            sourceCounts = {s : 0 for s in sourceDict.values()}
+        sourceCounts = {s : 0 for s in sourceIds}
     count = 0
     maxCount = len(target)
     PBar.updateVal(.10, "Done analyzing sources, starting on targets")
@@ -246,27 +242,16 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 RsourceVals = sourceDict[c]
             except KeyError:
                 continue
-            if listIds:
-                for sVal in RsourceVals:
-                    if extraValue:
-                        sourceCounts[sVal][targetCountString] += 1
-                        for val in values:
-                            try:
-                                sourceCounts[sVal][val] += 1
-                            except KeyError:
-                                sourceCounts[sVal][val] = 1
-                    else:
-                        sourceCounts[sVal] += 1
-            else:
+            for sVal in RsourceVals:
                 if extraValue:
-                    sourceCounts[RsourceVals][targetCountString] += 1
+                    sourceCounts[sVal][targetCountString] += 1
                     for val in values:
                         try:
-                            sourceCounts[RsourceVals][val] += 1
+                            sourceCounts[sVal][val] += 1
                         except KeyError:
-                            sourceCounts[RsourceVals][val] = 1
+                            sourceCounts[sVal][val] = 1
                 else:
-                    sourceCounts[RsourceVals] += 1
+                    sourceCounts[sVal] += 1
     if compareCounts:
         localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, _ProgBar = PBar)
     if PBar and not _ProgBar:
-- 
2.43.0


From 8906ef7d790c4c01fa3589ae9e298887912ff12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:21 +0000
Subject: [PATCH 050/120] fix: compared diffusion counts use the same options
 and values

---
 metaknowledge/diffusion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index cd3ae83..d7bf710 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -253,7 +253,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     sourceCounts[sVal] += 1
     if compareCounts:
-        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, _ProgBar = PBar)
+        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, useAllAuthors = useAllAuthors, extraMapping = extraMapping, _ProgBar = PBar)
     if PBar and not _ProgBar:
         PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
     if pandasFriendly:
@@ -310,7 +310,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                         extraValueLst.append(extraVal)
                         if compareCounts:
                             try:
-                                locLst.append(localCounts[R][extraValue])
+                                locLst.append(localCounts[R][extraVal])
                             except KeyError:
                                 locLst.append(0)
                 else:
-- 
2.43.0


From a970280e684031f1827553a4e31a469f5339384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:22 +0000
Subject: [PATCH 051/120] fix: diffusion tables of records without authors or
 with a tag as extra value

---
 metaknowledge/diffusion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index d7bf710..104b47b 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -268,7 +268,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
             retrievedFields = []
             targetCount = []
             for R in sourceCounts.keys():
-                tagsLst = [t for t in R.keys() if t not in retrievedFields]
+                tagsLst = [t for t in R.keys() if t not in retrievedFields and t != extraValue]
                 retrievedFields += tagsLst
             for tag in retrievedFields:
                 retDict[tag] = []
@@ -278,7 +278,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                     for extraVal, occCount in occ.items():
                         retDict[extraValue].append(extraVal)
                         if numAuthors:
-                            retDict["numAuthors"].append(len(R.get('authorsShort')))
+                            retDict["numAuthors"].append(len(R.get('authorsShort', [])))
                         for tag in retrievedFields:
                             retDict[tag].append(Rvals[tag])
                         retDict[targetCountString].append(occCount)
@@ -290,7 +290,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     Rvals = R.subDict(retrievedFields)
                     if numAuthors:
-                        retDict["numAuthors"].append(len(R.get('authorsShort')))
+                        retDict["numAuthors"].append(len(R.get('authorsShort', [])))
                     for tag in retrievedFields:
                         retDict[tag].append(Rvals[tag])
                     retDict[targetCountString].append(occ)
-- 
2.43.0


From 6715d038ddc52923f645ec0eaa097e7bb433b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:22 +0000
Subject: [PATCH 052/120] fix: keep the counts given to
 diffusionAddCountsFromSource

---
 metaknowledge/diffusion.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 104b47b..6b7e5af 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -391,14 +391,7 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         try:
             if not isinstance(countsDict.keys().__iter__().__next__(), str):
                 PBar.updateVal(.5, "Prepping the counts")
-                newCountsDict = {}
-                while True:
-                    try:
-                        k, v = countsDict.popitem()
-                    except KeyError:
-                        break
-                    newCountsDict[str(k)] = v
-                countsDict = newCountsDict
+                countsDict = {str(k) : v for k, v in countsDict.items()}
         except StopIteration:
             pass
         count = 0
-- 
2.43.0


From 919cb5b9e6f312c569e0bce1576a49d6c3e74305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 053/120] fix: a truncated or damaged directory cache was fatal

---
 metaknowledge/mkCollection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index cf1567b..dea529e 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -372,8 +372,11 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             with open(cacheFile, 'rb') as f:
                 try:
                     dat, RC = pickle.load(f)
-                except pickle.PickleError as e:
+                except Exception as e:
+                    #Truncated or damaged pickles can raise nearly anything
                     raise cacheError("pickle Error: {}".format(e))
+            if not isinstance(dat, dict) or type(RC) is not type(self):
+                raise cacheError("Not a cache")
             if dat["metaknowledge Version"] != __version__:
                 raise cacheError("mk version mismatch")
             if dat["Collection Name"] != rcName:
-- 
2.43.0


From 65ef7cbfa48e44a9a134c156ca371aba9e5ee110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 054/120] fix: directory caches were read as data files, and
 cached failed for single grant files

---
 metaknowledge/grantCollection.py  | 5 +++--
 metaknowledge/recordCollection.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 8ff49c1..d2edfe9 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -31,6 +31,7 @@ class GrantCollection(CollectionWithIDs):
             errors = {}
             name = name
             grantTypes = set()
+            cacheName = None
 
             if inGrants is None:
                 PBar.updateVal(.5, "Empty GrantCollection created")
@@ -67,7 +68,7 @@ class GrantCollection(CollectionWithIDs):
                     flist = []
                     for f in os.listdir(inGrants):
                         fullF = os.path.join(os.path.abspath(inGrants), f)
-                        if fullF.endswith(extension) and os.path.isfile(fullF):
+                        if fullF.endswith(extension) and not fullF.endswith(('mkRecordDirCache', 'mkGrantDirCache')) and os.path.isfile(fullF):
                             flist.append(fullF)
                     if cached:
                         cacheName = os.path.join(inGrants, '{}.[{}].mkGrantDirCache'.format(os.path.basename(os.path.abspath(inGrants)), extension))
@@ -132,7 +133,7 @@ class GrantCollection(CollectionWithIDs):
             else:
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
-            if cached:
+            if cached and cacheName is not None:
                 PBar.updateVal(1, "Writing GrantCollection cache to {}".format(cacheName))
                 self._createCache(cacheName, flist, name, extension)
             try:
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 16116d9..9c5d96d 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -116,7 +116,7 @@ class RecordCollection(CollectionWithIDs):
                     flist = []
                     for f in os.listdir(inCollection):
                         fullF = os.path.join(os.path.abspath(inCollection), f)
-                        if fullF.endswith(extension) and not fullF.endswith('mkRecordDirCache') and os.path.isfile(fullF):
+                        if fullF.endswith(extension) and not fullF.endswith(('mkRecordDirCache', 'mkGrantDirCache')) and os.path.isfile(fullF):
                             flist.append(fullF)
                     if cached:
                         PBar.updateVal(0, "Trying to load from cache")
-- 
2.43.0


From 2997a420dec8e2cc2e9b1d843f7a441abd7793bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 055/120] fix: files changed while a directory was read were
 never reread from the cache

---
 metaknowledge/grantCollection.py  | 4 +++-
 metaknowledge/mkCollection.py     | 6 ++----
 metaknowledge/recordCollection.py | 4 +++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index d2edfe9..bfd5070 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -80,6 +80,8 @@ class GrantCollection(CollectionWithIDs):
                             return
                         else:
                             PBar.updateVal(0, 'Cache error, rereading files')
+                    #Taken before reading, changes made while reading must not be missed
+                    fileTimes = {fileName : os.stat(fileName).st_mtime for fileName in flist}
                     for fileName in flist:
                         count += 1
                         PBar.updateVal(count / len(flist), "Reading grants from: {}".format(fileName))
@@ -135,7 +137,7 @@ class GrantCollection(CollectionWithIDs):
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
             if cached and cacheName is not None:
                 PBar.updateVal(1, "Writing GrantCollection cache to {}".format(cacheName))
-                self._createCache(cacheName, flist, name, extension)
+                self._createCache(cacheName, fileTimes, name, extension)
             try:
                 PBar.finish("Done making a GrantCollection of {} Grants".format(len(self)))
             except AttributeError:
diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index dea529e..c73fd6f 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -401,15 +401,13 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             else:
                 return True
 
-    def _createCache(self, cacheFile, flist, name, extension):
+    def _createCache(self, cacheFile, fileTimes, name, extension):
         dat = {
             "metaknowledge Version" : __version__,
-            "File dict" : {},
+            "File dict" : fileTimes,
             "Collection Name" : name,
             "File Extension" : extension,
         }
-        for fileName in flist:
-            dat["File dict"][fileName] =  os.stat(fileName).st_mtime
         with open(cacheFile, 'wb') as f:
             pickle.dump((dat, self), f)
 
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 9c5d96d..e4cfa50 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -129,6 +129,8 @@ class RecordCollection(CollectionWithIDs):
                             return
                         else:
                             PBar.updateVal(0, 'Cache error, rereading files')
+                    #Taken before reading, changes made while reading must not be missed
+                    fileTimes = {fileName : os.stat(fileName).st_mtime for fileName in flist}
                     for fileName in flist:
                         count += 1
                         PBar.updateVal(count / len(flist), "Reading records from: {}".format(fileName))
@@ -165,7 +167,7 @@ class RecordCollection(CollectionWithIDs):
                     pass
                 else:
                     PBar.updateVal(1, "Writing RecordCollection cache to {}".format(cacheName))
-                    self._createCache(cacheName, flist, name, extension)
+                    self._createCache(cacheName, fileTimes, name, extension)
             try:
                 PBar.finish("Done making a RecordCollection of {} Records".format(len(self)))
             except AttributeError:
-- 
2.43.0


From 0660583c01d38a11fdde0f11e9920eb39b7b376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 056/120] fix: ids of grants without one were different in
 every process

---
 metaknowledge/grants/baseGrant.py  | 7 ++++++-
 metaknowledge/grants/cihrGrant.py  | 4 ++--
 metaknowledge/grants/nsercGrant.py | 4 ++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c2e8470..48bbb90 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -4,6 +4,7 @@ except ImportError:
     import collections
     collections.abc = collections
 import csv
+import hashlib
 import os
 
 from ..mkRecord import Record
@@ -125,6 +126,10 @@ def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
     for row in reader:
         yield currentData['currentLineNum'], currentData['currentLineString'], row
 
+def stableHash(original):
+    """Like `hash()` but the same in every Python process, so usable in ids"""
+    return int(hashlib.md5(original.encode('utf-8', 'surrogatepass')).hexdigest()[:16], 16)
+
 class FallbackGrant(Grant):
     """A subclass of [Grant](./grants.html#metaknowledge.grants.Grant), it has the same attributes and is returned from the fall back constructor for grants.
     """
@@ -133,7 +138,7 @@ class FallbackGrant(Grant):
     def __init__(self, original, grantdDict, sFile = "", sLine = 0):
         #We do not known anything about the structure of the grant so there is nothing to check about causing an error
         #The id needs to be unique so hashing the original will always give us that
-        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, hash(original))
+        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, stableHash(original))
         Grant.__init__(self, original, grantdDict, idValue, False, None, sFile = sFile, sLine = sLine)
 
 def isFallbackGrantFile(fileName, useFileName = True, encoding = 'latin-1', dialect = 'excel'):
diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index 7ff9f09..a77c799 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -1,7 +1,7 @@
 import os.path
 import csv
 
-from .baseGrant import Grant, csvAndLinesReader
+from .baseGrant import Grant, csvAndLinesReader, stableHash
 from ..mkExceptions import BadGrant
 
 class CIHRGrant(Grant):
@@ -13,7 +13,7 @@ class CIHRGrant(Grant):
             error = BadGrant("Missing 'PI Names'")
 
         #Source file - line number - 6 character long numeric hash
-        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, hash(original))
+        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, stableHash(original))
 
         Grant.__init__(self, original, grantdDict, idValue, bad, error, sFile = sFile, sLine = sLine)
 
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 849f34a..0b17976 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -1,7 +1,7 @@
 import csv
 import os.path
 
-from .baseGrant import Grant, csvAndLinesReader
+from .baseGrant import Grant, csvAndLinesReader, stableHash
 from ..mkExceptions import BadGrant
 
 class NSERCGrant(Grant):
@@ -11,7 +11,7 @@ class NSERCGrant(Grant):
         if grantdDict.get('Cle', '') == '':
             bad = True
             error = BadGrant("Missing 'CLE'")
-            idValue = "NSERC:{}".format(hash(original))
+            idValue = "NSERC:{}".format(stableHash(original))
         else:
             idValue = "NSERC:{}".format(grantdDict.get('Cle', ''))
         Grant.__init__(self, original, grantdDict, idValue, bad, error, sFile = sFile, sLine = sLine)
-- 
2.43.0


From dc2c35c9af8c55389bbef60f3689b73b4ba7331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 057/120] fix: citations restored from a pickle by another
 process were unequal to themselves

---
 metaknowledge/citation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index c0e2c70..4885502 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -180,6 +180,12 @@ class Citation(collections.abc.Hashable):
         except AttributeError:
             self._hash = hash(self.ID())
             return self._hash
+
+    def __getstate__(self):
+        #The hashes of strings differ between Python processes so the saved one cannot be stored
+        state = self.__dict__.copy()
+        state.pop('_hash', None)
+        return state
     #@profile
     def __eq__(self, other):
         """
-- 
2.43.0


From c21015423307c81e11f6f003c3ff0cc637233cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 058/120] fix: grant files the csv module cannot read crashed
 the detectors

---
 metaknowledge/grants/cihrGrant.py  | 2 +-
 metaknowledge/grants/nsercGrant.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index a77c799..b62cd4c 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -32,7 +32,7 @@ def isCIHRfile(fileName, useFileName = True):
             for row in reader:
                 if 'PI Names' not in row:
                     return False
-    except (StopIteration, UnicodeDecodeError):
+    except (StopIteration, UnicodeDecodeError, csv.Error):
         return False
     else:
         return True
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 0b17976..1fd57d7 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -78,7 +78,7 @@ def isNSERCfile(fileName, useFileName = True):
                     return False
             if length < 1:
                 return False
-    except (StopIteration, UnicodeDecodeError, KeyError):
+    except (StopIteration, UnicodeDecodeError, KeyError, TypeError, csv.Error):
         return False
     else:
         return True
-- 
2.43.0


From 6c15252ccebf00e31dd8b330ca690a21c30a114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 059/120] fix: grants of csv rows with line breaks kept only
 the last line of their text

---
 metaknowledge/grants/baseGrant.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index 48bbb90..a482840 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -118,13 +118,22 @@ def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
     currentData = {
     'currentLineNum' : -1,
     'currentLineString' : '',
+    'rowLines' : [],
     }
     def readerWithSideEffects(target, datDict):
         for datDict['currentLineNum'], datDict['currentLineString'] in target:
+            #Quoted values can contain line breaks, so a row can be many lines
+            datDict['rowLines'].append((datDict['currentLineNum'], datDict['currentLineString']))
             yield datDict['currentLineString']
     reader = csv.DictReader(readerWithSideEffects(enumeratedFile, currentData), *csvArgs, **csvKwargs)
+    reader.fieldnames #Reads the header
+    currentData['rowLines'].clear()
     for row in reader:
-        yield currentData['currentLineNum'], currentData['currentLineString'], row
+        lines = currentData['rowLines']
+        while lines[0][1].strip('\r\n') == '':
+            lines.pop(0)
+        yield lines[0][0], ''.join(l for n, l in lines), row
+        lines.clear()
 
 def stableHash(original):
     """Like `hash()` but the same in every Python process, so usable in ids"""
-- 
2.43.0


From bb031f0f153fcc5e8e2cd4aaf21e912612ca5ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 060/120] fix: repeated elements of NSF grants were lost or
 crashed the reader, and an empty AwardID was not flagged

---
 metaknowledge/grants/nsfGrant.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index fcd1399..34b383f 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -11,7 +11,7 @@ class NSFGrant(Grant):
         bad = False
         error = None
         originalName = os.path.basename(sFile)
-        if grantdDict.get('AwardID', '') == '':
+        if not grantdDict.get('AwardID'):
             bad = True
             error = BadGrant("Missing 'AwardID'")
             idValue = "NSF:{}".format(originalName)
@@ -116,10 +116,18 @@ def parserNSFfile(fileName):
             if xmlElement.tag == 'Organization' or xmlElement.tag == 'Investigator':
                 continue
             elif len(xmlElement) < 1:
-                grantDict[xmlElement.tag] = xmlElement.text
+                if isinstance(grantDict.get(xmlElement.tag), list):
+                    if xmlElement.text is not None:
+                        grantDict[xmlElement.tag].append(xmlElement.text)
+                elif grantDict.get(xmlElement.tag) is None:
+                    grantDict[xmlElement.tag] = xmlElement.text
+                elif xmlElement.text is not None:
+                    grantDict[xmlElement.tag] = [grantDict[xmlElement.tag], xmlElement.text]
             else:
-                if xmlElement.tag not in grantDict:
+                if xmlElement.tag not in grantDict or grantDict[xmlElement.tag] is None:
                     grantDict[xmlElement.tag] = []
+                elif not isinstance(grantDict[xmlElement.tag], list):
+                    grantDict[xmlElement.tag] = [grantDict[xmlElement.tag]]
                 elmComps = []
                 for subElement in xmlElement:
                     if subElement.text is not None:
-- 
2.43.0


From 9c8147869f9d03ce0f23598e039796ae1873e645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 061/120] fix: short rows and empty elements of grants crashed
 merging and investigator look ups

---
 metaknowledge/grants/baseGrant.py  | 2 ++
 metaknowledge/grants/nsercGrant.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index a482840..a41e13b 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -67,6 +67,8 @@ class Grant(Record, collections.abc.MutableMapping):
                 except KeyError:
                     pass
                 except AttributeError:
+                    if self[tag] is None:
+                        continue
                     tval = [auth.split(seperator)[0] for auth in self[tag]]
                     if _getTag:
                         investVal += [(t.strip(), tag) for t in tval]
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 1fd57d7..c018f79 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -18,9 +18,9 @@ class NSERCGrant(Grant):
 
     def update(self, other):
         for field, value in other._fieldDict.items():
-            if value == '':
+            if value == '' or value is None:
                 continue
-            elif self._fieldDict.get(field, '') == '':
+            elif self._fieldDict.get(field, '') in ('', None):
                 self._fieldDict[field] = value
             else:
                 self._fieldDict[field] += "; {}".format(value)
-- 
2.43.0


From 30a1ac48fc5b9beb9b158223579b0a05c428a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 062/120] fix: Medline grants without number were all equal and
 codes after a number with slashes were lost

---
 metaknowledge/grants/medlineGrant.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/metaknowledge/grants/medlineGrant.py b/metaknowledge/grants/medlineGrant.py
index 98f4ade..44b664f 100644
--- a/metaknowledge/grants/medlineGrant.py
+++ b/metaknowledge/grants/medlineGrant.py
@@ -20,20 +20,9 @@ class MedlineGrant(Grant):
             grantDict['country'] = grantString
             error = BadGrant("The grant string '{}' does not contain enough slashes (/) to be a medline grant.".format(grantString))
         else:
-            if len(split) == 1:
-                code = split.pop()
-                if len(code) == 2:
-                    grantDict['code'] = code
-                else:
-                    grantDict['number'] = code
-            elif len(split) == 2:
-                code = split.pop()
-                if len(code) == 2:
-                    grantDict['code'] = code
-                    grantDict['number'] = split.pop()
-                else:
-                    grantDict['number'] = "{}/{}".format(split.pop(), code)
-            else:
+            if len(split) > 0 and len(split[-1]) == 2:
+                grantDict['code'] = split.pop()
+            if len(split) > 0:
                 grantDict['number'] = '/'.join(split)
         if 'number' in  grantDict:
             idValue = "{}/{}-{}".format(grantDict.get('number', ''), grantDict.get('code', ''), grantDict.get('country', ''))
-- 
2.43.0


From 85061e0b5c9a7b5b407437d9c68e9bbdcd1a69d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 063/120] fix: rankedSeries ignored greatestFirst in pandas
 mode

---
 metaknowledge/mkCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index c73fd6f..35fe65b 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -660,6 +660,8 @@ class CollectionWithIDs(Collection):
                         retList.append((valString, currentRank))
             if not greatestFirst:
                 retList.reverse()
+                for column in panDict.values():
+                    column.reverse()
             if pandasMode:
                 return panDict
             else:
-- 
2.43.0


From be5f586c2e9d482439410cbb9f274f1ce9899743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 064/120] fix: cooccurrenceCounts without counted tags did not
 raise

---
 metaknowledge/mkCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 35fe65b..8082d2f 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -775,7 +775,7 @@ class CollectionWithIDs(Collection):
         if not isinstance(keyTag, str):
             raise TagError("'{}' is not a string it cannot be used as a tag.".format(keyTag))
         if len(countedTags) < 1:
-            TagError("You need to provide atleast one tag")
+            raise TagError("You need to provide atleast one tag")
         for tag in countedTags:
             if not isinstance(tag, str):
                 raise TagError("'{}' is not a string it cannot be used as a tag.".format(tag))
-- 
2.43.0


From 454353396ad5d40314a20be3782369efb37b9ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 065/120] fix: localCiteStats failed on records that are not
 from WOS and on bad citations

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index e4cfa50..8b30584 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1436,13 +1436,13 @@ class RecordCollection(CollectionWithIDs):
                 rCites = R.get('citations')
                 if PBar:
                     count += 1
-                    PBar.updateVal(count / recCount, "Analysing: {}".format(R.UT))
+                    PBar.updateVal(count / recCount, "Analysing: {}".format(R.id))
                 if rCites:
                     for c in rCites:
                         if keyType == keyTypesLst[0]:
                             cVal = c
                         else:
-                            cVal = getattr(c, keyType)
+                            cVal = getattr(c, keyType, None)
                             if cVal is None:
                                 continue
                         if cVal in citesDict:
-- 
2.43.0


From 08789d08b72166f5d7479d0c17de56abfa3a1e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 066/120] fix: getCitations kept citations without the
 requested field

---
 metaknowledge/mkRecord.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 5a2b314..032e7a2 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -578,10 +578,10 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
             for cite in self.get('citations', []):
                 try:
                     targetVal = getattr(cite, field)
-                    if values is None or targetVal in values:
-                        retCites.append(cite)
                 except AttributeError:
-                    pass
+                    continue
+                if targetVal is not None and (values is None or targetVal in values):
+                    retCites.append(cite)
         else:
             retCites = self.get('citations', [])
         if pandasFriendly:
-- 
2.43.0


From 5bc6e63fb82d5d98565513b24a7aff3d97758e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 067/120] fix: localCitesOf rejected records and ignored
 citation strings

---
 metaknowledge/recordCollection.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 8b30584..d438b82 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1479,19 +1479,12 @@ class RecordCollection(CollectionWithIDs):
         localCites = []
         if isinstance(rec, Record):
             recCite = rec.createCitation()
-        if isinstance(rec, str):
-            try:
-                recCite = self.getID(rec)
-            except ValueError:
-                try:
-                    recCite = Citation(rec)
-                except AttributeError:
-                    raise ValueError("{} is not a valid WOS string or a valid citation string".format(recCite))
+        elif isinstance(rec, str):
+            citedRec = self.getID(rec)
+            if citedRec is None:
+                recCite = Citation(rec)
             else:
-                if recCite is None:
-                    return RecordCollection(inCollection = localCites, name = "Records_citing_{}".format(rec), quietStart = True)
-                else:
-                    recCite = recCite.createCitation()
+                recCite = citedRec.createCitation()
         elif isinstance(rec, Citation):
             recCite = rec
         else:
-- 
2.43.0


From e7162e393cda010051304e291d67aacea0b0118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 068/120] fix: citeFilter skipped the rest of the citations
 after one without the field, and failed on blank years

---
 metaknowledge/recordCollection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index d438b82..9ae565d 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1557,12 +1557,12 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.journal:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'year':
                     for cite in R.get('citations'):
                         try:
-                            if int(keyString) == cite.year:
+                            if cite.year is not None and (keyString == '' or int(keyString) == cite.year):
                                 retRecs.append(R)
                                 break
                         except AttributeError:
@@ -1573,7 +1573,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.V:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'P':
                     for cite in R.get('citations'):
@@ -1581,7 +1581,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.P:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'misc':
                     for cite in R.get('citations'):
@@ -1589,7 +1589,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.misc:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'anonymous':
                     for cite in R.get('citations'):
-- 
2.43.0


From be9918a5ab4f3ccc29ecf9612768a9eeb7e595c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 069/120] fix: dropNonJournals failed on records without a
 publication type

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 9ae565d..4094d3f 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -220,9 +220,9 @@ class RecordCollection(CollectionWithIDs):
         if dropBad:
             self.dropBadEntries()
         if invert:
-            self._collection = {r for r in self._collection if r['pubType'] != ptVal.upper()}
+            self._collection = {r for r in self._collection if r.get('pubType') != ptVal.upper()}
         else:
-            self._collection = {r for r in self._collection if r['pubType'] == ptVal.upper()}
+            self._collection = {r for r in self._collection if r.get('pubType') == ptVal.upper()}
 
     def writeFile(self, fname = None):
         """Writes the `RecordCollection` to a file, the written file's format is identical to those download from WOS. The order of `Records` written is random.
-- 
2.43.0


From 309c142a2cb00bfed6b24067047937e6c429a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:38 +0000
Subject: [PATCH 070/120] fix: makeDict and writeCSV changed the lists of tags
 given to them and only took lists

---
 metaknowledge/recordCollection.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 4094d3f..5f61085 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -308,13 +308,9 @@ class RecordCollection(CollectionWithIDs):
         """
         if firstTags is None:
             firstTags = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI']
-        for i in range(len(firstTags)):
-            if firstTags[i] in fullToTagDict:
-                firstTags[i] = fullToTagDict[firstTags[i]]
+        firstTags = [fullToTagDict.get(t, t) for t in firstTags]
         if onlyTheseTags:
-            for i in range(len(onlyTheseTags)):
-                if onlyTheseTags[i] in fullToTagDict:
-                    onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
+            onlyTheseTags = [fullToTagDict.get(t, t) for t in onlyTheseTags]
             retrievedFields = [t for t in firstTags if t in onlyTheseTags] + [t for t in onlyTheseTags if t not in firstTags]
         else:
             retrievedFields = firstTags
@@ -330,10 +326,9 @@ class RecordCollection(CollectionWithIDs):
             baseFileName = fname
         else:
             baseFileName = "{}.csv".format(self.name[:200])
+        csvWriterFields = list(retrievedFields)
         if numAuthors:
-            csvWriterFields = retrievedFields + ["num-Authors"]
-        else:
-            csvWriterFields = retrievedFields
+            csvWriterFields += ["num-Authors"]
         if genderCounts:
             csvWriterFields += ['num-Male', 'num-Female', 'num-Unknown']
         if splitByTag is None:
@@ -736,10 +731,7 @@ class RecordCollection(CollectionWithIDs):
         > Default `True`, if `True` adds the number of authors as the column `'numAuthors'`.
         """
         if onlyTheseTags:
-            for i in range(len(onlyTheseTags)):
-                if onlyTheseTags[i] in fullToTagDict:
-                    onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
-            retrievedFields = onlyTheseTags
+            retrievedFields = [fullToTagDict.get(t, t) for t in onlyTheseTags]
         else:
             retrievedFields = []
             for R in self:
-- 
2.43.0


From 35256fd6b8ef38346cb6de8ba7d392866a832ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:38 +0000
Subject: [PATCH 071/120] fix: writeCSV with longNames failed on its own
 default tags

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 5f61085..c4f89ed 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -319,7 +319,7 @@ class RecordCollection(CollectionWithIDs):
                 retrievedFields += tagsLst
         if longNames:
             try:
-                retrievedFields = [tagToFullDict[t] for t in retrievedFields]
+                retrievedFields = [t if t == 'id' else tagToFullDict[t] for t in retrievedFields]
             except KeyError:
                 raise KeyError("One of the tags could not be converted to a long name.")
         if fname:
@@ -739,7 +739,7 @@ class RecordCollection(CollectionWithIDs):
                 retrievedFields += tagsLst
         if longNames:
             try:
-                retrievedFields = [tagToFullDict[t] for t in retrievedFields]
+                retrievedFields = [t if t == 'id' else tagToFullDict[t] for t in retrievedFields]
             except KeyError:
                 raise KeyError("One of the tags could not be converted to a long name.")
         retDict = {k : [] for k in retrievedFields}
-- 
2.43.0


From 6e887a215d4ef979f12e6d8021d6dd0b4ac88286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 072/120] fix: writeCSV split by a tag failed for paths, values
 with slashes and citations, and overwrote files of values with the same name

---
 metaknowledge/recordCollection.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index c4f89ed..d5eef84 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -345,7 +345,7 @@ class RecordCollection(CollectionWithIDs):
                     continue
                 else:
                     if not isinstance(splitVal, list):
-                        splitVal = [str(splitVal)]
+                        splitVal = [splitVal]
             recDict = {}
             for t in retrievedFields:
                 value = R.get(t)
@@ -362,16 +362,17 @@ class RecordCollection(CollectionWithIDs):
             if genderCounts:
                 recDict['num-Male'], recDict['num-Female'], recDict['num-Unknown'] = R.authGenders(_countsTuple = True)
             if splitByTag:
-                for sTag in splitVal:
-                    if sTag in filesDict:
-                        filesDict[sTag][1].writerow(recDict)
+                splitDir, splitBase = os.path.split(baseFileName)
+                #values can share a file if their names become the same
+                for fname in dict.fromkeys(os.path.join(splitDir, "{}-{}".format(str(sTag)[:200].replace('/', '_'), splitBase)) for sTag in splitVal):
+                    if fname in filesDict:
+                        filesDict[fname][1].writerow(recDict)
                     else:
-                        fname = "{}-{}".format(sTag[:200], baseFileName)
                         f = open(fname, mode = 'w', encoding = 'utf-8', newline = '')
                         csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
                         csvWriter.writeheader()
                         csvWriter.writerow(recDict)
-                        filesDict[sTag] = (f, csvWriter)
+                        filesDict[fname] = (f, csvWriter)
             else:
                 csvWriter.writerow(recDict)
         if splitByTag:
-- 
2.43.0


From 0851da1ca2c30e8e3a060b666ce4d0aeaca403e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 073/120] fix: makeDict and writeCSV left fields asked for by
 name empty for records that are not from WOS

---
 metaknowledge/recordCollection.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index d5eef84..44c4ec3 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -308,6 +308,9 @@ class RecordCollection(CollectionWithIDs):
         """
         if firstTags is None:
             firstTags = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI']
+        #The values are looked up by the given names, only WOS Records know the WOS tags
+        firstTags, onlyTheseTags = list(firstTags), list(onlyTheseTags or [])
+        tagSources = {fullToTagDict.get(t, t) : t for t in firstTags + onlyTheseTags}
         firstTags = [fullToTagDict.get(t, t) for t in firstTags]
         if onlyTheseTags:
             onlyTheseTags = [fullToTagDict.get(t, t) for t in onlyTheseTags]
@@ -348,7 +351,7 @@ class RecordCollection(CollectionWithIDs):
                         splitVal = [splitVal]
             recDict = {}
             for t in retrievedFields:
-                value = R.get(t)
+                value = R.get(tagSources.get(t, t))
                 if isinstance(value, str):
                     recDict[t] = value
                 elif hasattr(value, '__iter__'):
@@ -731,8 +734,11 @@ class RecordCollection(CollectionWithIDs):
 
         > Default `True`, if `True` adds the number of authors as the column `'numAuthors'`.
         """
+        #The values are looked up by the given names, only WOS Records know the WOS tags
+        tagSources = {}
         if onlyTheseTags:
-            retrievedFields = [fullToTagDict.get(t, t) for t in onlyTheseTags]
+            tagSources = {fullToTagDict.get(t, t) : t for t in onlyTheseTags}
+            retrievedFields = list(tagSources)
         else:
             retrievedFields = []
             for R in self:
@@ -756,8 +762,8 @@ class RecordCollection(CollectionWithIDs):
                 retDict['num-Male'].append(m)
                 retDict['num-Female'].append(f)
                 retDict['num-Unknown'].append(u)
-            for k, v in R.subDict(retrievedFields, raw = raw).items():
-                retDict[k].append(v)
+            for k in retrievedFields:
+                retDict[k].append(R.get(tagSources.get(k, k), raw = raw))
         return retDict
 
     def rpys(self, minYear = None, maxYear = None, dropYears = None, rankEmptyYears = False):
-- 
2.43.0


From eb01af3ee2377fc1bb24ee1b713775e7eb25166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 074/120] fix: gender fractions of records without authors
 failed

---
 metaknowledge/mkRecord.py         | 3 ++-
 metaknowledge/recordCollection.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 032e7a2..3a9c756 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -684,7 +684,8 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
             for k in ('Male','Female','Unknown'):
                 countsList.append(rawList.count(k))
             if fractionsMode:
-                tot = sum(countsList)
+                #no names give no fractions
+                tot = sum(countsList) or 1
                 for i in range(3):
                     countsList.append(countsList.pop(0) / tot)
             if _countsTuple:
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 44c4ec3..99b27f7 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -907,7 +907,8 @@ class RecordCollection(CollectionWithIDs):
             femaleCount += f
             unknownCount += u
         if asFractions:
-            tot = maleCount + femaleCount + unknownCount
+            #no names give no fractions
+            tot = maleCount + femaleCount + unknownCount or 1
             return {'Male' : maleCount / tot, 'Female' : femaleCount / tot, 'Unknown' : unknownCount / tot}
         return {'Male' : maleCount, 'Female' : femaleCount, 'Unknown' : unknownCount}
 
-- 
2.43.0


From 7eb2ebb0dac443d26615ed8d6ecc81c39e7f11a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 075/120] fix: gender counts left out authors with the same
 name as another one of the record

---
 metaknowledge/mkRecord.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 3a9c756..bb9c6a2 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -679,7 +679,8 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
 
         authDict = recordGenders(self)
         if _countsTuple or countsOnly or fractionsMode:
-            rawList = list(authDict.values())
+            #different authors of a Record can have the same name
+            rawList = [authDict[auth] for auth in self.get('authorsFull', [])]
             countsList = []
             for k in ('Male','Female','Unknown'):
                 countsList.append(rawList.count(k))
-- 
2.43.0


From fb66b437ae966fce6c37a313a28a6e4b7d434521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 076/120] fix: nameStringGender returned its exception instead
 of raising it

---
 metaknowledge/genders/nameGender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/genders/nameGender.py b/metaknowledge/genders/nameGender.py
index 2bc9dac..db0fdf7 100644
--- a/metaknowledge/genders/nameGender.py
+++ b/metaknowledge/genders/nameGender.py
@@ -60,7 +60,7 @@ def nameStringGender(s, noExcept = False):
         if noExcept:
             return 'Unknown'
         else:
-            return GenderException("The given String: '{}' does not have a  last name, first name pair in with a ', ' seperation.".format(s))
+            raise GenderException("The given String: '{}' does not have a  last name, first name pair in with a ', ' seperation.".format(s))
     if mappingDict is None:
         mappingDict = getMapping()
     return mappingDict.get(first, 'Unknown')
-- 
2.43.0


From cebe4c6c36471bec72b4d9668b0d5f60546a1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:12 +0000
Subject: [PATCH 077/120] fix: a failed download of the names table left an
 unusable table behind

---
 metaknowledge/genders/nameGender.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/genders/nameGender.py b/metaknowledge/genders/nameGender.py
index db0fdf7..0a5920e 100644
--- a/metaknowledge/genders/nameGender.py
+++ b/metaknowledge/genders/nameGender.py
@@ -2,8 +2,9 @@
 import zipfile
 import io
 import csv
+import os
 import os.path
-import urllib
+import urllib.request
 
 from ..mkExceptions import GenderException
 
@@ -35,8 +36,10 @@ def downloadData(useUK = False):
     else:
         namesFile = zipfile.ZipFile(zipFile).open(americanNamesPath)
     try:
-        with open(targetFilePath, 'wb') as f:
+        #An interrupted download must not leave part of a table behind
+        with open(targetFilePath + '.part', 'wb') as f:
             f.write(namesFile.read())
+        os.replace(targetFilePath + '.part', targetFilePath)
     except PermissionError:
         raise PermissionError("Can not write to {}, you try rerunning with higher privileges".format(targetFilePath))
 
-- 
2.43.0


From 964d2f7f6a03c923f5d4db0a99d17f40e7df374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:33 +0000
Subject: [PATCH 078/120] fix: one bad record made writeBib fail

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 99b27f7..281539f 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -425,7 +425,7 @@ class RecordCollection(CollectionWithIDs):
             try:
                 f.write('\n\n')
                 f.write(R.bibString(maxLength =  maxStringLength, WOSMode = wosMode, restrictedOutput = reducedOutput, niceID = niceIDs))
-            except BadWOSRecord:
+            except BadRecord:
                 pass
             except AttributeError:
                 raise RecordsNotCompatible("The Record '{}', with ID '{}' does not support writing to bibtext files.".format(R, R.id))
-- 
2.43.0


From 687aa333c08c3ad31ed80723993ea19ef526de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 079/120] fix: titles with commas broke the ids of bib entries

---
 metaknowledge/mkRecord.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index bb9c6a2..03b2b39 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -18,6 +18,7 @@ except ImportError:
     import collections
     collections.abc = collections
 import copy
+import re
 
 from .constants import commonRecordFields
 
@@ -750,6 +751,8 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
             bibID = 'ISI:{}'.format(self.id[4:])
         else:
             bibID = str(self.id)
+        #Whitespace, commas and braces end the ID of an entry
+        bibID = re.sub(r'[\s,{}]', '-', bibID)
         keyEntries.append("author = {{{{{}}}}},".format(' and '.join(self.get('authorsFull', ['None']))))
         if restrictedOutput:
             tagsIter = ((k, self[k]) for k in commonRecordFields if k in self)
-- 
2.43.0


From 51b4aae28818c1574c17c2fd4444710b05c2515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:19 +0000
Subject: [PATCH 080/120] fix: empty strings were given as words by forBurst
 and to the stemmer by forBurst and forNLP

---
 metaknowledge/recordCollection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 281539f..50495d1 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -516,7 +516,8 @@ class RecordCollection(CollectionWithIDs):
             if lower:
                 inString = inString.lower()
             inString = re.sub(otherDropsRegex, otherRepl, inString, count = 0)
-            sTokens = inString.split(' ')
+            #spaces next to each other are not words
+            sTokens = [token for token in inString.split(' ') if token]
             if stemmer is not None:
                 retTokens = []
                 for token in sTokens:
@@ -647,7 +648,8 @@ class RecordCollection(CollectionWithIDs):
                 sTokens = abst.split(' ')
                 retTokens = []
                 for token in sTokens:
-                    if stemmer is not None:
+                    #spaces next to each other are not words
+                    if token:
                         token = stemmer(token)
                     retTokens.append(token)
                 abst = ' '.join(retTokens)
-- 
2.43.0


From d54f586abf37f892d028c361304cbc08487a8f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:19 +0000
Subject: [PATCH 081/120] fix: repeated words of the dropList were not all
 dropped by forNLP and forBurst

---
 metaknowledge/recordCollection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 50495d1..3ce1af0 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -508,7 +508,8 @@ class RecordCollection(CollectionWithIDs):
             if dropList is not None:
                 inString = " {} ".format(inString)
                 for dropS in (" {} ".format(s) for s in dropList):
-                    if dropS in inString:
+                    #neighbouring matches share a space, so one pass can miss some
+                    while dropS in inString:
                         inString = inString.replace(dropS, ' ')
                 inString = inString[1:-1]
             if removeWhitespace:
@@ -632,7 +633,8 @@ class RecordCollection(CollectionWithIDs):
                 #incase a drop string is on the edge
                 abst = " {} ".format(abst.replace('\n', ' '))
                 for dropS in (" {} ".format(s) for s in dropList):
-                    if dropS in abst:
+                    #neighbouring matches share a space, so one pass can miss some
+                    while dropS in abst:
                         abst = abst.replace(dropS, ' ')
                 abst = abst[1:-1]
             if removeWhitespace:
-- 
2.43.0


From 89ba33e0156ff87b19dd1b92cd8ccf60d607ad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:19 +0000
Subject: [PATCH 082/120] fix: forNLP changed the list of extraColumns given to
 it

---
 metaknowledge/recordCollection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 3ce1af0..ec0a63c 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -671,9 +671,7 @@ class RecordCollection(CollectionWithIDs):
         if extraColumns is None:
             extraColumns = []
         else:
-            for builtinColumn in ['id', 'year', 'title', 'keywords', 'abstract']:
-                if builtinColumn in extraColumns:
-                    extraColumns.remove(builtinColumn)
+            extraColumns = [c for c in extraColumns if c not in ('id', 'year', 'title', 'keywords', 'abstract')]
         for column in extraColumns:
             retDict[column] = []
         with _ProgressBar(*progArgs, **progKwargs) as PBar:
-- 
2.43.0


From b3cead307d1c47f06d03aa6c503801b5e7d38270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:19 +0000
Subject: [PATCH 083/120] fix: forNLP and findProbableCopyright ignored or
 failed on abstracts that are not from WOS or Medline

---
 metaknowledge/recordCollection.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index ec0a63c..55cd5ee 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -442,7 +442,7 @@ class RecordCollection(CollectionWithIDs):
         """
         retCopyrights = set()
         for R in self:
-            begin, abS = findCopyright(R.get('abstract', ''))
+            begin, abS = findCopyright(_abstractString(R))
             if abS != '':
                 retCopyrights.add(abS)
         return list(retCopyrights)
@@ -678,7 +678,7 @@ class RecordCollection(CollectionWithIDs):
             for R in self:
                 pcount += 1
                 PBar.updateVal(pcount/ pmax, "Analyzing: {}".format(R))
-                abstract, copyrightString = abPrep(R.get('AB', ''))
+                abstract, copyrightString = abPrep(_abstractString(R))
 
                 retDict['id'].append(R.id)
                 retDict['year'].append(R.get('year', ''))
@@ -1818,6 +1818,13 @@ def expandRecs(G, RecCollect, nodeType, weighted):
                             G.add_edge(citeID2, e2, **data)
 
 
+def _abstractString(R):
+    #ProQuest gives the lines of the abstract
+    abstract = R.get('abstract', '')
+    if isinstance(abstract, list):
+        return '\n'.join(abstract)
+    return abstract
+
 def findCopyright(inS):
     possibleHits = ['. &COPY; ', '. Crown Copyright',' Elsevier Ltd. ', '. Copyright', '. Published by Els', '. (c) ', '. (C) ']
     splitString = False
-- 
2.43.0


From 14f5bae2780b5b1f84f661683b77b1bf4dfd1b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:45 +0000
Subject: [PATCH 084/120] fix: rpys failed on collections without citations or
 with years outside of 1000 to 2100

---
 metaknowledge/recordCollection.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 55cd5ee..ce57a15 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -846,13 +846,10 @@ class RecordCollection(CollectionWithIDs):
                     yearCounts[cYear] = 1
 
         if minYear is None:
-            smallest = min(yearCounts.keys())
-            if smallest > 1000:
-                minYear = smallest
+            #without citations there are no years
+            minYear = max(min(yearCounts.keys(), default = 2101), 1000)
         if maxYear is None:
-            biggest = max(yearCounts.keys())
-            if biggest < 2100:
-                maxYear = biggest
+            maxYear = min(max(yearCounts.keys(), default = 999), 2100)
 
         targetYears = set(( i for i in range(minYear, maxYear + 1) if i not in dropYears))
 
-- 
2.43.0


From a6be0c049126ae1f26d5604eaed9e1a40f92bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:45 +0000
Subject: [PATCH 085/120] fix: rpys gave the years in the order of a set

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index ce57a15..af9b49e 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -851,7 +851,7 @@ class RecordCollection(CollectionWithIDs):
         if maxYear is None:
             maxYear = min(max(yearCounts.keys(), default = 999), 2100)
 
-        targetYears = set(( i for i in range(minYear, maxYear + 1) if i not in dropYears))
+        targetYears = [i for i in range(minYear, maxYear + 1) if i not in dropYears]
 
         ranks = {}
         yearDeviances = {}
-- 
2.43.0


From 3376cad6816078af94d740fd7362b0267a44e0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:45 +0000
Subject: [PATCH 086/120] fix: rpys failed with a single year to drop

---
 metaknowledge/recordCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index af9b49e..1a1cc3f 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -818,6 +818,8 @@ class RecordCollection(CollectionWithIDs):
 
         if dropYears is None:
             dropYears = set()
+        elif isinstance(dropYears, int):
+            dropYears = {dropYears}
         yearCounts = {}
         retDict = {'year' : [], 'count' : [], 'abs-deviation' : [], 'rank' : []}
 
-- 
2.43.0


From a0303537894b97f4c61cdd55e8e3904ad1c50b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:45 +0000
Subject: [PATCH 087/120] fix: rpys left out the citations to the year of the
 citing record and the one before it

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 1a1cc3f..9badd90 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -839,8 +839,8 @@ class RecordCollection(CollectionWithIDs):
                     #need the extra years for the normlization
                     if (maxYear is not None and cYear > (maxYear + 2)) or (minYear is not None and cYear < (minYear - 2)):
                         continue
-                    #years from before the paper are an error
-                    elif recYear < (cYear + 2):
+                    #years from after the paper are an error
+                    elif cYear > recYear + 2:
                         continue
                 if cYear in yearCounts:
                     yearCounts[cYear] += 1
-- 
2.43.0


From 8fade603e0dd0d0c093b11aa95b69c78642c1430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:43 +0000
Subject: [PATCH 088/120] fix: updating the journal database never added names
 to known abbreviations

---
 metaknowledge/journalAbbreviations/backend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index fb94759..88918f1 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -119,9 +119,10 @@ def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
                 raise urllib.error.URLError("Unable to access server, check your connection")
             for k, v in j9Dict.items():
                 if k in db:
-                    for jName in v:
-                        if jName not in j9Dict[k]:
-                            j9Dict[k] += '|' + jName
+                    oldNames = db[k].decode('utf-8').split('|')
+                    newNames = oldNames + [jName for jName in v if jName not in oldNames]
+                    if newNames != oldNames:
+                        db[k] = '|'.join(newNames)
                 else:
                     db[k] = '|'.join(v)
     except dbm.dumb.error as e:
-- 
2.43.0


From 6786a748e709df4b668675e5cfd2c5e2378031de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:43 +0000
Subject: [PATCH 089/120] fix: journals listed on several abbreviation pages
 lost the names of the earlier ones

---
 metaknowledge/journalAbbreviations/backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 88918f1..4c25ec8 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -89,7 +89,9 @@ def _getCurrentj9Dict():
         d = _getDict(urllib.request.urlopen(url))
         if len(d) == 0:
             raise RuntimeError("Parsing failed, this is could require an update of the parser.")
-        j9Dict.update(d)
+        for k, v in d.items():
+            names = j9Dict.setdefault(k, [])
+            names.extend(jName for jName in v if jName not in names)
     return j9Dict
 
 def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
-- 
2.43.0


From ed8b4733d0fad6b850c28a0b4a1abe165afce914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:43 +0000
Subject: [PATCH 090/120] fix: missing journal databases were replaced by
 another one or looked up forever

---
 metaknowledge/journalAbbreviations/backend.py | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 4c25ec8..ccd3dbb 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -158,20 +158,16 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
                 for k, v in db.items():
                     retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
     except JournalDataBaseError:
-        updatej9DB()
-        return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
-    try:
-        if returnDict == 'both' or returnDict == 'manual':
-            if os.path.isfile(dbLoc + '/{}.dat'.format(manualDB)):
-                with dbm.dumb.open(dbLoc + '/{}'.format(manualDB)) as db:
-                    for k, v in db.items():
-                        retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
-            else:
-                if returnDict == 'manual':
-                    raise JournalDataBaseError("Manual J9 Database ({0}) missing, to create it run addToDB(dbname = {0})".format(manualDB))
-    except JournalDataBaseError:
-        updatej9DB(dbname = manualDB)
+        updatej9DB(dbname = dbname)
         return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
+    if returnDict == 'both' or returnDict == 'manual':
+        if os.path.isfile(dbLoc + '/{}.dat'.format(manualDB)):
+            with dbm.dumb.open(dbLoc + '/{}'.format(manualDB)) as db:
+                for k, v in db.items():
+                    retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
+        else:
+            if returnDict == 'manual':
+                raise JournalDataBaseError("Manual J9 Database ({0}) missing, to create it run addToDB(dbname = {0})".format(manualDB))
     return retDict
 
 def addToDB(abbr = None, dbname = manualDBname):
-- 
2.43.0


From b04eb8004cac7854e5d0f1001bbd412025002f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:43 +0000
Subject: [PATCH 091/120] fix: saving the raw journal pages changed the working
 directory

---
 metaknowledge/journalAbbreviations/backend.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index ccd3dbb..d4a4766 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -45,13 +45,10 @@ def _j9SaveCurrent(sDir = '.'):
     dname = os.path.normpath(sDir + '/' +  datetime.datetime.now().strftime("%Y-%m-%d_J9_AbbreviationDocs"))
     if not os.path.isdir(dname):
         os.mkdir(dname)
-        os.chdir(dname)
-    else:
-        os.chdir(dname)
     for urlID, urlString in j9urlGenerator(nameDict = True).items():
         fname = "{}_abrvjt.html".format(urlID)
-        f = open(fname, 'wb')
-        f.write(urllib.request.urlopen(urlString).read())
+        with open(os.path.join(dname, fname), 'wb') as f:
+            f.write(urllib.request.urlopen(urlString).read())
 
 def _getDict(j9Page):
     """Parses a Journal Title Abbreviations page
-- 
2.43.0


From 742260ce234931339e44dd0ec87b9659fd7c6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:17 +0000
Subject: [PATCH 092/120] fix: citations looked journals up in whatever
 database was read first and failed after excluding one

---
 metaknowledge/citation.py                     | 38 +++++++++----------
 metaknowledge/journalAbbreviations/backend.py |  9 +++++
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 4885502..2bf750d 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -8,12 +8,18 @@ except ImportError:
 import re
 
 from .mkExceptions import BadCitation
-from .journalAbbreviations import getj9dict, abrevDBname, manualDBname, addToDB
+from .journalAbbreviations import getj9dict, abrevDBname, manualDBname, addToDB, backend
 
 import metaknowledge
 
-#For journalAbbreviations, to reduce the number of times we read the dict
-abbrevDict = None
+#For journalAbbreviations, to reduce the number of times we read the dicts
+abbrevDicts = {}
+
+def _getAbbrevDict(*dbArgs):
+    #The databases are only read again after one was changed
+    if abbrevDicts.get(dbArgs, (None, None))[0] != backend.dbChanges:
+        abbrevDicts[dbArgs] = (backend.dbChanges, getj9dict(*dbArgs))
+    return abbrevDicts[dbArgs][1]
 
 class Citation(collections.abc.Hashable):
     """A class to hold citation strings and allow for comparison between them.
@@ -293,9 +299,7 @@ class Citation(collections.abc.Hashable):
 
         > `True` if the `Citation` is for a journal
         """
-        global abbrevDict
-        if abbrevDict is None:
-            abbrevDict = getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
+        abbrevDict = _getAbbrevDict(dbname, manualDB, returnDict)
         if not hasattr(self, 'journal'):
             return False
         elif checkIfExcluded and self.journal:
@@ -327,11 +331,8 @@ class Citation(collections.abc.Hashable):
 
         > The first full name given for the journal of the Citation (or the first name in the WOS list if multiple names exist), if there is not one then `None` is returned
         """
-        global abbrevDict
-        if abbrevDict is None:
-            abbrevDict = getj9dict()
         if self.isJournal():
-            return abbrevDict[self.journal][0]
+            return _getAbbrevDict(abrevDBname, manualDBname, 'both')[self.journal][0]
         else:
             return None
 
@@ -354,18 +355,15 @@ class Citation(collections.abc.Hashable):
 
         > Default `False`, if `True` the journal will be removed instead of added
         """
-        try:
-            if invert:
-                d = {self.journal : ''}
-            elif manualName is None:
-                d = {self.journal : self.journal}
-            else:
-                d = {self.journal : manualName}
-            addToDB(abbr = d, dbname = manualDB)
-        except KeyError:
+        if not getattr(self, 'journal', None):
             raise KeyError("This citation does not have a journal field.")
+        if invert:
+            d = {self.journal : ''}
+        elif manualName is None:
+            d = {self.journal : self.journal}
         else:
-            abbrevDict.update(d)
+            d = {self.journal : manualName}
+        addToDB(abbr = d, dbname = manualDB)
 
 def filterNonJournals(citesLst, invert = False):
     """Removes the `Citations` from _citesLst_ that are not journals
diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index d4a4766..f346f0f 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -11,6 +11,9 @@ abrevDBname = "j9Abbreviations"
 
 manualDBname = "manualj9Abbreviations"
 
+#The number of changes made to the databases, so that others know when to read them again
+dbChanges = 0
+
 def j9urlGenerator(nameDict = False):
     """How to get all the urls for the WOS Journal Title Abbreviations. Each is varies by only a few characters. These are the currently in use urls they may change.
 
@@ -104,12 +107,14 @@ def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
 
     > Determines if the original HTML of the pages is stored, default `False`. If `True` they are saved in a directory inside j9Raws begining with todays date.
     """
+    global dbChanges
     if saveRawHTML:
         rawDir = '{}/j9Raws'.format(os.path.dirname(__file__))
         if not os.path.isdir(rawDir):
             os.mkdir(rawDir)
         _j9SaveCurrent(sDir = rawDir)
     dbLoc = os.path.join(os.path.normpath(os.path.dirname(__file__)), dbname)
+    dbChanges += 1
     try:
         with dbm.dumb.open(dbLoc, flag = 'c') as db:
             try:
@@ -180,6 +185,8 @@ def addToDB(abbr = None, dbname = manualDBname):
 
     > The name of the database file, default is `metaknowledge.journalAbbreviations.manualDBname`.
     """
+    global dbChanges
+    dbChanges += 1
     dbLoc = os.path.normpath(os.path.dirname(__file__))
     with dbm.dumb.open(dbLoc + '/' + dbname) as db:
         if isinstance(abbr, str):
@@ -207,6 +214,8 @@ def excludeFromDB(abbr = None, dbname = manualDBname):
 
     > The name of the database file, default is `metaknowledge.journalAbbreviations.manualDBname`.
     """
+    global dbChanges
+    dbChanges += 1
     dbLoc = os.path.normpath(os.path.dirname(__file__))
     with dbm.dumb.open(dbLoc + '/' + dbname) as db:
         if isinstance(abbr, str):
-- 
2.43.0


From 32a5b5fe1f49ddf7d918d748e814e538a55d22d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:34 +0000
Subject: [PATCH 093/120] fix: the progress bars of empty edge and node lists
 and of failing ones ran for ever

---
 metaknowledge/diffusion.py    | 18 ++++++++----------
 metaknowledge/graphHelpers.py | 32 ++++++++++++++++----------------
 2 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 6b7e5af..396ea7e 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -189,14 +189,14 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
         raise RuntimeError("{} is not a valid extraValue, only tags are allowed".format(extraValue))
     if extraMapping is None:
         extraMapping = lambda x : x
-    if metaknowledge.VERBOSE_MODE or _ProgBar:
-        if _ProgBar:
-            PBar = _ProgBar
-            PBar.updateVal(0, "Starting to analyse a diffusion network")
-        else:
-            PBar = _ProgressBar(0, "Starting to analyse a diffusion network")
-        count = 0
-        maxCount = len(source)
+    if _ProgBar:
+        PBar = _ProgBar
+        PBar.updateVal(0, "Starting to analyse a diffusion network")
+    elif metaknowledge.VERBOSE_MODE:
+        with _ProgressBar(0, "Starting to analyse a diffusion network") as PBar:
+            counts = diffusionCount(source, target, sourceType = sourceType, extraValue = extraValue, pandasFriendly = pandasFriendly, compareCounts = compareCounts, numAuthors = numAuthors, useAllAuthors = useAllAuthors, extraMapping = extraMapping, _ProgBar = PBar)
+            PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
+        return counts
     else:
         PBar = _ProgressBar("Starting to analyse a diffusion network", dummy = True)
     count = 0
@@ -254,8 +254,6 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                     sourceCounts[sVal] += 1
     if compareCounts:
         localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, useAllAuthors = useAllAuthors, extraMapping = extraMapping, _ProgBar = PBar)
-    if PBar and not _ProgBar:
-        PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
     if pandasFriendly:
         retDict = {targetCountString : []}
         if numAuthors:
diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 9e8787e..3f195ab 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -196,12 +196,14 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
     """
     count = 0
     eMax = len(grph.edges())
-    if metaknowledge.VERBOSE_MODE or isinstance(_progBar, _ProgressBar):
-        if isinstance(_progBar, _ProgressBar):
-            PBar = _progBar
-            PBar.updateVal(0, "Writing edge list {}".format(name))
-        else:
-            PBar = _ProgressBar(0, "Writing edge list {}".format(name))
+    if isinstance(_progBar, _ProgressBar):
+        PBar = _progBar
+        PBar.updateVal(0, "Writing edge list {}".format(name))
+    elif metaknowledge.VERBOSE_MODE:
+        with _ProgressBar(0, "Writing edge list {}".format(name)) as PBar:
+            writeEdgeList(grph, name, extraInfo = extraInfo, allSameAttribute = allSameAttribute, _progBar = PBar)
+            PBar.finish("Done edge list {}, {} edges written.".format(name, eMax))
+        return
     else:
         PBar = _ProgressBar(0, "Writing edge list {}".format(name), dummy = True)
     if len(grph.edges(data = True)) < 1:
@@ -264,8 +266,6 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                     outFile.writerow(newDict)
         PBar.updateVal(1, "Closing {}".format(name))
         f.close()
-        if not isinstance(_progBar, _ProgressBar):
-            PBar.finish("Done edge list {}, {} edges written.".format(name, count))
 
 def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None):
     """Writes a node attribute list of _grph_ to the file given by the path _name_.
@@ -290,12 +290,14 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
     """
     count = 0
     nMax = len(grph.nodes())
-    if metaknowledge.VERBOSE_MODE or isinstance(_progBar, _ProgressBar):
-        if isinstance(_progBar, _ProgressBar):
-            PBar = _progBar
-            PBar.updateVal(0, "Writing node list {}".format(name))
-        else:
-            PBar = _ProgressBar(0, "Writing node list {}".format(name))
+    if isinstance(_progBar, _ProgressBar):
+        PBar = _progBar
+        PBar.updateVal(0, "Writing node list {}".format(name))
+    elif metaknowledge.VERBOSE_MODE:
+        with _ProgressBar(0, "Writing node list {}".format(name)) as PBar:
+            writeNodeAttributeFile(grph, name, allSameAttribute = allSameAttribute, _progBar = PBar)
+            PBar.finish("Done node attribute list: {}, {} nodes written.".format(name, nMax))
+        return
     else:
         PBar = _ProgressBar(0, "Writing node list {}".format(name), dummy = True)
     if len(grph.nodes(data = True)) < 1:
@@ -341,8 +343,6 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
                 raise ValueError("Some nodes in the graph do not have the same attributes")
         PBar.updateVal(1, "Closing {}".format(name))
         f.close()
-        if not isinstance(_progBar, _ProgressBar):
-            PBar.finish("Done node attribute list: {}, {} nodes written.".format(name, count))
 
 def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = None, timeString = None, nodeIndexString = 'tnet-ID', weightString = 'weight'):
     """Writes an edge list designed for reading by the _R_ package [tnet](https://toreopsahl.com/tnet/).
-- 
2.43.0


From 02343bd9cf19e143591b50b80b118b9b891dc9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 094/120] fix: the command line program ended with an error
 after its python console was closed

---
 metaknowledge/bin/metaknowledgeCLI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index b0eaa29..dcb9927 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -64,7 +64,7 @@ def inputMenu(inputDict, header = None, footer = None, errorMsg = 'That is not a
         code.interact(local = globals(), banner = bannerMsg)
     else:
         print('\033[93m\a' + errorMsg + '\033[0m') #Not windows compatible
-        return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg)
+    return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg)
 
 def getOutputName(clargs, suffix, prompt = "What do you wish to call the output file? ", errorMsg = 'That is not a valid file name.', checking = True):
     if clargs.name:
-- 
2.43.0


From 055a73252298314984898cffcba6552265695044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 095/120] fix: no name was accepted as the name of an output
 file

---
 metaknowledge/bin/metaknowledgeCLI.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index dcb9927..cc8ffae 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -69,11 +69,12 @@ def inputMenu(inputDict, header = None, footer = None, errorMsg = 'That is not a
 def getOutputName(clargs, suffix, prompt = "What do you wish to call the output file? ", errorMsg = 'That is not a valid file name.', checking = True):
     if clargs.name:
         return clargs.name + suffix
-    s  = input(prompt) + suffix
+    s  = input(prompt)
     if len(s) == 0:
         print(errorMsg)
-        return getOutputName(clargs, suffix, prompt = prompt, errorMsg = errorMsg)
+        return getOutputName(clargs, suffix, prompt = prompt, errorMsg = errorMsg, checking = checking)
     else:
+        s += suffix
         if os.path.lexists(s) and checking:
             overWrite = yesorNo("{} already exists overwrite (y/n)? ".format(s))
             if overWrite:
-- 
2.43.0


From a09e8596896fda5214df1d6ee3194a71cf3aaca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 096/120] fix: going over the citations failed at those without
 a journal and excluded from the default database only

---
 metaknowledge/bin/metaknowledgeCLI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index cc8ffae..c93cb23 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -189,7 +189,7 @@ def getWhatToDo(clargs, inRC):
         try:
             for R in inRC:
                 for c in R.get('citations', []):
-                    if not hasattr(c, 'journal'):
+                    if not getattr(c, 'journal', None):
                         print("{} does not have a journal field".format(c))
                     elif c.isJournal(manualDB= dbName, returnDict ='both'):
                         print("the journal field of {} is in the database".format(c.journal))
@@ -201,7 +201,7 @@ def getWhatToDo(clargs, inRC):
                             c.addToDB(manualDB= dbName)
                             print("{} added as a journal abbrviation.".format(c.journal))
                         else:
-                            c.addToDB(invert = True)
+                            c.addToDB(manualDB= dbName, invert = True)
                             print("{} will now be skipped".format(c.journal))
         except KeyboardInterrupt:
             print('\nExiting manual citation clasification', end = '')
-- 
2.43.0


From fd2ec2c4a0abda8bf2d3daab7ad835fa4023b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 097/120] fix: additional blanks between the names of files
 added the working directory

---
 metaknowledge/bin/metaknowledgeCLI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index c93cb23..4a261af 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -123,7 +123,7 @@ def getFiles(args):
         return tmpRC
     else:
         nflist = input("What files or directorys do you want to extract a network from: ")
-        paths = [os.path.abspath(os.path.expanduser(f)) for f in nflist.split(' ')]
+        paths = [os.path.abspath(os.path.expanduser(f)) for f in nflist.split()]
         badPaths = [f for f in paths if not os.path.exists(f)]
         if len(badPaths) > 1:
             print(', '.join(badPaths[:-1]) + " and " + badPaths[-1] + " are not existing files or directorys")
-- 
2.43.0


From 314eb9231adb6ab4286697ead1db8325c7468180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 098/120] fix: tags that are not upper case could not be chosen

---
 metaknowledge/bin/metaknowledgeCLI.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index 4a261af..b8029f7 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -85,7 +85,10 @@ def getOutputName(clargs, suffix, prompt = "What do you wish to call the output
             return s
 
 def Tag(prompt, collection, nMode = False):
-    retTag = input(prompt).upper()
+    retTag = input(prompt)
+    if retTag in collection.tags():
+        return retTag
+    retTag = retTag.upper()
     if retTag in collection.tags():
         return retTag
     else:
-- 
2.43.0


From d6784ef6c7297c54de42767adf8a2b16003c81a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 099/120] fix: the question whether to overwrite a graph did
 not name it

---
 metaknowledge/bin/metaknowledgeCLI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index b8029f7..fb17284 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -310,12 +310,12 @@ def  outputNetwork(clargs, grph):
             try:
                 outName = getOutputName(clargs, '', checking = False)
                 metaknowledge.writeGraph(grph, outName, overwrite = False)
-            except OSError:
+            except OSError as e:
                 if clargs.name:
                     metaknowledge.writeGraph(grph, outName, overwrite = True)
                     break
                 else:
-                    overWrite = yesorNo("{}, overwrite (y/n)? ")
+                    overWrite = yesorNo("{}, overwrite (y/n)? ".format(e))
                     if overWrite:
                         metaknowledge.writeGraph(grph, outName, overwrite = True)
                         break
-- 
2.43.0


From 5d5d0f81d6ae5ccd859459858aec97eb5dba9b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:17 +0000
Subject: [PATCH 100/120] fix: a file mentioning 'VR 1.0' near its start was
 read as a WOS file whatever it was

---
 metaknowledge/WOS/wosHandlers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 74486c7..436c59b 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -26,7 +26,7 @@ def isWOSFile(infile, checkedLines = 3):
         with open(infile, 'r', encoding='utf-8-sig', errors='surrogateescape') as openfile:
             f = enumerate(openfile, start = 0)
             for i in range(checkedLines):
-                if "VR 1.0" in f.__next__()[1]:
+                if f.__next__()[1].startswith("VR 1.0"):
                     return True
     except (StopIteration, UnicodeDecodeError):
         return False
@@ -58,7 +58,7 @@ def wosParser(isifile):
         #Undecodable bytes are dealt with by the record they are in, otherwise everything around them would be lost
         with open(isifile, 'r', encoding='utf-8-sig', errors='surrogateescape') as openfile:
             f = enumerate(openfile, start = 0)
-            while "VR 1.0" not in f.__next__()[1]:
+            while not f.__next__()[1].startswith("VR 1.0"):
                 pass
             notEnd = True
             while notEnd:
-- 
2.43.0


From 13623f4d199eabc2f30aad847b22a73e5b4d116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:55 +0000
Subject: [PATCH 101/120] fix: an update of the journal names without a
 connection was reported as a damaged database

---
 metaknowledge/journalAbbreviations/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index f346f0f..f656ca9 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -129,6 +129,9 @@ def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
                         db[k] = '|'.join(newNames)
                 else:
                     db[k] = '|'.join(v)
+    except urllib.error.URLError:
+        #Like dbm.dumb.error these are OSErrors, but the database is fine
+        raise
     except dbm.dumb.error as e:
         raise JournalDataBaseError("Something happened with the database of WOS journal names. To fix this you should delete the 1 to 3 files whose names start with {}. If this doesn't work (sorry), deleteing everything in '{}' and reinstalling metaknowledge should.\nThe error was '{}'".format(dbLoc, os.path.dirname(__file__), e))
 
-- 
2.43.0


From c1c81523997aaf8253797e79a0ab11f34de8f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:00 +0000
Subject: [PATCH 102/120] fix: glimpse in a terminal of 6 narrow lines raised
 an IndexError or left out the last value

---
 metaknowledge/RCglimpse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/RCglimpse.py b/metaknowledge/RCglimpse.py
index cea6180..9edabfe 100644
--- a/metaknowledge/RCglimpse.py
+++ b/metaknowledge/RCglimpse.py
@@ -24,7 +24,7 @@ def _glimpse(RC, *tags, compact = False):
     #If it can't fit just go with the usual settings
     if tColumns < 55:
         tColumns = 80
-    if tRows < 6:
+    if tRows < 7:
         tRows = 24
     glimpseVals = collections.OrderedDict()
     if len(descriptionStringFull) > tColumns:
-- 
2.43.0


From b552b4940c3b0ada9919c9922e0449cd4bef7029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:43 +0000
Subject: [PATCH 103/120] fix: the tags given to networkCoAuthor,
 networkCitation, networkCoCitation and diffusionGraph were not found in
 Records that are not from WOS

---
 metaknowledge/diffusion.py        |  4 ++--
 metaknowledge/recordCollection.py | 11 ++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 396ea7e..71886ea 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -4,7 +4,7 @@ import networkx as nx
 
 from .WOS.tagProcessing.funcDicts import tagsAndNameSet, normalizeToTag
 from .progressBar import _ProgressBar
-from .recordCollection import RecordCollection
+from .recordCollection import RecordCollection, _tagValue
 
 import metaknowledge
 
@@ -92,7 +92,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
         for Rt in target:
             RtVal, RtExtras = makeNodeID(Rt, targetType)
             if labelEdgesBy is not None:
-                edgeVals = Rt.get(labelEdgesBy)
+                edgeVals = _tagValue(Rt, labelEdgesBy)
                 if edgeVals is None:
                     continue
                 if not isinstance(edgeVals, list):
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 9badd90..9abe3d9 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1005,7 +1005,7 @@ class RecordCollection(CollectionWithIDs):
             def attributeMaker(Rec):
                 attribsDict = {}
                 for val in infoVals:
-                    recVal = Rec.get(val)
+                    recVal = _tagValue(Rec, val)
                     if isinstance(recVal, list):
                         attribsDict[val] = ', '.join((str(v).replace(',', '') for v in recVal))
                     else:
@@ -1711,6 +1711,11 @@ def makeID(citation, nodeType):
         return citation.ID()
 
 
+def _tagValue(R, tag):
+    #Only WOS Records know all of the WOS tags, the full names are for all of them
+    value = R.get(tagToFullDict.get(tag, tag))
+    return R.get(tag) if value is None else value
+
 def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCitesDict, coreValues, detailedValues, addCR):
     """Makes a tuple of idVal and a dict of the selected attributes"""
     d = {}
@@ -1723,7 +1728,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
                     if not detailedValues:
                         infoVals = []
                         for tag in coreValues:
-                            tagVal = R.get(tag)
+                            tagVal = _tagValue(R, tag)
                             if isinstance(tagVal, str):
                                 infoVals.append(tagVal.replace(',',''))
                             elif isinstance(tagVal, list):
@@ -1733,7 +1738,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
                         d['info'] = ', '.join(infoVals)
                     else:
                         for tag in coreValues:
-                            v = R.get(tag, None)
+                            v = _tagValue(R, tag)
                             if isinstance(v, list):
                                 d[tag] = '|'.join(sorted(v))
                             else:
-- 
2.43.0


From 8a41b064b97523573340b2b5668dab94f83339c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:43 +0000
Subject: [PATCH 104/120] fix: describing the core of a citation network by
 tags whose values are not strings raised an error

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 9abe3d9..2ab3c16 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1732,7 +1732,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
                             if isinstance(tagVal, str):
                                 infoVals.append(tagVal.replace(',',''))
                             elif isinstance(tagVal, list):
-                                infoVals.append(tagVal[0].replace(',',''))
+                                infoVals.append(str(tagVal[0]).replace(',',''))
                             else:
                                 pass
                         d['info'] = ', '.join(infoVals)
@@ -1740,7 +1740,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
                         for tag in coreValues:
                             v = _tagValue(R, tag)
                             if isinstance(v, list):
-                                d[tag] = '|'.join(sorted(v))
+                                d[tag] = '|'.join(sorted(str(s) for s in v))
                             else:
                                 d[tag] = v
                     d['inCore'] = True
-- 
2.43.0


From 75684414278607bae5a8fa88d05892163b9c42f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:53 +0000
Subject: [PATCH 105/120] fix: expandedCore left out the edges between the
 further authors of a Record from unweighted networks

---
 metaknowledge/recordCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 2ab3c16..643b182 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1818,6 +1818,8 @@ def expandRecs(G, RecCollect, nodeType, weighted):
                                 G.edges[citeID1, citeID2]['weight'] += 1
                             except KeyError:
                                 G.add_edge(citeID1, citeID2, weight = 1)
+                        else:
+                            G.add_edge(citeID1, citeID2)
                         for e1, e2, data in G.edges(citeID1, data = True):
                             G.add_edge(citeID2, e2, **data)
 
-- 
2.43.0


From 86c32ff4cab0baf2f09eb57218eac52f9eb08d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:18 +0000
Subject: [PATCH 106/120] fix: a WOS file that could not be read to its end was
 read as if it were whole

Any other exception than the expected ones, e.g. an OSError while reading, was
discarded by the return in the finally and the records so far were returned
without an error.
---
 metaknowledge/WOS/wosHandlers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 436c59b..3c41e26 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -95,6 +95,9 @@ def wosParser(isifile):
             error =  BadWOSFile("'{}' has a unicode issue. Probably when being opened or possibly on the first line".format(isifile))
     except StopIteration:
         error =  BadWOSFile("The file '{}' ends before EF was found".format(isifile))
+    except Exception as e:
+        #E.g. an OSError while reading, the return in the finally would hide it
+        error =  BadWOSFile("The file '{}' could not be read to its end: {}".format(isifile, e))
     except KeyboardInterrupt as e:
         error = e
     finally:
-- 
2.43.0


From 0418adbf6e35edc863048337df705d35328e3da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:49 +0000
Subject: [PATCH 107/120] fix: failures and interrupts while a malformed WOS
 record was being skipped were ignored

The reading went on in the middle of the record, whose rest could become a
record of its own.
---
 metaknowledge/WOS/wosHandlers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 3c41e26..f0b6b79 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -79,7 +79,7 @@ def wosParser(isifile):
                             s = f.__next__()[1]
                             while s[:2] != 'ER':
                                 s = f.__next__()[1]
-                        except:
+                        except StopIteration:
                             error =  BadWOSFile("The file {} was not terminated corrrectly caused the following error:\n{}".format(isifile, str(e)))
             try:
                 f.__next__()
@@ -90,7 +90,7 @@ def wosParser(isifile):
     except UnicodeDecodeError:
         try:
             error =  BadWOSFile("'{}' has a unicode issue on line: {}.".format(isifile, f.__next__()[0]))
-        except:
+        except Exception:
             #Fallback needed incase f.__next__() causes issues
             error =  BadWOSFile("'{}' has a unicode issue. Probably when being opened or possibly on the first line".format(isifile))
     except StopIteration:
-- 
2.43.0


From 3df790c70e0f0595b9136931599fa38a44f15f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:48 +0000
Subject: [PATCH 108/120] fix: edge and node lists could not be written to or
 read from paths starting with ~

The path was made absolute before the home directory was put in, so the ~ was
taken for a directory of the working directory.
---
 metaknowledge/graphHelpers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 3f195ab..4cc084f 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -65,7 +65,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
             grph = nx.Graph()
         if nodeList:
             PBar.updateVal(0, "Reading " + nodeList)
-            f = open(os.path.expanduser(os.path.abspath(nodeList)), newline = '')
+            f = open(os.path.abspath(os.path.expanduser(nodeList)), newline = '')
             nFile = csv.DictReader(f)
             for line in nFile:
                 vals = line
@@ -77,7 +77,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
                     grph.add_node(ndID)
             f.close()
         PBar.updateVal(.25, "Reading " + edgeList)
-        f = open(os.path.expanduser(os.path.abspath(edgeList)), newline = '')
+        f = open(os.path.abspath(os.path.expanduser(edgeList)), newline = '')
         eFile = csv.DictReader(f)
         for line in eFile:
             vals = line
@@ -207,7 +207,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
     else:
         PBar = _ProgressBar(0, "Writing edge list {}".format(name), dummy = True)
     if len(grph.edges(data = True)) < 1:
-        outFile = open(os.path.expanduser(os.path.abspath(name)), 'w')
+        outFile = open(os.path.abspath(os.path.expanduser(name)), 'w')
         outFile.write('"Source","Target"\n')
         outFile.close()
         PBar.updateVal(1, "Done edge list '{}', 0 edges written.".format(name))
@@ -231,7 +231,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
             csvHeader = ['Source'] +  ['Target']
         count = 0
         PBar.updateVal(.01, "Opening file {}".format(name))
-        f = open(os.path.expanduser(os.path.abspath(name)), 'w', newline = '')
+        f = open(os.path.abspath(os.path.expanduser(name)), 'w', newline = '')
         outFile = csv.DictWriter(f, csvHeader, delimiter = ',', quotechar = '"', quoting=csv.QUOTE_NONNUMERIC)
         outFile.writeheader()
         if extraInfo:
@@ -301,7 +301,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
     else:
         PBar = _ProgressBar(0, "Writing node list {}".format(name), dummy = True)
     if len(grph.nodes(data = True)) < 1:
-        outFile = open(os.path.expanduser(os.path.abspath(name)), 'w')
+        outFile = open(os.path.abspath(os.path.expanduser(name)), 'w')
         outFile.write('ID\n')
         outFile.close()
         PBar.updateVal(1, "Done node attribute list: {}, 0 nodes written.".format(name))
@@ -322,7 +322,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
             csvHeader = ['ID'] + list(extraAttribs)
         count = 0
         PBar.updateVal(.10, "Opening '{}'".format(name))
-        f = open(name, 'w', newline = '')
+        f = open(os.path.abspath(os.path.expanduser(name)), 'w', newline = '')
         outFile = csv.DictWriter(f, csvHeader, delimiter = ',', quotechar = '"', quoting = csv.QUOTE_NONNUMERIC)
         outFile.writeheader()
         for n in grph.nodes(data = True):
-- 
2.43.0


From 5617594725415f495821a78e10f6dc01245d5dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:16 +0000
Subject: [PATCH 109/120] fix: default file names of collections read from a
 directory are file names

---
 metaknowledge/recordCollection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 643b182..679e12d 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -244,7 +244,7 @@ class RecordCollection(CollectionWithIDs):
         if fname:
             f = open(fname, mode = 'w', encoding = recEncoding)
         else:
-            f = open(self.name[:200] + '.txt', mode = 'w', encoding = recEncoding)
+            f = open(self.name[:200].replace('/', '_') + '.txt', mode = 'w', encoding = recEncoding)
         if recordTypes == {'WOSRecord'}:
             f.write("\ufeffFN Thomson Reuters Web of Science\u2122\n")
             f.write("VR 1.0\n")
@@ -328,7 +328,7 @@ class RecordCollection(CollectionWithIDs):
         if fname:
             baseFileName = fname
         else:
-            baseFileName = "{}.csv".format(self.name[:200])
+            baseFileName = "{}.csv".format(self.name[:200].replace('/', '_'))
         csvWriterFields = list(retrievedFields)
         if numAuthors:
             csvWriterFields += ["num-Authors"]
@@ -418,7 +418,7 @@ class RecordCollection(CollectionWithIDs):
         if fname:
             f = open(fname, mode = 'w', encoding = 'utf-8')
         else:
-            f = open(self.name[:200] + '.bib', mode = 'w', encoding = 'utf-8')
+            f = open(self.name[:200].replace('/', '_') + '.bib', mode = 'w', encoding = 'utf-8')
         f.write("%This file was generated by the metaknowledge Python package.\n%The contents have been automatically generated and are likely to not work with\n%LaTeX without some human intervention. This file is meant for other automatic\n%systems and not to be used directly for making citations\n")
         #I figure this is worth mentioning, as someone will get annoyed at none of the special characters being escaped and how terrible some of the fields look to humans
         for R in self:
-- 
2.43.0


From 52e00c9bd383a222fe6a1a8d6c91f23314535c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:16 +0000
Subject: [PATCH 110/120] fix: notebooks keep every character of the Markdown,
 a failed write is reported

---
 metaknowledge/bin/metaknowledgeMdToNb.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeMdToNb.py b/metaknowledge/bin/metaknowledgeMdToNb.py
index 7f5616b..e8d160c 100644
--- a/metaknowledge/bin/metaknowledgeMdToNb.py
+++ b/metaknowledge/bin/metaknowledgeMdToNb.py
@@ -1,5 +1,6 @@
 #Written by Reid McIlroy-Young for Dr. John McLevey, University of Waterloo 2015
 import argparse
+import json
 import re
 import os.path
 import subprocess
@@ -96,16 +97,17 @@ def convertString(file):
 def convert(file):
     nameCompts = os.path.splitext( os.path.expanduser(os.path.normpath(file.name)))
     fileName = nameCompts[0] + '.ipynb'
-    outFile = open(fileName, 'w+')
-    outFile.write(convertString(file))
+    with open(fileName, 'w+') as outFile:
+        outFile.write(convertString(file))
     return fileName
 
 
 def stringPreprossesing(s):
     s = s.lstrip('\n')
-    s = s.replace(r'"', r'\"')
-    s = s.replace('\n', '\\n",\n     "')[:-11]
-    return s
+    if s.endswith('\n'):
+        s = s[:-1]
+    #The outermost quotes are in the cell already
+    return ',\n     '.join((json.dumps(line) for line in s.splitlines(True)))[1:-1]
 
 
 def writeMDcell(s):
-- 
2.43.0


From 09b2c3ef50c76dbad3fbad7cde8e9d78805019b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:16 +0000
Subject: [PATCH 111/120] fix: graphDensityContourPlot asks for its axes as
 matplotlib needs it

---
 metaknowledge/contour/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index 8576ff4..d28fdfb 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -110,7 +110,7 @@ def graphDensityContourPlot(G, iters = 50, layout = None, layoutScaleFactor = 1,
         raise TypeError("{} is not a valid input.".format(type(layout)))
     fig = plt.figure()
     #axis = fig.add_subplot(111)
-    axis = fig.gca(projection='3d')
+    axis = fig.add_subplot(projection='3d')
     if overlay:
         nx.draw_networkx(G, pos = layout, ax = axis, node_size = nodeSize, with_labels = False, edgelist = [])
     grid = ndi.gaussian_filter(grid, (blurringFactor * axisSamples, blurringFactor * axisSamples))
-- 
2.43.0


From 92586ceda110743b55ae42895388a9d426e6c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:16 +0000
Subject: [PATCH 112/120] fix: quickVisual draws the empty graph and refuses
 every partly typed one

---
 metaknowledge/contour/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index d28fdfb..b13a6b1 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -19,14 +19,14 @@ def quickVisual(G, showLabel = False):
     ax = f.add_subplot(1,1,1)
     ndTypes = []
     ndColours = []
-    layout = nx.spring_layout(G, k = 4 / math.sqrt(len(G.nodes())))
+    layout = nx.spring_layout(G, k = 4 / math.sqrt(len(G.nodes()) or 1))
     for nd in G.nodes(data = True):
         if 'type' in nd[1]:
             if nd[1]['type'] not in ndTypes:
                 ndTypes.append(nd[1]['type'])
             ndColours.append(colours[ndTypes.index(nd[1]['type']) % len(colours)])
-        elif len(ndColours) > 1:
-            raise RuntimeError("Some nodes do not have a type")
+    if 0 < len(ndColours) < len(G.nodes()):
+        raise RuntimeError("Some nodes do not have a type")
     if len(ndColours) < 1:
         nx.draw_networkx_nodes(G, pos = layout, node_color = colours[0], node_shape = '8', node_size = 100, ax = ax)
     else:
-- 
2.43.0


From 97363c69d58a5c924a7831cfdb19fe3f0f5a54ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:16 +0000
Subject: [PATCH 113/120] fix: density plot puts each node where its layout has
 it

---
 metaknowledge/contour/plotting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index b13a6b1..2cf2d29 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -92,7 +92,7 @@ def graphDensityContourPlot(G, iters = 50, layout = None, layoutScaleFactor = 1,
     if not isinstance(G, nx.classes.digraph.DiGraph) and not isinstance(G, nx.classes.graph.Graph):
         raise TypeError("{} is not a valid input.".format(type(G)))
     if layout is None:
-        layout = nx.spring_layout(G, scale = axisSamples - 1, iterations = iters)
+        layout = nx.spring_layout(G, scale = (axisSamples - 1) / 2, center = ((axisSamples - 1) / 2, (axisSamples - 1) / 2), iterations = iters)
         grid = np.zeros( [axisSamples, axisSamples],dtype=np.float32)
         for v in layout.values():
             x, y = tuple(int(x) for x in v.round(0))
@@ -100,9 +100,10 @@ def graphDensityContourPlot(G, iters = 50, layout = None, layoutScaleFactor = 1,
     elif isinstance(layout, dict):
         layout = layout.copy()
         grid = np.zeros([axisSamples, axisSamples],dtype=np.float32)
-        multFactor = (axisSamples - 1) / layoutScaleFactor
+        #The layout is centered at the origin, the grid starts there
+        multFactor = (axisSamples - 1) / (2 * layoutScaleFactor)
         for k in layout.keys():
-            tmpPos = layout[k] * multFactor
+            tmpPos = (layout[k] + layoutScaleFactor) * multFactor
             layout[k] = tmpPos
             x, y = tuple(int(x) for x in tmpPos.round(0))
             grid[y][x] += 1
-- 
2.43.0


From fe92a7af0aaa2486e73e4f9fdc93142cd85ce44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:35 +0000
Subject: [PATCH 114/120] fix: isScopusFile allows maxHeaderDiff different
 entries, as documented

---
 metaknowledge/scopus/scopusHandlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/scopusHandlers.py b/metaknowledge/scopus/scopusHandlers.py
index ae7cb26..9cf774e 100644
--- a/metaknowledge/scopus/scopusHandlers.py
+++ b/metaknowledge/scopus/scopusHandlers.py
@@ -36,7 +36,7 @@ def isScopusFile(infile, checkedLines = 2, maxHeaderDiff = 3):
             if openfile.read(1) != "\ufeff":
                 return False
             for i in range(checkedLines):
-                if len(set(openfile.readline().rstrip('\n').split(',')) ^ set(scopusHeader)) < maxHeaderDiff:
+                if len(set(openfile.readline().rstrip('\n').split(',')) ^ set(scopusHeader)) <= maxHeaderDiff:
                     return True
     except (StopIteration, UnicodeDecodeError):
         return False
-- 
2.43.0


From 5aea81b4d6b1ef1fda262440ba0ca4233143ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:34 +0000
Subject: [PATCH 115/120] fix: Scopus files with their header on the second
 line are recognised, now also read

---
 metaknowledge/scopus/scopusHandlers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/scopusHandlers.py b/metaknowledge/scopus/scopusHandlers.py
index 9cf774e..fea995c 100644
--- a/metaknowledge/scopus/scopusHandlers.py
+++ b/metaknowledge/scopus/scopusHandlers.py
@@ -70,11 +70,21 @@ def scopusParser(scopusFile):
             #Get rid of the BOM
             openfile.read(1)
             header = openfile.readline().rstrip('\n').split(',')
+            firstLine = 2
+            if len(set(header) ^ set(scopusHeader)) > 3:
+                #isScopusFile() also accepts files with the header on their second line
+                position = openfile.tell()
+                nextLine = openfile.readline().rstrip('\n').split(',')
+                if len(set(nextLine) ^ set(scopusHeader)) <= 3:
+                    header = nextLine
+                    firstLine = 3
+                else:
+                    openfile.seek(position)
             if header == scopusHeader:
                 header = None
             lineNum = 0
             try:
-                for line, row in enumerate(openfile, start = 2):
+                for line, row in enumerate(openfile, start = firstLine):
                     lineNum = line
                     recSet.add(ScopusRecord(row, header = header, sFile = scopusFile, sLine = line))
             except BadScopusFile as e:
-- 
2.43.0


From 3f059f10a6a4d223aee57cef9b5762e0d797854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:59 +0000
Subject: [PATCH 116/120] fix: values longer than the csv module's default
 limit are read back by readGraph and from grants files

---
 metaknowledge/grants/baseGrant.py | 3 ++-
 metaknowledge/graphHelpers.py     | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index a41e13b..b79c755 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -10,7 +10,8 @@ import os
 from ..mkRecord import Record
 from ..mkExceptions import BadGrant
 
-
+#Values of any length are read, the csv reader's default limit is 131072 characters
+csv.field_size_limit(max(csv.field_size_limit(), 2**31 - 1))
 
 class Grant(Record, collections.abc.MutableMapping):
 
diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 4cc084f..1329661 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -8,6 +8,9 @@ from .mkExceptions import RCValueError
 
 import metaknowledge
 
+#writeGraph() writes attributes of any length, the csv reader's default limit is 131072 characters
+csv.field_size_limit(max(csv.field_size_limit(), 2**31 - 1))
+
 def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource = 'Source', eDest = 'Target'):
     """Reads the files given by _edgeList_ and _nodeList_ and creates a networkx graph for the files.
 
-- 
2.43.0


From 3ab007414030888bb9733ef396f5d66f439b65b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:54 +0000
Subject: [PATCH 117/120] fix: NSERC rows without an ID are not merged into
 each other, which changed their hash inside the collection

---
 metaknowledge/grantCollection.py   | 2 +-
 metaknowledge/grants/nsercGrant.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index bfd5070..a23ce2d 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -105,7 +105,7 @@ class GrantCollection(CollectionWithIDs):
                                             #Thus we get this mess
                                             overlap = {}
                                             for Gin in grants:
-                                                if Gin in grantsSet:
+                                                if Gin in grantsSet and not Gin.bad:
                                                     overlap[Gin.id] = Gin
                                             for Gover in overlap.values():
                                                 grants.remove(Gover)
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index c018f79..d043c4c 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -92,7 +92,7 @@ def parserNSERCfile(fileName):
             reader = csvAndLinesReader(f, fieldnames = None, dialect = 'excel')
             for lineNum, lineString, lineDict in reader:
                 G = NSERCGrant(lineString, lineDict, sFile = fileName, sLine = lineNum)
-                if G in grantSet:
+                if G in grantSet and not G.bad:
                     for Gin in grantSet:
                         if Gin == G:
                             Gin.update(G)
-- 
2.43.0


From 85a6ddc42e68aa0aaa33a1883fd86bafb3718007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:13 +0000
Subject: [PATCH 118/120] fix: a repeated value is in a node attribute once,
 whichever record comes first

---
 metaknowledge/mkCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 8082d2f..0891e8d 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -877,7 +877,7 @@ class CollectionWithIDs(Collection):
                     nodeVals = R.get(nodeAttribute, [])
                     if not isinstance(nodeVals, list):
                         nodeVals = [nodeVals]
-                    nodeVals = [str(v) for v in nodeVals]
+                    nodeVals = list(dict.fromkeys(str(v) for v in nodeVals))
                 contents = []
                 for attr in modes:
                     tmpContents = R.get(attr, [])
-- 
2.43.0


From e50f43ff9552df60eb418f0604232fe0028738c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:36 +0000
Subject: [PATCH 119/120] fix: a year of 0 is part of the ID of an incomplete
 citation

---
 metaknowledge/citation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 2bf750d..a523dc9 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -102,7 +102,7 @@ class Citation(collections.abc.Hashable):
                     atrLst = []
                     if self.author:
                         atrLst.append(self.author)
-                    if self.year:
+                    if self.year is not None:
                         atrLst.append(str(self.year))
                     if self.journal:
                         atrLst.append(self.journal)
@@ -132,7 +132,7 @@ class Citation(collections.abc.Hashable):
                 atrLst = []
                 if self.author:
                     atrLst.append(self.author)
-                if self.year:
+                if self.year is not None:
                     atrLst.append(str(self.year))
                 if self.journal:
                     atrLst.append(self.journal)
@@ -144,7 +144,7 @@ class Citation(collections.abc.Hashable):
                 atrLst = []
                 if self.author:
                     atrLst.append(self.author)
-                if self.year:
+                if self.year is not None:
                     atrLst.append(str(self.year))
                 if self.journal:
                     atrLst.append(self.journal)
-- 
2.43.0


From ef4f2223199aa857f337c12ad8e65bb7535033f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:48 +0000
Subject: [PATCH 120/120] fix: a column asked for twice is in the natural
 language export once

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 679e12d..c7b15e2 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -671,7 +671,7 @@ class RecordCollection(CollectionWithIDs):
         if extraColumns is None:
             extraColumns = []
         else:
-            extraColumns = [c for c in extraColumns if c not in ('id', 'year', 'title', 'keywords', 'abstract')]
+            extraColumns = [c for c in dict.fromkeys(extraColumns) if c not in retDict]
         for column in extraColumns:
             retDict[column] = []
         with _ProgressBar(*progArgs, **progKwargs) as PBar:
-- 
2.43.0

