"""The names table of the gender look ups, kept in the (scratch) installed package."""
import csv
import io
import os
import zipfile
import metaknowledge

DIR = os.path.join(os.path.dirname(os.path.abspath(metaknowledge.__file__)), 'genders')
FILE = os.path.join(DIR, 'namesData.csv')
FIELDS = ['Name', 'years.appearing', 'count.male', 'count.female', 'prob.gender', 'obs.male', 'est.male', 'upper', 'lower']
TABLE = {'John': 'Male', 'Jane': 'Female', 'Kim': 'Unknown', 'Ana': 'Female', "D'Arcy": 'Male', 'Zoë': 'Female', 'Jean-Luc': 'Male'}


def text(table=TABLE):
    f = io.StringIO(newline='')
    w = csv.writer(f, quoting=csv.QUOTE_ALL, lineterminator='\n')
    w.writerow(FIELDS)
    for n, g in table.items():
        w.writerow([n, '10', '5', '5', g, '0.5', '0.5', '0.6', '0.4'])
    return f.getvalue()


def archive(us=TABLE, uk=None):
    f = io.BytesIO()
    with zipfile.ZipFile(f, 'w', zipfile.ZIP_STORED) as z:
        for name, t in (('us', us), ('uk', uk if uk is not None else {'John': 'Female'})):
            z.writestr('globalnamedata-0.3/assets/%sprocessed.csv' % name, text(t))
    return f.getvalue()


def install(table=TABLE):
    """Write the table and forget one that was read before."""
    assert not os.path.realpath(FILE).startswith('/repo/'), FILE
    with open(FILE, 'w', encoding='utf-8', newline='') as f:
        f.write(text(table))
    forget()


def forget():
    import metaknowledge.genders.nameGender as ng
    ng.mappingDict = None


# full name -> gender in TABLE
MENU = {
    'Smith, John': 'Male', 'Doe, Jane': 'Female', 'Roe, Kim': 'Unknown', 'Zed, Qqq': 'Unknown',
    'NoComma': 'Unknown', 'SMITH, JOHN': 'Male', 'Smith, john paul': 'Male', 'Last,John': 'Unknown',
    'Last, ': 'Unknown', 'X, J': 'Unknown', 'Le, Ana M.': 'Female', "O'Neil, d'arcy": 'Male', 'Q, Zoë': 'Female',
    'Doe, Jane, Jr.': 'Female', 'Roe, Kim, John': 'Unknown',
    'Von-Ana, Jean-luc': 'Male',
}
