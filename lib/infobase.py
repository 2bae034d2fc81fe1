"""Databases with the tables of an information base, built without any code of the tool."""
import struct, hashlib
from onecd import F, T, Db, nvc, bcd_date, number

FLEN = 128
def container(name, partno=True):
    fs = [F("FILENAME", "NVC", 0, FLEN), F("CREATION", "DT"), F("MODIFIED", "DT"), F("ATTRIBUTES", "N", 0, 5), F("DATASIZE", "N", 0, 20),
          F("BINARYDATA", "I")]
    if partno:
        fs.append(F("PARTNO", "N", 0, 10))
    return T(name, fs)

def stamp(tag, k=0):
    """a distinct date for each file"""
    return (2001 + tag % 20, 1 + (tag + k) % 12, 1 + (tag * 3 + k) % 28, tag % 24, (tag * 7 + k) % 60, (tag + 5 * k) % 60)

def row(t, name, data, tag, part=0, deleted=False, order=None, at=None):
    """one record of a container table"""
    v = dict(FILENAME=nvc(name), CREATION=bcd_date(*(at or stamp(tag))), MODIFIED=bcd_date(*(at or stamp(tag, 1))), ATTRIBUTES=number(1, "0", 5),
             DATASIZE=number(1, str(len(data)), 20), BINARYDATA=t.long(data, order=order))
    if any(f.name == "PARTNO" for f in t.fields):
        v["PARTNO"] = number(1, str(part), 10)
    elif part:
        raise ValueError("no parts in this table")
    t.add(v, deleted=deleted)

def base(version="8.3.8.0", partno=True, ps=4096, cas=False):
    """(Db, {table name: T}) with empty tables"""
    db = Db(version, ps)
    ts = {}
    for n in ["CONFIG", "CONFIGSAVE", "FILES", "PARAMS"] + (["CONFIGCAS", "CONFIGCASSAVE"] if cas else []):
        ts[n] = container(n, partno)
        db.tables.append(ts[n])
    s = T("DBSCHEMA", [F("SERIALIZEDDATA", "I")])
    s.add(dict(SERIALIZEDDATA=s.long(b"{0}")))
    ts["DBSCHEMA"] = s
    db.tables.append(s)
    return db, ts

def days(y, m, d):
    import datetime
    return (datetime.date(y, m, d) - datetime.date(1, 1, 1)).days

def cf_time(tag, k=0):
    """the same moment as it is written in a container: ten-thousandths of a second since year 1"""
    y, m, d, H, M, S = stamp(tag, k)
    return (days(y, m, d) * 86400 + H * 3600 + M * 60 + S) * 10000
