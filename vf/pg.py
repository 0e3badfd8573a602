"""A stand-in for the positioner database: the scripts' own SQL is run by sqlite on generated tables."""
import collections, contextlib, datetime, re, sqlite3
from unittest import mock

Column = collections.namedtuple("Column", "name type_code")


class Cursor:
    def __init__(self, db):
        self.db, self.cx = db, db.con.cursor()

    def execute(self, op, parameters=None):
        self.rows = None
        if "pg_class" in op:
            self.rows = [(t,) for t in self.db.names]
            self.names = ["relname"]
            return
        for p in parameters or ():          # identifiers or values, as psycopg2 writes them
            op = op.replace("%s", str(p) if not isinstance(p, str) else "'%s'" % p, 1)
        op = re.sub(r"\b(date|timestamp|timestamptz)\s*'", "'", op)
        op = re.sub(r"::(date|timestamp\w*)\b", "", op)
        op = re.sub(r"'(\d{4}-\d\d-\d\d)[ T](\d\d:\d\d:\d\d)(\.\d+)?([+]00(:00)?|Z)?'", lambda m: "'%s %s.%s'" % (m[1], m[2], ((m[3] or ".")[1:] + "000000")[:6]), op)
        self.cx.execute(op)
        self.names = [d[0] for d in self.cx.description]
        self.rows = [tuple(self.db.out(n, v) for n, v in zip(self.names, r)) for r in self.cx.fetchall()]

    @property
    def description(self):
        return [Column(n, None) for n in self.names]

    def fetchall(self):
        r, self.rows = self.rows, []
        return r

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Database:
    """tables: name -> list of dicts with the same keys"""
    def __init__(self, tables):
        self.con = sqlite3.connect(":memory:")
        self.con.execute("attach ':memory:' as posmovedb")
        self.con.execute("pragma case_sensitive_like = 1")
        self.names = list(tables)
        self.bools = set()
        for name, rows in tables.items():
            keys = list(rows[0])
            self.bools |= {k for k in keys if isinstance(rows[0][k], bool)}
            self.con.execute("create table posmovedb.%s (%s)" % (name, ",".join(keys)))
            self.con.executemany("insert into posmovedb.%s values (%s)" % (name, ",".join("?" * len(keys))), [[self.into(r[k]) for k in keys] for r in rows])

    def into(self, v):
        return v.strftime("%Y-%m-%d %H:%M:%S.%f") if isinstance(v, datetime.datetime) else int(v) if isinstance(v, bool) else v

    def out(self, name, v):
        if name == "time_recorded" and v is not None:
            return datetime.datetime.strptime(v, "%Y-%m-%d %H:%M:%S.%f").replace(tzinfo=datetime.timezone.utc)
        return bool(v) if name in self.bools and v is not None else v

    def cursor(self, *a, **k):
        return Cursor(self)

    def close(self):
        pass

    def commit(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@contextlib.contextmanager
def database(tables):
    import psycopg2
    db = Database(tables)
    with mock.patch.object(psycopg2, "connect", lambda *a, **k: db):
        yield db
