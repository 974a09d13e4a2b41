"""Generators: database states, edits, changesets.  All randomness comes from the given random.Random."""
import math, os, random, shutil, sqlite3, struct
from proj import q, UNDEF

# ---------------------------------------------------------------- values
INTS = [0, 1, -1, 2, 7, 127, 128, 255, 256, -128, 32767, 65536, 2**31 - 1, 2**31, -2**31 - 1, 2**53, 2**53 + 1, 2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1]
REALS = [math.inf, -math.inf, 0.5, -0.5, 0.1, 0.1 + 2**-56, 1e300, 5e-324, 2.5e15, 3.14159265358979, math.nextafter(0.5, 1), -1e-7, 1.7976931348623157e308, 123456.789]
TEXTS = ['', 'a', 'A', 'a ', ' a', 'b', 'é', 'e\u0301', '\U0001F600', '1', '0', '1.5', 'NULL', "it's", 'say "x"', 'back\\slash', 'tab\tnl\ncr\r', '\x01\x1f', 'a\0b', 'a\0c', '\0', '%s%d%w', 'x' * 127, 'x' * 128, 'y' * 129, 'z' * 300, '{"j":[1]}', '</x>', "';--", 'u\\u0041']
BLOBS = [b'', b'a', b'A', b'\0', b'\0\0', b'\xff\xfe', b'1', bytes(range(256)), b'q' * 127, b'q' * 128, b'GP\0\1' + bytes(20), b'ab', b'abc', b'abcd']
# values that look alike
ALIKE = [None, 0, 1, -1, 2**53, 2**53 + 1, 2**63 - 1, -2**63, 0.5, math.nextafter(0.5, 1), 1e300, '', '0', '1', 'a', 'A', 'a ', 'NULL', 'é', 'a\0b', 'a\0c', b'', b'0', b'a', b'\0', 'x' * 128, 'x' * 127]
# long values that differ at the start, in the middle and at the end
LONGS = [p + c + s for p, s in (('', 'p' * 700), ('p' * 300, 'p' * 400), ('p' * 700, ''), ('p' * 255, 'p' * 445), ('p' * 256, 'p' * 444)) for c in 'pqP'] + [b'p' * 701, b'p' * 350 + b'\0' + b'p' * 350, b'p' * 700 + b'q', b'P' + b'p' * 700]
LONGS = list(dict.fromkeys(LONGS))

def near(rng, v):
    """a value that is nearly the same"""
    if isinstance(v, int): return rng.choice([v + 1, v - 1, v ^ (1 << rng.randint(0, 62)), -v]) if -2**62 < v < 2**62 else v - 1 if v > 0 else v + 1
    if isinstance(v, float):
        w = rng.choice([math.nextafter(v, math.inf), math.nextafter(v, -math.inf), -v, v * 2])
        return w if math.isfinite(w) and w else v
    if isinstance(v, str):
        if not v: return rng.choice(['a', '\0', ' '])
        i = rng.choice([0, len(v) // 2, len(v) - 1, rng.randrange(len(v))])
        return rng.choice([v[:i] + rng.choice('qQ\0 ') + v[i + 1:], v[:i] + v[i].swapcase() + v[i + 1:], v + rng.choice(' z\0'), v[:-1], v.swapcase(), v[:i] + v[i + 1:]])
    if isinstance(v, bytes):
        if not v: return b'\0'
        i = rng.choice([0, len(v) // 2, len(v) - 1, rng.randrange(len(v))])
        return rng.choice([v[:i] + bytes([v[i] ^ 1 << rng.randint(0, 7)]) + v[i + 1:], v + b'\0', v[:-1], v[:i] + v[i + 1:]])
    return v

def longval(rng):
    n = rng.choice([64, 100, 255, 256, 257, 1000, rng.randint(1, 3000)]); c = 'abcé'[rng.randint(0, 3)]
    return rng.choice([c * n, (c * n).encode(), bytes(rng.randint(0, 255) for _ in range(min(n, 300)))])

def vals(rng, typ):
    """a value that a column of the declared type keeps as it is"""
    k = rng.random()
    if typ in ('', 'BLOB'):
        return rng.choice([None, rng.choice(INTS), rng.choice(REALS), rng.choice(TEXTS), rng.choice(BLOBS), rng.randint(-1000, 1000), 'v%d' % rng.randint(0, 10**6), struct.pack('>I', rng.randint(0, 2**32 - 1)), longval(rng)])
    if typ == 'INTEGER':
        return None if k < .1 else rng.choice(INTS) if k < .5 else 'text!' if k < .53 else rng.randint(-10**6, 10**6)
    if typ == 'TEXT': return None if k < .1 else rng.choice(TEXTS) if k < .6 else b'blob' if k < .63 else rng.choice('abcé') * rng.randint(1, 1500) if k < .67 else 't%d' % rng.randint(0, 10**6)
    if typ == 'REAL': return None if k < .1 else rng.choice(REALS) if k < .5 else rng.randint(-9, 9) + .0 if k < .6 else rng.uniform(-1000, 1000)
    if typ == 'NUMERIC': return None if k < .1 else rng.choice(INTS) if k < .4 else rng.choice([0.5, 2.25, -7.125])
    raise ValueError(typ)

# ---------------------------------------------------------------- tables
class Col:
    def __init__(s, name, typ='', nn=False, pk=0, coll=''): s.name, s.typ, s.nn, s.pk, s.coll, s.oc = name, typ, nn, pk, coll, ''
    def __repr__(s): return 'Col(%r,%r,%r,%r)' % (s.name, s.typ, s.nn, s.pk)

class Table:
    def __init__(s, name, cols, extra='', auto=False, norowid=False, strict=False):
        s.name, s.cols, s.extra, s.norowid, s.auto, s.strict = name, cols, extra, norowid, auto, strict
        s.gen = []       # (position, definition) of generated columns
    def nullable(s):
        """rows with NULL in the key are possible"""
        p = s.pkcols()
        return bool(p) and not s.norowid and any(not s.cols[i].nn for i in p) and not (len(p) == 1 and s.cols[p[0]].typ == 'INTEGER')
    def nullrow(s, rng):
        p = [i for i in s.pkcols() if not s.cols[i].nn]; r = list(s.genrow(rng, s.genkey(rng, ())))
        for i in rng.sample(p, rng.randint(1, len(p))): r[i] = None
        return tuple(r)
    def pkcols(s): return [i for _, i in sorted((c.pk, i) for i, c in enumerate(s.cols) if c.pk)]
    def flags(s): return [c.pk for c in s.cols]
    def key(s, row): return tuple(row[i] for i in s.pkcols())
    def sql(s):
        d = []
        pk = s.pkcols()
        for c in s.cols:
            x = q(c.name) + (' ' + c.typ if c.typ else ' ANY' if s.strict else '')
            oc = ' ON CONFLICT ' + c.oc if c.oc else ''
            if len(pk) == 1 and c.pk: x += ' PRIMARY KEY' + oc + (' AUTOINCREMENT' if s.auto else '')
            if c.nn: x += ' NOT NULL' + oc
            if c.coll: x += ' COLLATE ' + c.coll
            d.append(x)
        for pos, x in sorted(s.gen, reverse=True): d.insert(pos, x)
        if len(pk) > 1: d.append('PRIMARY KEY (%s)' % ', '.join(q(s.cols[i].name) for i in pk) + (' ON CONFLICT ' + s.cols[pk[0]].oc if s.cols[pk[0]].oc else ''))
        if s.extra: d.append(s.extra)
        return 'CREATE TABLE %s (%s)%s' % (q(s.name), ', '.join(d), ', '.join(([' WITHOUT ROWID'] if s.norowid else []) + ([' STRICT'] if s.strict else [])))
    def genkey(s, rng, used):
        while True:
            k = []
            for i in s.pkcols():
                t = s.cols[i].typ
                k.append(rng.choice([rng.randint(1, 60), rng.choice(INTS)]) if t in ('INTEGER', 'INT') else
                         rng.choice([x for x in TEXTS if x is not None] + ['k%d' % rng.randint(0, 99)]) if t == 'TEXT' else
                         rng.choice(BLOBS + [bytes([rng.randint(0, 255)])]) if t == 'BLOB' else
                         rng.choice(REALS) if t == 'REAL' else rng.choice([rng.randint(0, 60), 'k%d' % rng.randint(0, 20)]))
            if tuple(k) not in used: return tuple(k)
    def genrow(s, rng, key):
        r = []
        pk = s.pkcols()
        for i, c in enumerate(s.cols):
            if c.pk: r.append(key[pk.index(i)])
            else:
                v = vals(rng, c.typ)
                while c.nn and v is None: v = vals(rng, c.typ)
                r.append(v)
        return tuple(r)

NAMES = ['simple', 'with space', 'quo"te', "apo'strophe", 'br[ack]et', 'ünïcode', 'select', 'per%cent%w', 'semi;colon', 'UPPER', 'a.b', 'x`y', 'back\\slash', 'dash-ed', '0digit', 'main', 'aux', 'temp', 'sqlite', 'n' * 300, 'tab\tnl\n', '%Q', '?1', ':v', '日本', 'table_name', 'my_rtree_x', 'old_gpkg_contents', 'GPKG_y', 'gpkg_x', 'Rtree_y', 'a_gpkg_ogr_contents', 'x_sqlite_sequence', 'rtree']
CNAMES = ['geom', 'a b', 'c"q', "d's", 'from', 'é', 'x%sy', 'g.h', 'val', '[z]', 'A', 'col;', 'w`w', 'b\\s', 'rowid', 'oid', '_rowid_', '?', '$1', 'c' * 200, 'nl\nx', 'main', 'x' , 'y', 'ctid', 'new', 'old']

OC = ['REPLACE', 'REPLACE', 'IGNORE', 'FAIL', 'ROLLBACK', 'ABORT', '']

def wide(rng):
    n = rng.choice([8, 20, 130]); c = [Col('c%d' % i, '') for i in range(n)]
    c.insert(rng.choice([0, n // 2, n, rng.randint(0, n)]), Col('k', rng.choice(['INTEGER', 'TEXT']), nn=True, pk=1))
    return c

def shapes(rng, n=None, odd=True):
    """tables of all kinds of key shapes, with random names; odd: also with generated columns and keys that can be NULL"""
    names = NAMES[:]; rng.shuffle(names); names = iter(names + ['t%d' % i for i in range(50)])
    def cn(k):
        c = CNAMES[:]; rng.shuffle(c); return c[:k]
    T = []
    c = cn(4); T.append(Table(next(names), [Col('fid', 'INTEGER', pk=1), Col(c[0], ''), Col(c[1], 'TEXT'), Col(c[2], 'REAL'), Col(c[3], 'INTEGER')]))
    c = cn(3); T.append(Table(next(names), [Col(c[0], ''), Col('id', 'INTEGER', nn=True, pk=1), Col(c[1], 'NUMERIC'), Col(c[2], 'BLOB', nn=True)]))
    c = cn(3); T.append(Table(next(names), [Col(c[0], 'TEXT', nn=True, pk=1), Col(c[1], 'TEXT'), Col(c[2], '')]))
    c = cn(4); T.append(Table(next(names), [Col(c[0], 'TEXT', nn=True, pk=2), Col(c[1], ''), Col(c[2], 'INTEGER', nn=True, pk=1), Col(c[3], '')]))
    c = cn(3); T.append(Table(next(names), [Col(c[0], 'BLOB', nn=True, pk=1), Col(c[1], ''), Col(c[2], 'REAL')], norowid=True))
    c = cn(2); T.append(Table(next(names), [Col(c[0], 'INTEGER', nn=True, pk=1), Col(c[1], 'TEXT', nn=True, pk=2)]))
    c = cn(1); T.append(Table(next(names), [Col(c[0], 'INTEGER', pk=1)], auto=rng.random() < .5))
    c = cn(3); T.append(Table(next(names), [Col(c[0], 'INT', nn=True, pk=1), Col(c[1], ''), Col(c[2], '')]))
    c = cn(2); T.append(Table(next(names), [Col(c[0], ''), Col(c[1], 'TEXT')]))                                       # no key
    T.append(Table(next(names), wide(rng)))
    c = cn(4); T.append(Table(next(names), [Col(c[0], ''), Col(c[1], rng.choice(['INTEGER', 'TEXT', 'BLOB', '']), nn=True, pk=1), Col(c[2], ''), Col(c[3], '')], strict=True, norowid=rng.random() < .3))
    for t in T:
        for c in t.cols:
            if not c.pk and c.typ in ('', 'TEXT') and len(t.cols) < 100 and rng.random() < .2: c.coll = rng.choice(['NOCASE', 'RTRIM'])
    for t in T:
        if rng.random() < .3:
            for c in t.cols: c.oc = rng.choice(OC)
    for t in T if odd else []:
        if rng.random() < .25:
            for g in range(rng.randint(1, 2)):
                c = rng.choice(t.cols); stored = not t.norowid and rng.random() < .3
                t.gen.append((rng.randint(0, len(t.cols)), 'gen%d%s GENERATED ALWAYS AS (%s || \'g%d\') %s' % (g, ' ANY' if t.strict else '', q(c.name), g, 'STORED' if stored else 'VIRTUAL')))
        if not t.norowid and not t.strict and rng.random() < .3:
            for c in t.cols:
                if c.pk and c.typ != 'INTEGER' or len(t.pkcols()) > 1: c.nn = False
    rng.shuffle(T)
    return T[:n] if n else T

# ---------------------------------------------------------------- states
class State:
    """rows[table name] : dict key -> row (list of rows for tables without a key)"""
    def __init__(s, tables, rows=None, script='', nulls=None):
        s.nulls = nulls or {}      # table name -> rows with NULL in the key
        s.tables = tables; s.rows = rows if rows is not None else {t.name: ({} if t.pkcols() else []) for t in tables}
        s.script = script      # further SQL at creation (triggers, indexes, foreign keys)
    def copy(s): return State(s.tables, {k: (dict(v) if isinstance(v, dict) else list(v)) for k, v in s.rows.items()}, s.script, dict(s.nulls))
    def tab(s, n): return next(t for t in s.tables if t.name == n)
    def build(s, path, order=None, pragma=''):
        if os.path.exists(path): os.unlink(path)
        con = connect(path)
        con.executescript(pragma)
        con.execute('BEGIN')
        for t in s.tables: con.execute(t.sql())
        for t in s.tables:
            R = list(s.rows[t.name].values()) if t.pkcols() else list(s.rows[t.name])
            R += s.nulls.get(t.name, [])
            if order: order.shuffle(R)
            ins(con, t, R)
        con.execute('COMMIT')
        if s.script: con.executescript(s.script)
        con.close()
        return path

def connect(path):
    con = sqlite3.connect(path, isolation_level=None)
    con.execute('pragma synchronous=off')
    return con
def ins(con, t, R):
    con.executemany('INSERT INTO %s (%s) VALUES (%s)' % (q(t.name), ','.join(q(c.name) for c in t.cols), ','.join('?' * len(t.cols))), R)

def edit(path, a, b, rng=None):
    """turns the database file holding state a into state b by statements"""
    con = connect(path)
    con.execute('BEGIN')
    for t in a.tables:
        if not t.pkcols():
            if a.rows[t.name] != b.rows[t.name]:
                con.execute('DELETE FROM %s' % q(t.name)); ins(con, t, b.rows[t.name])
            continue
        if a.nulls.get(t.name, []) != b.nulls.get(t.name, []):
            con.execute('DELETE FROM %s WHERE %s' % (q(t.name), ' OR '.join('%s IS NULL' % q(t.cols[i].name) for i in t.pkcols()))); ins(con, t, b.nulls.get(t.name, []))
        A, B = a.rows[t.name], b.rows[t.name]
        w = ' AND '.join('%s IS ?' % q(t.cols[i].name) for i in t.pkcols())
        for k in A:
            if k not in B: con.execute('DELETE FROM %s WHERE %s' % (q(t.name), w), k)
        for k, r in B.items():
            if k not in A: ins(con, t, [r])
            elif not same(A[k], r):
                ch = [i for i in range(len(r)) if not same((A[k][i],), (r[i],))]
                con.execute('UPDATE %s SET %s WHERE %s' % (q(t.name), ','.join('%s=?' % q(t.cols[i].name) for i in ch), w), [r[i] for i in ch] + list(k))
    con.execute('COMMIT')
    con.close()

def same(r1, r2): return len(r1) == len(r2) and all(type(x) is type(y) and x == y for x, y in zip(r1, r2))
def confusable(x, y):
    """an integer and a real of the same value: SQLite's comparison does not tell them apart"""
    return type(x) is not type(y) and isinstance(x, (int, float)) and isinstance(y, (int, float)) and x == y

def fill(rng, tables, n=8, script=''):
    s = State(tables, script=script)
    for t in tables:
        if t.pkcols():
            for _ in range(rng.randint(n // 2, n)):
                k = t.genkey(rng, s.rows[t.name]); s.rows[t.name][k] = t.genrow(rng, k)
            if t.nullable() and rng.random() < .5: s.nulls[t.name] = [t.nullrow(rng) for _ in range(rng.randint(1, 3))]
        else:
            for _ in range(rng.randint(0, 5)): s.rows[t.name].append(t.genrow(rng, ()))
    return s

def newval(rng, c, old):
    for _ in range(50):
        v = vals(rng, c.typ)
        if rng.random() < .4 and (c.typ == '' or type(old) is {'TEXT': str, 'BLOB': bytes, 'INTEGER': int, 'REAL': float}.get(c.typ)): v = near(rng, old)
        if c.nn and v is None: continue
        if not same((v,), (old,)): return v
    return old

def mutate(rng, s, ins_=.3, del_=.25, upd=.4, keys=None, tables=None, keep=()):
    """random edits of a state; keys(table, rng, used) overrides the choice of inserted keys"""
    b = s.copy()
    for t in s.tables:
        if tables is not None and t.name not in tables: continue
        if not t.pkcols():
            continue
        R = b.rows[t.name]
        for k in list(R):
            x = rng.random()
            if x < del_: del R[k]
            elif x < del_ + upd:
                non = [i for i, c in enumerate(t.cols) if not c.pk]
                if not non: continue
                ch = rng.sample(non, rng.randint(1, len(non)) if len(non) < 10 else rng.randint(1, 3))
                r = list(R[k])
                for i in ch: r[i] = newval(rng, t.cols[i], r[i])
                R[k] = tuple(r)
        m = max(1, len(s.rows[t.name]))
        for _ in range(sum(rng.random() < ins_ for _ in range(m))):
            k = (keys or (lambda t, rng, used: t.genkey(rng, used)))(t, rng, set(R) | set(s.rows[t.name]))
            R[k] = t.genrow(rng, k)
        if t.nullable() and rng.random() < .4: b.nulls[t.name] = [t.nullrow(rng) for _ in range(rng.randint(0, 3))]
    return b

# ---------------------------------------------------------------- packed, systematic states
def pair_states(pool=ALIKE, typ='', pk='INTEGER', name='pairs', chunk=90, coll=''):
    """all ordered pairs (old, new) of different values of the pool, one row each: (base, modified)"""
    pairs = [(x, y) for x in pool for y in pool if not same((x,), (y,))]
    out = []
    for c in range(0, len(pairs), chunk):
        t = Table(name, [Col('fid', pk, nn=(pk != 'INTEGER'), pk=1), Col('v', typ, coll=coll), Col('w', '')])
        a, b = State([t]), State([t])
        for i, (x, y) in enumerate(pairs[c:c + chunk]):
            k = i + 1 if pk == 'INTEGER' else 'k%d' % i
            a.rows[name][(k,)] = (k, x, i); b.rows[name][(k,)] = (k, y, i)
        out.append((a, b))
    return out

def subset_states(rng, ncol=4, name='subsets'):
    """every subset of changed columns, plus inserted and deleted rows"""
    t = Table(name, [Col('fid', 'INTEGER', pk=1)] + [Col('c%d' % i, '') for i in range(ncol)])
    a, b = State([t]), State([t])
    for m in range(1 << ncol):
        r = [m + 1] + [vals(rng, '') for _ in range(ncol)]
        a.rows[name][(m + 1,)] = tuple(r)
        for i in range(ncol):
            if m >> i & 1: r[i + 1] = newval(rng, t.cols[i + 1], r[i + 1])
        b.rows[name][(m + 1,)] = tuple(r)
    for i in range(4):
        k = 100 + i; a.rows[name][(k,)] = tuple([k] + [vals(rng, '') for _ in range(ncol)])
        k = 200 + i; b.rows[name][(k,)] = tuple([k] + [vals(rng, '') for _ in range(ncol)])
    return a, b

# ---------------------------------------------------------------- changesets from states
def diff_parts(a, b, rng=None):
    """[(table, flags, entries)] describing the change from a to b (the harness' own diff)"""
    parts = []
    for t in a.tables:
        if not t.pkcols(): continue
        A, B = a.rows[t.name], b.rows[t.name]
        E = []
        for k, r in B.items():
            if k not in A: E.append(('I', [], list(r)))
            elif not same(A[k], r):
                o = A[k]
                E.append(('U', [o[i] if c.pk or not same((o[i],), (r[i],)) else UNDEF for i, c in enumerate(t.cols)],
                          [r[i] if not same((o[i],), (r[i],)) else UNDEF for i in range(len(r))]))
        for k, r in A.items():
            if k not in B: E.append(('D', list(r), []))
        if rng: rng.shuffle(E)
        if E: parts.append((t.name, [1 if c.pk else 0 for c in t.cols], E))
    return parts

# ---------------------------------------------------------------- GeoPackage
from proj import box as _box
def _st(con):
    con.create_function('ST_IsEmpty', 1, lambda v: None if _box(v) is None else int(_box(v)[0] is None), deterministic=True)
    for n, i in (('ST_MinX', 0), ('ST_MaxX', 0), ('ST_MinY', 1), ('ST_MaxY', 1)):
        con.create_function(n, 1, lambda v, i=i: _box(v)[i] if _box(v) else None, deterministic=True)
_connect0 = connect
def connect(path):
    con = _connect0(path); _st(con); return con

def point(x, y): return b'GP\0\1' + struct.pack('<i', 4326) + b'\1' + struct.pack('<Idd', 1, x, y)

GPKG_SQL = '''
CREATE TABLE gpkg_spatial_ref_sys (srs_name TEXT NOT NULL,srs_id INTEGER NOT NULL PRIMARY KEY,organization TEXT NOT NULL,organization_coordsys_id INTEGER NOT NULL,definition  TEXT NOT NULL,description TEXT);
INSERT INTO gpkg_spatial_ref_sys VALUES ('WGS 84', 4326, 'EPSG', 4326, 'GEOGCS["WGS 84"]', '');
CREATE TABLE gpkg_contents (table_name TEXT NOT NULL PRIMARY KEY,data_type TEXT NOT NULL,identifier TEXT UNIQUE,description TEXT DEFAULT '',last_change DATETIME NOT NULL DEFAULT (strftime('%Y-%m-%dT%H:%M:%fZ','now')),min_x DOUBLE, min_y DOUBLE,max_x DOUBLE, max_y DOUBLE,srs_id INTEGER,CONSTRAINT fk_gc_r_srs_id FOREIGN KEY (srs_id) REFERENCES gpkg_spatial_ref_sys(srs_id));
CREATE TABLE gpkg_ogr_contents(table_name TEXT NOT NULL PRIMARY KEY,feature_count INTEGER DEFAULT NULL);
CREATE TABLE gpkg_geometry_columns (table_name TEXT NOT NULL,column_name TEXT NOT NULL,geometry_type_name TEXT NOT NULL,srs_id INTEGER NOT NULL,z TINYINT NOT NULL,m TINYINT NOT NULL,CONSTRAINT pk_geom_cols PRIMARY KEY (table_name, column_name),CONSTRAINT uk_gc_table_name UNIQUE (table_name),CONSTRAINT fk_gc_tn FOREIGN KEY (table_name) REFERENCES gpkg_contents(table_name),CONSTRAINT fk_gc_srs FOREIGN KEY (srs_id) REFERENCES gpkg_spatial_ref_sys (srs_id));
CREATE TABLE gpkg_extensions (table_name TEXT,column_name TEXT,extension_name TEXT NOT NULL,definition TEXT NOT NULL,scope TEXT NOT NULL,CONSTRAINT ge_tce UNIQUE (table_name, column_name, extension_name));
'''
GPKG_TRG_SQL = '''
CREATE VIRTUAL TABLE "rtree_{t}_geometry" USING rtree(id, minx, maxx, miny, maxy);
CREATE TRIGGER "rtree_{t}_geometry_insert" AFTER INSERT ON "{t}" WHEN (new."geometry" NOT NULL AND NOT ST_IsEmpty(NEW."geometry")) BEGIN INSERT OR REPLACE INTO "rtree_{t}_geometry" VALUES (NEW."fid",ST_MinX(NEW."geometry"), ST_MaxX(NEW."geometry"),ST_MinY(NEW."geometry"), ST_MaxY(NEW."geometry")); END;
CREATE TRIGGER "rtree_{t}_geometry_update1" AFTER UPDATE OF "geometry" ON "{t}" WHEN OLD."fid" = NEW."fid" AND (NEW."geometry" NOTNULL AND NOT ST_IsEmpty(NEW."geometry")) BEGIN INSERT OR REPLACE INTO "rtree_{t}_geometry" VALUES (NEW."fid",ST_MinX(NEW."geometry"), ST_MaxX(NEW."geometry"),ST_MinY(NEW."geometry"), ST_MaxY(NEW."geometry")); END;
CREATE TRIGGER "rtree_{t}_geometry_update2" AFTER UPDATE OF "geometry" ON "{t}" WHEN OLD."fid" = NEW."fid" AND (NEW."geometry" ISNULL OR ST_IsEmpty(NEW."geometry")) BEGIN DELETE FROM "rtree_{t}_geometry" WHERE id = OLD."fid"; END;
CREATE TRIGGER "rtree_{t}_geometry_update3" AFTER UPDATE ON "{t}" WHEN OLD."fid" != NEW."fid" AND (NEW."geometry" NOTNULL AND NOT ST_IsEmpty(NEW."geometry")) BEGIN DELETE FROM "rtree_{t}_geometry" WHERE id = OLD."fid"; INSERT OR REPLACE INTO "rtree_{t}_geometry" VALUES (NEW."fid",ST_MinX(NEW."geometry"), ST_MaxX(NEW."geometry"),ST_MinY(NEW."geometry"), ST_MaxY(NEW."geometry")); END;
CREATE TRIGGER "rtree_{t}_geometry_update4" AFTER UPDATE ON "{t}" WHEN OLD."fid" != NEW."fid" AND (NEW."geometry" ISNULL OR ST_IsEmpty(NEW."geometry")) BEGIN DELETE FROM "rtree_{t}_geometry" WHERE id IN (OLD."fid", NEW."fid"); END;
CREATE TRIGGER "rtree_{t}_geometry_delete" AFTER DELETE ON "{t}" WHEN old."geometry" NOT NULL BEGIN DELETE FROM "rtree_{t}_geometry" WHERE id = OLD."fid"; END;
CREATE TRIGGER "trigger_insert_feature_count_{t}" AFTER INSERT ON "{t}" BEGIN UPDATE gpkg_ogr_contents SET feature_count = feature_count + 1 WHERE lower(table_name) = lower('{t}'); END;
CREATE TRIGGER "trigger_delete_feature_count_{t}" AFTER DELETE ON "{t}" BEGIN UPDATE gpkg_ogr_contents SET feature_count = feature_count - 1 WHERE lower(table_name) = lower('{t}'); END;
'''
CONTENTS = Table('gpkg_contents', [Col('table_name', 'TEXT', True, 1), Col('data_type', 'TEXT', True), Col('identifier', 'TEXT'), Col('description', 'TEXT'),
                 Col('last_change', 'DATETIME', True), Col('min_x', 'DOUBLE'), Col('min_y', 'DOUBLE'), Col('max_x', 'DOUBLE'), Col('max_y', 'DOUBLE'), Col('srs_id', 'INTEGER')])

class Gpkg(State):
    """GeoPackage with layers (table with fid, geometry and further columns); gpkg_contents is part of the state"""
    def copy(s): return Gpkg(s.tables, {k: (dict(v) if isinstance(v, dict) else list(v)) for k, v in s.rows.items()}, s.script)
    def build(s, path, order=None, pragma=''):
        if os.path.exists(path): os.unlink(path)
        con = connect(path)
        con.executescript(pragma)
        con.execute('BEGIN')
        for x in GPKG_SQL.split(';\n'):
            if x.strip(): con.execute(x)
        ins(con, CONTENTS, list(s.rows['gpkg_contents'].values()))
        for t in s.tables:
            if t is CONTENTS: continue
            con.execute(t.sql())
            if is_layer(t):
                con.execute('INSERT INTO gpkg_geometry_columns VALUES (?,?,?,4326,0,0)', (t.name, 'geometry', 'POINT'))
                con.execute('INSERT INTO gpkg_ogr_contents VALUES (?,0)', (t.name,))
                for x in GPKG_TRG_SQL.replace('{t}', t.name).split(';\nCREATE'):
                    if x.strip(): con.execute(x if x.lstrip().startswith('CREATE') else 'CREATE' + x)
            R = list(s.rows[t.name].values()) if t.pkcols() else list(s.rows[t.name])
            if order: order.shuffle(R)
            ins(con, t, R)
        con.execute('COMMIT')
        if s.script: con.executescript(s.script)
        con.close()
        return path

LAYER = [Col('fid', 'INTEGER', nn=True, pk=1), Col('geometry', 'POINT'), Col('name', 'TEXT'), Col('rating', 'MEDIUMINT')]
def is_layer(t): return any(c.name == 'geometry' for c in t.cols)
def gpkg_state(rng, layers=('simple',), n=8, extra=None, script='', std=False):
    tabs = [CONTENTS]
    for l in layers:
        c = LAYER[:]
        if not std and rng.random() < .5: rng.shuffle(c)
        tabs.append(Table(l, c))
    tabs += extra or []
    s = Gpkg(tabs, script=script)
    for l in layers:
        s.rows['gpkg_contents'][(l,)] = (l, 'features', l, '', '2020-01-%02dT00:00:00.000Z' % rng.randint(1, 28), rng.uniform(-9, 0), 0.5, 1.5, rng.uniform(2, 9), 4326)
        for i in range(1, n + 1): s.rows[l][(i,)] = gpkg_row(rng, i, s.tab(l))
    for t in extra or []:
        for i in range(n):
            if t.pkcols(): k = t.genkey(rng, s.rows[t.name]); s.rows[t.name][k] = t.genrow(rng, k)
            else: s.rows[t.name].append(t.genrow(rng, ()))
    return s
def gpkg_row(rng, fid, t=None):
    g = None if rng.random() < .15 else point(float('nan'), float('nan')) if rng.random() < .1 else point(rng.uniform(-180, 180), rng.uniform(-90, 90))
    r = dict(zip(('fid', 'geometry', 'name', 'rating'), (fid, g, rng.choice(TEXTS + [None]), rng.choice([None, rng.randint(-9, 9), 2**40]))))
    return tuple(r[c.name] for c in (t.cols if t else LAYER))

def gpkg_mutate(rng, s, ins_=.3, del_=.2, upd=.4, keys=None, contents=.5):
    b = s.copy()
    for t in s.tables:
        R = b.rows[t.name]
        if t is CONTENTS:
            for k in list(R):
                if rng.random() < contents:
                    r = list(R[k]); r[4] = '2021-%02d-11T11:11:%02d.000Z' % (rng.randint(1, 12), rng.randint(0, 59))
                    if rng.random() < .5: r[5] = rng.uniform(-99, 0)
                    if rng.random() < .3: r[3] = 'descr %d' % rng.randint(0, 999)
                    R[k] = tuple(r)
            continue
        if not is_layer(t):
            x = mutate(rng, s, ins_, del_, upd, tables=[t.name], keys=keys); b.rows[t.name] = x.rows[t.name]; continue
        for k in list(R):
            x = rng.random()
            if x < del_: del R[k]
            elif x < del_ + upd:
                n = gpkg_row(rng, k[0], t); ch = rng.sample([i for i in range(4) if not t.cols[i].pk], rng.randint(1, 3))
                R[k] = tuple(n[i] if i in ch else R[k][i] for i in range(4))
        for _ in range(sum(rng.random() < ins_ for _ in range(max(1, len(s.rows[t.name]))))):
            k = keys(t, rng, set(R) | set(s.rows[t.name])) if keys else (max([x[0] for x in list(R) + list(s.rows[t.name])] + [0]) + rng.randint(1, 2),)
            R[k] = gpkg_row(rng, k[0], t)
    return b

# ---------------------------------------------------------------- rebase triples
def rebase_keys(lo, hi):
    def f(t, rng, used):
        c = t.cols[t.pkcols()[0]]
        while True:
            k = rng.randint(lo, hi)
            k = (k,) if c.typ in ('INTEGER', 'INT', '') else ('k%d' % k,)
            if k not in used: return k
    return f

def gap_ok(b, t, m):
    """True unless a key that the renumbering hands out is occupied by a row of BASE (see known findings)"""
    for tab in b.tables:
        if len(tab.pkcols()) != 1: continue
        B, T, M = b.rows[tab.name], t.rows[tab.name], m.rows[tab.name]
        ti = [k[0] for k in T if k not in B]
        mi = [k[0] for k in M if k not in B]
        if not ti or not mi or not set(ti) & set(mi): continue
        if not all(isinstance(x, int) for x in ti):
            continue
        lo = max(ti) + 1; hi = lo + len(mi)
        if hi >= 2**63: return False
        if any(isinstance(k[0], int) and lo <= k[0] <= hi for k in B): return False
    return True

def rebase_tables(rng, n=None):
    """tables with a single-column key (integer or text)"""
    T = [t for t in shapes(rng) if len(t.pkcols()) == 1 and t.cols[t.pkcols()[0]].typ in ('INTEGER', 'INT', 'TEXT')]
    return T[:n] if n else T

def triple(rng, tables=None, n=8, ins_=.4, del_=.2, upd=.45):
    for _ in range(200):
        tabs = tables or rebase_tables(rng)
        b = fill(rng, tabs, n)
        for t in tabs:     # low keys for BASE, so that the range above the inserted keys is free
            if not t.pkcols(): continue
            i = t.pkcols()[0]; R = list(b.rows[t.name].values()); b.rows[t.name] = {}
            for j, r in enumerate(R):
                r = list(r); r[i] = j + 1 if t.cols[i].typ in ('INTEGER', 'INT', '') else r[i]; b.rows[t.name][(r[i],)] = tuple(r)
        off = rng.choice([0, 0, 0, 100, 2**31 - 5, 2**53 - 3, 2**62, 2**32 - n - 6, 2**16 - n - 6, 2**32 + 2**31 - n - 6, 256 - n - 6])
        neg = rng.random() < .15
        k = rebase_keys(-12, -1) if neg else rebase_keys(n + 1 + off, n + 8 + off)
        t = mutate(rng, b, ins_, del_, upd, keys=k)
        m = mutate(rng, b, ins_, del_, upd, keys=k)
        if rng.random() < .3:   # some identical edits on both sides
            for x in tabs:
                for key, row in list(t.rows[x.name].items() if x.pkcols() else []):
                    if rng.random() < .2: m.rows[x.name][key] = row
        if gap_ok(b, t, m): return b, t, m
    raise RuntimeError('no triple')
