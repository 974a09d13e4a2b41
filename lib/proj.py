"""Projection of files to the abstract contents of the specification (independent of geodiff's own code)."""
import base64, hashlib, json, math, os, sqlite3, struct
from urllib.parse import quote

def esc(b):
    if isinstance(b, str): b = b.encode('utf8', 'surrogatepass')
    return ''.join(chr(c) if (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c in b' _.,-') else '%%%02X' % c for c in b)

def tok_bytes(kind, b):
    if len(b) > 120: return '%s#%s:%d' % (kind, hashlib.sha256(b).hexdigest()[:20], len(b))
    return kind + ':' + (esc(b) if kind == 't' else b.hex())

INF = ['r:-9e999', 'r:9e999']   # any number out of range
RENDER = {'n': 'null'}   # token -> how the value has to appear in JSON
def note(tok, json_text):
    RENDER[tok] = json_text
    return tok

def tok(typ, v):
    """typ: 'null' 'integer' 'real' 'text' 'blob'"""
    if typ == 'null': return note('n', 'null')
    if typ == 'integer': return note('i:%d' % v, '%d' % v)
    if typ == 'real':
        return note('r:' + struct.pack('>d', v).hex(), 'null' if v != v else INF[v > 0] if abs(v) == math.inf else 'r:%.6f' % v)
    if typ == 'text': return note(tok_bytes('t', v), tok_bytes('s', v) if len(v) > 120 else 's:' + esc(v))
    if typ == 'blob':
        e = base64.b64encode(v)
        return note(tok_bytes('b', v), tok_bytes('s', e) if len(e) > 120 else 's:' + esc(e))
    raise ValueError(typ)

def pyval_tok(v):
    """token of a Python value as used by the generators"""
    if v is None: return tok('null', None)
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return tok('integer', v)
    if isinstance(v, float): return tok('real', v)
    if isinstance(v, str): return tok('text', v.encode('utf8'))
    return tok('blob', bytes(v))

def q(name): return '"' + name.replace('"', '""') + '"'

META_PREFIX = ('gpkg_ogr_contents', 'rtree_', 'sqlite_')
GPKG_TRG = ('gpkg_', 'rtree_', 'trigger_insert_feature_count_', 'trigger_delete_feature_count_')

def affinity(t):
    t = t.upper()
    if 'INT' in t: return 'I'
    if 'CHAR' in t or 'CLOB' in t or 'TEXT' in t: return 'T'
    if 'BLOB' in t or not t: return 'B'
    if 'REAL' in t or 'FLOA' in t or 'DOUB' in t: return 'R'
    return 'N'

def box(v):
    """x and y of a GeoPackage point (None, None if it is empty); None for anything else"""
    if not isinstance(v, (bytes, bytearray)) or len(v) < 8 or v[:2] != b'GP': return None
    env = [0, 32, 48, 48, 64, None, None, None][(v[3] >> 1) & 7]
    if env is None or len(v) < 8 + env + 21 or v[8 + env] != 1: return None
    if struct.unpack_from('<I', v, 9 + env)[0] != 1: return None
    x, y = struct.unpack_from('<dd', v, 13 + env)
    return (None if math.isnan(x) else x), (None if math.isnan(y) else y)

def layer(cur, nm, objs):
    """what a GeoPackage tells about the table: geometry column and its type, dimensions and reference system"""
    if not any(o[0] == b'table' and o[1] == b'gpkg_geometry_columns' for o in objs): return None
    d = lambda x: x.decode('utf8', 'replace') if isinstance(x, bytes) else x
    if not any(x[1] == b'table_name' for x in cur.execute('pragma table_info(gpkg_geometry_columns)').fetchall()): return None
    g = cur.execute('select * from gpkg_geometry_columns where table_name = ?', (nm,)).fetchone()
    if g is None: return None
    if len(g) < 6: return [d(x) for x in g]
    if len(cur.execute('pragma table_info(gpkg_spatial_ref_sys)').fetchall()) < 6: return [d(x) for x in g]
    c = cur.execute('select organization, organization_coordsys_id, definition from gpkg_spatial_ref_sys where srs_id = ?', (g[3],)).fetchone()
    return [d(g[1]), d(g[2]), d(g[3]), 1 if g[4] else 0, 1 if g[5] else 0, [d(x) for x in c] if c else None]

class Text(bytes): pass
KINDS = {type(None): 'null', int: 'integer', float: 'real', Text: 'text', bytes: 'blob'}

def project_db(path):
    """{k:'db', tabs:[...], meta:[[table, rows-token]], trg:[...], fk: 0/1, badtrg: 0/1} or None"""
    try:
        con = sqlite3.connect('file:%s?immutable=1' % quote(os.fsencode(path)), uri=True)
    except sqlite3.Error:
        return None
    try:
        con.text_factory = Text
        cur = con.cursor()
        try:
            objs = cur.execute("select type, name, tbl_name, sql from sqlite_master order by type, name").fetchall()
        except sqlite3.Error:
            return None
        d = lambda x: x.decode('utf8', 'replace') if isinstance(x, bytes) else x
        tabs, meta, trg, fk, badtrg = [], [], [], 0, 0
        for typ, name, tbl, sql in objs:
            typ = d(typ); nm = d(name)
            if typ == 'trigger':
                trg.append(esc(name) + '|' + hashlib.sha256(sql or b'').hexdigest()[:16])
                if not nm.startswith(GPKG_TRG): badtrg = 1
            if typ != 'table': continue
            s = (d(sql) or '').lstrip().upper()
            if s.startswith('CREATE VIRTUAL'): continue
            cols = cur.execute('pragma table_info(%s)' % q(nm)).fetchall()
            rows = []
            for r in cur.execute('select %s from %s' % (','.join(q(d(x[1])) for x in cols), q(nm))): rows.append([tok(KINDS[type(v)], v) for v in r])
            rows.sort()
            if nm.startswith(META_PREFIX):
                if not nm.startswith(('rtree_', 'sqlite_')): meta.append([esc(nm), rows])
                continue
            if not nm.startswith('gpkg_') and cur.execute('pragma foreign_key_list(%s)' % q(nm)).fetchall(): fk = 1
            strict = cur.execute('select strict from pragma_table_list where schema = ? and name = ?', ('main', nm)).fetchone()[0]
            uq = []
            for ix in cur.execute('pragma index_list(%s)' % q(nm)).fetchall():
                if ix[2] and d(ix[3]) != 'pk' and not ix[4]:
                    uq.append([x[1] + 1 for x in cur.execute('pragma index_info(%s)' % q(d(ix[1]))).fetchall()])
            sig = json.dumps([[d(x[1]), d(x[2]).upper(), x[3], 1 if x[5] else 0] for x in cols])
            lay = layer(cur, nm, objs)
            if lay: sig += json.dumps(lay)
            keys = [i for i, x in enumerate(cols) if x[5]]
            tab = dict(n=esc(nm), pk=[x[5] for x in cols], nn=[x[3] for x in cols], uq=uq, rows=rows,
                       aff=['B' if strict and d(x[2]).upper() == 'ANY' else affinity(d(x[2])) for x in cols], sig=hashlib.sha256(sig.encode()).hexdigest()[:16])
            tabs.append(tab)
            if any(not cols[i][3] for i in keys) and not (len(keys) == 1 and d(cols[keys[0]][2]).upper() == 'INTEGER'):
                # rows with NULL in the key are like rows of a table without key
                none = tok('null', None)
                tab['rows'] = [r for r in rows if all(r[i] != none for i in keys)]
                tabs.append(dict(tab, n=esc(nm) + ' NULL keys', pk=[0] * len(cols), uq=[], rows=[r for r in rows if any(r[i] == none for i in keys)]))
        cnt = []
        names = {d(o[1]).lower() for o in objs if d(o[0]) == 'trigger'}
        for nm, rows in meta:
            if nm != 'gpkg_ogr_contents': continue
            for tn, fc in cur.execute('select table_name, feature_count from gpkg_ogr_contents').fetchall():
                t = d(tn)
                if ('trigger_insert_feature_count_' + t).lower() in names and ('trigger_delete_feature_count_' + t).lower() in names:
                    cnt.append([esc(tn), fc if fc is not None else -1, cur.execute('select count(*) from %s' % q(t)).fetchone()[0]])
        for nm in sorted(n for n in names if n.startswith('rtree_') and n.endswith('_geometry_insert')):
            t = nm[6:-16]
            try:
                have = {int(r[0]): tuple(round(x, 3) for x in r[1:]) for r in cur.execute('select * from %s' % q('rtree_%s_geometry' % t)).fetchall()}
                want = {}
                for fid, g in cur.execute('select fid, geometry from %s' % q(t)).fetchall():
                    x = box(g)
                    if x and x[0] is not None: want[int(fid)] = x
                good = set(have) == set(want) and all(have[k][0] <= want[k][0] + 1e-3 and have[k][1] >= want[k][0] - 1e-3 and have[k][2] <= want[k][1] + 1e-3 and have[k][3] >= want[k][1] - 1e-3 for k in want)
                cnt.append(['rtree ' + esc(t), 1 if good else 0, 1])
            except sqlite3.Error: cnt.append(['rtree ' + esc(t), 0, 1])
        return dict(k='db', tabs=tabs, meta=meta, trg=trg, fk=fk, badtrg=badtrg, cnt=cnt)
    except sqlite3.Error as e:
        if 'too ' in str(e) or 'syntax' in str(e): raise     # a statement of this function, not the file
        return None
    finally:
        con.close()

# ---------------------------------------------------------------- changesets
class Malformed(Exception): pass

def varint(b, p):
    v = 0
    for i in range(9):
        if p >= len(b): raise Malformed('varint')
        c = b[p]; p += 1
        if i == 8: return (v << 8) | c, p
        v = (v << 7) | (c & 127)
        if c < 128: return v, p

def put_varint(n):
    if n < 0 or n >= 1 << 56: raise ValueError
    out = [n & 127]; n >>= 7
    while n: out.append((n & 127) | 128); n >>= 7
    return bytes(reversed(out))

def get_value(b, p, raw=None):
    v, p2 = get_value_(b, p)
    if raw is not None:
        t = b[p]; raw[v] = (t, b[p + 1:p2] if t in (1, 2) else b[varint(b, p + 1)[1]:p2] if t in (3, 4) else b'')
    return v, p2

def get_value_(b, p):
    if p >= len(b): raise Malformed('value type')
    t = b[p]; p += 1
    if t == 0: return 'u', p
    if t == 5: return tok('null', None), p
    if t in (1, 2):
        if p + 8 > len(b): raise Malformed('number')
        raw = b[p:p + 8]
        return (tok('integer', struct.unpack('>q', raw)[0]) if t == 1 else tok('real', struct.unpack('>d', raw)[0])), p + 8
    if t in (3, 4):
        n, p = varint(b, p)
        if p + n > len(b): raise Malformed('text/blob length')
        return tok('text' if t == 3 else 'blob', b[p:p + n]), p + n
    raise Malformed('value type %d' % t)

def decode_cs(b, raw=None):
    """{k:'cs', tabs:[{n,pk}], ent:[{t,op,ind,old,new}], size}; raises Malformed"""
    p, tabs, ent = 0, [], []
    while p < len(b):
        c = b[p]; p += 1
        if c == 0x54:
            n, p = varint(b, p)
            if n > 65536: raise Malformed('column count')
            if p + n > len(b): raise Malformed('flags')
            pk = list(b[p:p + n]); p += n
            e = b.find(b'\0', p)
            if e < 0: raise Malformed('name')
            tabs.append(dict(n=esc(b[p:e]), pk=pk)); p = e + 1
        elif c in (0x12, 0x17, 0x09):
            if not tabs or not tabs[-1]['pk']: raise Malformed('entry without header')
            if p >= len(b): raise Malformed('indirect')
            ind = b[p]; p += 1
            n = len(tabs[-1]['pk'])
            def rec():
                nonlocal p
                r = []
                for _ in range(n):
                    v, p = get_value(b, p, raw); r.append(v)
                return r
            old, new = [], []
            if c != 0x12: old = rec()
            if c != 0x09: new = rec()
            ent.append(dict(t=len(tabs), op={0x12: 'I', 0x17: 'U', 0x09: 'D'}[c], ind=ind, old=old, new=new))
        else: raise Malformed('record %d' % c)
    return dict(k='cs', tabs=tabs, ent=ent, size=len(b))

def enc_value(v):
    """v: Python value, or U for undefined"""
    if v is UNDEF: return b'\0'
    if v is None: return b'\5'
    if isinstance(v, int): return b'\1' + struct.pack('>q', v)
    if isinstance(v, float): return b'\2' + struct.pack('>d', v)
    if isinstance(v, str): v = v.encode('utf8'); return b'\3' + put_varint(len(v)) + v
    return b'\4' + put_varint(len(v)) + bytes(v)
class _U:
    def __repr__(self): return 'U'
UNDEF = _U()

def encode_cs(parts, ind=0):
    """parts: [(table, pkflags, [(op, old, new)])] -> bytes"""
    out = b''
    for name, pk, entries in parts:
        out += b'T' + put_varint(len(pk)) + bytes(pk) + name.encode('utf8') + b'\0'
        for op, old, new in entries:
            out += bytes([{'I': 0x12, 'U': 0x17, 'D': 0x09}[op], ind])
            if op != 'I': out += b''.join(enc_value(v) for v in old)
            if op != 'D': out += b''.join(enc_value(v) for v in new)
    return out

# ---------------------------------------------------------------- JSON outputs
def _strict(pairs):
    d = {}
    for k, v in pairs:
        if k in d: raise ValueError('duplicate key')
        d[k] = v
    return d
def _const(s): raise ValueError(s)
def jval(v):
    if v is None: return 'null'
    if isinstance(v, tuple):
        if v[0] == 'i': return v[1]
        f = float(v[1]); return INF[f > 0] if abs(f) == math.inf else 'r:' + v[1]
    if isinstance(v, str):
        b = v.encode('utf8', 'surrogatepass')
        return tok_bytes('s', b) if len(b) > 120 else 's:' + esc(b)
    return 'other:' + json.dumps(v)

def project_json(b):
    try:
        d = json.loads(b.decode('utf8'), object_pairs_hook=_strict, parse_constant=_const,
                       parse_int=lambda s: ('i', s), parse_float=lambda s: ('r', s))
        num = lambda x: int(x[1]) if isinstance(x, tuple) and x[0] == 'i' else -1
        S = lambda x: esc(x) if isinstance(x, str) else '?'
        if list(d) == ['geodiff_summary']:
            return dict(k='js', tabs=[[S(x['table']), num(x['insert']), num(x['update']), num(x['delete'])] for x in d['geodiff_summary'] if sorted(x) == ['delete', 'insert', 'table', 'update'] or 1 / 0])
        if list(d) == ['geodiff']:
            L = d['geodiff']
            if L and all(x.get('type') == 'conflict' for x in L):
                out = []
                for x in L:
                    if sorted(x) != ['changes', 'fid', 'table', 'type']: return dict(k='raw')
                    out.append([S(x['table']), jval(x['fid']), [[num(c['column']) + 1, *[jval(c[x]) if x in c else '-' for x in ('base', 'old', 'new')]] for c in x['changes']]])
                return dict(k='jc', conf=out)
            out = []
            for x in L:
                if sorted(x) != ['changes', 'table', 'type']: return dict(k='raw')
                ch = []
                for c in x['changes']:
                    if not set(c) <= {'column', 'old', 'new'}: return dict(k='raw')
                    ch.append([num(c['column']) + 1, jval(c['old']) if 'old' in c else '-', jval(c['new']) if 'new' in c else '-'])
                out.append([S(x['table']), S(x['type']), ch])
            return dict(k='jl', ent=out)
    except Exception:
        pass
    return dict(k='raw', h=hashlib.sha256(b).hexdigest()[:16])

def project_iter(b):
    """what SQLite's iterator lists"""
    ent = []
    def val(x):
        if x == 'u' : return 'u'
        if x == 'n': return tok('null', None)
        if x[0] == 'i': return tok('integer', int(x[1:]))
        raw = bytes.fromhex(x[1:])
        return tok('real', struct.unpack('>d', raw)[0]) if x[0] == 'r' else tok('text' if x[0] == 't' else 'blob', raw)
    for l in b.decode().splitlines():
        f = l.split('\t'); n = len(f[1]) // 2; op = {18: 'I', 23: 'U', 9: 'D'}[int(f[2])]
        v = [val(x) for x in f[4:]]
        ent.append([esc(bytes.fromhex(f[0])), [1 if x else 0 for x in bytes.fromhex(f[1])], op, [] if op == 'I' else v[:n], v if op == 'I' else [] if op == 'D' else v[n:]])
    return dict(k='sqi', ent=ent)

def project(path, data=None):
    if data is None: data = open(path, 'rb').read()
    raw = dict(k='raw', h=hashlib.sha256(data).hexdigest()[:16])
    if path.endswith('.bin'): return raw      # damaged databases
    if data[:16] == b'SQLite format 3\0': return project_db(path) or raw
    if path.endswith(('.gpkg', '.db')): return dict(k='db0') if not data else raw
    if path.endswith('.sqi'): return project_iter(data)
    if path.endswith('.json'): return project_json(data)
    try: return decode_cs(data)
    except Malformed: return raw
