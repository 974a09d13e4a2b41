"""Changesets at the level of bytes (C11, C12): inputs derived from spec/Codec.tla, judged by spec/TraceCodec.tla."""
import re, json, hashlib
from apistories import *
from proj import q

class ByteScene:
    """scratch directory and events for TraceCodec"""
    module = 'TraceCodec'
    def __init__(s, exe, name):
        s.dir = gd.scratch(name); s.tmp = s.dir + '/tmp'; os.mkdir(s.tmp); s.exe = exe; s.events, s.notes, s.runner = [], [], None
    def p(s, *n): return os.path.join(s.dir, *n)
    def start(s):
        if s.runner is None: s.runner = gd.Runner(s.exe, cwd=s.dir, tmpdir=s.tmp, timeout=40); s.runner.level(0)
        return s.runner
    def rc(s, fn, *a):
        """return code; -1000 exception, -1001 crash, -1002 timeout"""
        try: r = s.start().call(fn, *a)
        except gd.Crash as e: s.runner = None; s.notes.append('crash in %s: %s' % (fn, e.err[-1200:])); return -1001
        except gd.Timeout: s.runner = None; s.notes.append('timeout in %s' % fn); return -1002
        if r.exc is not None: s.notes.append('exception in %s: %s' % (fn, r.exc)); return -1000
        return r.rc
    def trace(s): return dict(contents=[], events=s.events)
    def close(s):
        if s.runner: s.runner.close(); s.runner = None
        shutil.rmtree(s.dir, ignore_errors=True)

def byte_scene(ctx, flavour='asan'):
    sc = ByteScene(gd.exe(flavour), ctx.name[:20]); ctx.scenes.append(sc); return sc

_strings = {}
def decoder_inputs(ent, alphabet='0,1,2,3,4,5,6,9,18,23,84,127,128,255'):
    """one input per transition of the decoder (TLC: MC_Codec, Mode "bytes")"""
    with gd._caselock:
        if ent not in _strings:
            rc, out = gd.tlc('MC_Codec', 'SPECIFICATION Spec\nCONSTANTS Mode = "bytes" Alphabet = {%s} MaxLen = 60 MaxEnt = %d MaxTab = 2 Emit = TRUE\nVIEW Shape\nINVARIANTS NoDeadEnd Incremental\nCHECK_DEADLOCK FALSE\n' % (alphabet, ent), workers=2)
            if rc != 0: raise gd.CheckError('MC_Codec: %s' % re.sub('<<"BYTES.*\n', '', out)[-3000:])
            L = {tuple(json.loads(m)) for m in re.findall(r'<<"BYTES", "(\[.*?\])">>', out)}
            _strings[ent] = (sorted(L), gd.tlc_stats(out))
        return _strings[ent]

def setup(sc):
    """databases with tables t(pk), tt(pk, x) and 1- and 2-column tables named as the decoder inputs name them"""
    ddl = 'CREATE TABLE t(k INTEGER PRIMARY KEY, x); CREATE TABLE u(k TEXT NOT NULL PRIMARY KEY, x TEXT, y REAL, z BLOB); CREATE TABLE "\x01"(k INTEGER PRIMARY KEY); CREATE TABLE "\x02"(k INTEGER PRIMARY KEY, x);'
    rows = ["INSERT INTO t VALUES (1,'one'),(2,'two'),(3,NULL)", "INSERT INTO u VALUES ('a','text',1.5,x'00ff'),('b',NULL,NULL,NULL)", 'INSERT INTO "\x01" VALUES (1),(0)', 'INSERT INTO "\x02" VALUES (1,1),(0,NULL)']
    build_sql(sc.p('base.gpkg'), ddl, rows)
    for n, q in (('theirs.gpkg', ["UPDATE t SET x='T' WHERE k=1", "INSERT INTO t VALUES (7,x'070809')", "DELETE FROM u WHERE k='b'", "UPDATE u SET y=-2.25, x=NULL WHERE k='a'", 'INSERT INTO "\x02" VALUES (5,5)']),
                 ('mine.gpkg', ["UPDATE t SET x='M' WHERE k=1", "INSERT INTO t VALUES (7,70)", "DELETE FROM t WHERE k=3", "UPDATE u SET x='mine' WHERE k='a'", 'UPDATE "\x02" SET x=9'])):
        shutil.copyfile(sc.p('base.gpkg'), sc.p(n)); con = gen.connect(sc.p(n))
        for x in q: con.execute(x)
        con.close()
    for n in ('theirs', 'mine'):
        if sc.rc('createChangeset', sc.p('base.gpkg'), sc.p(n + '.gpkg'), sc.p(n + '.diff')) != 0: raise RuntimeError('createChangeset')
    sc.inputs = {n: open(sc.p(n), 'rb').read() for n in ('base.gpkg', 'theirs.gpkg', 'mine.gpkg', 'theirs.diff', 'mine.diff')}

def feed(sc, b):
    """one input to all calls"""
    P = sc.p
    with open(P('f.diff'), 'wb') as f: f.write(b)
    for n in ('o.json', 's.json', 'i.diff', 'r.diff', 'c.json', 'd.gpkg', 'm.gpkg'):
        if os.path.lexists(P(n)): os.unlink(P(n))
    with open(P('d.gpkg'), 'wb') as f: f.write(sc.inputs['base.gpkg'])
    with open(P('m.gpkg'), 'wb') as f: f.write(sc.inputs['mine.gpkg'])
    r = dict(has=sc.rc('hasChanges', P('f.diff')), count=sc.rc('changesCount', P('f.diff')), list=sc.rc('listChanges', P('f.diff'), P('o.json')), summary=sc.rc('listChangesSummary', P('f.diff'), P('s.json')),
             invert=sc.rc('invertChangeset', P('f.diff'), P('i.diff')), apply=sc.rc('applyChangeset', P('d.gpkg'), P('f.diff')),
             rb=sc.rc('createRebasedChangeset', P('base.gpkg'), P('mine.gpkg'), P('f.diff'), P('r.diff'), P('c.json')), rx1=sc.rc('createRebasedChangesetEx', 'sqlite', '', P('base.gpkg'), P('mine.diff'), P('f.diff'), P('r.diff'), P('c.json')),
             rx2=sc.rc('createRebasedChangesetEx', 'sqlite', '', P('base.gpkg'), P('f.diff'), P('theirs.diff'), P('r.diff'), P('c.json')), re=sc.rc('rebaseEx', 'sqlite', '', P('base.gpkg'), P('m.gpkg'), P('f.diff'), P('c.json')))
    same = 1
    for n, x in sc.inputs.items():
        if open(P(n), 'rb').read() != x: same = 0; sc.notes.append('changed %s' % n)
    for n, x, rc in (('d.gpkg', 'base.gpkg', r['apply']), ('m.gpkg', 'mine.gpkg', r['re'])):
        if rc != 0 and open(P(n), 'rb').read() != sc.inputs[x]:
            a, c = proj.project(P(n)), proj.project(P(x))
            if a != c: same = 0; sc.notes.append('changed %s' % n)
    left = [n for n in os.listdir(sc.dir) if n not in sc.inputs and n not in ('f.diff', 'o.json', 's.json', 'i.diff', 'r.diff', 'c.json', 'd.gpkg', 'm.gpkg', 'tmp')] + os.listdir(sc.tmp)
    if left and -1001 not in r.values() and -1002 not in r.values(): same = 0; sc.notes.append('left: %s' % left)
    for n in left:
        for q in (sc.p(n), os.path.join(sc.tmp, n)):
            if os.path.isfile(q): os.unlink(q)
    sc.events.append(dict(op='bytes', fn='bytes', a={}, rc=[r['count'], r['apply'], r['rb'], len(b)], files=[], b=list(b), r=r, same=same))

def decoder_story(ctx, part, parts, ent=2, limit=None):
    sc = byte_scene(ctx); setup(sc)
    L, _ = decoder_inputs(ent)
    L = L[part::parts]
    if limit and len(L) > limit: L = ctx.rng.sample(L, limit)
    for i, b in enumerate(L): feed(sc, (sc.inputs['theirs.diff'] if i % 2 else b'') + bytes(b))

def valid_files(sc, rng):
    """valid changesets of several kinds"""
    out = [sc.inputs['theirs.diff'], sc.inputs['mine.diff']]
    out.append(encode_cs([('t', [1, 0], [('I', [], [9, 'x' * 130]), ('U', [1, UNDEF], [UNDEF, UNDEF]), ('D', [2, 'two'], [])]), ('u', [1, 0, 0, 0], [('U', ['a', 'text', 1.5, UNDEF], [UNDEF, None, float('inf'), UNDEF])])]))
    out.append(encode_cs([('nosuch', [1], [('I', [], [1])]), ('t', [1, 0, 0], [('D', [1, 2, 3], [])]), ('t', [1, 0], [('U', [1, 'one'], [2, b'\xff\xfe']), ('I', [], [UNDEF, UNDEF])])], ind=1))
    out.append(encode_cs([('a"\'\\\n%s', [1, 1], [('I', [], ['\u00e9"\\', -1]), ('D', [None, None], [])])]))
    return out

def mutate_bytes(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
        if not b: b += b'T'
        k = rng.randrange(7); p = rng.randrange(len(b))
        if k == 0: b[p] = rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 18, 23, 84, 127, 128, 129, 255, b[p] ^ 128, (b[p] + 1) & 255, (b[p] - 1) & 255])
        elif k == 1: b[p] = rng.randrange(256)
        elif k == 2: del b[p:p + rng.choice([1, 1, 2, 8, 20])]
        elif k == 3: b[p:p] = bytes(rng.choice([0, 84, 18, 255, 128, 129, 3]) for _ in range(rng.choice([1, 1, 2, 9])))
        elif k == 4: b[p:p] = b[rng.randrange(len(b)):][:rng.randint(1, 30)]
        elif k == 5: b[p:p] = rng.choice([b'\x82\x80\x80\x80\x00', b'\x88\x80\x80\x80\x00', b'\xff\xff\xff\xff\x0f', b'\xff' * 8 + b'\xff', b'\x80' * 8 + b'\x01', b'\x90\x80\x80\x80\x01', b'\x87\xff\xff\xff\x7f', b'\x84\x80\x01', b'\x84\x80\x00', b'\x83\xff\xff\x7f'])
        else: b = b[:p]
    return bytes(b)

def truncation_story(ctx, which):
    """a valid changeset cut off after every byte"""
    sc = byte_scene(ctx); setup(sc)
    b = valid_files(sc, ctx.rng)[which]
    for n in range(len(b) + 1): feed(sc, b[:n])

def tail_story(ctx):
    """changesets that end in every kind of value, cut off or continued by a few bytes"""
    sc = byte_scene(ctx); setup(sc)
    V = [1, -2**63, 2.5, float('nan'), 'tail', 'x' * 140, '', b'\x01\x02\x03', bytes(200), b'', None]
    for v in V:
        for e in (('I', [], [9, v]), ('D', [1, v], []), ('U', [1, 'one'], [UNDEF, v]), ('U', [1, UNDEF], [UNDEF, UNDEF])):
            b = encode_cs([('t', [1, 0], [e])])
            for n in range(1, 11): feed(sc, b[:-n])
            for x in (b'\0', b'T', b'\x12', b'\x12\0', b'T\x01', b'T\x01\x01', b'T\x01\x01t', b'\x09\0\x05', b'\x17\0\0\0\0'): feed(sc, b + x)
            if e[0] == 'U' and e[2][1] is UNDEF: break

def mutation_story(ctx, n):
    sc = byte_scene(ctx); setup(sc)
    V = valid_files(sc, ctx.rng)
    for i in range(n): feed(sc, mutate_bytes(ctx.rng, ctx.rng.choice(V)) if i % 8 else bytes(ctx.rng.choice([84, 1, 0, 18, 116, 3, ctx.rng.randrange(256)]) for _ in range(ctx.rng.randint(0, 60))))

# ---------------------------------------------------------------- C11
def collect(ctx, *scenes, limit=60000):
    """the changesets of the scenes, decoded by the specification from their bytes"""
    bs = byte_scene(ctx); total = 0; seen = set()
    for sc in scenes:
        lib = set()
        for e in sc.events:
            if e['op'] in ('create', 'rebasecs', 'rebasecsx', 'dump', 'invert') and e['rc'] == 0:
                lib |= {f[2] for f in e['files'] if f[0] == e['a']['out']}
        for h, b in sc.pool.raw.items():
            if h in seen or total + len(b) > limit: continue
            seen.add(h); total += len(b); raw = {}
            try:
                cs = proj.decode_cs(b, raw)
                for t in cs['tabs']: t['nb'] = list(unesc(t['n']))
            except proj.Malformed: cs = dict(k='raw')
            bs.events.append(dict(op='file', fn='file', a={}, rc=len(b), files=[], b=list(b), cs=cs, toks=[[k, v[0], list(v[1])] for k, v in raw.items()], lib=int(h in lib)))
    return bs

def unesc(s):
    out, i = b'', 0
    while i < len(s):
        if s[i] == '%': out += bytes([int(s[i + 1:i + 3], 16)]); i += 3
        else: out += s[i].encode(); i += 1
    return out

def lit(v):
    if v is None: return 'NULL'
    if isinstance(v, int): return str(v) if v != -2**63 else '(-9223372036854775807-1)'
    if isinstance(v, float): return repr(v) if v == v and abs(v) != float('inf') else ('9e999' if v > 0 else '-9e999')
    if isinstance(v, str): return "CAST(x'%s' AS TEXT)" % v.encode('utf8').hex() if '\0' in v else "'" + v.replace("'", "''") + "'"
    return "x'%s'" % v.hex()

def sql_edit(a, b, rng):
    """SQL text that turns state a into state b, on the way with detours that leave no trace in a changeset"""
    out = ['BEGIN']
    for t in a.tables:
        if not t.pkcols(): continue
        A, B = a.rows[t.name], b.rows[t.name]
        where = lambda k: ' AND '.join('%s IS %s' % (q(t.cols[i].name), lit(v)) for i, v in zip(t.pkcols(), k))
        insert = lambda r: 'INSERT INTO %s (%s) VALUES (%s)' % (q(t.name), ','.join(q(c.name) for c in t.cols), ','.join(map(lit, r)))
        E = []
        for k in A:
            if k not in B: E.append(['DELETE FROM %s WHERE %s' % (q(t.name), where(k))])
            elif gen.same(A[k], B[k]):
                if rng.random() < .2: E.append(['DELETE FROM %s WHERE %s' % (q(t.name), where(k)), insert(B[k])])
            else:
                r = B[k]; ch = [i for i in range(len(r)) if not gen.same((A[k][i],), (r[i],))]
                if rng.random() < .25: E.append(['DELETE FROM %s WHERE %s' % (q(t.name), where(k)), insert(r)])
                elif rng.random() < .4: E.append(['UPDATE %s SET %s=%s WHERE %s' % (q(t.name), q(t.cols[i].name), lit(r[i]), where(k)) for i in ch])
                else: E.append(['UPDATE %s SET %s WHERE %s' % (q(t.name), ', '.join('%s=%s' % (q(t.cols[i].name), lit(r[i])) for i in ch), where(k))])
        rng.shuffle(E); out += sum(E, [])
        E = []
        for k in B:
            if k not in A:
                E.append([insert(B[k])])
                if rng.random() < .2: E[-1] += ['DELETE FROM %s WHERE %s' % (q(t.name), where(k)), insert(B[k])]
        rng.shuffle(E); out += sum(E, [])
    return (';\n'.join(out + ['COMMIT']) + ';').encode('utf8')

def use(sc, cs, base, mod, apply=True):
    """every call that reads changesets on one from base to mod"""
    sc.call('hasChanges', cs); sc.call('changesCount', cs)
    sc.call('listChanges', cs, 'l.json'); sc.call('listChangesSummary', cs, 's.json')
    if apply: cp(sc, base, 'u.gpkg'); sc.call('applyChangeset', 'u.gpkg', cs)
    sc.call('invertChangeset', cs, 'ui.diff')
    if apply: sc.call('applyChangeset', 'u.gpkg', 'ui.diff')
    sc.call('sqIterate', 'ui.diff', 'ui.sqi')

def simple_keys(s):
    T = [t for t in s.tables if len(t.pkcols()) < 2]
    return gen.State(T, {t.name: s.rows[t.name] for t in T}, s.script)
def interop_pair(rng, k):
    """no GeoPackage (SQLite's helper has no ST_ functions); half of them without keys of several columns"""
    half = rng.random() < .5
    while True:
        b, m = random_pair(rng, k); k += 1
        if isinstance(b, gen.Gpkg): continue
        if half: b, m = simple_keys(b), simple_keys(m)
        if any(t.pkcols() for t in b.tables): return b, m

def plain(states):
    """without generated columns (SQLite's recorder refuses tables that have some)"""
    for t in states[0].tables: t.gen = []
    return states

def interop_write(ctx, n=1, start=0, pairs=None, triples=None):
    """what geodiff writes, read and applied by SQLite"""
    rng = ctx.rng; sc = ctx.scene()
    for i in range(n):
        clear(sc); b, m = pairs(rng)[0] if pairs else random_pair(rng, start + i) if i % 3 == 0 else interop_pair(rng, start + i); gp = isinstance(b, gen.Gpkg)
        pairdb(sc, b, m, rng, pragma=rng.choice(PRAGMAS))
        sc.call('createChangeset', 'base.gpkg', 'mod.gpkg', 'a.diff'); sc.call('sqIterate', 'a.diff', 'a.sqi')
        sc.call('invertChangeset', 'a.diff', 'i.diff'); sc.call('sqIterate', 'i.diff', 'i.sqi')
        sc.call('dumpData', 'sqlite', '', 'mod.gpkg', 'd.diff'); sc.call('sqIterate', 'd.diff', 'd.sqi')
        if not gp:
            cp(sc, 'base.gpkg', 'c.gpkg'); sc.call('sqApply', 'c.gpkg', 'a.diff'); sc.call('sqApply', 'c.gpkg', 'i.diff')
    for i in range(n):
        clear(sc); b, t, m = triples(rng)[0] if triples else random_triple(rng, start + i); tripledb(sc, b, t, m, rng)
        rebase_calls(sc, rng, ('cs', 'csx'))
        sc.call('sqIterate', 'r.diff', 'r.sqi'); sc.call('sqIterate', 'rx.diff', 'rx.sqi')
        if not isinstance(b, gen.Gpkg): cp(sc, 't.gpkg', 'f2.gpkg'); sc.call('sqApply', 'f2.gpkg', 'r.diff')
    collect(ctx, sc)

def interop_read(ctx, n, start=0):
    """what SQLite records, inverts and concatenates, read by geodiff"""
    rng = ctx.rng; sc = ctx.scene()
    for i in range(n):
        clear(sc); b, m = plain(interop_pair(rng, start + i)); b.build(sc.p('base.gpkg'))
        cp(sc, 'base.gpkg', 'mod.gpkg'); put(sc, 'edit.sql', sql_edit(b, m, rng))
        sc.call('sqRecord', 'mod.gpkg', 'edit.sql', 'a.diff'); use(sc, 'a.diff', 'base.gpkg', 'mod.gpkg')
        sc.call('sqInvert', 'a.diff', 'i.diff'); use(sc, 'i.diff', 'mod.gpkg', 'base.gpkg')
        m2 = gen.mutate(rng, m); cp(sc, 'mod.gpkg', 'mod2.gpkg'); put(sc, 'edit2.sql', sql_edit(m, m2, rng))
        sc.call('sqRecord', 'mod2.gpkg', 'edit2.sql', 'b.diff'); sc.call('sqConcat', 'a.diff', 'b.diff', 'ab.diff'); use(sc, 'ab.diff', 'base.gpkg', 'mod2.gpkg')
        # (for keys of several columns SQLite writes other flags than documented and refuses to mix them)
        sc.call('createChangeset', 'mod2.gpkg', 'base.gpkg', 'g.diff')
        if all(len(t.pkcols()) < 2 for t in b.tables): sc.call('sqConcat', 'ab.diff', 'g.diff', 'nil.diff'); use(sc, 'nil.diff', 'base.gpkg', 'base.gpkg')
    for i in range(n):
        clear(sc); b, t, m = plain(gen.triple(rng)); b.build(sc.p('b.gpkg'))
        for x, y in (('t', t), ('m', m)):
            cp(sc, 'b.gpkg', x + '.gpkg'); put(sc, x + '.sql', sql_edit(b, y, rng)); sc.call('sqRecord', x + '.gpkg', x + '.sql', x + '.diff')
        sc.call('createRebasedChangeset', 'b.gpkg', 'm.gpkg', 't.diff', 'r.diff', 'c.json'); cp(sc, 't.gpkg', 'f.gpkg'); sc.call('applyChangeset', 'f.gpkg', 'r.diff')
        sc.call('createRebasedChangesetEx', 'sqlite', '', 'b.gpkg', 'm.diff', 't.diff', 'rx.diff', 'cx.json'); cp(sc, 't.gpkg', 'fx.gpkg'); sc.call('applyChangeset', 'fx.gpkg', 'rx.diff')
        cp(sc, 'm.gpkg', 'm2.gpkg'); sc.call('rebaseEx', 'sqlite', '', 'b.gpkg', 'm2.gpkg', 't.diff', 'c3.json')
    collect(ctx, sc)

LENGTHS = [0, 1, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536]
def lengths(ctx, ls, kinds=('text', 'blob')):
    """values around every size of the length field"""
    sc = ctx.scene(); rng = ctx.rng
    t = gen.Table('t', [gen.Col('k', 'INTEGER', pk=1), gen.Col('a', ''), gen.Col('b', '')])
    for one in ls:
        clear(sc); b = gen.State([t]); m = gen.State([t])
        for i, n in enumerate(one if isinstance(one, list) else [one]):
            for j, kind in enumerate(kinds):
                v = 'x' * (n - 1) + 'y' * (n > 0) if kind == 'text' else bytes(n)
                k = i * 10 + j * 4 + 1
                m.rows['t'][(k,)] = (k, v, 1); b.rows['t'][(k + 1,)] = (k + 1, v, v); b.rows['t'][(k + 2,)] = (k + 2, v, n); m.rows['t'][(k + 2,)] = (k + 2, 'new', n)
                b.rows['t'][(k + 3,)] = (k + 3, 'old', n); m.rows['t'][(k + 3,)] = (k + 3, v, n)
        pairdb(sc, b, m, rng); sc.call('createChangeset', 'base.gpkg', 'mod.gpkg', 'a.diff'); use(sc, 'a.diff', 'base.gpkg', 'mod.gpkg'); sc.call('sqIterate', 'a.diff', 'a.sqi')
        cp(sc, 'base.gpkg', 'c.gpkg'); sc.call('sqApply', 'c.gpkg', 'a.diff')
        sc.call('dumpData', 'sqlite', '', 'mod.gpkg', 'd.diff'); sc.call('sqIterate', 'd.diff', 'd.sqi')
        put(sc, 'edit.sql', sql_edit(b, m, rng)); cp(sc, 'base.gpkg', 'q.gpkg'); sc.call('sqRecord', 'q.gpkg', 'edit.sql', 's.diff'); use(sc, 's.diff', 'base.gpkg', 'mod.gpkg')
    collect(ctx, sc, limit=150000)

def columns(ctx, ns, late=True):
    """tables around every size of the number of columns"""
    sc = ctx.scene(); rng = ctx.rng
    for n in ns:
        clear(sc); cols = [gen.Col('c%d' % i, '') for i in range(n - 1)]; at = n - 1 if late else rng.randrange(n); cols.insert(at, gen.Col('k', 'INTEGER', pk=1)); t = gen.Table('wide', cols); b = gen.State([t])
        for k in range(1, 4): r = [rng.choice([None, k, 'x', b'y', .5]) for _ in range(n - 1)]; r.insert(at, k); b.rows['wide'][(k,)] = tuple(r)
        m = gen.mutate(rng, b, .5, .3, .5); pairdb(sc, b, m, rng); sc.call('createChangeset', 'base.gpkg', 'mod.gpkg', 'a.diff'); sc.call('sqIterate', 'a.diff', 'a.sqi')
        use(sc, 'a.diff', 'base.gpkg', 'mod.gpkg'); cp(sc, 'base.gpkg', 'c.gpkg'); sc.call('sqApply', 'c.gpkg', 'a.diff')
    collect(ctx, sc)

def recorded_columns(ctx, ns):
    """tables of more columns than createChangeset can compare, recorded by SQLite (which allows 2000)"""
    sc = ctx.scene(); rng = ctx.rng
    for n in ns:
        clear(sc); t = gen.Table('wide', [gen.Col('k', 'INTEGER', pk=1)] + [gen.Col('c%d' % i, '') for i in range(n - 1)]); b = gen.State([t])
        for k in range(1, 5): b.rows['wide'][(k,)] = (k,) + tuple(rng.choice([None, k, 'x', b'y', .5]) for _ in range(n - 1))
        m = b.copy(); del m.rows['wide'][(2,)]; m.rows['wide'][(9,)] = (9,) + b.rows['wide'][(2,)][1:]
        for k, at in ((1, n - 1), (3, rng.randrange(1, n)), (4, 1)): r = list(b.rows['wide'][(k,)]); r[at] = 'changed'; m.rows['wide'][(k,)] = tuple(r)
        b.build(sc.p('base.gpkg')); m.build(sc.p('mod.gpkg')); cp(sc, 'base.gpkg', 'q.gpkg'); put(sc, 'edit.sql', sql_edit(b, m, rng))
        sc.call('sqRecord', 'q.gpkg', 'edit.sql', 's.diff'); use(sc, 's.diff', 'base.gpkg', 'mod.gpkg', apply=False)
    collect(ctx, sc)

def forms(ctx, n):
    """valid changesets of all forms, inverted and listed, and decoded again"""
    rng = ctx.rng; sc = ctx.scene()
    V = [None, 0, -1, 2**63 - 1, -2**63, 2**31, .5, -0.0, 5e-324, 'é', '', 'a\0b', b'', b'\0', b'x' * 127, 'y' * 128, 't', 7]
    for i in range(n):
        parts = []; newkey = rng.random() < .3    # SQLite's own inversion does not keep new keys
        for t in range(rng.randint(1, 3)):
            again = parts and rng.random() < .4      # the same table with other flags
            nc = len(parts[-1][1]) if again else rng.choice([1, 2, 3, 3, 5]); pk = [rng.choice([0, 1]) for _ in range(nc)]
            if not any(pk): pk[rng.randrange(nc)] = 1
            E = []
            for _ in range(rng.randint(1, 4)):
                op = rng.choice('IUDU'); rec = lambda: [rng.choice(V) for _ in range(nc)]
                if op == 'U':
                    o, w = rec(), rec()
                    for j in range(nc):
                        if pk[j]: w[j] = UNDEF if not newkey or rng.random() < .7 else w[j]
                        elif rng.random() < .4: o[j] = w[j] = UNDEF
                    E.append((op, o, w))
                else: E.append((op, [], rec()) if op == 'I' else (op, rec(), []))
            parts.append((parts[-1][0] if again else rng.choice(['t', 'ü', 'a b', 'x' * 130, '"q"', 't']), pk, E))
        put(sc, 'h.diff', encode_cs(parts, ind=rng.choice([0, 0, 1])))
        sc.call('changesCount', 'h.diff'); sc.call('sqIterate', 'h.diff', 'h.sqi'); sc.call('invertChangeset', 'h.diff', 'i.diff'); sc.call('sqIterate', 'i.diff', 'i.sqi'); sc.call('invertChangeset', 'i.diff', 'i2.diff')
        if not newkey: sc.call('sqInvert', 'h.diff', 'si.diff'); sc.call('invertChangeset', 'si.diff', 'si2.diff'); sc.call('listChanges', 'h.diff', 'l.json'); sc.call('listChangesSummary', 'i.diff', 's.json')
    collect(ctx, sc)
