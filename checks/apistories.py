"""Call sequences generated by TLC from spec/Api.tla, run in the implementation (C10, C21, C22)."""
import re, json, sqlite3, hashlib
from stories import *

def behaviours(length, start, num=None, seed=1):
    """behaviours of Api.tla: all of the given length, or num simulated ones"""
    cfg = 'SPECIFICATION Spec\nCONSTANTS Length = %d Emit = TRUE Start = "%s"\nINVARIANTS TypeOk Frame Out\nCHECK_DEADLOCK FALSE\n' % (length, start)
    args = ['-simulate', 'num=%d' % num, '-depth', str(3 * length), '-seed', str(seed)] if num else []
    rc, out = gd.tlc('Api', cfg, args=args, workers=1 if num else 2)
    if rc != 0: raise gd.CheckError('Api: %s' % out[-3000:])
    seen, res = set(), []
    for m in re.finditer(r'<<"BEHAVIOUR", "(.*)">>', out):
        b = json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\'))
        # (a simulation prints all candidates for the last call: one is enough)
        k = json.dumps(b[:-1] if num else b)
        if k not in seen: seen.add(k); res.append(b)
    return res, gd.tlc_stats(out)

def api_dbs(rng, gpkg):
    """BASE, THEIRS, MINE whose rebases in any roles are free of the recorded findings about renumbered keys"""
    if gpkg:
        b = gen.gpkg_state(rng, ('simple',), n=7, std=True); t, m = b.copy(), b.copy(); L = 'simple'
        mk = lambda k: gen.gpkg_row(rng, k)
    else:
        T = gen.Table('ins', [gen.Col('fid', 'INTEGER', pk=1), gen.Col('x', 'TEXT'), gen.Col('y', ''), gen.Col('z', 'REAL')])
        D = gen.Table('de"l', [gen.Col('fid', 'INTEGER', pk=1), gen.Col('x', 'TEXT'), gen.Col('y', '')])
        X = gen.Table('text keys', [gen.Col('a', ''), gen.Col('id', 'TEXT', nn=True, pk=1), gen.Col('v', '')])
        N = gen.Table('nokey', [gen.Col('a', ''), gen.Col('b', '')])
        b = gen.State([T, D, X, N]); L = 'ins'
        mk = lambda k: (k, rng.choice(['p', 'q', 'é\'"', None]) or 'x%d' % rng.randint(0, 99), 'row %d' % rng.randint(0, 10**6), rng.random())
        for i in range(1, 8): b.rows['ins'][(i,)] = mk(i); b.rows['de"l'][(i,)] = (i, 'd%d' % i, i * 3); b.rows['text keys'][('k%d' % i,)] = (i, 'k%d' % i, 'v%d' % i)
        b.rows['nokey'] = [(1, 'same'), (2, 'everywhere')]
        t, m = b.copy(), b.copy()
        for s, tag in ((t, 'theirs'), (m, 'mine')):
            for i in rng.sample(range(1, 5), 2): r = list(s.rows['de"l'][(i,)]); r[rng.randint(1, 2)] = tag + str(i); s.rows['de"l'][(i,)] = tuple(r)
            for i in rng.sample(range(1, 8), 4): r = list(s.rows['text keys'][('k%d' % i,)]); r[2] = tag + str(i); s.rows['text keys'][('k%d' % i,)] = tuple(r)
        for i in (6, 7): del t.rows['de"l'][(i,)]
        del m.rows['de"l'][(7,)]
    for s in (t, m):
        for i in rng.sample(range(1, 8), 4):
            r = list(s.rows[L][(i,)]); n = list(mk(i)); j = rng.randint(1, len(r) - 1); r[j] = n[j] if n[j] != r[j] else None; s.rows[L][(i,)] = tuple(r)
        for i in range(8, 8 + rng.randint(1, 3)): s.rows[L][(i,)] = mk(i)
    return b, t, m

def fixtures(sc, b, t, m, rng, full=False):
    clear(sc)
    tripledb(sc, b, t, m, rng); cp(sc, 'b.gpkg', 'w.gpkg')
    f = gen.State([gen.Table('other', [gen.Col('fid', 'INTEGER', pk=1), gen.Col('q', 'TEXT')])]); f.rows['other'][(1,)] = (1, 'x'); f.build(sc.p('f.gpkg'))
    put(sc, 'txt.gpkg', b'this is not a database\n' * 40)
    put(sc, 'bad.diff', rng.choice([b'T\x02\x01\x00ab', b'X', b'\x00', b'T\x01\x01t\x00\x99\x00', b'T\x02\x01\x00simple\x00\x12\x00\x01' + b'\0' * 7, encode_cs([('ins', [1, 0, 0, 0], [('I', [], [1, 'x', 'y', 0.5])])])[:-3]]))
    if full: sc.call('createChangeset', 'b.gpkg', 't.gpkg', '1.diff'); sc.call('createChangeset', 'b.gpkg', 'm.gpkg', '2.diff')

def save(sc):
    sc.saves = getattr(sc, 'saves', 0) + 1
    d = sc.dir + '.saved%d' % sc.saves; gd._scratch.append(d); shutil.copytree(sc.dir, d, symlinks=True); return d
def restore(sc, d):
    for n in os.listdir(sc.dir):
        p = sc.p(n)
        if os.path.isdir(p): shutil.rmtree(p)
        else: os.unlink(p)
    shutil.copytree(d, sc.dir, symlinks=True, dirs_exist_ok=True)

def probe(sc, runner):
    """(open files of the process in the scene, databases that another process cannot lock)"""
    pre = (sc.dir + '/').encode()
    fds = sum(1 for f in runner.cmd('fds') if gd._d(f[2]).startswith(pre))
    locked = 0
    for n in os.listdir(sc.dir):
        if not n.endswith('.gpkg'): continue
        try:
            con = sqlite3.connect(sc.p(n), timeout=0, isolation_level=None)
            try: con.execute('BEGIN EXCLUSIVE'); con.execute('ROLLBACK')
            finally: con.close()
        except sqlite3.OperationalError as e:
            if 'locked' in str(e): locked += 1
        except sqlite3.DatabaseError: pass
    return fds, locked

def args_of(item): return [None if a == '\\N' else a for a in item['args']]

class Alt:
    """runs single calls of a scene in fresh processes"""
    def __init__(s, sc): s.sc, s.main = sc, sc.runner
    def __enter__(s): s.sc.runner = None; return s
    def __exit__(s, *a):
        if s.sc.runner: s.sc.runner.close()
        s.sc.runner = s.main

def sequence(ctx, num, length, gpkg=False, start=0, fresh=True):
    """simulated call sequences in one process; every call first alone in a fresh process on the same files"""
    rng = ctx.rng
    L, _ = behaviours(length, 'plain', num, seed=gd.SEED * 1000 + start)
    sc = ctx.scene(); sc.lv = rng.choice([1, 4])
    for bi, beh in enumerate(L):
        fixtures(sc, *api_dbs(rng, gpkg), rng)
        sc.restart(); sc.start()
        for it in beh:
            if it['fn'] == 'copy': cp(sc, *it['args']); continue
            a = args_of(it)
            x = dict(badout=int(it['wrong'] == 'outdir'), exp=it['exp'])
            if fresh:
                keep = save(sc)
                with Alt(sc): sc.call(it['fn'], *a, extra=dict(x, memo=1))
                restore(sc, keep); shutil.rmtree(keep)
            sc.sync_env()
            ev = sc.call(it['fn'], *a, extra=dict(x, memo=1, labs=[[p, '%d:%s' % (bi, v)] for p, v in it['labs']]))
            if sc.runner: ev['fds'], ev['locked'] = probe(sc, sc.runner)

def group(L):
    """enumerated single calls, grouped by function, kind of error and place of the error"""
    g = {}
    for beh in L:
        it = beh[0]
        if it['fn'] == 'copy': continue
        bad = [(i, a) for i, a in enumerate(it['args']) if a in ('\\N', 'none.gpkg', 'none.diff', 'nosuch', '', 'SQLITE', 'bad.diff', 'f.gpkg', 'txt.gpkg') or a.startswith('nodir')]
        g.setdefault((it['fn'], it['wrong'] if not it['wrong'].startswith('no') or it['wrong'] == 'notdb' else 'no', str(bad)), []).append(it)
    return [g[k] for k in sorted(g)]

_single = {}
def singles():
    with gd._caselock:
        if not _single: _single['g'] = group(behaviours(1, 'full')[0])
    return _single['g']

def wrong_calls(ctx, part, parts, per=1, levels=False, gpkg=False, env=False):
    """one (or more) calls of every function with every error at every place; with all logger levels or one"""
    rng = ctx.rng; sc = ctx.scene()
    G = singles()[part::parts]
    dbs = api_dbs(rng, gpkg)
    fixtures(sc, *dbs, rng, full=True); keep = save(sc)
    for g in G:
        for it in rng.sample(g, min(per, len(g))):
            a = args_of(it)
            for lv in (rng.sample(range(5), 5) if levels else [2]):
                if sc.snap() != sc.last: restore(sc, keep)
                sc.lv = lv; sc.start().level(lv); sc.sync_env()
                first = sc.last
                ev = sc.call(it['fn'], *a, extra=dict(badout=int(it['wrong'] == 'outdir'), exp=it['exp'], memo=1))
                if sc.runner: ev['fds'], ev['locked'] = probe(sc, sc.runner)
                if sc.last != first: restore(sc, keep); sc.sync_env()
    shutil.rmtree(keep)

SUFFIXES = ['_BASE_MODIFIED', '_base2theirs.bin', '_base2modified.bin', '_theirs2final.bin', '_modified2base.bin', '_modified2final.bin', '_rebased', '_rebased.diff', '_inverted', '.inv', '_concat', '_conflicts', '.conflict',
            '_conflict.json', '.json', '.diff', '.bin', '.tmp', '_tmp', '.temp', '.bak', '.orig', '.old', '.new', '.part', '.partial', '.lock', '.swp', '~', '.1', '.copy', '_copy', '.log', '_base', '_their', '_theirs', '_modified', '_final', '_changeset', 'geodiff_', '2']
def neighbours(ctx, part, parts, gpkg=False):
    """right calls of every function among files whose names a program might use for its own temporary files"""
    rng = ctx.rng; sc = ctx.scene()
    fixtures(sc, *api_dbs(rng, gpkg), rng, full=True)
    cp(sc, '1.diff', 'plain1.diff'); keep = save(sc)
    R = [it for g in singles() for it in g if it['wrong'][:2] == 'no' and it['wrong'] not in ('notdb', 'null')]
    fns = sorted({it['fn'] for it in R})[part::parts]
    for fn in fns:
        L = [it for it in R if it['fn'] == fn]
        for it in rng.sample(L, min(3, len(L))):
            a = args_of(it)
            if sc.snap() != sc.last: restore(sc, keep)
            names = set()
            for r, x in zip(gd.API[fn][1], a):
                if x is None or r[0] == '-' or r in ('drv', 'drv2') or not x: continue
                d, b = os.path.split(x); stem = b.split('.')[0]
                for y in SUFFIXES: names |= {os.path.join(d, b + y), os.path.join(d, stem + y), os.path.join(d, y.strip('_.') + b)}
                names |= {os.path.join(d, '.' + b), os.path.join(d, '~' + b), os.path.join(d, '#' + b + '#')}
            names |= {'tmp/' + x + y for y in SUFFIXES for x in ('', 'geodiff', 'geodiff_', 'geodiff_XXXXXX')} | {'tmp/geodiff', 'tmp/' + 'geodiff_changeset'}
            for n in sorted(names - set(a)):
                if not os.path.lexists(sc.p(n)) and os.path.isdir(os.path.dirname(sc.p(n))): put(sc, n, b'the notes of a user: ' + n.encode())
            sc.start(); sc.sync_env()
            sc.call(fn, *a, extra=dict(exp=it['exp'], memo=0))
            restore(sc, keep)
    shutil.rmtree(keep)

def aftermath(ctx, n, start=0):
    """calls that fail late, on one set of files, then right calls on another with the same or other tables; each also in a fresh process"""
    rng = ctx.rng; sc = ctx.scene(); sc.lv = 4
    def both(fn, *a, out=False):
        keep = save(sc)
        with Alt(sc): sc.call(fn, *a, extra=dict(memo=1))
        restore(sc, keep); shutil.rmtree(keep); sc.sync_env()
        ev = sc.call(fn, *a, extra=dict(memo=1))
        if sc.runner: ev['fds'], ev['locked'] = probe(sc, sc.runner)
    for i in range(start, start + n):
        clear(sc)
        A = random_triple(rng, (0, 5, 2, 6)[i % 4]); comp = gen.Table('zz last', [gen.Col('a', 'INTEGER', nn=True, pk=1), gen.Col('b', 'INTEGER', nn=True, pk=2), gen.Col('c', '')])
        if not isinstance(A[0], gen.Gpkg) and i % 2 == 0:      # a table that the rebase gives up on, after all the others
            tabs = A[0].tables + [comp]
            for s, v in zip(A, 'btm'): s.tables = tabs; s.rows['zz last'] = {(1, 1): (1, 1, v), (1, 2): (1, 2, 'same')}
        B = [s.copy() for s in (A if rng.random() < .4 else random_triple(rng, i + 1))]
        for t in B[0].tables:        # no conflicts and no clashing keys in B
            if not t.pkcols(): continue
            for k in set(B[1].rows[t.name]) | set(B[2].rows[t.name]) | set(B[0].rows[t.name]):
                if k in B[0].rows[t.name] or k in B[1].rows[t.name]:
                    if k in B[0].rows[t.name] and rng.random() < .5: B[1].rows[t.name][k] = B[0].rows[t.name][k]
                    elif k in B[0].rows[t.name]: B[2].rows[t.name][k] = B[0].rows[t.name][k]
                    else: B[2].rows[t.name].pop(k, None)
        if B[0].tables and any(t.name == 'zz last' for t in B[0].tables): 
            for s in B: s.rows['zz last'] = {}
        for L, p in ((A, 'a'), (B, 'b')):
            for s, x in zip(L, 'btm'):
                s.build(sc.p(p + x + '.gpkg'))
            sc.call('createChangeset', p + 'b.gpkg', p + 't.gpkg', p + 't.diff'); sc.call('createChangeset', p + 'b.gpkg', p + 'm.gpkg', p + 'm.diff')
        d = open(sc.p('at.diff'), 'rb').read() if os.path.exists(sc.p('at.diff')) else b''
        put(sc, 'cut.diff', d[:-3]); put(sc, 'tail.diff', d + b'Q')
        con = gen.connect(sc.p('bx.gpkg')); con.execute('CREATE TABLE "zzz other"(k INTEGER PRIMARY KEY)'); con.close()
        trg = ';'.join('CREATE TRIGGER u%d AFTER INSERT ON %s BEGIN SELECT 1; END' % (j, proj.q(t.name)) for j, t in enumerate(A[2].tables))
        cp(sc, 'am.gpkg', 'atr.gpkg'); con = gen.connect(sc.p('atr.gpkg')); con.executescript(trg); con.close()
        late = [('createRebasedChangeset', 'ab.gpkg', 'am.gpkg', 'at.diff', 'r.diff', 'nodir/c.json'), ('createRebasedChangeset', 'ab.gpkg', 'am.gpkg', 'at.diff', 'nodir/r.diff', 'c.json'),
                ('createRebasedChangeset', 'ab.gpkg', 'am.gpkg', 'at.diff', 'r.diff', 'c.json'), ('createRebasedChangesetEx', 'sqlite', '', 'ab.gpkg', 'am.diff', 'at.diff', 'r.diff', 'nodir/c.json'),
                ('createRebasedChangesetEx', 'sqlite', '', 'ab.gpkg', 'am.diff', 'tail.diff', 'r.diff', 'c.json'), ('createRebasedChangesetEx', 'sqlite', '', 'ab.gpkg', 'tail.diff', 'at.diff', 'r.diff', 'c.json'),
                ('rebase', 'ab.gpkg', 'at.gpkg', 'am.gpkg', 'nodir/c.json'), ('rebaseEx', 'sqlite', '', 'ab.gpkg', 'am.gpkg', 'at.diff', 'nodir/c.json'), ('rebaseEx', 'sqlite', '', 'ab.gpkg', 'am.gpkg', 'tail.diff', 'c.json'),
                ('applyChangeset', 'at.gpkg', 'am.diff'), ('applyChangeset', 'atr.gpkg', 'am.diff'), ('applyChangeset', 'ab.gpkg', 'tail.diff'), ('applyChangeset', 'bb.gpkg', 'at.diff'),
                ('invertChangeset', 'cut.diff', 'i.diff'), ('invertChangeset', 'tail.diff', 'i.diff'), ('listChanges', 'tail.diff', 'l.json'), ('listChangesSummary', 'cut.diff', 'l.json'), ('changesCount', 'tail.diff'), ('listChanges', 'at.diff', 'nodir/l.json'),
                ('createChangeset', 'bb.gpkg', 'bx.gpkg', '1.diff'), ('createRebasedChangeset', 'ab.gpkg', 'atr.gpkg', 'at.diff', 'r.diff', 'c.json'), ('dumpData', 'sqlite', '', 'am.gpkg', 'nodir/x.diff'), ('createChangeset', 'ab.gpkg', 'am.gpkg', 'nodir/x.diff')]
        good = [('createRebasedChangeset', 'bb.gpkg', 'bm.gpkg', 'bt.diff', 'r2.diff', 'c2.json'), ('createRebasedChangesetEx', 'sqlite', '', 'bb.gpkg', 'bm.diff', 'bt.diff', 'r2.diff', 'c2.json'),
                ('rebase', 'bb.gpkg', 'bt.gpkg', 'bm.gpkg', 'c2.json'), ('rebaseEx', 'sqlite', '', 'bb.gpkg', 'bm.gpkg', 'bt.diff', 'c2.json'), ('applyChangeset', 'bb.gpkg', 'bt.diff'), ('invertChangeset', 'bt.diff', 'i2.diff'),
                ('listChanges', 'bm.diff', 'l2.json'), ('listChangesSummary', 'bm.diff', 'l2.json'), ('changesCount', 'bt.diff'), ('createChangeset', 'bt.gpkg', 'bm.gpkg', '2.diff'), ('dumpData', 'sqlite', '', 'bm.gpkg', '2.diff')]
        sc.sync_env(); first = save(sc)
        rng.shuffle(late); sc.restart()
        for j, bad in enumerate(late):
            both(*bad)
            if bad[0].startswith(('rebase', 'createReb')): G = [good[j % 4], good[4 + j % 7]]
            else: G = [rng.choice(good)]
            for g in G: both(*g)
            restore(sc, first); sc.sync_env()
        shutil.rmtree(first)

PREFIX = {'Error: ': 1, 'Warn: ': 2, 'Info: ': 3, 'Debug: ': 4}
def default_logger(ctx, part, parts):
    """without a callback set by the caller: messages on stdout/stderr, level from the environment or 1; no callback; back to one"""
    rng = ctx.rng; sc = ctx.scene()
    fixtures(sc, *api_dbs(rng, False), rng, full=True); keep = save(sc)
    out = sc.dir + '.log'
    calls = [rng.choice(g) for g in singles()[part::parts]]
    calls = rng.sample(calls, min(len(calls), 6 if not THOROUGH else 30)) + [dict(fn='createChangeset', args=['b.gpkg', 'm.gpkg', '3.diff'], exp='ok', wrong='no'), dict(fn='createRebasedChangeset', args=['b.gpkg', 'm.gpkg', '1.diff', '3.diff', 'c.json'], exp='ok', wrong='no'),
             dict(fn='applyChangeset', args=['m.gpkg', '1.diff'], exp='err', wrong='no'), dict(fn='hasChanges', args=['1.diff'], exp='some', wrong='no')]
    # all messages of the calls
    sc.lv = 4; sc.start().level(4)
    for it in calls:
        restore(sc, keep); sc.sync_env()
        sc.call(it['fn'], *args_of(it), extra=dict(badout=int(it['wrong'] == 'outdir'), exp=it['exp'], memo=1))
    restore(sc, keep); sc.sync_env()
    for val, lv in (('4', 4), ('0', 0), (None, 1), ('2', 2), ('7', 1), ('-1', 1), ('3', 3), ('1', 1), ('off', 0)):
        env = dict(GDX_DEFAULT_LOGGER='1', GDX_STDOUT=out)
        if val not in (None, 'off'): env['GEODIFF_LOGGER_LEVEL'] = val
        if sc.runner: sc.runner.close()
        sc.runner = gd.Runner(sc.exe, cwd=sc.dir, tmpdir=sc.tmp, env=env, timeout=60)
        if val == 'off': sc.runner.level(4); sc.runner.cmd('callback', 'off')
        sc.lv = lv
        for it in calls:
            if sc.snap() != sc.last: restore(sc, keep)
            sc.sync_env()
            open(out, 'w').close()
            ev = sc.call(it['fn'], *args_of(it), extra=dict(badout=int(it['wrong'] == 'outdir'), exp=it['exp'], via='print'))
            txt = open(out, errors='replace').read()
            lm = []
            for l in txt.splitlines():
                for p, n in PREFIX.items():
                    if l.startswith(p): lm.append([n, 'x']); break
            # texts are not compared: a message may span several lines
            ev['lv'] = [x[0] for x in lm]; ev['lm'] = []
            restore(sc, keep); sc.sync_env()
    sc.runner.close(); sc.runner = None; os.unlink(out); shutil.rmtree(keep)

def reschema(ctx, n):
    """databases with other schemas, and other rows, under the same names in one process; each call also in a fresh process"""
    rng = ctx.rng; sc = ctx.scene(); sc.lv = 4
    def both(fn, *a):
        if any('.' in x and not os.path.exists(sc.p(x)) and x in NEED for x in a): return
        keep = save(sc)
        with Alt(sc): sc.call(fn, *a, extra=dict(memo=1))
        restore(sc, keep); shutil.rmtree(keep); sc.sync_env()
        ev = sc.call(fn, *a, extra=dict(memo=1))
        if sc.runner: ev['fds'], ev['locked'] = probe(sc, sc.runner)
    NEED = ('1.diff', '2.diff')
    sc.start(); prev = None
    for i in range(n):
        S = random_triple(rng, 2 if i in (2, 5) else i)
        if prev and rng.random() < .8 and not isinstance(S[0], gen.Gpkg):       # tables of the same names as in the round before
            for old, t in zip(prev, S[0].tables):
                if old in [x.name for x in S[0].tables]: continue
                for s in S:
                    s.rows[old] = s.rows.pop(t.name)
                    if t.name in s.nulls: s.nulls[old] = s.nulls.pop(t.name)
                t.name = old
        elif isinstance(S[0], gen.Gpkg):
            pass
        prev = [t.name for t in S[0].tables]
        old = {x: open(sc.p(x), 'rb').read() for x in NEED if os.path.exists(sc.p(x))}
        clear(sc)
        for s, x in zip(S, 'btm'): s.build(sc.p(x + '.gpkg'))
        if isinstance(S[0], gen.Gpkg) and i % 2:
            for x in 'btm'[rng.randint(0, 2):]: con = gen.connect(sc.p(x + '.gpkg')); con.execute('UPDATE gpkg_geometry_columns SET z = 1'); con.close()
        if i % 3 == 1: con = gen.connect(sc.p('m.gpkg')); con.execute('CREATE TABLE "zz other"(k INTEGER PRIMARY KEY)'); con.close()
        if i % 4 == 2: con = gen.connect(sc.p('m.gpkg')); con.execute('CREATE TRIGGER u AFTER INSERT ON %s BEGIN SELECT 1; END' % proj.q(S[0].tables[-1].name)); con.close()
        for x, d in old.items():      # a changeset of the round before
            put(sc, 'old' + x, d)
        sc.sync_env()
        both('createChangeset', 'b.gpkg', 't.gpkg', '1.diff'); both('createChangeset', 'b.gpkg', 'm.gpkg', '2.diff')
        L = [('createRebasedChangeset', 'b.gpkg', 'm.gpkg', '1.diff', 'r.diff', 'c.json'), ('createRebasedChangesetEx', 'sqlite', '', 'b.gpkg', '2.diff', '1.diff', 'r.diff', 'c.json'), ('dumpData', 'sqlite', '', 'b.gpkg', 'd.diff'), ('listChanges', '1.diff', 'l.json'),
             ('listChangesSummary', '2.diff', 'l.json'), ('rebaseEx', 'sqlite', '', 'b.gpkg', 'm.gpkg', '1.diff', 'c.json'), ('applyChangeset', 't.gpkg', '2.diff'), ('invertChangeset', '1.diff', 'i.diff'), ('createChangeset', 't.gpkg', 'm.gpkg', '3.diff')]
        if old: L.append(('applyChangeset', 'b.gpkg', 'old1.diff'))
        rng.shuffle(L)
        for c in L[:6] + [('applyChangeset', 'b.gpkg', '1.diff')]: both(*c)

BADMETA = ["UPDATE gpkg_geometry_columns SET column_name = 'nosuch'", "UPDATE gpkg_geometry_columns SET srs_id = 4711", "UPDATE gpkg_geometry_columns SET srs_id = 'text'", "DELETE FROM gpkg_geometry_columns", "DELETE FROM gpkg_spatial_ref_sys",
           "ALTER TABLE gpkg_spatial_ref_sys RENAME TO srs", "ALTER TABLE gpkg_geometry_columns RENAME TO geo", "DELETE FROM gpkg_ogr_contents", "ALTER TABLE gpkg_contents RENAME TO cont", "DELETE FROM gpkg_contents",
           "DROP TABLE gpkg_geometry_columns; CREATE TABLE gpkg_geometry_columns(table_name, column_name, geometry_type_name, srs_id, z, m); INSERT INTO gpkg_geometry_columns VALUES ('simple', NULL, 'POINT', 4326, 0, 0)",
           "DROP TABLE gpkg_geometry_columns; CREATE TABLE gpkg_geometry_columns(table_name, column_name, geometry_type_name, srs_id, z, m); INSERT INTO gpkg_geometry_columns VALUES ('simple', 'geometry', NULL, 4326, 0, 0)",
           "DROP TABLE gpkg_geometry_columns; CREATE TABLE gpkg_geometry_columns(table_name, column_name, geometry_type_name, srs_id, z, m); INSERT INTO gpkg_geometry_columns VALUES ('simple', 'geometry', 'POINT', NULL, NULL, NULL)",
           "DROP TABLE gpkg_geometry_columns; CREATE TABLE gpkg_geometry_columns(table_name, other); INSERT INTO gpkg_geometry_columns VALUES ('simple', 'geometry')",
           "DROP TABLE gpkg_geometry_columns; CREATE TABLE gpkg_geometry_columns(other)", "DROP TABLE gpkg_geometry_columns; CREATE VIEW gpkg_geometry_columns AS SELECT 1 FROM nosuch",
           "DROP TABLE gpkg_spatial_ref_sys; CREATE TABLE gpkg_spatial_ref_sys(srs_name, srs_id, organization, organization_coordsys_id, definition, description); INSERT INTO gpkg_spatial_ref_sys VALUES ('n', 4326, NULL, 4326, 'd', '')",
           "DROP TABLE gpkg_spatial_ref_sys; CREATE TABLE gpkg_spatial_ref_sys(srs_name, srs_id, organization, organization_coordsys_id, definition, description); INSERT INTO gpkg_spatial_ref_sys VALUES ('n', 4326, 'o', 4326, NULL, '')",
           "DROP TABLE gpkg_spatial_ref_sys; CREATE TABLE gpkg_spatial_ref_sys(srs_id); INSERT INTO gpkg_spatial_ref_sys VALUES (4326)"]
def damaged(ctx, n, kind):
    """databases with inconsistent GeoPackage tables, and damaged files; each call also in a fresh process"""
    rng = ctx.rng; sc = ctx.scene(); sc.lv = 4
    def both(fn, *a):
        keep = save(sc)
        with Alt(sc): sc.call(fn, *a, extra=dict(memo=1))
        restore(sc, keep); shutil.rmtree(keep); sc.sync_env()
        ev = sc.call(fn, *a, extra=dict(memo=1))
        if sc.runner: ev['fds'], ev['locked'] = probe(sc, sc.runner)
    B = rng.sample(BADMETA, min(n, len(BADMETA))) if kind == 'meta' else range(n)
    for k, x in enumerate(B):
        clear(sc); b, t, m = api_dbs(rng, kind == 'meta' or k % 3 == 2)
        for s, nm in ((b, 'b.gpkg'), (t, 't.gpkg'), (m, 'm.gpkg')): s.build(sc.p(nm))
        sc.call('createChangeset', 'b.gpkg', 't.gpkg', '1.diff'); sc.call('createChangeset', 'b.gpkg', 'm.gpkg', '2.diff')
        if kind == 'meta':
            for src in ('b', 'm'):
                cp(sc, src + '.gpkg', 'x%s.gpkg' % src); con = gen.connect(sc.p('x%s.gpkg' % src))
                con.execute('PRAGMA legacy_alter_table = 1'); con.executescript(x); con.close()
        else:
            # (not named like a database: its contents are not looked at)
            for src in ('b', 'm'):
                d = bytearray(open(sc.p(src + '.gpkg'), 'rb').read()); N = len(d)
                how = rng.choice(['cut', 'page', 'bytes', 'bytes', 'header', 'zero', 'schema'])
                if how == 'cut': del d[rng.choice([100, 512, 4096, 4097, N // 2, N - 4096, N - 1]):]
                elif how == 'page': i = rng.randrange(1, N // 4096) * 4096; j = rng.randrange(1, N // 4096) * 4096; d[i:i + 4096] = d[j:j + 4096]
                elif how == 'zero': i = rng.randrange(1, N // 4096) * 4096; d[i:i + 4096] = bytes(4096)
                elif how == 'header': d[rng.randrange(16, 100)] = rng.randrange(256)
                elif how == 'schema': i = rng.randrange(100, 4096); d[i] ^= 1 << rng.randrange(8)
                else:
                    for _ in range(rng.choice([1, 4, 40])): d[rng.randrange(100, N)] = rng.randrange(256)
                put(sc, 'x' + src + '.bin', bytes(d))
        e = '.gpkg' if kind == 'meta' else '.bin'; xb, xm = 'xb' + e, 'xm' + e
        L = [('createChangeset', xb, xm, 'o.diff'), ('createChangeset', 'b.gpkg', xm, 'o.diff'), ('createChangeset', xb, 'm.gpkg', 'o.diff'), ('dumpData', 'sqlite', '', xm, 'o.diff'), ('createRebasedChangeset', xb, xm, '1.diff', 'o.diff', 'c.json'),
             ('createRebasedChangeset', xb, 'm.gpkg', '1.diff', 'o.diff', 'c.json'), ('applyChangeset', xb, '1.diff'), ('rebase', xb, xm, 'm.gpkg', 'c.json'), ('rebase', 'b.gpkg', 't.gpkg', xm, 'c.json'), ('rebaseEx', 'sqlite', '', xb, xm, '1.diff', 'c.json'),
             ('makeCopy', 'sqlite', '', xm, 'sqlite', '', 'o.gpkg'), ('createRebasedChangesetEx', 'sqlite', '', xb, '2.diff', '1.diff', 'o.diff', 'c.json'), ('createChangeset', 'b.gpkg', 'm.gpkg', 'o.diff'), ('rebase', 'b.gpkg', 't.gpkg', 'm.gpkg', 'c.json')]
        sc.sync_env(); first = save(sc); rng.shuffle(L); sc.restart()
        for c in L: both(*c); restore(sc, first); sc.sync_env()
        shutil.rmtree(first)
