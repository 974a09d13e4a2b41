"""Faults of the file system during calls (C20), kills and readers at every operation (C05), concurrent processes (C18)."""
import re
from apistories import *

def fault_dbs(rng, kind):
    if kind == 'wal': kind = 'big'
    if kind == 'gpkg':
        b = gen.gpkg_state(rng, ('simple',), n=6); return b, gen.gpkg_mutate(rng, b, keys=gen.rebase_keys(7, 12)), gen.gpkg_mutate(rng, b, keys=gen.rebase_keys(7, 12))
    if kind == 'big':      # many pages, overflow pages
        t = gen.Table('big', [gen.Col('fid', 'INTEGER', pk=1), gen.Col('v', ''), gen.Col('w', 'BLOB')])
        S = [gen.State([t]) for _ in range(3)]
        for i in range(1, 25):
            for s in S: s.rows['big'][(i,)] = (i, 'v%d ' % i * 40, bytes([i]) * (5000 if i % 6 == 0 else 300))
        for s, tag in zip(S[1:], ('theirs', 'mine')):
            for i in rng.sample(range(1, 25), 10): r = list(s.rows['big'][(i,)]); r[1] = tag * rng.choice([3, 900]); s.rows['big'][(i,)] = tuple(r)
            for i in rng.sample(range(1, 25), 4): del s.rows['big'][(i,)]
            # (a page cache so small that it is written out in the middle of transactions)
            for i in range(25, 30): s.rows['big'][(i,)] = (i, tag, None)
        for s in S: s.script = 'PRAGMA default_cache_size=5'
        return S
    if kind == 'vast':     # tens of thousands of entries
        x = gen.Table('vast', [gen.Col('fid', 'INTEGER', pk=1), gen.Col('v', '')]); b, t, m = S = [gen.State([x]) for _ in range(3)]
        for i in range(1, 20001): t.rows['vast'][(i,)] = (i, i)
        return S
    if kind == 'many':     # thousands of entries
        x = gen.Table('many', [gen.Col('fid', 'INTEGER', pk=1), gen.Col('v', '')]); b, t, m = S = [gen.State([x]) for _ in range(3)]
        for st in S: st.rows['many'] = {(i,): (i, 'v') for i in range(1, 1101)}
        for i in range(1, 1101): t.rows['many'].pop((i,)) if i % 2 else t.rows['many'].update({(i,): (i, 't')})
        for i in range(2000, 3100): t.rows['many'][(i,)] = (i, i)
        return S
    if kind in ('vanish', 'same', 'both'):     # nothing is left of mine after the rebase; both sides the same; many rows of both sides
        n = 900 if kind == 'both' else 30
        T = [gen.Table(x, [gen.Col('fid', 'INTEGER', pk=1), gen.Col('v', ''), gen.Col('w', '')]) for x in ('one', 'two')]; S = [gen.State(T) for _ in range(3)]; b, t, m = S
        for st in S:
            for x in ('one', 'two'): st.rows[x] = {(i,): (i, 'v%d' % i, 'w' * 50) for i in range(1, n)}
        for x in ('one', 'two'):
            for i in range(1, n, 3):
                if kind == 'both': t.rows[x][(i,)] = (i, 't', 'w' * 50); m.rows[x][(i,)] = (i, 'v%d' % i, 'm') if i % 2 else (i, 'm', 'w' * 50)
                else:
                    del t.rows[x][(i,)]
                    if i % 2 or kind == 'same': del m.rows[x][(i,)]
                    else: m.rows[x][(i,)] = (i, 'm', None)
            if kind == 'both':
                for i in range(n, n + 200): t.rows[x][(i,)] = (i, 't', i); m.rows[x][(i,)] = (i, 'm', i)
                for i in range(2, n, 7): del m.rows[x][(i,)]
            if kind == 'vanish':
                for i in range(2, n, 3): t.rows[x][(i,)] = (i, 'theirs', 'w' * 50)
                t.rows[x][(n + 5,)] = (n + 5, 'theirs', None)
        return S
    b, t, m = api_dbs(rng, False)
    if kind == 'trg':
        for s in (b, t, m): s.script = 'CREATE TRIGGER "u 1" AFTER INSERT ON ins BEGIN DELETE FROM "text keys"; END; CREATE TRIGGER u2 BEFORE UPDATE ON "de""l" BEGIN DELETE FROM ins; END;'
    return b, t, m

# (name, call, files that have to be there before: made by the calls of prepare)
def fault_calls(kind):
    C = [('create', 'createChangeset', ['b.gpkg', 'm.gpkg', 'o.diff']),
         ('apply', 'applyChangeset', ['f.gpkg', 't.diff']),
         ('applybad', 'applyChangeset', ['m.gpkg', 't.diff']),
         ('dump', 'dumpData', ['sqlite', None, 't.gpkg', 'o.diff']),
         ('invert', 'invertChangeset', ['t.diff', 'o.diff']),
         ('list', 'listChanges', ['t.diff', 'l.json']),
         ('summary', 'listChangesSummary', ['t.diff', 'l.json']),
         ('csx', 'createRebasedChangesetEx', ['sqlite', None, 'b.gpkg', 'm.diff', 't.diff', 'o.diff', 'c.json'])]
    C += [('rebasex', 'rebaseEx', ['sqlite', None, 'b.gpkg', 'm.gpkg', 't.diff', 'c.json']), ('rebase', 'rebase', ['b.gpkg', 't.gpkg', 'm.gpkg', 'c.json']),
          ('rebase0', 'rebase', ['b.gpkg', 't.gpkg', 'f.gpkg', 'c.json'])]
    # theirs or mine without changes
    if kind in ('plain', 'big'): C += [('csxe', 'createRebasedChangesetEx', ['sqlite', None, 'b.gpkg', 'm.diff', 'e.diff', 'o.diff', 'c.json']), ('cse', 'createRebasedChangeset', ['b.gpkg', 'm.gpkg', 'e.diff', 'o.diff', 'c.json']), ('cs0', 'createRebasedChangeset', ['b.gpkg', 'f.gpkg', 't.diff', 'o.diff', 'c.json'])]
    if kind != 'trg': C += [('cs', 'createRebasedChangeset', ['b.gpkg', 'm.gpkg', 't.diff', 'o.diff', 'c.json'])]
    else: C = [c for c in C if c[0] in ('apply', 'applybad')]
    if kind in ('many', 'vast'): C = [c for c in C if c[0] == 'apply']
    if kind in ('vanish', 'same', 'both'): C = [c for c in C if c[0] in ('rebase', 'rebasex')]
    return C

# further calls that use files other than databases
READS = [('count', 'changesCount', ['t.diff']), ('has', 'hasChanges', ['t.diff']), ('copy', 'makeCopy', ['sqlite', None, 't.gpkg', 'sqlite', None, 'o.gpkg']), ('createx', 'createChangesetEx', ['sqlite', None, 'b.gpkg', 'm.gpkg', 'o.diff']), ('applyx', 'applyChangesetEx', ['sqlite', None, 'f.gpkg', 't.diff'])]
def wal(path):
    con = sqlite3.connect(path, isolation_level=None)
    if con.execute('pragma journal_mode=wal').fetchall() != [('wal',)]: raise gd.CheckError('no WAL mode')
    con.close()
def prepare(sc, kind, rng):
    clear(sc); b, t, m = fault_dbs(rng, kind)
    tripledb(sc, b, t, m, rng); cp(sc, 'b.gpkg', 'f.gpkg')
    if kind == 'wal':
        for n in ('b.gpkg', 't.gpkg', 'm.gpkg', 'f.gpkg'): wal(sc.p(n))
    sc.call('createChangeset', 'b.gpkg', 't.gpkg', 't.diff'); sc.call('createChangeset', 'b.gpkg', 'm.gpkg', 'm.diff'); sc.call('createChangeset', 'b.gpkg', 'f.gpkg', 'e.diff')
    return save(sc)

def recover(sc):
    """what the next program that opens the databases does first: roll back a transaction that was left unfinished"""
    for root, _, files in os.walk(sc.dir):
        for f in files:
            x = re.sub('-(journal|wal)$', '', f)
            if x != f and os.path.exists(os.path.join(root, x)):
                con = sqlite3.connect(os.path.join(root, x))
                try: con.execute('select count(*) from sqlite_master').fetchall()
                except sqlite3.DatabaseError: pass
                con.close()

def once(sc, keep, fn, a, arm, disarm, extra):
    """one call on the saved files with something armed before and disarmed after"""
    restore(sc, keep); sc.sync_env()
    r = sc.start(); arm(r)
    def post():
        if sc.runner: disarm(sc.runner)
        recover(sc)
    ev = sc.call(fn, *a, extra=extra, post=post)
    if sc.runner: ev['fds'], ev['locked'] = probe(sc, sc.runner)
    return ev

KINDS = ('read', 'write', 'lock', 'sync', 'open', 'deltrunc')
FILE_KINDS = ("file", "full", "data")
def vfs_faults(ctx, kind, what, limit=40, kinds=KINDS, flavour=None):
    """the n-th operation of every kind fails, once or from then on, for every n (up to limit, then sampled)"""
    rng = ctx.rng; sc = ctx.scene(flavour) if flavour else ctx.scene()
    keep = prepare(sc, kind, rng)
    fn, a = next((f, a) for n, f, a in fault_calls(kind) + READS if n == what)
    # without a fault: the reference and the numbers of operations
    sc.runner.fault('count')
    cnt = {}
    once(sc, keep, fn, a, lambda r: r.fault('count'), lambda r: cnt.update(r.fault('off')), None)
    for k in kinds:
        c = cnt[k]
        modes = [k, k + '+'] if k != 'deltrunc' else ['delete', 'truncate', 'delete+', 'truncate+']
        for mode in modes:
            L = list(range(1, c + 1))
            if len(L) > limit: L = L[:limit // 2] + sorted(rng.sample(L[limit // 2:], limit - limit // 2))
            for n in L:
                once(sc, keep, fn, a, lambda r: r.fault(mode, n), lambda r: r.fault('off'), dict(fault=1, why='%s %d of %d' % (mode, n, c)))
    shutil.rmtree(keep)

def out_faults(ctx, kind, what):
    """outputs that cannot be written completely: size limits, full devices, a directory in the way; databases locked by others"""
    rng = ctx.rng; sc = ctx.scene()
    keep = prepare(sc, kind, rng)
    fn, a = next((f, a) for n, f, a in fault_calls(kind) if n == what)
    roles = gd.API[fn][1]
    # how large do the files get
    once(sc, keep, fn, a, lambda r: None, lambda r: None, None)
    sizes = sorted({os.path.getsize(sc.p(x)) for r, x in zip(roles, a) if r in ('out', 'conf', 'db') and os.path.exists(sc.p(x))})
    lim = {0, 1, 2, 100, 511, 512, 513, 1000, 4095, 4096, 8191, 8192}
    for s in sizes: lim |= {s - 1, s // 2, s * 3 // 4, s, s + 1}
    for s in sorted(x for x in lim if x >= 0 and x <= max(sizes + [1]) + 1):
        once(sc, keep, fn, a, lambda r: r.cmd('fsize', s), lambda r: r.cmd('fsize', -1), dict(fault=1, why='fsize %d' % s))
    for i, r in enumerate(roles):
        if r not in ('out', 'conf'): continue
        for way in ('full', 'dir', 'dirlink') if r == 'out' else ('full', 'dir'):
            restore(sc, keep)
            if way == 'full': os.symlink('/dev/full', sc.p(a[i]))
            elif way == 'dir': os.mkdir(sc.p(a[i])); put(sc, a[i] + '/inside', b'x')
            else: os.symlink('nowhere/' + a[i], sc.p(a[i]))
            sc.sync_env(); sc.call(fn, *a, extra=dict(fault=1, why=way + ' ' + r))
    # locked by another connection
    for i, r in enumerate(roles):
        if r not in ('base', 'mod', 'db', 'thdb'): continue
        for how in ('BEGIN EXCLUSIVE', 'BEGIN IMMEDIATE', 'BEGIN'):
            restore(sc, keep)
            con = []
            # (taken after and given back before the snapshots: closing any descriptor of a file gives up the locks of a process)
            def pre():
                c = sqlite3.connect(sc.p(a[i]), timeout=0, isolation_level=None); con.append(c)
                c.execute(how)
                if how == 'BEGIN': c.execute('select count(*) from sqlite_master').fetchall()
            def post(): con[0].execute('ROLLBACK'); con[0].close()
            sc.call(fn, *a, extra=dict(fault=1, why=how + ' ' + r), pre=pre, post=post)
    shutil.rmtree(keep)

# ---------------------------------------------------------------- C05
def atomic_kill(ctx, kind, what, limit, flavour='plain'):
    """the process is killed before the n-th operation that changes a file, for every n"""
    rng = ctx.rng; sc = ctx.scene(flavour)
    keep = prepare(sc, kind, rng)
    fn, a = next((f, a) for n, f, a in fault_calls(kind) if n == what)
    cnt = {}
    once(sc, keep, fn, a, lambda r: r.fault('count'), lambda r: cnt.update(r.fault('off')), dict(memo=1))
    L = list(range(1, cnt['mut'] + 1))
    if len(L) > limit: L = sorted(rng.sample(L, limit // 2) + L[-(limit - limit // 2):])
    for n in sorted(set(L)):
        once(sc, keep, fn, a, lambda r: r.fault('kill', n), lambda r: None, dict(killed=1, why='kill %d of %d' % (n, cnt['mut'])))
        if sc.runner: raise gd.CheckError('kill %d of %d did not happen' % (n, cnt['mut']))
    shutil.rmtree(keep)

def read_db(sc, name):
    """what another connection sees (a handle), or None when it is told that the database is busy"""
    tmp = sc.dir + '.obs.gpkg'
    if os.path.exists(tmp): os.unlink(tmp)
    con = sqlite3.connect(sc.p(name), timeout=0, isolation_level=None)
    try:
        con.execute('BEGIN'); con.execute('select count(*) from sqlite_master').fetchall()
        d = sqlite3.connect(tmp)
        con.backup(d); d.close(); con.execute('COMMIT')
    except sqlite3.OperationalError as e:
        if 'locked' in str(e) or 'busy' in str(e): return None
        raise
    finally: con.close()
    data = open(tmp, 'rb').read()
    h = sc.pool.file(tmp, data, hashlib.sha256(data).hexdigest()[:20]); os.unlink(tmp)
    return h

def atomic_read(ctx, kind, what, flavour='plain'):
    """a reader looks at the database before every operation of the file system layer"""
    rng = ctx.rng; sc = ctx.scene(flavour)
    keep = prepare(sc, kind, rng)
    fn, a = next((f, a) for n, f, a in fault_calls(kind) if n == what)
    dbn = a[gd.API[fn][1].index('db')]
    once(sc, keep, fn, a, lambda r: None, lambda r: None, dict(memo=1))
    restore(sc, keep); sc.sync_env()
    obs, busy = [], []
    def look(k):
        o = read_db(sc, dbn)
        if o is None: busy.append(k)
        else: obs.append(o)
    sc.start().fault('pauseall', 1)
    ev = sc.call(fn, *a, on_pause=look, extra=dict(memo=1))
    if sc.runner: sc.runner.fault('off')
    ev['obs'] = [o for i, o in enumerate(obs) if i == 0 or o != obs[i - 1]]
    if not obs: raise gd.CheckError('the reader saw nothing')
    ctx.units += len(obs)
    shutil.rmtree(keep)
