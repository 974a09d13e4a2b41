"""Several processes at the same time (C18)."""
import re, json, hashlib, tempfile
from faultstories import *

_sched = {}
def schedules(procs, steps):
    """all orders of chunks of processes (TLC: Temp.tla)"""
    with gd._caselock:
        if (procs, steps) not in _sched:
            rc, out = gd.tlc('Temp', 'SPECIFICATION SSpec\nCONSTANTS Procs = {%s} Distinct = TRUE Exclusive = FALSE Steps = %d Emit = TRUE\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\n' % (','.join(map(str, range(1, procs + 1))), steps))
            if rc != 0: raise gd.CheckError('Temp: ' + out[-3000:])
            _sched[procs, steps] = sorted(json.loads(x) for x in re.findall(r'<<"SCHED", "(\[.*?\])">>', out))
        return _sched[procs, steps]

class Proc:
    """a process of its own that executes one call, stopped before every operation on a file"""
    def __init__(s, sc, fn, a, mode='pauseall', n=1):
        s.sc, s.fn, s.a = sc, fn, a; s.done = False; s.rc = None; s.kind = None; s.ops = 0
        s.r = gd.Runner(sc.exe, cwd=sc.dir, tmpdir=sc.tmp, timeout=sc.timeout); s.r.level(0)
        if mode: s.r.fault(mode, n)
    def begin(s): s.r.start(s.fn, *[s.sc.full(s.fn, i, x) for i, x in enumerate(s.a)])
    def wait(s):
        """until the process stops or ends"""
        try:
            while True:
                l = s.r.line()
                if l.startswith('paused\t'): s.kind = l.split('\t')[1]; s.ops += 1; return
                if l == '.': s.done = True; return
                f = l.split('\t')
                if f[0] == 'ret': s.rc = int(f[1])
                elif f[0] == 'exc': s.rc = -1000
        except gd.Crash as e: s.sc.notes.append('crash: ' + e.err[-800:]); s.rc = -1001; s.done = True
        except gd.Timeout: s.sc.notes.append('timeout'); s.rc = -1002; s.done = True
    def go(s, n=1):
        for _ in range(n):
            if s.done: return
            s.r.send('go'); s.wait()
    def end(s):
        """to the end without stopping"""
        s.go(10**9)
    def close(s):
        if s.rc not in (-1001, -1002): s.r.close()

def conc_event(sc, procs, **extra):
    calls = []
    for p in procs:
        op, roles = gd.API[p.fn]; a = {r: '' for r in gd.ROLES}
        for r, v in zip(roles, p.a):
            if r[0] == '-': continue
            a[r] = v or '' if r in ('drv', 'drv2') else sc.rel(v)
        for r in ('drv', 'drv2'):
            if r not in roles: a[r] = 'sqlite'
        calls.append(dict(op=op, fn=p.fn, a=a, miss=0, badout=0, rc=p.rc))
    ev = dict(op='conc', fn='conc', a={r: '' for r in gd.ROLES}, miss=0, rc=[c['rc'] for c in calls], lv=[], level=0, fault=0, fds=0, locked=0, memo=0, badout=0, exp='', labs=[], killed=0, obs=[], lm=[], calls=calls)
    ev.update(extra); now = sc.snap(); ev['files'] = sc._files(now); sc.last = now
    sc.events.append(ev)

# calls of one process, with names of outputs of its own; b, t.gpkg, t.diff are shared
def own_calls(i, kind):
    n = 'p%d' % i
    C = [('create', 'createChangeset', ['b.gpkg', 't.gpkg', n + 'o.diff']),
         ('apply', 'applyChangeset', [n + 'f.gpkg', 't.diff']),
         ('dump', 'dumpData', ['sqlite', '', 't.gpkg', n + 'o.diff']),
         ('invert', 'invertChangeset', ['t.diff', n + 'o.diff']),
         ('list', 'listChanges', ['t.diff', n + 'l.json']),
         ('summary', 'listChangesSummary', ['t.diff', n + 'l.json']),
         ('csx', 'createRebasedChangesetEx', ['sqlite', '', 'b.gpkg', 'm.diff', 't.diff', n + 'o.diff', n + 'c.json']),
         ('cs', 'createRebasedChangeset', ['b.gpkg', 'm.gpkg', 't.diff', n + 'o.diff', n + 'c.json']),
         ('rebasex', 'rebaseEx', ['sqlite', '', 'b.gpkg', n + 'm.gpkg', 't.diff', n + 'c.json']),
         ('rebase', 'rebase', ['b.gpkg', 't.gpkg', n + 'm.gpkg', n + 'c.json'])]
    # the same names with other endings, or none
    if i % 2: C = [(k, f, [x.replace('p%do.diff' % i, 'p%d' % (i - 1)).replace('p%dl.json' % i, 'p%do.json' % (i - 1)) if isinstance(x, str) else x for x in a]) for k, f, a in C]
    return {k: (f, a) for k, f, a in C}

def conc_prepare(sc, kind, rng, n):
    """shared files and, per process, a copy of BASE and an edited database of its own"""
    clear(sc); b, t, m = fault_dbs(rng, kind)
    tripledb(sc, b, t, m, rng)
    sc.call('createChangeset', 'b.gpkg', 't.gpkg', 't.diff'); sc.call('createChangeset', 'b.gpkg', 'm.gpkg', 'm.diff')
    for i in range(n):
        cp(sc, 'b.gpkg', 'p%df.gpkg' % i)
        if isinstance(b, gen.Gpkg): own = gen.gpkg_mutate(rng, b, keys=gen.rebase_keys(7, 12))
        elif kind == 'big':
            own = b.copy()
            for k in rng.sample(sorted(own.rows['big']), 8): r = list(own.rows['big'][k]); r[1] = 'process %d ' % i * 50; own.rows['big'][k] = tuple(r)
            for k in range(25, 28): own.rows['big'][(k,)] = (k, 'inserted by %d' % i, None)
        else: own = gen.mutate(rng, b, 0, .2, .6)
        cp(sc, 'b.gpkg', 'p%dm.gpkg' % i); gen.edit(sc.p('p%dm.gpkg' % i), b, own)
    return save(sc)

def alone(sc, keep, calls):
    """every call alone, on the same files; returns the numbers of its operations"""
    out = []
    for fn, a in calls:
        restore(sc, keep); sc.sync_env(); sc.start().fault('count'); sc.call(fn, *a, extra=dict(memo=1)); out.append(sc.runner.fault('off') if sc.runner else {'all': 0})
    return out

def two_processes(ctx, kind, first, second, limit, flavour='plain'):
    """the first call is stopped before an operation, the second runs from beginning to end, the first goes on"""
    sc = ctx.scene(flavour); rng = ctx.rng
    keep = conc_prepare(sc, kind, rng, 2)
    A, B = own_calls(0, kind)[first], own_calls(1, kind)[second]
    cnt = alone(sc, keep, [A, B])
    L = list(range(1, cnt[0]['all'] + 1))
    if len(L) > limit:
        # all operations on other files than databases, and some of the others
        restore(sc, keep); p = Proc(sc, *A); p.begin(); p.wait(); K = []
        while not p.done: K.append(p.kind); p.go()
        p.close()
        F = [i for i, k in enumerate(K, 1) if k in ('file', 'remove')]; near = {j for i in F for j in (i, i + 1) if j <= len(K)}
        rest = [i for i in L if i not in near]
        L = sorted(near | set(rng.sample(rest, max(0, min(len(rest), limit - len(near))))))
    for n in L:
        restore(sc, keep); sc.sync_env()
        p, r = Proc(sc, *A, mode='pause', n=n), Proc(sc, *B, mode=None)
        p.begin(); p.wait(); r.begin(); r.wait(); p.end(); p.close(); r.close()
        conc_event(sc, [p, r], why='stopped before operation %d of %d (%s)' % (n, cnt[0]['all'], p.kind))
    shutil.rmtree(keep)

def interleaved(ctx, kind, whats, steps, pick, flavour='plain'):
    """chunks of operations of several processes in orders enumerated by TLC"""
    sc = ctx.scene(flavour); rng = ctx.rng
    keep = conc_prepare(sc, kind, rng, len(whats))
    C = [own_calls(i, kind)[w] for i, w in enumerate(whats)]
    cnt = alone(sc, keep, C)
    S = schedules(len(C), steps)
    for s in (S if pick is None or len(S) <= pick else rng.sample(S, pick)):
        restore(sc, keep); sc.sync_env()
        P = [Proc(sc, *c) for c in C]
        cuts = [sorted(rng.sample(range(1, max(2, c['all'])), min(steps - 1, max(1, c['all']) - 1))) for c in cnt]
        for p in P: p.begin()
        for p in P: p.wait()
        turn = [0] * len(P)
        for x in s:
            i = x - 1; k = turn[i]; turn[i] += 1
            if k < len(cuts[i]): P[i].go(max(0, cuts[i][k] - P[i].ops))
            else: P[i].end()
        for p in P: p.end(); p.close()
        conc_event(sc, P, why='order %s, cuts %s' % (s, cuts))
    shutil.rmtree(keep)

def together(ctx, kind, n, rounds, whats, flavour='plain'):
    """processes started at the same time, not stopped"""
    sc = ctx.scene(flavour); rng = ctx.rng
    keep = conc_prepare(sc, kind, rng, n)
    C = [own_calls(i, kind)[rng.choice(whats)] for i in range(n)]
    alone(sc, keep, C)
    for r in range(rounds):
        restore(sc, keep); sc.sync_env()
        P = [Proc(sc, *c, mode=None) for c in C]
        for p in P: p.begin()
        for p in P: p.wait()
        for p in P: p.close()
        conc_event(sc, P, why='round %d' % r)
    shutil.rmtree(keep)
