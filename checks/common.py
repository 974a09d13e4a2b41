"""Building blocks of the stories."""
import os, shutil, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import gd, gen, proj
from gd import THOROUGH, SEED
from check import Check
from proj import UNDEF, encode_cs

def cp(sc, src, dst):
    """copy a file of the scene, tolerating that a broken library did not write it"""
    if os.path.exists(sc.p(src)): shutil.copyfile(sc.p(src), sc.p(dst))
    elif os.path.exists(sc.p(dst)): os.unlink(sc.p(dst))

def put(sc, name, data):
    os.makedirs(os.path.dirname(sc.p(name)), exist_ok=True)
    with open(sc.p(name), 'wb') as f: f.write(data)

def clear(sc):
    """forget all files of the scene"""
    for n in os.listdir(sc.dir):
        p = sc.p(n)
        if n == 'tmp': continue
        if os.path.isdir(p): shutil.rmtree(p)
        else: os.unlink(p)

def pairdb(sc, b, m, rng, base='base.gpkg', mod='mod.gpkg', fresh=None, pragma=''):
    """builds the files of two states; the second either by editing a copy of the first or from scratch"""
    b.build(sc.p(base), pragma=pragma)
    if fresh is None: fresh = rng.random() < .3
    if fresh: m.build(sc.p(mod), order=rng, pragma=pragma)
    else:
        cp(sc, base, mod); gen.edit(sc.p(mod), b, m)

PRAGMAS = ['', '', '', 'pragma encoding="UTF-16le";', 'pragma encoding="UTF-16be";', 'pragma page_size=512;', 'pragma page_size=8192;', 'pragma auto_vacuum=full;']

def random_pair(rng, k):
    """k-th kind of pair of states"""
    kind = k % 8
    if kind == 3: b = gen.gpkg_state(rng, ('simple', 'other layer')[:rng.randint(1, 2)]); return b, gen.gpkg_mutate(rng, b)
    b = gen.fill(rng, gen.shapes(rng, None if kind else 3))
    if kind == 4: return b, b.copy()
    if kind == 5: return b, gen.State(b.tables, {t.name: ({} if t.pkcols() else list(b.rows[t.name])) for t in b.tables})
    if kind == 6: return gen.State(b.tables, {t.name: ({} if t.pkcols() else list(b.rows[t.name])) for t in b.tables}), b
    if kind == 7:    # one sparse change in one table
        m = b.copy(); t = rng.choice([t for t in b.tables if t.pkcols()])
        return b, gen.mutate(rng, b, .1, .1, .2, tables=[t.name])
    return b, gen.mutate(rng, b)

def systematic_pairs(rng):
    out = []
    for pk in ('INTEGER', 'TEXT'): out += gen.pair_states(pk=pk)
    out += gen.pair_states(pool=gen.INTS[:14], typ='INTEGER') + gen.pair_states(pool=gen.TEXTS[:18], typ='TEXT') + gen.pair_states(pool=gen.LONGS) + gen.pair_states(pool=gen.REALS, typ='REAL')
    out += gen.pair_states(pool=gen.BLOBS, typ='BLOB') + [x for c in ('NOCASE', 'RTRIM') for x in gen.pair_states(pool=['', ' ', 'a', 'A', 'a ', 'A  ', 'b', 'é', 'É', 'x' * 300, 'x' * 299 + 'X', 'x' * 300 + ' ', None, b'a', 1], coll=c)]
    out += [gen.subset_states(rng, n) for n in (1, 2, 4, 6)]
    return out

def big_state(rng, rows=60, size=20000):
    """many rows, long values, many columns"""
    t = gen.Table('big', [gen.Col('fid', 'INTEGER', pk=1)] + [gen.Col('c%d' % i, '') for i in range(6)])
    s = gen.State([t])
    for i in range(rows):
        k = i * 1009 + 1
        s.rows['big'][(k,)] = (k, 'x' * rng.choice([126, 127, 128, 16383, 16384, size]), bytes(rng.choice([127, 128, 16383, 16384, size])), i, None, 0.5 * i, 'é' * rng.randint(0, 9))
    return s

def cat_pairs(rng, total):
    """list of (b, m) covering the kinds"""
    return [random_pair(rng, k) for k in range(total)]

def decorate(rng, path):
    """indexes and views, which have no influence on anything but SQLite's choice of how to run statements"""
    con = gen.connect(path); q = gen.q
    for (name,) in con.execute("SELECT name FROM sqlite_master WHERE type = 'table' AND name NOT LIKE 'sqlite_%' AND name NOT LIKE 'gpkg_%' AND name NOT LIKE 'rtree_%' AND sql NOT LIKE 'CREATE VIRTUAL%'").fetchall():
        cols = [r[1] for r in con.execute('PRAGMA table_info(%s)' % q(name))]
        for i in range(rng.choice([0, 1, 1, 2, 3])):
            c = rng.choice(cols); n = q('ix %s %d' % (name, i))
            how = rng.choice(['one', 'desc', 'all', 'all', 'partial', 'expr', 'nocase', 'key'])
            what = {'one': '(%s)' % q(c), 'desc': '(%s DESC)' % q(c), 'all': '(%s)' % ','.join(q(x) for x in rng.sample(cols, min(len(cols), 60))), 'partial': '(%s) WHERE %s IS NOT NULL' % (q(c), q(rng.choice(cols))),
                    'expr': '(typeof(%s), length(%s))' % (q(c), q(c)), 'nocase': '(%s COLLATE NOCASE, %s COLLATE RTRIM)' % (q(c), q(rng.choice(cols))), 'key': '(%s)' % ','.join(q(x) for x in cols[:2][::-1])}[how]
            con.execute('CREATE INDEX %s ON %s %s' % (n, q(name), what))
        if rng.random() < .2: con.execute('CREATE VIEW %s AS SELECT %s FROM %s' % (q('v ' + name), q(cols[0]), q(name)))
    con.close()

def diff_story(ctx, pairs=None, n=4, start=0, do=('has', 'apply', 'invert'), after=None):
    rng = ctx.rng
    sc = ctx.scene()
    ps = pairs(rng) if pairs else [random_pair(rng, start + i) for i in range(n)]
    for i, (b, m) in enumerate(ps):
        clear(sc)
        pragma = rng.choice(PRAGMAS)
        pairdb(sc, b, m, rng, pragma=pragma)
        for x in ('base.gpkg', 'mod.gpkg'):
            if not pairs and rng.random() < .4: decorate(rng, sc.p(x))
        fn = rng.random() < .3
        if fn: sc.call('createChangesetEx', 'sqlite', rng.choice(['', None]), 'base.gpkg', 'mod.gpkg', 'a.diff')
        else: sc.call('createChangeset', 'base.gpkg', 'mod.gpkg', 'a.diff')
        if 'has' in do: sc.call('hasChanges', 'a.diff'); sc.call('changesCount', 'a.diff')
        if 'apply' in do:
            cp(sc, 'base.gpkg', 'c.gpkg')
            if rng.random() < .3: sc.call('applyChangesetEx', 'sqlite', '', 'c.gpkg', 'a.diff')
            else: sc.call('applyChangeset', 'c.gpkg', 'a.diff')
        if 'invert' in do:
            sc.call('invertChangeset', 'a.diff', 'inv.diff')
            cp(sc, 'mod.gpkg', 'd.gpkg'); sc.call('applyChangeset', 'd.gpkg', 'inv.diff')
            sc.call('invertChangeset', 'inv.diff', 'inv2.diff')
            if 'twice' in do: sc.call('applyChangeset', 'd.gpkg', 'inv2.diff'); sc.call('applyChangeset', 'd.gpkg', 'inv.diff')
        if 'json' in do:
            sc.call('listChanges', 'a.diff', 'l.json'); sc.call('listChangesSummary', 'a.diff', 's.json')
            if 'invert' in do: sc.call('listChanges', 'inv.diff', 'l2.json'); sc.call('listChangesSummary', 'inv.diff', 's2.json')
        if 'dump' in do:
            sc.call('dumpData', 'sqlite', rng.choice(['', None]), 'mod.gpkg', 'd.diff')
            e = gen.State(m.tables) if not isinstance(m, gen.Gpkg) else None
            if e:
                e.rows = {t.name: ({} if t.pkcols() else list(m.rows[t.name])) for t in m.tables}
                e.build(sc.p('e.gpkg')); sc.call('createChangeset', 'e.gpkg', 'mod.gpkg', 'e.diff'); sc.call('applyChangeset', 'e.gpkg', 'd.diff')
            if 'json' in do: sc.call('listChanges', 'd.diff', 'l3.json'); sc.call('listChangesSummary', 'd.diff', 's3.json')
        if after: after(sc, b, m, rng)

# ---------------------------------------------------------------- rebase
def tripledb(sc, b, t, m, rng):
    b.build(sc.p('b.gpkg'))
    for n, x in (('t', t), ('m', m)):
        if rng.random() < .7: cp(sc, 'b.gpkg', n + '.gpkg'); gen.edit(sc.p(n + '.gpkg'), b, x)
        else: x.build(sc.p(n + '.gpkg'), order=rng)

def random_triple(rng, k):
    kind = k % 8
    if kind == 2:
        b = gen.gpkg_state(rng, ('simple', 'other layer')[:rng.randint(1, 2)])
        return b, gen.gpkg_mutate(rng, b), gen.gpkg_mutate(rng, b)
    if kind == 4:
        b, t, m = gen.triple(rng); return (b, b.copy(), m) if rng.random() < .5 else (b, t, b.copy())
    if kind == 5: return gen.triple(rng, n=4, ins_=1, del_=.3, upd=.5)
    if kind == 6: return gen.triple(rng, n=14, ins_=.1, del_=.1, upd=.8)
    if kind == 7:
        b, t, m = gen.triple(rng)
        # disjoint tables: one side leaves some tables alone
        for x in b.tables:
            s = rng.choice([t, m, None])
            if s: s.rows[x.name] = b.copy().rows[x.name]
        return b, t, m
    return gen.triple(rng)

def rebase_calls(sc, rng, do=('cs', 'csx', 'rebase', 'rebasex')):
    stale = rng.random() < .3     # an old conflict file lies there
    def st(n):
        if stale: put(sc, n, b'{"geodiff":[]}')
    sc.call('createChangeset', 'b.gpkg', 't.gpkg', 't.diff')
    if 'cs' in do:
        st('c.json')
        sc.call('createRebasedChangeset', 'b.gpkg', 'm.gpkg', 't.diff', 'r.diff', 'c.json')
        cp(sc, 't.gpkg', 'f.gpkg'); sc.call('applyChangeset', 'f.gpkg', 'r.diff')
    if 'csx' in do:
        st('cx.json')
        sc.call('createChangeset', 'b.gpkg', 'm.gpkg', 'm.diff')
        sc.call('createRebasedChangesetEx', 'sqlite', rng.choice(['', None]), 'b.gpkg', 'm.diff', 't.diff', 'rx.diff', 'cx.json')
        cp(sc, 't.gpkg', 'fx.gpkg'); sc.call('applyChangeset', 'fx.gpkg', 'rx.diff')
    if 'rebase' in do:
        st('c2.json')
        cp(sc, 'm.gpkg', 'm1.gpkg'); sc.call('rebase', 'b.gpkg', 't.gpkg', 'm1.gpkg', 'c2.json')
    if 'rebasex' in do:
        st('c3.json')
        cp(sc, 'm.gpkg', 'm2.gpkg'); sc.call('rebaseEx', 'sqlite', rng.choice(['', None]), 'b.gpkg', 'm2.gpkg', 't.diff', 'c3.json')

def rebase_story(ctx, triples=None, n=3, start=0, do=('cs', 'csx', 'rebase', 'rebasex'), after=None):
    rng = ctx.rng
    sc = ctx.scene()
    for b, t, m in (triples(rng) if triples else [random_triple(rng, start + i) for i in range(n)]):
        clear(sc); tripledb(sc, b, t, m, rng)
        for x in ('b.gpkg', 't.gpkg', 'm.gpkg'):
            if not triples and rng.random() < .3: decorate(rng, sc.p(x))
        rebase_calls(sc, rng, do)
        if after: after(sc, b, t, m, rng)
