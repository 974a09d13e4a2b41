"""Stories per property: calls into the implementation on generated files.  What they must do is decided by the
specification, on the recorded trace."""
from common import *

Q = 1 if not THOROUGH else 6      # multiplies the number of random stories

# ---------------------------------------------------------------- shared families
def add_diff(c, n, do, name='diff', per=4):
    for i in range(n * Q): c.story('%s-%d' % (name, i), diff_story, n=per, start=i * per, do=do)

def add_systematic(c, do, name='values'):
    rng = random.Random('sys')
    L = systematic_pairs(rng)
    step = 4
    for i in range(0, len(L), step): c.story('%s-%d' % (name, i // step), diff_story, pairs=(lambda r, i=i: L[i:i + step]), do=do)

PYV = {'n': None, 'i:7': 7, 't:a': 'a', 't:b': 'b', 't:z': 'z', 't:theirs': 'theirs', 't:mine': 'mine', 'u': UNDEF}

def transitions(rng):
    """all changes of one row (TLC-enumerated), in tables with the key first, last and in the middle"""
    C = gd.cases('transitions')
    out = []
    for lay in (0, 1, 2):
        cols = [gen.Col('x', ''), gen.Col('y', '')]; cols.insert(lay, gen.Col('k', 'INTEGER', pk=1))
        t = gen.Table('t%d' % lay, cols); a, b = gen.State([t]), gen.State([t])
        for i, (x, y) in enumerate(C):
            for st, v in ((a, x), (b, y)):
                if v: r = [PYV[z] for z in v]; r.insert(lay, i + 1); st.rows[t.name][(i + 1,)] = tuple(r)
        out.append((a, b))
    return out

def add_transitions(c, do): c.story('transitions', diff_story, pairs=transitions, do=do)

def edit_combos(rng):
    """all combinations of edits of one row by both sides (TLC-enumerated), as rows of one table"""
    C = gd.cases('edits')
    out = []
    for pk in ('INTEGER', 'TEXT'):
        t = gen.Table('edits', [gen.Col('x', ''), gen.Col('k', pk, nn=True, pk=1), gen.Col('y', '')])
        S = [gen.State([t]) for _ in range(3)]
        for i, (x, y) in enumerate(C):
            k = i + 1 if pk == 'INTEGER' else 'key %d' % i
            for st, v in zip(S, (['t:a', 't:b'], x, y)):
                if v: st.rows['edits'][(k,)] = (PYV[v[0]], k, PYV[v[1]])
        out.append(tuple(S))
    return out

def insert_combos(part, parts, edits=True):
    """all pairs of sets of inserted keys (TLC-enumerated), one table each; every table also has one edited row"""
    def f(rng):
        C = gd.cases('inserts'); E = gd.cases('edits')
        tabs = []; S = [gen.State([]) for _ in range(3)]
        for i, (ti, mi) in enumerate(C):
            if i % parts != part: continue
            n = 't%d' % i
            t = gen.Table(n, [gen.Col('k', 'INTEGER', pk=1), gen.Col('x', ''), gen.Col('y', '')]); tabs.append(t)
            x, y = E[(i * 7) % len(E)] if edits else (['t:a', 't:b'],) * 2
            k0, sh = (1, 0) if (i // 8) % 2 else (100, -4)      # sh: keys -2, -1, 0 and 2 are inserted (-1 is the library's "no key")
            for st, v, ins, tag in zip(S, (['t:a', 't:b'], x, y), ((), ti, mi), ('', 'theirs', 'mine')):
                R = st.rows[n] = {}
                if v: R[(k0,)] = (k0, PYV[v[0]], PYV[v[1]])
                for k in ins: R[(k + sh,)] = (k + sh, tag, 'own %d' % k)
        for st in S: st.tables = tabs
        return [tuple(S)]
    return f

def edits_apart(part, parts):
    """every combination of edits of one row in a database of its own: with nothing else, or one side also edits, inserts or deletes a row of the same or another table"""
    def f(rng):
        out = []
        for i, (x, y) in enumerate(gd.cases('edits')):
            if i % parts != part: continue
            t = gen.Table('edits', [gen.Col('k', 'INTEGER', pk=1), gen.Col('x', ''), gen.Col('y', '')])
            u = gen.Table(rng.choice(['another', 'more']), t.cols)
            S = [gen.State([t, u]) for _ in range(3)]
            for st, v in zip(S, (['t:a', 't:b'], x, y)):
                for n in (t.name, u.name): st.rows[n][(7,)] = (7, 'seven', None)
                if v: st.rows['edits'][(1,)] = (1, PYV[v[0]], PYV[v[1]])
            R = S[rng.choice([0, 1, 1, 2])].rows[rng.choice([t.name, u.name])]
            what = rng.choice('IUD')
            if R is not S[0].rows[t.name] and R is not S[0].rows[u.name]:
                if what == 'D': del R[(7,)]
                else: R[(7 if what == 'U' else 8,)] = (7 if what == 'U' else 8, 'further', None)
            out.append(tuple(S))
        return out
    return f

def add_rebase(c, n, do, name='rebase', per=3, systematic=True, parts=4):
    for i in range(n * Q): c.story('%s-%d' % (name, i), rebase_story, n=per, start=i * per, do=do)
    if systematic:
        c.story(name + '-small', rebase_story, triples=small_triples, do=do)
        c.story(name + '-edits', rebase_story, triples=edit_combos, do=do); c.story(name + '-textkeys', rebase_story, triples=text_keys, do=do); c.story(name + '-names', rebase_story, triples=name_triple, do=do)
        for p in range(parts): c.story(name + '-apart-%d' % p, rebase_story, triples=edits_apart(p, parts), do=do)
        for p in range(parts): c.story(name + '-inserts-%d' % p, rebase_story, triples=insert_combos(p, parts), do=do)

def text_keys(rng):
    """text keys that are alike: long common beginnings, endings or both, letter case, order of letters, bytes after NUL, lengths; every combination of edits of them"""
    F = []
    for n in (7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 5000): p = ''.join(rng.choice('abcxyz') for _ in range(n)); F.append([p + c for c in 'ABCDEFGH']); F.append([c + p for c in 'ABCDEFGH'])
    for n in (64, 300): p = 'p' * n; F.append([p + c + p for c in 'ABCDEFGH'])
    F += [['key', 'Key', 'kEy', 'keY', 'KEy', 'kEY', 'KeY', 'KEY'], ['abc', 'acb', 'bac', 'bca', 'cab', 'cba', 'ab', 'abcc'], ['n\0' + c for c in 'abcdefgh'], ['a' * n for n in range(1, 9)],
          ['x' + ' ' * n for n in range(8)], ['\u00e9', 'e\u0301', 'e', '\u00c9', '\u00e8', '\u00ea', '\u65e5', '\u672c'], ['\0' * n + 'z' for n in range(8)], ['0', '00', '1', '01', '-1', '+1', '1.0', '1e0']]
    out = []
    for fam in F:
        t = gen.Table('t', [gen.Col('k', 'TEXT', nn=True, pk=1), gen.Col('x', ''), gen.Col('y', '')]); S = [gen.State([t]) for _ in range(3)]
        R = [s.rows['t'] for s in S]; fam = fam[:]; rng.shuffle(fam)
        for i, k in enumerate(fam):
            for s in (R if i < 5 else ()): s[(k,)] = (k, i, 'b')
        for i, (a, b) in enumerate([('U', 'V'), ('D', 'U'), ('U', 'D'), ('U', 'U'), ('D', 'D'), ('I', ''), ('', 'I'), ('I', 'I')]):
            for s, w, v in ((R[1], a, 'theirs'), (R[2], b, 'mine')):
                k = fam[i]
                if w == 'D': del s[(k,)]
                elif w == 'U': s[(k,)] = (k, v, s[(k,)][2])
                elif w == 'V': s[(k,)] = (k, s[(k,)][1], v)
                elif w == 'I': s[(k,)] = (k, v, v)
        out.append(tuple(S))
    return out

SYSNAMES = ['gpkg_extensions_more', 'gpkg_tile_matrix', 'gpkg_metadata', 'gpkg_metadata_reference', 'gpkg_data_columns', 'gpkg_ogr', 'gpkg_contents_x', 'gpkg_geometry_columns_x', 'gpkg_spatial_ref_sys_x', 'gpkg_', 'GPKG_OGR_CONTENTS',
            'gpkg_ogr_contents_x', 'rtree_mine', 'rtree_', 'RTREE_x', 'sqlite', 'sqlitestat1', 'sequence', 'trigger_insert_feature_count_x', 'geodiff', 'aux', 'changeset_apply', '"', '""', "''", '[', ']', '`', '%', '%%', '%w', ' ', 'T', 'tt', 'tT1']
LONGNAMES = ['l' * 127, 'l' * 128, 'l' * 255, 'l' * 256, 'l' * 257, 'l' * 1023, 'l' * 1024, 'l' * 5000, '\u00e9' * 128, '\u65e5' * 400]
def all_names(rng, n=1, tail=()):
    """a table for each of all odd names of tables, each with some of the odd names of columns"""
    N = list(dict.fromkeys(gen.NAMES + SYSNAMES + LONGNAMES)); C = gen.CNAMES + LONGNAMES[:8]; T = []; seen = set()
    for i, nm in enumerate(N):
        if nm.lower() in seen: continue
        seen.add(nm.lower())
        c = [gen.Col(C[(i * 3 + j) % len(C)], '') for j in range(3)]; c.insert(i % 4, gen.Col('id', 'INTEGER', pk=1)); T.append(gen.Table(nm, c))
    S = [gen.State(T) for _ in range(n)]
    for i, t in enumerate(T):
        for k in range(1, 7):
            for s in S:
                r = ['a%d' % k, i, None]; r.insert(i % 4, k); s.rows[t.name][(k,)] = tuple(r)
        for w, s in enumerate(S[1:]):
            R = s.rows[t.name]; x = next(j for j in range(4) if j != i % 4 and not (w and j < 2))
            def put(k, v): r = list(R[(k,)]); r[x] = v; R[(k,)] = tuple(r)
            put(1, 'both %d' % w); put(2 + w, 'own'); del R[(4 + w,)]; r = ['new', w, i]; r.insert(i % 4, 7); R[(7,)] = tuple(r)
    return [tuple(S)]
def name_pair(rng): return all_names(rng, 2)
def name_triple(rng): return all_names(rng, 3)

def meta_triple(rng):
    """both sides update one column each, every pair of columns, in gpkg_contents, other GeoPackage system tables and user tables"""
    out = []
    names = ['gpkg_metadata', 'gpkg_contents_more', 'gpkg_data_columns', 'GPKG_Other', 'contents', 'xgpkg_contents', 'gpkg_', 'sqlitex', 'Gpkg contents']
    for i in range(0, len(names), 3):
        extra = []
        for j, n in enumerate(names[i:i + 3]):
            cols = [gen.Col('c%d' % x, '') for x in range(6)]; cols.insert((0, 4, 6)[j], gen.Col('id', ('INTEGER', 'TEXT')[j % 2], nn=j % 2 == 1, pk=1)); extra.append(gen.Table(n, cols))
        b = gen.gpkg_state(rng, ('simple',), 2, extra=extra); b.rows['simple'] = {}
        # unknown system tables are treated as any table
        for t in extra: b.rows[t.name] = {}
        C = b.rows['gpkg_contents'] = {}
        for x in range(1, 10):
            for y in range(1, 10):
                k = 'n%d%d' % (x, y); C[(k,)] = (k, 'attributes', k, 'd', '2020-01-01T00:00:00.000Z', 0.5, 1.5, 2.5, 3.5, 4326)
        for t in extra:
            pk = t.pkcols()[0]
            for x in range(6):
                for y in range(6):
                    k = x * 10 + y + 1 if t.cols[pk].typ == 'INTEGER' else 'k%d%d' % (x, y)
                    r = ['b%d' % z for z in range(6)]; r.insert(pk, k); b.rows[t.name][(k,)] = tuple(r)
        t_, m_ = b.copy(), b.copy()
        def upd(s, name, key, col, v):
            r = list(s.rows[name][key]); r[col] = v; s.rows[name][key] = tuple(r)
        for (k,) in C:
            if rng.random() < .5 and k[1] != '4' and k[2] != '4': continue
            for s, tag, c in ((t_, 'T', int(k[1])), (m_, 'M', int(k[2]))):
                upd(s, 'gpkg_contents', (k,), c, (tag + k) if c < 5 else float(len(tag + k)) + (.25 if tag == 'T' else .75) if c < 9 else 1 + (tag == 'T'))
        for t in extra:
            pk = t.pkcols()[0]; o = [z for z in range(7) if z != pk]
            for n, key in enumerate(list(b.rows[t.name])):
                x, y = n // 6, n % 6
                upd(t_, t.name, key, o[x], 'theirs'); upd(m_, t.name, key, o[y], rng.choice(['mine', None, 5]))
                if rng.random() < .2: upd(m_, t.name, key, o[rng.randrange(6)], 'theirs')
        out.append((b, t_, m_))
    return out

def big_pair(rng):
    b = big_state(rng, 20 if not THOROUGH else 60)
    return [(b, gen.mutate(rng, b)), (gen.State(b.tables), b)]

def scale_pair(kind, n):
    """a change of very many rows"""
    def f(rng):
        t = gen.Table('many', [gen.Col('k', 'INTEGER', pk=1), gen.Col('x', '')]); b, m = gen.State([t]), gen.State([t])
        for i in range(n):
            if kind != 'I': b.rows['many'][(i,)] = (i, 'a')
            if kind != 'D': m.rows['many'][(i,)] = (i, 'b')
        return [(b, m)]
    return f

def scale_triple(n):
    """very many rows inserted, edited and deleted by both sides"""
    def f(rng):
        t = gen.Table('many', [gen.Col('k', 'INTEGER', pk=1), gen.Col('x', ''), gen.Col('y', '')]); b, t1, m = (gen.State([t]) for _ in range(3))
        R = [x.rows['many'] for x in (b, t1, m)]
        for i in range(n):
            for r in R: r[(i,)] = (i, 'a', i)
            if i % 7 == 0: del R[1][(i,)]
            elif i % 3 == 0: R[1][(i,)] = (i, 'theirs', i)
            if i % 5 == 0: del R[2][(i,)]
            elif i % 2 == 0: R[2][(i,)] = (i, 'mine', i if i % 4 else 'too')
            R[1][(n + i,)] = (n + i, 'new of theirs', None)
            R[2][(n + i,)] = (n + i, 'new of mine', None)
        return [(b, t1, m)]
    return f

def big_triple(rng):
    """inserts of many rows on both sides and large values"""
    t = gen.Table('many', [gen.Col('fid', 'INTEGER', pk=1), gen.Col('v', '')])
    b = gen.State([t]); th = gen.State([t]); m = gen.State([t])
    for i in range(1, 30):
        for s in (b, th, m): s.rows['many'][(i,)] = (i, 'base %d' % i)
    for i in range(30, 130): th.rows['many'][(i,)] = (i, 'theirs %d' % i)
    for i in range(35, 160, 3): m.rows['many'][(i,)] = (i, 'mine %d ' % i + 'x' * 200)
    for i in range(1, 10): del m.rows['many'][(i,)]
    for i in range(5, 15): th.rows['many'][(i,)] = (i, 'th %d' % i)
    return [(b, th, m)]

# ---------------------------------------------------------------- C04
def fit_cases(ctx, lo, hi, what='fitting', chained=False):
    """every row state with every entry, between two entries that fit"""
    sc = ctx.scene(); rng = ctx.rng
    C = gd.cases(what)
    t = gen.Table('t', [gen.Col('k', 'INTEGER', pk=1), gen.Col('x', ''), gen.Col('y', '')])
    z = gen.Table('z', [gen.Col('k', 'INTEGER', pk=1), gen.Col('x', '')])
    trg = 'CREATE TRIGGER "user trg" AFTER INSERT ON t BEGIN DELETE FROM z; END;'
    idx = range(len(C))[lo:hi] if hi else range(lo, len(C))
    last = None
    for i in idx:
        case = C[i]; s, es = case[0], case[1:]
        if s != last or chained:
            st = gen.State([t, z], script=trg)
            if s: st.rows['t'][(1,)] = (1, PYV[s[0]], PYV[s[1]])
            st.rows['t'][(5,)] = (5, 'five', None); st.rows['z'][(1,)] = (1, 'z')
            st.build(sc.p('tpl.gpkg')); last = s
        cp(sc, 'tpl.gpkg', 'd.gpkg')
        E = []
        for e in es:
            f = lambda v, key: [1 if key else UNDEF] + [PYV[q] for q in v] if v else []
            E.append((e['op'], f(e['old'], True), f(e['new'], e['op'] == 'I')))
        good = ('I', [], [10, 'new', 'row'])
        good2 = ('U', [5, 'five', UNDEF], [UNDEF, 'FIVE', UNDEF])
        parts = [('t', [1, 0, 0], [good] + E + [good2])]
        w = i % 3
        if w == 1: parts.append(('z', [1, 0], [('U', [1, 'z'], [UNDEF, 'y'])]))
        if w == 2: parts.insert(0, ('z', [1, 0], [('D', [1, 'z'], [])]))
        put(sc, 'c.diff', encode_cs(parts, ind=i % 2))
        sc.call('applyChangeset', 'd.gpkg', 'c.diff')

def drift(ctx, n, start=0):
    """changesets applied to databases that differ from their base in 0 to 3 places"""
    sc = ctx.scene(); rng = ctx.rng
    for i in range(n):
        clear(sc)
        tabs = gen.shapes(rng)
        if i % 3 == 0: tabs.append(gen.Table('uni q', [gen.Col('id', 'INTEGER', pk=1), gen.Col('u', 'TEXT'), gen.Col('n', '', nn=True), gen.Col('w', '')], extra='UNIQUE (u)' + rng.choice(['', ' ON CONFLICT REPLACE', ' ON CONFLICT IGNORE'])))
        b = gen.fill(rng, tabs)
        if i % 3 == 0:
            for j, k in enumerate(list(b.rows['uni q'])): r = list(b.rows['uni q'][k]); r[1] = 'u%d' % j; b.rows['uni q'][k] = tuple(r)
        m = gen.mutate(rng, b)
        if i % 3 == 0:
            for j, k in enumerate(list(m.rows['uni q'])): r = list(m.rows['uni q'][k]); r[1] = rng.choice(['u%d' % rng.randint(0, 8), 'w%d' % j, None]); m.rows['uni q'][k] = tuple(r)
        parts = gen.diff_parts(b, m, rng); rng.shuffle(parts)
        put(sc, 'c.diff', encode_cs(parts, ind=rng.randint(0, 1)))
        for j in range(6):
            if j == 0: d = b
            else:
                d = b.copy()
                for _ in range(rng.randint(1, 3)):
                    t = rng.choice([t for t in tabs if t.pkcols()]); x = gen.mutate(rng, d, .05, .1, .12, tables=[t.name])
                    d = x
                    if rng.random() < .3:     # some rows already changed
                        for k in list(m.rows[t.name]):
                            if rng.random() < .2: d.rows[t.name][k] = m.rows[t.name][k]
            try: d.build(sc.p('d.gpkg'))
            except Exception: continue      # breaks its own UNIQUE constraint
            sc.call('applyChangeset', 'd.gpkg', 'c.diff')

def misfit_positions(ctx, n):
    """one entry of a changeset spoiled, at every position"""
    sc = ctx.scene(); rng = ctx.rng
    for i in range(n):
        tabs = [t for t in gen.shapes(rng, 5)]
        b = gen.fill(rng, tabs, 5); m = gen.mutate(rng, b, .3, .3, .4)
        b.build(sc.p('tpl.gpkg'))
        parts = gen.diff_parts(b, m, rng)
        pos = [(p, e) for p in range(len(parts)) for e in range(len(parts[p][2]))]
        rng.shuffle(pos)
        for p, e in pos[:10]:
            ps = [(n_, f, list(E)) for n_, f, E in parts]
            op, old, new = ps[p][2][e]
            side = list(old if op != 'I' else new)
            c = rng.randrange(len(side))
            if side[c] is UNDEF: c = next(j for j, f in enumerate(ps[p][1]) if f)
            tb = b.tab(ps[p][0]); pkc = tb.pkcols()
            v = tb.genkey(rng, ())[pkc.index(c)] if c in pkc else rng.choice(gen.ALIKE) if tb.cols[c].typ == '' else gen.vals(rng, tb.cols[c].typ)
            if c not in pkc and rng.random() < .4 and (tb.cols[c].typ == '' or type(side[c]) is {'TEXT': str, 'BLOB': bytes, 'INTEGER': int, 'REAL': float}.get(tb.cols[c].typ)): v = gen.near(rng, side[c])
            if gen.confusable(v, side[c]): v = None if c not in pkc else side[c]
            side[c] = v
            ps[p][2][e] = (op, side if op != 'I' else old, side if op == 'I' else new)
            if rng.random() < .2: ps[p][2].insert(rng.randint(0, len(ps[p][2])), rng.choice(ps[p][2]))     # an entry twice
            put(sc, 'c.diff', encode_cs(ps)); cp(sc, 'tpl.gpkg', 'd.gpkg')
            sc.call('applyChangeset', 'd.gpkg', 'c.diff')

def many_misfits(ctx, ns):
    """exactly n entries that do not fit, among others that do"""
    sc = ctx.scene(); rng = ctx.rng
    t = gen.Table('t', [gen.Col('k', 'INTEGER', pk=1), gen.Col('x', '')]); st = gen.State([t]); st.rows['t'] = {(k,): (k, 'x') for k in range(1, 9)}
    st.build(sc.p('tpl.gpkg'))
    for n in ns:
        for op in 'IUD':
            bad = [('I', [], [1 + j % 8, 'new']) if op == 'I' else ('U', [100 + j, 'x'], [UNDEF, 'y']) if op == 'U' else ('D', [100 + j, 'x'], []) for j in range(n)]
            fit = [('I', [], [50, 'a']), ('U', [3, 'x'], [UNDEF, 'y']), ('D', [4, 'x'], [])]
            put(sc, 'c.diff', encode_cs([('t', [1, 0], fit[:2] + bad + fit[2:])])); cp(sc, 'tpl.gpkg', 'd.gpkg'); sc.call('applyChangeset', 'd.gpkg', 'c.diff')

def late_misfit(ctx, ns):
    """one entry that does not fit after n that do"""
    sc = ctx.scene(); rng = ctx.rng
    t = gen.Table('t', [gen.Col('k', 'INTEGER', pk=1), gen.Col('x', '')]); z = gen.Table('z', t.cols)
    for n in ns:
        st = gen.State([t, z]); st.rows['t'] = {(k,): (k, 'x') for k in range(1, 9)}; st.build(sc.p('d.gpkg'))
        for bad in (('I', [], [3, 'new']), ('D', [77777777, 'x'], [])):
            put(sc, 'c.diff', encode_cs([('t', [1, 0], [('I', [], [50 + j, None]) for j in range(n)] + [bad]), ('z', [1, 0], [('I', [], [1, None])])]))
            sc.call('applyChangeset', 'd.gpkg', 'c.diff')

# ---------------------------------------------------------------- C14
SCHEMAS = [
  # (DDL of base, DDL of modified): one difference each; None: the same
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', None),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, z INTEGER)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y TEXT)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, y INTEGER, x TEXT)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT NOT NULL, y INTEGER)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER NOT NULL DEFAULT 0)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER, x TEXT PRIMARY KEY, y INTEGER)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER, x TEXT, y INTEGER, PRIMARY KEY(id, x))'),
  ('CREATE TABLE a(id INTEGER, x TEXT, y INTEGER, PRIMARY KEY(id, x))', 'CREATE TABLE a(id INTEGER, x TEXT, y INTEGER, PRIMARY KEY(id, y))'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER, x TEXT, y INTEGER)'),
  ('CREATE TABLE a(id INTEGER, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER, x TEXT, y TEXT)'),
  ('CREATE TABLE a(id INTEGER, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER, z BLOB)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE b(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER); CREATE TABLE extra(k INTEGER PRIMARY KEY)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER); CREATE TABLE zz(k INTEGER PRIMARY KEY)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER); CREATE TABLE nokey(k)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, X_ TEXT, y INTEGER)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, x VARCHAR(10), y INTEGER)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INT)'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INT NOT NULL PRIMARY KEY, x TEXT, y INTEGER)'),
  # differences that are none
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE "a"("id" INTEGER PRIMARY KEY, "x" TEXT DEFAULT \'q\', y INTEGER UNIQUE CHECK (y IS NOT 77))'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)', 'CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER); CREATE INDEX i ON a(x); CREATE VIEW v AS SELECT * FROM a; CREATE TRIGGER tr AFTER INSERT ON a BEGIN SELECT 1; END'),
  ('CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER); CREATE TABLE b(k INTEGER PRIMARY KEY)', 'CREATE TABLE b(k INTEGER PRIMARY KEY); CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT, y INTEGER)'),
]
ROWSQL = ["INSERT INTO a VALUES (1,2,3)", "INSERT INTO a VALUES (2,'two',2)", "INSERT INTO a VALUES (1,2,3,4)", "INSERT INTO a VALUES (1,2)"]
def build_sql(path, ddl, rows=(), wild=False):
    if os.path.exists(path): os.unlink(path)
    con = gen.connect(path); con.executescript(ddl)
    for r in rows:
        try: con.execute(r)
        except gen.sqlite3.Error: pass
    con.close()

def schema_pairs(ctx, lo, hi):
    sc = ctx.scene(); rng = ctx.rng
    for i, (x, y) in list(enumerate(SCHEMAS))[lo:hi]:
        for withrows in (0, 1, 2):
          for swap in (0, 1):
            a, b = (x, y or x) if not swap else (y or x, x)
            clear(sc)
            build_sql(sc.p('base.gpkg'), a, ROWSQL if withrows else [])
            build_sql(sc.p('mod.gpkg'), b, ROWSQL[:1] if withrows == 1 else ROWSQL)
            sc.call('createChangeset', 'base.gpkg', 'mod.gpkg', 'o.diff')
            if withrows == 1:
                # and the changeset of one applied to the other
                build_sql(sc.p('e.gpkg'), a); sc.call('createChangeset', 'e.gpkg', 'base.gpkg', 'a.diff')
                build_sql(sc.p('d.gpkg'), b, ["INSERT INTO extra VALUES (9)"]); sc.call('applyChangeset', 'd.gpkg', 'a.diff')
                sc.call('invertChangeset', 'a.diff', 'i.diff'); cp(sc, 'mod.gpkg', 'f.gpkg'); sc.call('applyChangeset', 'f.gpkg', 'i.diff')

LAYERS = ["UPDATE gpkg_geometry_columns SET geometry_type_name = 'POLYGON'", "UPDATE gpkg_geometry_columns SET geometry_type_name = 'GEOMETRY'", "UPDATE gpkg_geometry_columns SET z = 1", "UPDATE gpkg_geometry_columns SET m = 1", "UPDATE gpkg_geometry_columns SET z = 1, m = 1",
  "UPDATE gpkg_geometry_columns SET srs_id = 3857", "UPDATE gpkg_spatial_ref_sys SET definition = 'LOCAL_CS[]'", "UPDATE gpkg_spatial_ref_sys SET organization = 'ESRI' WHERE srs_id = 4326", "UPDATE gpkg_spatial_ref_sys SET organization_coordsys_id = 4327 WHERE srs_id = 4326",
  "DELETE FROM gpkg_geometry_columns", "UPDATE gpkg_geometry_columns SET column_name = 'name'", "UPDATE gpkg_geometry_columns SET srs_id = 0",
  # no difference of the schema of any layer
  "UPDATE gpkg_spatial_ref_sys SET srs_name = 'other'", "UPDATE gpkg_spatial_ref_sys SET description = 'other'", "UPDATE gpkg_spatial_ref_sys SET definition = 'LOCAL_CS[]' WHERE srs_id = 3857", "UPDATE gpkg_ogr_contents SET feature_count = 77", "DELETE FROM gpkg_extensions", "INSERT INTO gpkg_extensions VALUES ('simple', NULL, 'x', 'y', 'z')"]
def layer_pairs(ctx, part=0, parts=1):
    """GeoPackage layers that differ in what the metadata tables tell about them"""
    sc = ctx.scene(); rng = ctx.rng
    for sql in LAYERS[part::parts]:
        for swap in (0, 1):
            clear(sc)
            a = gen.gpkg_state(rng, ('simple', 'other')[:rng.randint(1, 2)], n=3, script="INSERT INTO gpkg_spatial_ref_sys VALUES ('WM', 3857, 'EPSG', 3857, 'PROJCS', 'd')"); b = gen.gpkg_mutate(rng, a, contents=0) if rng.random() < .6 else a.copy()
            a.build(sc.p('base.gpkg')); b.build(sc.p('mod.gpkg'))
            con = gen.connect(sc.p('base.gpkg' if swap else 'mod.gpkg')); con.execute(sql); con.close()
            sc.call('createChangeset', 'base.gpkg', 'mod.gpkg', 'o.diff')
            sc.call('createChangesetEx', 'sqlite', '', 'base.gpkg', 'mod.gpkg', 'o2.diff')

def header_misfits(ctx):
    """changesets whose headers do not fit the database, after entries that do"""
    sc = ctx.scene(); rng = ctx.rng
    t = gen.Table('t', [gen.Col('k', 'INTEGER', pk=1), gen.Col('x', ''), gen.Col('y', '')])
    z = gen.Table('z', [gen.Col('a', 'INTEGER', nn=True, pk=1), gen.Col('b', 'TEXT', nn=True, pk=2), gen.Col('c', '')])
    nk = gen.Table('nokey', [gen.Col('c', ''), gen.Col('d', '')])
    st = gen.State([t, z, nk]); st.rows['t'][(1,)] = (1, 'x', 'y'); st.rows['z'][(1, 'b')] = (1, 'b', 'c'); st.rows['nokey'] = [('p', 'q')]
    st.build(sc.p('tpl.gpkg'))
    good = ('t', [1, 0, 0], [('I', [], [7, 'n', 'n'])])
    bads = [('nosuch', [1, 0, 0], [('I', [], [8, 'n', 'n'])]), ('T ', [1, 0, 0], [('I', [], [8, 'n', 'n'])]),
            ('t', [1, 0], [('I', [], [8, 'n'])]), ('t', [1, 0, 0, 0], [('I', [], [8, 'n', 'n', 'n'])]), ('t', [1], [('I', [], [8])]),
            ('t', [0, 1, 0], [('I', [], [8, 'n', 'n'])]), ('t', [1, 1, 0], [('I', [], [8, 'n', 'n'])]), ('t', [0, 0, 0], [('I', [], [8, 'n', 'n'])]), ('t', [1, 0, 1], [('I', [], [8, 'n', 'n'])]),
            ('t', [1, 0], [('D', [1, 'x'], [])]), ('t', [0, 1, 0], [('D', [1, 'x', 'y'], [])]), ('t', [1, 1, 0], [('U', [1, 'x', 'y'], [UNDEF, UNDEF, 'Y'])]),
            ('t', [0, 1, 0], [('U', [1, 'x', 'y'], [UNDEF, UNDEF, 'Y'])]), ('t', [1, 0, 0, 0], [('U', [1, UNDEF, 'y', UNDEF], [UNDEF, UNDEF, 'Y', UNDEF])]),
            ('z', [1, 0, 0], [('U', [1, UNDEF, 'c'], [UNDEF, UNDEF, 'C'])]), ('z', [0, 1, 0], [('D', [1, 'b', 'c'], [])]), ('z', [1, 2, 1], [('D', [1, 'b', 'c'], [])]), ('z', [1, 1, 0, 0], [('I', [], [3, 'n', 'n', 'n'])]), ('z', [1, 1], [('I', [], [3, 'n'])]),
            ('z', [2, 1, 0], [('U', [1, 'b', 'c'], [UNDEF, UNDEF, 'C'])]), ('z', [1, 1, 0], [('U', [1, 'b', 'c'], [UNDEF, UNDEF, 'C'])]), ('z', [1, 2, 0], [('I', [], [3, 'n', 'n'])]),
            ('nokey', [1, 0], [('I', [], ['a', 'b'])]), ('sqlite_nothing', [1], [('I', [], [1])]), ('', [1], [('I', [], [1])])]
    for b in bads:
        for parts in ([b], [good, b], [b, good], [good, b, good], [('t', b[1], b[2]), good] if b[0] == 't' else [good, b, b]):
            put(sc, 'c.diff', encode_cs(parts)); cp(sc, 'tpl.gpkg', 'd.gpkg'); sc.call('applyChangeset', 'd.gpkg', 'c.diff')

# ---------------------------------------------------------------- C15 / C16
FKS = [
  'CREATE TABLE par(id INTEGER PRIMARY KEY, v TEXT); CREATE TABLE chi(id INTEGER PRIMARY KEY, p INTEGER, FOREIGN KEY(p) REFERENCES par(id))',
  'CREATE TABLE par(id INTEGER PRIMARY KEY, v TEXT); CREATE TABLE chi(id INTEGER PRIMARY KEY, p INTEGER REFERENCES par)',
  'CREATE TABLE par(id INTEGER PRIMARY KEY, v TEXT); CREATE TABLE chi(id INTEGER PRIMARY KEY, p INTEGER REFERENCES PAR(ID))',
  'CREATE TABLE par(id INTEGER PRIMARY KEY, v TEXT); CREATE TABLE chi(id INTEGER PRIMARY KEY, p INTEGER, v, FOREIGN KEY(p) REFERENCES par(id) ON DELETE CASCADE)',
  'CREATE TABLE par(a INTEGER, b INTEGER, v TEXT, PRIMARY KEY(a, b)); CREATE TABLE chi(id INTEGER PRIMARY KEY, p INTEGER, q INTEGER, FOREIGN KEY(p, q) REFERENCES par(a, b))',
  'CREATE TABLE par(a INTEGER, b INTEGER, v TEXT, PRIMARY KEY(a, b)); CREATE TABLE chi(id INTEGER PRIMARY KEY, p INTEGER, q INTEGER, FOREIGN KEY(p, q) REFERENCES par)',
  'CREATE TABLE par(id INTEGER PRIMARY KEY, v TEXT, up INTEGER REFERENCES par(id))',
  'CREATE TABLE "p a"("i d" INTEGER PRIMARY KEY, v TEXT); CREATE TABLE "c\'h"(id INTEGER PRIMARY KEY, "p q" INTEGER REFERENCES "p a"("i d"))',
  'CREATE TABLE par(id INTEGER PRIMARY KEY, v TEXT); CREATE TABLE chi(p INTEGER REFERENCES par(id))',
  'CREATE TABLE par(id INTEGER PRIMARY KEY, v TEXT UNIQUE); CREATE TABLE chi(id INTEGER PRIMARY KEY, p TEXT REFERENCES par(v))',
  'CREATE TABLE par(id INTEGER PRIMARY KEY, v TEXT); CREATE TABLE chi(id INTEGER PRIMARY KEY, p INTEGER REFERENCES nosuch(id))',
  'CREATE TABLE par(id INTEGER PRIMARY KEY, v TEXT); CREATE TABLE chi(id INTEGER PRIMARY KEY, p INTEGER REFERENCES nosuch)',
  'CREATE TABLE par(id INTEGER PRIMARY KEY, v TEXT); CREATE TABLE chi(id INTEGER PRIMARY KEY, p INTEGER REFERENCES par(nosuch))',
  'CREATE TABLE par(id INTEGER PRIMARY KEY, v TEXT, g INTEGER REFERENCES gpkg_contents(table_name))',
]
ODDFK = ['my_rtree_x', 'old_gpkg_contents', 'GPKG_x', 'Rtree_y', 'xsqlite_sequence', 'sqlit_e', 'gpkg', 'rtree', ' gpkg_x', 'per%w', 'apo\'s', 'main', 'select']
FKS += ['CREATE TABLE par(id INTEGER PRIMARY KEY, v TEXT); CREATE TABLE %s(id INTEGER PRIMARY KEY, p INTEGER REFERENCES par(id))' % gen.q(n) for n in ODDFK]
FKS += ['CREATE TABLE par(id INTEGER PRIMARY KEY, v TEXT); CREATE TABLE %s(id INTEGER PRIMARY KEY, v TEXT); CREATE TABLE chi(id INTEGER PRIMARY KEY, p INTEGER REFERENCES %s(id))' % (gen.q(n), gen.q(n)) for n in ODDFK[::3]]
TRGS = ['CREATE TRIGGER %s AFTER INSERT ON par BEGIN UPDATE par SET v = 1; END', 'CREATE TRIGGER %s BEFORE DELETE ON par BEGIN SELECT 1; END',
        'CREATE TRIGGER %s AFTER UPDATE OF v ON par BEGIN SELECT 1; END', 'CREATE TRIGGER %s INSTEAD OF INSERT ON vw BEGIN SELECT 1; END']
BADNAMES = ['mine', '"tr ig"', '"gpkg"', '"trigger_insert_feature_coun"', '"xrtree_a"', '"my_gpkg_x"', '"RT"', '"a\'b"', '"q""q"', '"100%"', '"trigger_update_feature_count_par"']
GOODNAMES = ['gpkg_tile_x', 'rtree_par_geometry_insert2', 'trigger_insert_feature_count_par', 'trigger_delete_feature_count_par', '"gpkg_with space"']
PAR = 'CREATE TABLE par(id INTEGER PRIMARY KEY, v TEXT); CREATE VIEW vw AS SELECT * FROM par'
def refuse(ctx, kind, lo=0, hi=None):
    sc = ctx.scene(); rng = ctx.rng
    L = []
    if kind == 'fk': L = [(d, d, d) for d in FKS] + [(PAR, d, PAR) for d in ()]
    else:
        for j, n in enumerate(BADNAMES + GOODNAMES): L.append((PAR, PAR + ';' + TRGS[j % 4] % n, PAR)); L.append((PAR, PAR + ';' + TRGS[j % 3] % n, PAR))
        for j, n in enumerate(GOODNAMES): L.append((PAR, PAR + ';' + TRGS[j % 3] % n + ';' + TRGS[2] % BADNAMES[j], PAR))
        L.append((PAR + ';' + TRGS[0] % 'x', PAR, PAR + ';' + TRGS[0] % 'x')); L.append((PAR, PAR, PAR))
    for b, m, t in L[lo:hi]:
        for edits in ((1, 1), (0, 1), (1, 0), (0, 0)):
            clear(sc)
            build_sql(sc.p('b.gpkg'), b, ["INSERT INTO par VALUES (1,'a')"]); build_sql(sc.p('t.gpkg'), t, ["INSERT INTO par VALUES (1,'a')"] + (["INSERT INTO par VALUES (2,'theirs')"] if edits[0] else []))
            build_sql(sc.p('m.gpkg'), m, ["INSERT INTO par VALUES (1,'a')"] + (["INSERT INTO par VALUES (2,'mine')"] if edits[1] else []))
            sc.call('createChangeset', 'b.gpkg', 't.gpkg', 't.diff')
            stale = rng.random() < .5
            if stale: put(sc, 'c.json', b'{"geodiff":[]}'); put(sc, 'r.diff', b'')
            sc.call('createRebasedChangeset', 'b.gpkg', 'm.gpkg', 't.diff', 'r.diff', 'c.json')

# ---------------------------------------------------------------- known findings
def gap(rng):
    """a row of mine is renumbered to a free key between keys of BASE: not looked for by the library"""
    t = gen.Table('t', [gen.Col('id', 'INTEGER', pk=1), gen.Col('v', '')])
    b = gen.State([t]); b.rows['t'] = {(1,): (1, 'a'), (3,): (3, 'c')}
    th, m = b.copy(), b.copy(); th.rows['t'][(2,)] = (2, 'theirs'); m.rows['t'][(2,)] = (2, 'mine')
    return [(b, th, m)]
def successive(ctx, pk, rounds=5):
    """clients that all started from the same version and inserted the same keys push one after another; then one keeps what was
    renumbered for itself, while others insert the same keys again"""
    rng = ctx.rng; sc = ctx.scene(); K = ['k%d' % i for i in range(4)] if pk == 'TEXT' else [3, 4, 7, 8]
    t = gen.Table('t', [gen.Col('v', ''), gen.Col('id', pk, nn=True, pk=1)]); b = gen.State([t]); n = [0]
    for k in ('a', 'b') if pk == 'TEXT' else (1, 2): b.rows['t'][(k,)] = ('base', k)
    b.build(sc.p('b.gpkg')); cp(sc, 'b.gpkg', 't.gpkg')
    def insert(f, keys):
        con = gen.connect(sc.p(f))
        for k in keys: n[0] += 1; con.execute('INSERT INTO t VALUES (?, ?)', ('row %d' % n[0], k))
        con.close()
    for r in range(rounds):
        cp(sc, 'b.gpkg', 'm.gpkg'); insert('m.gpkg', K if r % 2 == 0 else rng.sample(K, 2))
        how = rng.choice(['cs', 'csx', 'rebase', 'rebasex'])
        rebase_calls(sc, rng, {how, 'cs'})
        cp(sc, 'f.gpkg', 't.gpkg')
    # the rows of mine got new keys; the others delete theirs and insert under the old keys anew
    cp(sc, 'b.gpkg', 'm.gpkg'); cp(sc, 'b.gpkg', 'x.gpkg'); insert('m.gpkg', K); insert('x.gpkg', K); sc.call('rebase', 'b.gpkg', 'x.gpkg', 'm.gpkg', 'c.json')
    cp(sc, 'x.gpkg', 'b.gpkg'); con = gen.connect(sc.p('b.gpkg')); con.execute('DELETE FROM t WHERE v LIKE "row %"'.replace('"', "'")); con.close()
    con = gen.connect(sc.p('m.gpkg')); con.execute("DELETE FROM t WHERE id IN (SELECT ? UNION SELECT ? UNION SELECT ? UNION SELECT ?)", K); con.close(); insert('m.gpkg', K)
    cp(sc, 'b.gpkg', 't.gpkg'); insert('t.gpkg', K); rebase_calls(sc, rng)

def unique_moved(ctx):
    """two rows exchange their values of a UNIQUE column"""
    t = gen.Table('t', [gen.Col('id', 'INTEGER', pk=1), gen.Col('u', 'TEXT')], extra='UNIQUE (u)')
    b, m = gen.State([t]), gen.State([t]); b.rows['t'] = {(1,): (1, 'a'), (2,): (2, 'b')}; m.rows['t'] = {(1,): (1, 'b'), (2,): (2, 'a')}
    sc = ctx.scene(); b.build(sc.p('base.gpkg')); m.build(sc.p('mod.gpkg'))
    sc.call('createChangeset', 'base.gpkg', 'mod.gpkg', 'a.diff'); cp(sc, 'base.gpkg', 'c.gpkg'); sc.call('applyChangeset', 'c.gpkg', 'a.diff')

FTS = ['CREATE VIRTUAL TABLE "f t" USING fts5(a, b)', 'CREATE VIRTUAL TABLE ft4 USING fts4(a, b)', 'CREATE VIRTUAL TABLE rt USING rtree(id, x0, x1)', 'create  virtual table low using fts5(x)']
def virtual_tables(ctx):
    """virtual tables: their shadow tables are tables like others, and themselves none"""
    rng = ctx.rng; sc = ctx.scene()
    for ddl in FTS[:3]:
        for edit in (1, 2, 0):
            clear(sc); name = ddl.split(' USING')[0].split('TABLE ')[1]
            con = gen.connect(sc.p('base.gpkg')); con.execute(ddl); con.execute('CREATE TABLE t(id INTEGER PRIMARY KEY, v)'); con.execute("INSERT INTO t VALUES (1,'a'),(2,'b')")
            def add(i): con.execute('INSERT INTO %s VALUES (%s)' % (name, '%d, %d, %d' % (i, i, i + 2) if 'rtree' in ddl else "'some words %d', 'other %d'" % (i, i)))
            for i in range(1, 9): add(i)
            con.close(); cp(sc, 'base.gpkg', 'mod.gpkg')
            con = gen.connect(sc.p('mod.gpkg'))
            if edit: add(20); con.execute('DELETE FROM %s WHERE rowid = 3' % name if 'rtree' not in ddl else 'DELETE FROM rt WHERE id = 3')
            if edit != 1: con.execute("UPDATE t SET v = 'x' WHERE id = 2")
            con.close()
            sc.call('createChangeset', 'base.gpkg', 'mod.gpkg', 'a.diff'); sc.call('changesCount', 'a.diff'); cp(sc, 'base.gpkg', 'c.gpkg'); sc.call('applyChangeset', 'c.gpkg', 'a.diff')
            sc.call('invertChangeset', 'a.diff', 'i.diff'); sc.call('applyChangeset', 'c.gpkg', 'i.diff'); sc.call('dumpData', 'sqlite', None, 'mod.gpkg', 'd.diff')

def statistics(ctx):
    """tables that SQLite itself keeps: statistics of ANALYZE and the sequence of AUTOINCREMENT, in either database, both or none; they are no user tables"""
    rng = ctx.rng; sc = ctx.scene()
    for auto in (False, True):
        for who in ('m', 'b', 'bm', 'bc'):
            clear(sc); t = gen.Table('t', [gen.Col('id', 'INTEGER', pk=1), gen.Col('v', ''), gen.Col('w', 'TEXT')], auto=auto)
            b = gen.State([t]); b.rows['t'] = {(k,): (k, 'x%d' % k, None) for k in range(1, 6)}
            m = b.copy(); m.rows['t'][(2,)] = (2, 'new', None); del m.rows['t'][(4,)]; m.rows['t'][(9,)] = (9, None, 'w')
            for st, n, x in ((b, 'base.gpkg', 'b'), (m, 'mod.gpkg', 'm'), (b, 'c.gpkg', 'c')):
                st.build(sc.p(n)); con = gen.connect(sc.p(n)); con.execute('CREATE INDEX ix ON t(v)')
                if x in who: con.execute('ANALYZE')
                con.close()
            sc.call('createChangeset', 'base.gpkg', 'mod.gpkg', 'a.diff'); sc.call('applyChangeset', 'c.gpkg', 'a.diff'); sc.call('invertChangeset', 'a.diff', 'i.diff'); sc.call('applyChangeset', 'c.gpkg', 'i.diff')
            sc.call('dumpData', 'sqlite', None, 'mod.gpkg', 'd.diff'); cp(sc, 'base.gpkg', 't.gpkg')
            con = gen.connect(sc.p('t.gpkg')); con.execute("UPDATE t SET w = 't' WHERE id < 4"); con.close()
            sc.call('createChangeset', 'base.gpkg', 't.gpkg', 't.diff'); cp(sc, 't.gpkg', 'r.gpkg'); sc.call('createRebasedChangeset', 'base.gpkg', 'mod.gpkg', 't.diff', 'r.diff', 'c.json'); sc.call('applyChangeset', 'r.gpkg', 'r.diff')
            cp(sc, 'mod.gpkg', 'm.gpkg'); sc.call('rebase', 'base.gpkg', 't.gpkg', 'm.gpkg', 'c.json')

def collations(ctx):
    """old values that equal the row's only under the collation of the column do not fit"""
    sc = ctx.scene(); rng = ctx.rng
    for coll, have, others in (('NOCASE', 'abc', ['ABC', 'aBc', 'abc', 'abd', 'abc ']), ('RTRIM', 'abc', ['abc ', 'abc  ', 'abc', 'ABC', 'abc\t'])):
        for pos in (0, 1):
            for pk in ('INTEGER', 'TEXT'):
                cols = [gen.Col('k', pk, nn=True, pk=1), gen.Col('x', 'TEXT', coll=coll), gen.Col('y', '')]
                if pos: cols = cols[1:] + cols[:1]
                t = gen.Table('t', cols); st = gen.State([t]); k = 1 if pk == 'INTEGER' else 'key'
                L = lambda x, y, kk: [x, y, kk] if pos else [kk, x, y]
                st.rows['t'] = {(k,): tuple(L(have, 1, k))}; st.build(sc.p('tpl.gpkg'))
                for o in others:
                    for op in 'UVD':
                        e = ('U', L(o, UNDEF, k), L('new', UNDEF, UNDEF)) if op == 'U' else ('U', L(o, 1, k), L(rng.choice([have, o, 'new']), 2, UNDEF)) if op == 'V' else ('D', L(o, 1, k), [])
                        put(sc, 'c.diff', encode_cs([('t', [1 if c.pk else 0 for c in cols], [e])])); cp(sc, 'tpl.gpkg', 'd.gpkg'); sc.call('applyChangeset', 'd.gpkg', 'c.diff')

def small_triples(rng):
    """no, one or two changes on either side"""
    out = []
    t = gen.Table('t', [gen.Col('k', 'INTEGER', pk=1), gen.Col('x', ''), gen.Col('y', '')]); u = gen.Table('u', t.cols)
    b = gen.State([t, u])
    for n in 'tu': b.rows[n] = {(k,): (k, 'x%d' % k, None) for k in range(1, 5)}
    def ed(what, tag, key):
        s = b.copy()
        for w in what:
            n = rng.choice('ttu') if tag else 't'
            if w == 'I': s.rows[n][(key,)] = (key, tag, 1)
            if w == 'U': k = rng.randint(1, 3); s.rows[n][(k,)] = s.rows[n][(k,)][:1] + ((tag, None) if rng.random() < .5 else (s.rows[n][(k,)][1], tag))
            if w == 'D': s.rows[n].pop((4,), None)
        return s
    for i, x in enumerate(['', 'I', 'U', 'D', 'IU', 'UD']):
        for y in ['I', 'U', 'D', ''] if i % 2 else ['I', 'U', 'D', 'UI']: out.append((b, ed(x, 'theirs', 10), ed(y, 'mine', rng.choice([10, 12]))))
    return out

def layer_replacing(ctx):
    """a GeoPackage layer with ON CONFLICT REPLACE: its triggers for the spatial index keep the library from overriding the clause"""
    sc = ctx.scene(); b = gen.gpkg_state(ctx.rng, ('simple',), 0, std=True)
    t = b.tab('simple'); t.extra = 'UNIQUE (name) ON CONFLICT REPLACE'
    b.rows['simple'] = {(1,): (1, gen.point(1, 2), 'a', 1)}; b.build(sc.p('d.gpkg'))
    put(sc, 'c.diff', encode_cs([('simple', [1, 0, 0, 0], [('I', [], [7, None, 'a', 2])])])); sc.call('applyChangeset', 'd.gpkg', 'c.diff')

def refuse_gpkg(ctx, n):
    """GeoPackages (with foreign keys in system tables and known triggers), with and without a user's foreign key or trigger"""
    sc = ctx.scene(); rng = ctx.rng
    for i in range(n):
        clear(sc)
        script = ['', 'CREATE TRIGGER usertrg AFTER INSERT ON simple BEGIN SELECT 1; END;', 'CREATE TABLE chi(id INTEGER PRIMARY KEY, p INTEGER REFERENCES simple(fid));', 'CREATE TRIGGER "rtree_more" AFTER INSERT ON simple BEGIN SELECT 1; END;'][i % 4]
        b = gen.gpkg_state(rng, script=script); t, m = gen.gpkg_mutate(rng, b), gen.gpkg_mutate(rng, b)
        tripledb(sc, b, t, m, rng)
        sc.call('createChangeset', 'b.gpkg', 't.gpkg', 't.diff')
        sc.call('createRebasedChangeset', 'b.gpkg', 'm.gpkg', 't.diff', 'r.diff', 'c.json')

USERTRG = [
  'CREATE TRIGGER {n} AFTER INSERT ON {t} BEGIN INSERT INTO log_ VALUES (\'ins\'); END',
  'CREATE TRIGGER {n} BEFORE INSERT ON {t} BEGIN INSERT INTO log_ VALUES (\'bins\'); END',
  'CREATE TRIGGER {n} AFTER UPDATE ON {t} BEGIN INSERT INTO log_ VALUES (\'upd\'); END',
  'CREATE TRIGGER {n} BEFORE DELETE ON {t} BEGIN INSERT INTO log_ VALUES (\'del\'); END',
  'CREATE TRIGGER {n} BEFORE DELETE ON {t} BEGIN SELECT RAISE(IGNORE); END',
  'CREATE TRIGGER {n} BEFORE UPDATE ON {t} BEGIN SELECT RAISE(ABORT, \'no\'); END',
  'CREATE TRIGGER {n} AFTER INSERT ON {t} WHEN (SELECT count(*) FROM log_) < 5 BEGIN DELETE FROM {t}; INSERT INTO log_ SELECT \'x;y\'; END',
  'CREATE TRIGGER {n} AFTER DELETE ON {t} BEGIN DELETE FROM {t}; END',
]
TRGNAMES = ['trg', '"with space"', '"quo""te"', '"it\'s"', '"per%cent%s%w%Q"', '"select"', '"ünï"', '[br]', '"Gpkg_no"', '"back\\slash"', '"a;b"', '"user gpkg_"', '"rtre"', '"trigger_insert_feature"']
def user_triggers(ctx, n, start=0, gpkg=False):
    sc = ctx.scene(); rng = ctx.rng
    for i in range(start, start + n):
        clear(sc)
        log = gen.Table('log_', [gen.Col('what', 'TEXT')])
        if gpkg: b = gen.gpkg_state(rng, ('simple', 'other layer')); tabs = [t for t in b.tables if t is not gen.CONTENTS]; m = gen.gpkg_mutate(rng, b)
        else: tabs = [t for t in gen.shapes(rng, 5) if t.pkcols()]; b = gen.fill(rng, tabs, 6); m = gen.mutate(rng, b, .4, .3, .4)
        names = TRGNAMES[:]; rng.shuffle(names)
        trg = [rng.choice(USERTRG).format(n=nm, t=proj.q(rng.choice(tabs).name)) for nm in names[:rng.randint(1, 8)]]
        if rng.random() < .4: trg.append('CREATE TRIGGER viewtrg INSTEAD OF INSERT ON vv BEGIN SELECT 1; END')
        script = 'CREATE TABLE log_(what TEXT); INSERT INTO log_ VALUES (\'a\'); CREATE VIEW vv AS SELECT 1 AS x;' + ';'.join(trg) + ';'
        pairdb(sc, b, m, rng)
        sc.call('createChangeset', 'base.gpkg', 'mod.gpkg', 'a.diff')
        for what in ('fit', 'misfit', 'inverse'):
            src = 'base.gpkg' if what != 'inverse' else 'mod.gpkg'
            cp(sc, src, 'd.gpkg')
            con = gen.connect(sc.p('d.gpkg'))
            if what == 'misfit':    # a row is already gone or there
                t = rng.choice(tabs); ks = [k for k in b.rows[t.name] if k not in m.rows[t.name] or not gen.same(b.rows[t.name][k], m.rows[t.name][k])]
                if ks: con.execute('DELETE FROM %s WHERE %s' % (proj.q(t.name), ' AND '.join('%s IS ?' % proj.q(t.cols[j].name) for j in t.pkcols())), rng.choice(ks))
            con.executescript(script); con.close()
            if what == 'inverse': sc.call('invertChangeset', 'a.diff', 'i.diff')
            sc.call('applyChangeset', 'd.gpkg', 'a.diff' if what != 'inverse' else 'i.diff')
        # and an in-place rebase
        if i % 2 == 0:
            for n_, x in (('bb.gpkg', 'base.gpkg'), ('mm.gpkg', 'mod.gpkg')):
                cp(sc, x, n_); con = gen.connect(sc.p(n_)); con.executescript(script); con.close()
            t2 = gen.gpkg_mutate(rng, b) if gpkg else gen.mutate(rng, b)
            cp(sc, 'base.gpkg', 'th.gpkg'); gen.edit(sc.p('th.gpkg'), b, t2)
            sc.call('createChangeset', 'base.gpkg', 'th.gpkg', 'th.diff')
            sc.call('rebaseEx', 'sqlite', '', 'bb.gpkg', 'mm.gpkg', 'th.diff', 'cf.json')

# ---------------------------------------------------------------- C09: empty sides, failures
def inplace_specials(ctx, n):
    sc = ctx.scene(); rng = ctx.rng
    for i in range(n):
        b, t, m = random_triple(rng, i)
        for tt, mm in ((t, m), (b, m), (t, b), (b, b), (m, m)):
            if not isinstance(b, gen.Gpkg) and not gen.gap_ok(b, tt, mm): continue
            clear(sc); tripledb(sc, b, tt, mm, rng); rebase_calls(sc, rng, ('cs', 'rebase', 'rebasex'))
        # changes of theirs that do not fit BASE, or a schema that differs: the call fails
        clear(sc); tripledb(sc, b, t, m, rng)
        sc.call('createChangeset', 'm.gpkg', 't.gpkg', 'x.diff')
        cp(sc, 'm.gpkg', 'm1.gpkg'); sc.call('rebaseEx', 'sqlite', '', 'b.gpkg', 'm1.gpkg', 'x.diff', 'c.json')
        con = gen.connect(sc.p('t.gpkg')); con.execute('CREATE TABLE more(k INTEGER PRIMARY KEY)'); con.close()
        cp(sc, 'm.gpkg', 'm2.gpkg'); sc.call('rebase', 'b.gpkg', 't.gpkg', 'm2.gpkg', 'c.json')
        put(sc, 'y.diff', b'Tbroken'); sc.call('rebaseEx', 'sqlite', '', 'b.gpkg', 'm2.gpkg', 'y.diff', 'c.json')

# ---------------------------------------------------------------- C17
def dump_story(ctx, n, start=0):
    sc = ctx.scene(); rng = ctx.rng
    for i in range(start, start + n):
        clear(sc)
        if i % 4 == 3: b = gen.gpkg_state(rng, ('simple', 'other layer'))
        elif i % 4 == 2: b = big_state(rng, 10)
        else: b = gen.fill(rng, gen.shapes(rng), rng.choice([0, 1, 8, 20]))
        b.build(sc.p('b.gpkg'), order=rng, pragma=rng.choice(PRAGMAS))
        sc.call('dumpData', 'sqlite', '', 'b.gpkg', 'd.diff'); sc.call('changesCount', 'd.diff')
        if not isinstance(b, gen.Gpkg):
            e = gen.State(b.tables, {t.name: ({} if t.pkcols() else list(b.rows[t.name])) for t in b.tables})
            e.build(sc.p('e.gpkg'), pragma=rng.choice(PRAGMAS[5:]))
            sc.call('applyChangeset', 'e.gpkg', 'd.diff')
            sc.call('createChangeset', 'e.gpkg', 'b.gpkg', 'x.diff')
            sc.call('invertChangeset', 'd.diff', 'i.diff'); cp(sc, 'b.gpkg', 'c.gpkg'); sc.call('applyChangeset', 'c.gpkg', 'i.diff')
        else:
            sc.call('invertChangeset', 'd.diff', 'i.diff'); cp(sc, 'b.gpkg', 'c.gpkg'); sc.call('applyChangeset', 'c.gpkg', 'i.diff'); sc.call('applyChangeset', 'c.gpkg', 'd.diff')

# ---------------------------------------------------------------- C03 further sources of changesets
def invert_sources(ctx, n):
    sc = ctx.scene(); rng = ctx.rng
    for i in range(n):
        clear(sc)
        b, t, m = random_triple(rng, i); tripledb(sc, b, t, m, rng)
        rebase_calls(sc, rng, ('cs',))
        sc.call('invertChangeset', 'r.diff', 'ri.diff'); sc.call('invertChangeset', 'ri.diff', 'rii.diff')
        sc.call('applyChangeset', 'f.gpkg', 'ri.diff')
        b2, m2 = random_pair(rng, i)
        parts = gen.diff_parts(b2, m2, rng); rng.shuffle(parts)
        # the same table in several sections, key columns changed by updates
        parts = parts + [(n_, f, [('U', [v if not (v is UNDEF) else UNDEF for v in E[0][1]], E[0][2])]) for n_, f, E in parts if E[0][0] == 'U']
        parts.append(('keys', [1, 0], [('U', [1, 'a'], [2, 'b']), ('U', [5, UNDEF], [6, UNDEF]), ('U', [3, 'a'], [UNDEF, 'b'])]))
        parts.append(('two keys', [1, 2, 0], [('U', [1, 'k', 'a'], [UNDEF, 'l', 'b']), ('U', [5, 'k', UNDEF], [6, UNDEF, UNDEF])]))
        put(sc, 'h.diff', encode_cs(parts, ind=1)); sc.call('invertChangeset', 'h.diff', 'hi.diff'); sc.call('invertChangeset', 'hi.diff', 'hii.diff')
        sc.call('changesCount', 'h.diff')
        # keys changed by updates, on a database
        k = gen.Table('keys', [gen.Col('k', 'INTEGER', pk=1), gen.Col('v', '')]); st = gen.State([k]); st.rows['keys'] = {(j,): (j, 'a') for j in (1, 3, 5, 9)}
        st.build(sc.p('k.gpkg')); put(sc, 'k.diff', encode_cs([parts[-2]])); sc.call('applyChangeset', 'k.gpkg', 'k.diff'); sc.call('invertChangeset', 'k.diff', 'ki.diff'); sc.call('applyChangeset', 'k.gpkg', 'ki.diff')

# ---------------------------------------------------------------- C13
def json_handmade(ctx, lo, hi):
    """all values in hand-made changesets; undefined columns; odd names"""
    sc = ctx.scene(); rng = ctx.rng
    V = gen.INTS + gen.REALS + gen.TEXTS + gen.BLOBS + [None]
    names = gen.NAMES + ['', 'a"b', 'new\nline', '\x01', 'ü' * 100]
    for r in range(lo, hi):
        rng.shuffle(V); parts = []
        for n in rng.sample(names, rng.randint(0, 5)):
            w = rng.randint(1, 5); E = []
            for _ in range(rng.randint(1, 12)):
                op = rng.choice('IUD')
                row = lambda u: [rng.choice(V) if not u or rng.random() < .6 else UNDEF for _ in range(w)]
                if op == 'I': E.append(('I', [], row(0)))
                elif op == 'D': E.append(('D', row(0), []))
                else: E.append(('U', row(1), row(1)))
            parts.append((n, [1 if j == 0 else 0 for j in range(w)], E))
        if parts and rng.random() < .5: parts.append(parts[0])    # a table named twice
        put(sc, 'h.diff', encode_cs(parts)); sc.call('listChanges', 'h.diff', 'l.json'); sc.call('listChangesSummary', 'h.diff', 's.json'); sc.call('changesCount', 'h.diff')

def json_long(ctx):
    """long texts, blobs and names, many tables, many columns and many entries"""
    sc = ctx.scene(); rng = ctx.rng
    for n in (1000, 4095, 65535, 65536, 100001, 1200000):
        for v in (('\u00e9' * 1400 + '"\\\n') * (n // 2800), 'x' * n, bytes(i * 7 & 255 for i in range(n)), rng.randbytes(n + 1)):
            put(sc, 'h.diff', encode_cs([('t', [1, 0], [('I', [], [1, v]), ('U', [2, v], [UNDEF, None]), ('D', [3, v], [])]), ('u', [1], [('I', [], [4])])]))
            sc.call('listChanges', 'h.diff', 'l.json'); sc.call('listChangesSummary', 'h.diff', 's.json')
    for parts in ([('n' * 5000, [1], [('I', [], [1])])], [('t%d' % i, [1, 0], [('I', [], [i, 'x'])] * (i % 3 + 1)) for i in range(400)], [('t', [1] + [0] * 500, [('I', [], list(range(501))), ('U', [1] + [UNDEF] * 500, [UNDEF] * 500 + ['last'])])],
                  [('t', [1, 0], [('IUD'[i % 3], [] if i % 3 == 0 else [i, 'o'], [] if i % 3 == 2 else [i, 'n']) for i in range(1500)])]):
        put(sc, 'h.diff', encode_cs(parts)); sc.call('listChanges', 'h.diff', 'l.json'); sc.call('listChangesSummary', 'h.diff', 's.json'); sc.call('changesCount', 'h.diff')
