"""A server and clients that sync through rebase (C19): behaviours of spec/Sync.tla in the implementation."""
from concstories import *

_beh = {}
def sync_behaviours(clients, tabs, length, num, seed, spec='Spec'):
    k = (clients, tabs, length, num, seed, spec)
    with gd._caselock:
        if k in _beh: return _beh[k]
    cfg = 'SPECIFICATION %s\nCONSTANTS Clients = {%s} Tabs = {%s} MaxEdits = 40 LowKeys = FALSE Emit = TRUE Len_ = %d\nINVARIANTS NoFail NoLoss Converged Emitted\nCHECK_DEADLOCK FALSE\n' % (spec,
        ','.join(map(str, range(1, clients + 1))), ','.join(map(str, range(1, tabs + 1))), length)
    rc, out = gd.tlc('Sync', cfg, args=['-simulate', 'num=%d' % num, '-depth', str(length + 5), '-seed', str(seed)])
    if rc != 0: raise gd.CheckError('Sync: ' + out[-3000:])
    seen, res = set(), []
    for m in re.finditer(r'<<"SYNC", "(.*)">>', out):
        b = json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\'))
        key = json.dumps(b[:-1])
        if key not in seen: seen.add(key); res.append(b)
    with gd._caselock: _beh[k] = res
    return res

# tables of the behaviours: columns in the order of the table; key, tag, a, b say where they are
class Layout:
    def __init__(s, name, cols, key, tag, a, b, text=False, gpkg=False): s.name, s.key, s.tag, s.a, s.b, s.text, s.gpkg = name, key, tag, a, b, text, gpkg; s.table = gen.Table(name, cols)
    def row(s, k, tag, a, b):
        r = [None] * len(s.table.cols); r[s.key] = k; r[s.tag] = tag; r[s.a] = a; r[s.b] = b; return tuple(r)
def layouts(rng):
    L = [Layout('plain', [gen.Col('fid', 'INTEGER', pk=1), gen.Col('tag', 'TEXT'), gen.Col('a', ''), gen.Col('b', '')], 0, 1, 2, 3),
         Layout('key "last"', [gen.Col('b', ''), gen.Col('tag', 'TEXT', nn=True), gen.Col('a', 'TEXT'), gen.Col('fid', 'INTEGER', pk=1)], 3, 1, 2, 0),
         Layout('text keys', [gen.Col('a', ''), gen.Col('id', 'TEXT', nn=True, pk=1), gen.Col('b', 'TEXT'), gen.Col('tag', 'TEXT'), gen.Col('unused', '')], 1, 3, 0, 2, text=True)]
    rng.shuffle(L); return L

class World:
    """files: srv.gpkg, base<c>.gpkg, loc<c>.gpkg; values of the model stand for values of many kinds"""
    def __init__(s, ctx, clients, tabs):
        s.sc = ctx.scene(); s.rng = ctx.rng; s.clients = clients
        s.gpkg = s.rng.random() < .35
        s.lay = layouts(s.rng)[:tabs]
        if s.gpkg: s.lay[0] = Layout('simple', [gen.Col('fid', 'INTEGER', nn=True, pk=1), gen.Col('geometry', 'POINT'), gen.Col('name', 'TEXT'), gen.Col('rating', 'MEDIUMINT')], 0, 2, 1, 3, gpkg=True)
        s.top = {}; s.vals = {}; s.chain = []; s.hops = 0
        s.side = s.sc.dir + '.side'; os.mkdir(s.side); gd._scratch.append(s.side)
        if s.gpkg:
            st = gen.Gpkg([gen.CONTENTS] + [l.table for l in s.lay])
            st.rows['gpkg_contents'][('simple',)] = ('simple', 'features', 'simple', '', '2020-01-01T00:00:00.000Z', 0.5, 1.5, 2.5, 3.5, 4326)
        else: st = gen.State([l.table for l in s.lay])
        for l in s.lay:
            for i, tag in ((1, 't0'), (2, 't00')):
                k = 'k%d' % i if l.text else i
                st.rows[l.name][(k,)] = l.row(k, tag, s.value(l, l.a, 'v0'), s.value(l, l.b, 'v0'))
        st.build(s.sc.p('srv.gpkg')); s.n = 0
        cp(s.sc, 'srv.gpkg', '../' + os.path.basename(s.side) + '/v0.gpkg')
        for c in range(1, clients + 1): cp(s.sc, 'srv.gpkg', 'base%d.gpkg' % c); cp(s.sc, 'srv.gpkg', 'loc%d.gpkg' % c)
        s.at = {c: 0 for c in range(1, clients + 1)}     # version of the server that a client has
        s.sc.sync_env()
    def value(s, l, col, v):
        k = (l.name, col, v)
        if k not in s.vals:
            typ = l.table.cols[col].typ
            used = [s.vals[x] for x in s.vals if x[:2] == k[:2]]
            while True:
                x = gen.point(s.rng.uniform(-9, 9), s.rng.uniform(-9, 9)) if typ == 'POINT' else s.rng.randint(-10**6, 10**6) if typ == 'MEDIUMINT' else gen.vals(s.rng, typ)
                if not any(gen.same((x,), (y,)) for y in used): break
            s.vals[k] = x
        return s.vals[k]
    def find(s, con, l, tag): return con.execute('SELECT %s FROM %s WHERE %s = ?' % (proj.q(l.table.cols[l.key].name), proj.q(l.name), proj.q(l.table.cols[l.tag].name)), (tag,)).fetchone()
    def edit(s, it):
        l = s.lay[it['t'] - 1]; c = it['c']; con = gen.connect(s.sc.p('loc%d.gpkg' % c)); kc = proj.q(l.table.cols[l.key].name)
        if it['op'] == 'ins':
            K = [r[0] for r in con.execute('SELECT %s FROM %s' % (kc, proj.q(l.name)))]
            b = gen.connect(s.sc.p('base%d.gpkg' % c)); K += [r[0] for r in b.execute('SELECT %s FROM %s' % (kc, proj.q(l.name)))]; b.close()
            # text keys have no order: a client uses none that a version it has seen has ever had (it would meet the known "gap")
            if l.text: s.top[c] = s.top.get(c, 2) + it['k']; k = 'k%d' % s.top[c]
            else: k = max(K + [0]) + it['k']
            gen.ins(con, l.table, [l.row(k, it['tag'], s.value(l, l.a, it['v']), s.value(l, l.b, it['v']))])
        else:
            k = s.find(con, l, it['tag'])
            if k is None: con.close(); return       # keys were reused: rows are mixed up from here on
            if it['op'] == 'del': con.execute('DELETE FROM %s WHERE %s = ?' % (proj.q(l.name), kc), k)
            else:
                col = l.a if it['col'] == 3 else l.b
                con.execute('UPDATE %s SET %s = ? WHERE %s = ?' % (proj.q(l.name), proj.q(l.table.cols[col].name), kc), (s.value(l, col, it['v']), k[0]))
        if s.gpkg and s.rng.random() < .3:
            con.execute("UPDATE gpkg_contents SET last_change = ?", ('2021-01-%02dT%02d:00:00.000Z' % (s.rng.randint(1, 28), s.rng.randint(0, 23)),))
        con.close()
    def run(s, fn, *args):
        r = s.sc.start()
        try: res = r.call(fn, *args)
        except gd.Crash as e: s.sc.notes.append('crash in %s: %s' % (fn, e.err[-800:])); s.sc.runner = None; s.rcs.append(-1001); raise
        except gd.Timeout: s.sc.notes.append('timeout in %s' % fn); s.sc.runner = None; s.rcs.append(-1002); raise
        s.rcs.append(res.rc if res.exc is None else -1000); s.did.append(fn)
        if s.rcs[-1] != 0: s.sc.notes.append('%s: %s' % (fn, res.logs[-3:])); raise StopIteration
    def sync(s, c, how=None):
        """in the way of a server that computes differences, or one that keeps a chain of changesets; the client rebases its
        file in place, or rebases a changeset, from databases or changesets"""
        sc, rng = s.sc, s.rng; P = sc.p; s.rcs, s.did = [], []
        how = how or rng.choice(['cs', 'csx', 'rebase', 'rebasex', 'chain'])
        T = lambda n: os.path.join(s.side, n)
        base, loc, srv = P('base%d.gpkg' % c), P('loc%d.gpkg' % c), P('srv.gpkg')
        L0 = sc.lv
        try:
            theirs = srv
            if how == 'chain':     # the client brings its copy of the last version up to date by the changesets since
                shutil.copyfile(base, T('th.gpkg')); theirs = T('th.gpkg')
                for d in s.chain[s.at[c]:]: s.run('applyChangeset', theirs, d)
            s.run('createChangeset', base, theirs, T('theirs.diff'))
            shutil.copyfile(srv, T('new.gpkg'))
            if how in ('cs', 'csx', 'chain'):
                if how == 'csx':
                    s.run('createChangeset', base, loc, T('mine.diff')); s.run('createRebasedChangesetEx', 'sqlite', '', base, T('mine.diff'), T('theirs.diff'), T('push.diff'), T('conf.json'))
                else: s.run('createRebasedChangeset', base, loc, T('theirs.diff'), T('push.diff'), T('conf.json'))
                s.run('applyChangeset', T('new.gpkg'), T('push.diff'))
                if how == 'csx':    # the client undoes its changes and goes to the version of the server by changesets
                    s.run('invertChangeset', T('mine.diff'), T('undo.diff'))
                    for d in (T('undo.diff'), T('theirs.diff'), T('push.diff')): s.run('applyChangeset', loc, d)
                else: s.run('applyChangeset', theirs, T('push.diff')) if how == 'chain' else None; shutil.copyfile(T('new.gpkg') if how == 'cs' else theirs, loc)
            else:
                if how == 'rebase': s.run('rebase', base, srv, loc, T('conf.json'))
                else: s.run('rebaseEx', 'sqlite', '', base, loc, T('theirs.diff'), T('conf.json'))
                s.run('createChangeset', srv, loc, T('push.diff')); s.run('applyChangeset', T('new.gpkg'), T('push.diff'))
            s.n += 1; d = T('push%d.diff' % s.n); shutil.move(T('push.diff'), d); s.chain.append(d); s.at[c] = s.n; s.top[0] = s.top[c] = max(s.top.get(0, 2), s.top.get(c, 2))
            shutil.copyfile(T('new.gpkg'), srv); shutil.copyfile(T('new.gpkg'), base)
            ok = True
        except (StopIteration, gd.Crash, gd.Timeout): ok = False
        except OSError as e: s.sc.notes.append('missing output: %s' % e); s.rcs.append(-1003); ok = False
        s.event('sync', how, db='loc%d.gpkg' % c, base='base%d.gpkg' % c, thdb='srv.gpkg')
        return ok
    def event(s, op, how, **a):
        sc = s.sc
        tagc = [[gd.esc(l.name), l.tag + 1] for l in s.lay] + ([['gpkg_contents', 3]] if s.gpkg else [])
        ev = dict(op=op, fn=how, a=dict({r: '' for r in gd.ROLES}, **a), miss=0, rc=0, lv=[], level=0, fault=0, fds=0, locked=0, memo=0, badout=0, exp='', labs=[], killed=0, obs=[], lm=[],
                  rcs=list(s.rcs), tagc=tagc, did=list(s.did), copies=['srv.gpkg'] + [x % c for c in range(1, s.clients + 1) for x in ('base%d.gpkg', 'loc%d.gpkg')])
        now = sc.snap(); ev['files'] = sc._files(now); sc.last = now; sc.events.append(ev)

def sync_story(ctx, clients, tabs, length, num, start=0, how=None, spec='Spec'):
    """behaviours of the model, each on fresh files, then two rounds of syncs"""
    for beh in sync_behaviours(clients, tabs, length, num, gd.SEED * 1000 + start, spec):
        w = World(ctx, clients, tabs); ok = True
        for it in beh:
            if it['op'] == 'sync': w.sc.sync_env(); ok = w.sync(it['c'], how)
            else: w.edit(it)
            if not ok: break
        if ok:
            for r in range(2):
                order = list(range(1, clients + 1)); ctx.rng.shuffle(order)
                for c in order:
                    if ok: w.sc.sync_env(); ok = w.sync(c, how)
            if ok: w.rcs, w.did = [], []; w.event('conv', 'conv')
        shutil.rmtree(w.side)
