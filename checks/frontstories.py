"""Names and places of files, process environment (C24); the command line tool and the Python module (C23)."""
import subprocess, ctypes, json, re, sys, sqlite3
from stories import *
from apistories import save, restore, api_dbs

# ---------------------------------------------------------------- C24
CALLS = [('createChangeset', ['b.gpkg', 'm.gpkg', '3.diff']), ('createChangesetEx', ['=sqlite', '=', 'b.gpkg', 't.gpkg', '3.diff']), ('createChangeset', ['b.gpkg', 'b.gpkg', '3.diff']),
         ('applyChangeset', ['t.gpkg', 'r.diff']), ('applyChangesetEx', ['=sqlite', '=', 'b.gpkg', '1.diff']), ('applyChangeset', ['m.gpkg', '1.diff']),
         ('createRebasedChangeset', ['b.gpkg', 'm.gpkg', '1.diff', '3.diff', 'c.json']), ('createRebasedChangesetEx', ['=sqlite', '=', 'b.gpkg', '2.diff', '1.diff', '3.diff', 'c.json']),
         ('rebase', ['b.gpkg', 't.gpkg', 'm.gpkg', 'c.json']), ('rebaseEx', ['=sqlite', '=', 'b.gpkg', 'm.gpkg', '1.diff', 'c.json']), ('rebase', ['b.gpkg', 'b.gpkg', 'm.gpkg', 'c.json']),
         ('hasChanges', ['1.diff']), ('changesCount', ['1.diff']), ('listChanges', ['1.diff', 'l.json']), ('listChangesSummary', ['1.diff', 'l.json']), ('invertChangeset', ['1.diff', '3.diff']),
         ('dumpData', ['=sqlite', '=', 'b.gpkg', '3.diff']), ('createRebasedChangeset', ['b.gpkg', 'm.gpkg', 'no.diff', '3.diff', 'c.json']), ('createChangeset', ['b.gpkg', 'no.gpkg', '3.diff']), ('listChanges', ['bad.diff', 'l.json']),
         ('rebase', ['b.gpkg', 'f.gpkg', 'm.gpkg', 'c.json']), ('makeCopy', ['=sqlite', '=', 'b.gpkg', '=sqlite', '=', 'x.gpkg'])]
ODD = ['a b', "it's", 'qu"ote', '100%', '%s%n%d', 'ünï', '日本', '-dash', '--', 'file:x', 'x?mode=memory', 'x?vfs=none&a=b', 'a#b', 'a;b', 'new\nline', 'tab\tx', 'L' * 120, '[br]', '*', '$HOME', '~', 'a\\b', '\\\\unc', '..x', '.hidden', 'CON',
       "x'); DROP TABLE ins;--", 'a,b', '&amp', '`id`', 'x.', 'x.diff', 'x.gpkg', ' lead', 'trail ', 'main', 'aux', ':memory:', ':memory:x', 'host=a dbname=b', 'a=b', '{}', '(1)', 'a|b', '<x>', b'\xff\xfe', b'\xe9', '\x01', '\x7f', 'e\u0301', 'İ', 'ß', 'geodiff_abc', 'x_base2theirs.bin', '1_BASE_MODIFIED', '0', '1e5']
LOCALES = ('de_DE.UTF-8', 'tr_TR.UTF-8')

def locales():
    """built offline (German: decimal comma, grouped numbers; Turkish: other case pairs of the letter i)"""
    d = os.path.join(gd.BUILD, 'locales')
    with gd._caselock:
        for l in LOCALES:
            if not os.path.exists(os.path.join(d, l)):
                t = os.path.join(d, 'tmp-%d' % os.getpid(), l); os.makedirs(os.path.dirname(t), exist_ok=True)
                subprocess.run(['localedef', '-i', l.split('.')[0], '-f', 'UTF-8', t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if not os.path.exists(t): raise gd.CheckError('localedef failed')
                try: os.rename(t, os.path.join(d, l))
                except OSError: pass
                shutil.rmtree(os.path.dirname(t), ignore_errors=True)
    return d

def fs(x): return x if isinstance(x, bytes) else x.encode('utf8')

def name_dbs(rng, kind):
    if kind == 'gpkg': return api_dbs(rng, True)
    b, t, m = api_dbs(rng, False)
    for s, v in ((b, 1.5), (t, 2.25), (m, 1234567.5)):       # rows with real numbers, so that locales can matter, and a conflict
        s.rows['ins'][(1,)] = (1, 'r', 1e6 + v, v)
    return b, t, m

class Variant:
    """how the files of one call are named: place(name, i) -> (path of the file in the scene, the string given to the library)"""
    def __init__(s, what, place, env=None, locale=None, links=(), dirs=(), conv=None, live=False): s.what, s.place, s.env, s.locale, s.links, s.dirs, s.conv, s.live = what, place, env, locale, links, dirs, conv, live

def variants(kind, d):
    """d: the scene's directory (bytes)"""
    def stem(n): return [fs(x) for x in os.path.splitext(n)]
    out = []
    absd = d + b'/'
    same = lambda n, i: (fs(n), absd + fs(n))
    if kind in ('names', 'relnames'):
        for o in ODD:
            if b'/' in fs(o): continue
            # (SQLite may be built to take names that begin with file: for URIs)
            if kind == 'relnames' and fs(o).startswith(b'file:'): continue
            def place(n, i, o=fs(o)):
                p = o + b'%d' % i + stem(n)[1]
                return p, (p if kind == 'relnames' else absd + p)
            out.append(Variant('name %r' % (o,), place))
            if kind == 'names':
                # in the name of the directory
                def place2(n, i, o=fs(o)): return o + b'/' + fs(n), absd + o + b'/' + fs(n)
                out.append(Variant('directory %r' % (o,), place2, dirs=[fs(o)]))
        # the longest names (SQLite needs 8 characters for those of its journals)
        def longest(n, i):
            e = stem(n)[1]; p = b'%d' % i + b'L' * ((247 if e == b'.gpkg' else 255) - 1 - len(e)) + e
            return p, (p if kind == 'relnames' else absd + p)
        out.append(Variant('longest names', longest))
    if kind == 'places':
        D = ['d%d' % i for i in range(8)]
        out.append(Variant('same name in different directories', lambda n, i: (b'd%d/x' % i + stem(n)[1], absd + b'd%d/x' % i + stem(n)[1]), dirs=D))
        out.append(Variant('same name in different directories, relative', lambda n, i: (b'd%d/x' % i + stem(n)[1], b'd%d/x' % i + stem(n)[1]), dirs=D))
        out.append(Variant('same name, dots', lambda n, i: (b'd%d/x' % i + stem(n)[1], absd + b'./d%d/../d%d/x' % (i, i) + stem(n)[1]), dirs=D))
        out.append(Variant('one name is part of another', lambda n, i: (b'x' * (i + 1) + stem(n)[1], absd + b'x' * (i + 1) + stem(n)[1])))
        out.append(Variant('one name is part of another, backwards', lambda n, i: (b'x' * (9 - i) + stem(n)[1], absd + b'x' * (9 - i) + stem(n)[1])))
        out.append(Variant('relative', lambda n, i: (fs(n), fs(n))))
        out.append(Variant('./', lambda n, i: (fs(n), b'./' + fs(n))))
        out.append(Variant('.//', lambda n, i: (fs(n), b'.//' + fs(n))))
        out.append(Variant('//', lambda n, i: (fs(n), d + b'//' + fs(n))))
        out.append(Variant('///', lambda n, i: (fs(n), b'//' + d + b'///' + fs(n))))
        out.append(Variant('..', lambda n, i: (fs(n), d + b'/d0/../' + fs(n)), dirs=D))
        out.append(Variant('relative ..', lambda n, i: (fs(n), b'd0/../d1/../' + fs(n)), dirs=D))
        out.append(Variant('deep', lambda n, i: (b'd0/' + b'e/' * 20 + fs(n), absd + b'd0/' + b'e/' * 20 + fs(n)), dirs=['d0/' + 'e/' * 20]))
        out.append(Variant('long', lambda n, i: (b'd0/' + (b'e' * 50 + b'/') * 6 + fs(n), absd + b'd0/' + (b'e' * 50 + b'/') * 6 + fs(n)), dirs=['d0/' + ('e' * 50 + '/') * 6]))
        out.append(Variant('mixed', lambda n, i: (fs(n), [absd + fs(n), fs(n), b'./' + fs(n), d + b'//' + fs(n), d + b'/./' + fs(n)][i % 5])))
        out.append(Variant('linked directory', lambda n, i: (b'd0/' + fs(n), absd + b'ln/' + fs(n)), dirs=['d0'], links=[('d0', 'ln')]))
        out.append(Variant('linked directory, relative', lambda n, i: (b'd0/' + fs(n), b'ln/' + fs(n)), dirs=['d0'], links=[('d0', 'ln')]))
        # inputs are links to files
        out.append(Variant('links', lambda n, i: (fs(n), absd + b'ln_' + fs(n)) if stem(n)[1] == b'.gpkg' or n in ('1.diff', '2.diff', 'r.diff', 'bad.diff') else (fs(n), absd + fs(n)), links=[(x, 'ln_' + x) for x in ('b.gpkg', 't.gpkg', 'm.gpkg', 'f.gpkg', '1.diff', '2.diff', 'r.diff', 'bad.diff')]))
    if kind == 'env':
        T = d + b'/tmp'
        for what, v in (('tmp/', T + b'/'), ('tmp//', T + b'//'), ('blank', d + b'/t mp'), ('quote', d + b"/t'mp\""), ('percent', d + b'/t%smp'), ('unicode', d + '/tümp'.encode()), ('relative', b'tmp'), ('dots', d + b'/d0/../tmp'), ('link', d + b'/tln'), ('uri', d + b'/file:x?mode=ro'), ('long', d + b'/' + b'q' * 250), ('proc', b'/proc/self/cwd'), ('here', d), ('dot', b'.'), ('dash', b'-t')):
            out.append(Variant('TMPDIR ' + what, same, env=dict(TMPDIR=os.fsdecode(v)), dirs=['t mp', "t'mp\"", 't%smp', 'tümp', 'd0', 'file:x?mode=ro', 'q' * 250, '-t'], links=[('tmp', 'tln')]))
        for k, v in (('LC_ALL', 'de_DE.UTF-8'), ('LANG', 'nowhere'), ('HOME', '/nonexistent'), ('TZ', 'Asia/Tokyo'), ('PATH', ''), ('TMP', '/nonexistent'), ('TEMP', '/nonexistent'), ('SQLITE_TMPDIR', '/nonexistent'), ('GEODIFF_LOGGER_LEVEL', '4'), ('GEODIFF_LOGGER_LEVEL', 'x')):
            out.append(Variant('%s=%s' % (k, v), same, env={k: v}))
    if kind == 'formats':
        for what, sql in FORMATS:
            def conv(path, sql=sql):
                con = sqlite3.connect(path, isolation_level=None)
                for q in sql.split(';'): con.execute(q).fetchall()
                con.close()
            out.append(Variant(what, same, conv=conv))
            if what == 'log': out.append(Variant('open elsewhere, all in the log', same, live=True))
    if kind == 'locale':
        for l in LOCALES + ('C.UTF-8',): out.append(Variant('locale ' + l, same, env=dict(LOCPATH=locales()), locale=l))
    return out

# the same rows in other files
FORMATS = [('pages of 512', 'pragma page_size=512;vacuum'), ('pages of 65536', 'pragma page_size=65536;vacuum'), ('log', 'pragma journal_mode=wal'), ('auto vacuum', 'pragma auto_vacuum=1;vacuum'), ('incremental vacuum', 'pragma auto_vacuum=2;vacuum'),
           ('free pages', 'create table "zz 1"(a);insert into "zz 1" select zeroblob(9000);insert into "zz 1" select zeroblob(9000);drop table "zz 1"'), ('versions', 'pragma user_version=77;pragma application_id=1196444487;pragma schema_version=1234'),
           ('old format', 'pragma legacy_file_format=on;vacuum'), ('cache', 'pragma default_cache_size=3'), ('secure', 'pragma secure_delete=on;vacuum'), ('log, small pages', 'pragma page_size=1024;vacuum;pragma journal_mode=wal')]
HOLDER = '''import sqlite3, sys
L = []
for n, d in zip(sys.argv[1::2], sys.argv[2::2]):
    c = sqlite3.connect(n, isolation_level=None)
    a = sqlite3.connect(d); c.execute('pragma page_size=%d' % a.execute('pragma page_size').fetchone()[0]); c.execute('pragma journal_mode=wal'); c.execute('pragma wal_autocheckpoint=0'); c.execute('create table x(y)')
    a.backup(c); a.close(); assert c.execute('pragma journal_mode').fetchone() == ('wal',); c.execute('select count(*) from sqlite_master').fetchall(); L.append(c)
print('x', flush=True); sys.stdin.read()
'''
def names(ctx, kind, data='plain', part=0, parts=1, calls=None):
    """every call with plain names and then in every variant"""
    rng = ctx.rng; sc = ctx.scene(); sc.lv = 0
    b, t, m = name_dbs(rng, data)
    tripledb(sc, b, t, m, rng)
    x = gen.State([gen.Table('other', [gen.Col('fid', 'INTEGER', pk=1), gen.Col('q', 'TEXT')])]); x.rows['other'][(1,)] = (1, 'x'); x.build(sc.p('f.gpkg'))
    sc.call('createChangeset', 'b.gpkg', 't.gpkg', '1.diff'); sc.call('createChangeset', 'b.gpkg', 'm.gpkg', '2.diff')
    sc.call('createRebasedChangeset', 'b.gpkg', 'm.gpkg', '1.diff', 'r.diff', 'c.json')
    put(sc, 'bad.diff', b'T\x02\x01\x00ab')
    put(sc, 'c.json', b'{"geodiff":[]}')      # an old conflict file
    data0 = {n: open(sc.p(n), 'rb').read() for n in os.listdir(sc.dir) if os.path.isfile(sc.p(n))}
    sc.runner.close(); sc.runner = None
    d = sc.dir.encode()
    V = variants(kind, d)[part::parts]
    def clean():
        for n in os.listdir(d):
            p = os.path.join(d, n)
            if n == b'tmp':
                for k in os.listdir(p): os.unlink(os.path.join(p, k))
            elif os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p)
            else: os.unlink(p)
    def run(v, fn, args, memo):
        clean()
        for n in v.dirs: os.makedirs(os.path.join(d, fs(n)), exist_ok=True)
        given, placed = [], {}
        order = {n: i for i, n in enumerate(sorted({a for a in args if a[0] != '='}))}
        for a in args:
            if a[0] == '=': given.append(a[1:]); continue
            path, s = v.place(a, order[a]); placed[a] = path; given.append(s)
        for n, path in placed.items():
            if n in data0:
                with open(os.path.join(d, path), 'wb') as f: f.write(data0[n])
                if v.conv and n.endswith('.gpkg'): v.conv(os.path.join(d, path))
        holder = None
        if v.live:
            P = [os.path.join(d, path) for n, path in placed.items() if n in data0 and n.endswith('.gpkg')]
            for p in P: os.rename(p, os.fsencode(sc.dir + '.src-') + os.path.basename(p))
            L = [x for p in P for x in (p, os.fsencode(sc.dir + '.src-') + os.path.basename(p))]
            holder = subprocess.Popen([sys.executable, '-c', HOLDER] + L, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
            if holder.stdout.readline() != b'x\n': raise gd.CheckError('holder failed')
            for x in L[1::2]: os.unlink(x)
            sc.live = True
        for to, name in v.links:
            if to == 'tmp' or os.path.exists(os.path.join(d, fs(to))): os.symlink(fs(to), os.path.join(d, fs(name)))
        sc.call(fn, *given, extra=dict(memo=memo, exp='' if memo else 'same'))
        if holder: holder.stdin.close(); holder.wait(); sc.live = False
    L = [c for c in CALLS if calls is None or c[0] in calls]
    plain = Variant('plain', lambda n, i: (fs(n), d + b'/' + fs(n)))
    sc.env = None; sc.start()
    for fn, args in L: run(plain, fn, args, 1)
    for v in V:
        if v.env or v.locale or sc.env:
            sc.env = v.env
            if sc.runner: sc.runner.close(); sc.runner = None
        clean()
        for n in v.dirs: os.makedirs(os.path.join(d, fs(n)), exist_ok=True)
        for to, name in v.links:
            if to == 'tmp': os.symlink(fs(to), os.path.join(d, fs(name)))
        r = sc.start()
        if v.locale and r.cmd('locale', gd._e(v.locale))[0][1] != '1': raise gd.CheckError('no locale ' + v.locale)
        sc.notes.append(v.what)
        for fn, args in L: run(v, fn, args, 0)
    sc.env = None

# ---------------------------------------------------------------- C23
from apistories import singles, fixtures, args_of, PREFIX
PYFN = {'createChangeset': 'create_changeset', 'invertChangeset': 'invert_changeset', 'rebase': 'rebase', 'createRebasedChangeset': 'create_rebased_changeset', 'applyChangeset': 'apply_changeset',
        'listChanges': 'list_changes', 'listChangesSummary': 'list_changes_summary', 'hasChanges': 'has_changes', 'changesCount': 'changes_count'}
CLI = ('createChangeset', 'createRebasedChangeset', 'applyChangeset', 'listChanges', 'listChangesSummary', 'makeCopy', 'createChangesetEx', 'applyChangesetEx', 'rebaseEx', 'dumpData')
REPO = gd._build.REPO

_tools = {}
def tools():
    """(geodiffinfo, shared library, stub library)"""
    with gd._caselock:
        if not _tools:
            _tools['cli'] = gd.exe('asan', extra_src=(REPO + '/geodiff/src/geodiffinfo.cpp',), name='cli')
            _tools['so'] = gd.exe('shared', extra_src=(), name='gdlib.so')
            s = os.path.join(gd.BUILD, 'stublib-%d.so' % os.getpid())
            gd._build.sh(['gcc', '-shared', '-fPIC', '-w', '-o', s, os.path.join(gd.VERIF, 'harness', 'stublib.c')]); _tools['stub'] = s
            import atexit; atexit.register(lambda: os.path.exists(s) and os.unlink(s))
    return _tools

class CliRunner:
    """one process of geodiffinfo per call"""
    def __init__(s, sc, level):
        s.e = dict(os.environ); s.e.pop('GEODIFF_LOGGER_LEVEL', None)
        s.e.update(TMPDIR=sc.tmp, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=99:handle_abort=0')
        if level is not None: s.e['GEODIFF_LOGGER_LEVEL'] = str(level)
        s.cwd = sc.dir
    def run(s, *argv):
        try: r = subprocess.run([tools()['cli']] + [gd_arg(a) for a in argv], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=s.e, cwd=s.cwd, timeout=60)
        except subprocess.TimeoutExpired: raise gd.Timeout()
        if r.returncode < 0 or r.returncode == 99: raise gd.Crash(r.returncode, r.stdout.decode('utf8', 'replace')[-2000:])
        return r.returncode, r.stdout
    def call(s, fn, *args, timeout=None):
        rc, out = s.run(fn, *args)
        logs = []
        for l in out.decode('utf8', 'replace').splitlines():
            for p, n in PREFIX.items():
                if l.startswith(p): logs.append((n, 'x'))
        return gd.Result(rc, None, logs, [])
    def close(s): pass
def gd_arg(a): return a if isinstance(a, bytes) else str(a).encode('utf8')

class Via:
    """calls of the scene by a front end"""
    def __init__(s, sc, via, level):
        s.sc, s.main, s.lv = sc, sc.runner, sc.lv
        if via == 'cli': s.r = CliRunner(sc, level); s.level = 2 if level is None else level
        else:
            s.r = py_runner(sc, tools()['so']); s.level = level if level is not None else 1
            if level is not None: s.r.level(level)
    def __enter__(s): s.sc.runner = s.r; s.sc.lv = s.level; return s
    def __exit__(s, *a): s.r.close(); s.sc.runner = s.main; s.sc.lv = s.lv
def py_runner(sc, lib, env=None):
    return gd.Runner([sys.executable, os.path.join(gd.VERIF, 'harness', 'pyrun.py'), lib], cwd=sc.dir, tmpdir=sc.tmp, env=dict({'PYRUN_METHODS': ','.join('%s=%s' % x for x in PYFN.items()), 'PYTHONDONTWRITEBYTECODE': '1'}, **(env or {})))

def kind_of(sc):
    k = [x for x in sc.res.extra if x[0] == 'kind']
    return [k[0][1], int(k[0][2])] if k else ['nothing', 0]

def both(sc, keep, via, fn, args, level):
    """the call by the C API, then by the front end, on the same files"""
    sc.lv = 4; sc.start().level(4)
    restore(sc, keep); sc.sync_env()
    sc.call(fn, *args, extra=dict(memo=1))
    restore(sc, keep); sc.sync_env()
    with Via(sc, via, level):
        ev = sc.call(fn, *args, extra=dict(via=via))
        if via == 'py': ev['got'] = kind_of(sc)

def front_calls(ctx, via, part, parts, gpkg=False, per=1):
    """right and wrong calls enumerated from Api.tla by a front end"""
    rng = ctx.rng; sc = ctx.scene(); tools()
    fixtures(sc, *api_dbs(rng, gpkg), rng, full=True); keep = save(sc)
    fns = CLI if via == 'cli' else tuple(PYFN)
    G = [[it for it in g if it['fn'] in fns and ('\\N' not in it['args'] or it['wrong'] != 'null')] for g in singles()]
    for g in [g for g in G if g][part::parts]:
        for it in rng.sample(g, min(per, len(g))):
            a = ['' if x is None else x for x in args_of(it)]
            both(sc, keep, via, it['fn'], a, rng.choice([None, 0, 1, 2, 3, 4]))
    shutil.rmtree(keep)

def front_levels(ctx, via):
    """calls with messages of all kinds at all levels, also the one a front end sets by itself"""
    rng = ctx.rng; sc = ctx.scene(); tools()
    b, t, m = name_dbs(rng, 'plain'); tripledb(sc, b, t, m, rng); b.build(sc.p('same.gpkg'))
    x = gen.State([gen.Table('other', [gen.Col('fid', 'INTEGER', pk=1)])]); x.build(sc.p('f.gpkg'))
    sc.start().level(0); sc.lv = 0
    sc.call('createChangeset', 'b.gpkg', 't.gpkg', '1.diff'); sc.call('createChangeset', 'b.gpkg', 'same.gpkg', 'e.diff')
    keep = save(sc)
    L = [('createRebasedChangeset', 'b.gpkg', m_, t_, '3.diff', 'c.json') for m_, t_ in (('m.gpkg', '1.diff'), ('same.gpkg', '1.diff'), ('m.gpkg', 'e.diff'), ('same.gpkg', 'e.diff'), ('f.gpkg', '1.diff'))]
    L += [('applyChangeset', 'b.gpkg', '1.diff'), ('applyChangeset', 't.gpkg', '1.diff'), ('applyChangeset', 'f.gpkg', '1.diff'), ('createChangeset', 'b.gpkg', 'f.gpkg', '3.diff')]
    if via == 'cli': L += [('rebaseEx', 'sqlite', '', 'b.gpkg', m_, t_, 'c.json') for m_, t_ in (('m.gpkg', '1.diff'), ('same.gpkg', '1.diff'), ('m.gpkg', 'e.diff'))]
    else: L += [('rebase', 'b.gpkg', t_, m_, 'c.json') for m_, t_ in (('m.gpkg', 't.gpkg'), ('same.gpkg', 't.gpkg'), ('m.gpkg', 'same.gpkg'))]
    for c in L:
        for lv in rng.sample([0, 1, 2, 3, 4], 2) + [None]: both(sc, keep, via, c[0], c[1:], lv)
    shutil.rmtree(keep)

def front_names(ctx, via):
    """files with odd names"""
    rng = ctx.rng; sc = ctx.scene(); tools()
    b, t, m = name_dbs(rng, 'plain'); tripledb(sc, b, t, m, rng)
    data = {n: open(sc.p(n), 'rb').read() for n in ('b.gpkg', 't.gpkg', 'm.gpkg')}
    for o in ODD:
        if isinstance(o, bytes) or o.startswith('file:'): continue
        clear(sc)
        n = lambda x: o + x
        for k in data: put(sc, n(k), data[k])
        sc.start().level(0); sc.lv = 0
        sc.call('createChangeset', n('b.gpkg'), n('t.gpkg'), n('1.diff'))
        keep = save(sc)
        L = [('createChangeset', n('b.gpkg'), n('m.gpkg'), n('2.diff')), ('createRebasedChangeset', n('b.gpkg'), n('m.gpkg'), n('1.diff'), n('2.diff'), n('c.json')), ('applyChangeset', n('b.gpkg'), n('1.diff')), ('listChanges', n('1.diff'), n('l.json')), ('listChangesSummary', n('1.diff'), n('l.json'))]
        L += [('dumpData', 'sqlite', '', n('b.gpkg'), n('2.diff')), ('rebaseEx', 'sqlite', '', n('b.gpkg'), n('m.gpkg'), n('1.diff'), n('c.json')), ('createChangesetEx', 'sqlite', '', n('b.gpkg'), n('m.gpkg'), n('2.diff')), ('applyChangesetEx', 'sqlite', '', n('b.gpkg'), n('1.diff'))] if via == 'cli' else \
             [('rebase', n('b.gpkg'), n('t.gpkg'), n('m.gpkg'), n('c.json')), ('hasChanges', n('1.diff')), ('changesCount', n('1.diff')), ('invertChangeset', n('1.diff'), n('2.diff'))]
        for c in rng.sample(L, 3): both(sc, keep, via, c[0], c[1:], None)
        shutil.rmtree(keep)

def other_event(sc, **kw):
    now = sc.snap(); sc.last = now
    sc.events.append(dict(dict(fn='', memo=0, fault=0, labs=[], via='', miss=0, rc=0, level=0, lm=[], lv=[]), **kw, a={r: '' for r in gd.ROLES}, files=sc._files(now)))

def argv_story(ctx):
    """all numbers of arguments for all modes"""
    rng = ctx.rng; sc = ctx.scene(); tools()
    fixtures(sc, *api_dbs(rng, False), rng, full=True); keep = save(sc); sc.start()
    want = [t for l, t in sc.runner.call('version').logs][0]
    good = dict(createChangeset=['b.gpkg', 't.gpkg', '3.diff'], createRebasedChangeset=['b.gpkg', 'm.gpkg', '1.diff', '3.diff', 'c.json'], applyChangeset=['b.gpkg', '1.diff'], listChanges=['1.diff', 'l.json'], listChangesSummary=['1.diff', 'l.json'],
                makeCopy=['sqlite', '', 'b.gpkg', 'sqlite', '', 'x.gpkg'], createChangesetEx=['sqlite', '', 'b.gpkg', 't.gpkg', '3.diff'], applyChangesetEx=['sqlite', '', 'b.gpkg', '1.diff'], rebaseEx=['sqlite', '', 'b.gpkg', 'm.gpkg', '1.diff', 'c.json'], dumpData=['sqlite', '', 'b.gpkg', '3.diff'])
    sc.sync_env()
    for mode, n, meaning in sorted(gd.cases('argv')):
        args = (good.get(mode, ['b.gpkg', 't.gpkg', '3.diff']) + ['more', 'b.gpkg', '1.diff', '9.diff', '', '', ''])[:n]
        if meaning == 'call':
            k = len(good[mode]); restore(sc, keep); sc.lv = 4; sc.start().level(4); sc.sync_env(); sc.call(mode, *[sc.p(a) if '.' in a else a for a in args[:k]], extra=dict(memo=1))
            restore(sc, keep); sc.sync_env()
            with Via(sc, 'cli', None):
                x = sc.runner; call0 = x.call
                x.call = lambda fn, *a, timeout=None: call0(fn, *a, *args[k:])
                sc.call(mode, *[sc.p(a) if '.' in a else a for a in args[:k]], extra=dict(via='cli'))
            restore(sc, keep); sc.sync_env(); continue
        r = CliRunner(sc, None)
        full = [sc.p(a) if '.' in a else a for a in args]
        try: rc, out = r.run(mode, *full)
        except gd.Crash as e: rc, out = -1001, b''; sc.notes.append('crash: ' + e.err[-300:])
        other_event(sc, op='argv', mode=mode, n=n, meaning=meaning, rc=rc, text=out.decode('utf8', 'replace').strip() if meaning == 'version' else '', want=want)
        restore(sc, keep); sc.sync_env()
    # no mode at all
    rc, out = CliRunner(sc, None).run()
    other_event(sc, op='argv', mode='', n=0, meaning='usage', rc=rc, text='', want=want)
    shutil.rmtree(keep)

def stub_story(ctx):
    """return codes of the library as results and exceptions of Python; versions that do not fit"""
    sc = ctx.scene(); t = tools(); sc.start()
    want = [x for l, x in sc.runner.call('version').logs][0]
    sc.sync_env()
    def run(lib, env, fn, args=(), **kw):
        r = py_runner(sc, lib, env)
        try: res = r.call(fn, *args); k = [x for x in res.extra if x[0] == 'kind'][0]; got = [k[1], int(k[2])]
        except gd.Crash as e: got = ['crash', 0]; sc.notes.append(e.err[-300:])
        finally: r.close()
        other_event(sc, op='pystub', fn=fn, got=kw.pop('got', got) if fn != 'version' else got[0], **kw)
    n = dict(createChangeset=3, invertChangeset=2, rebase=4, createRebasedChangeset=5, applyChangeset=2, listChanges=2, listChangesSummary=2, hasChanges=1, changesCount=1)
    for fn, meth, rc in sorted(gd.cases('stub')):
        if PYFN[fn] != meth: raise gd.CheckError('method names')
        run(t['stub'], dict(STUB_RC=str(rc), STUB_VERSION=want, PYRUN_STUB='1'), fn, ['x'] * n[fn], rc=rc, text='', want='')
    for v in (want, want + '1', '0.0.0', '', want[:-1], 'x'): run(t['stub'], dict(STUB_VERSION=v, PYRUN_STUB='1'), 'load', rc=0, text=v, want=want)
    run(t['so'], {}, 'load', rc=0, text=want, want=want); run(t['so'], {}, 'version', rc=0, text='', want=want)
    run('-', {}, 'load', rc=0, text='no library in the package nor the system', want=want)
