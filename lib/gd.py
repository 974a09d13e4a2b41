"""Runner, scene recording and TLC invocation shared by all checks."""
import os, sys, json, time, shutil, hashlib, random, sqlite3, subprocess, tempfile, threading
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'harness'))
import build as _build
import proj
from proj import esc

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'
TLACM = '/opt/veriftools/tla/CommunityModules-deps.jar'

class CheckError(Exception): pass

_scratch = []
def scratch(prefix='gd'):
    d = tempfile.mkdtemp(prefix='verif-%s-' % prefix, dir='/tmp')
    _scratch.append(d)
    return d
def cleanup():
    for d in _scratch: shutil.rmtree(d, ignore_errors=True)
    _scratch.clear()
import atexit; atexit.register(cleanup)

# ---------------------------------------------------------------- runner
def _e(v):
    if v is None: return '\\N'
    b = v if isinstance(v, bytes) else str(v).encode('utf8')
    return ''.join(chr(c) if 33 <= c <= 126 and c != 37 else '%%%02X' % c for c in b)
def _d(s):
    from urllib.parse import unquote_to_bytes
    return unquote_to_bytes(s)

class Crash(Exception):
    def __init__(s, rc, err): super().__init__('rc=%s' % rc); s.rc = rc; s.err = err
class Timeout(Exception): pass

class Result:
    """rc: return code; exc: text of an escaped exception or None; logs: [(level, text)]"""
    def __init__(s, rc, exc, logs, extra): s.rc, s.exc, s.logs, s.extra = rc, exc, logs, extra

class Runner:
    def __init__(s, exe, cwd=None, tmpdir=None, env=None, timeout=60):
        e = dict(os.environ)
        for k in ('GEODIFF_LOGGER_LEVEL', 'GEODIFF_BUSY'): e.pop(k, None)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:exitcode=99:handle_abort=0'
        if tmpdir: e['TMPDIR'] = tmpdir
        if env: e.update(env)
        s.errf = tempfile.TemporaryFile()
        s.timeout = timeout
        s.p = subprocess.Popen(exe if isinstance(exe, list) else [exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=s.errf, cwd=cwd, env=e, bufsize=0)
        s.buf = b''
        s.dead = None
    def send(s, *fields):
        try: s.p.stdin.write(('\t'.join(fields) + '\n').encode())
        except (BrokenPipeError, OSError): pass
    def line(s, timeout=None):
        import select
        end = time.time() + (timeout or s.timeout)
        while b'\n' not in s.buf:
            left = end - time.time()
            if left <= 0:
                s.kill(); raise Timeout()
            r, _, _ = select.select([s.p.stdout], [], [], left)
            if r:
                c = os.read(s.p.stdout.fileno(), 65536)
                if not c:
                    s.p.wait(); s.dead = s.p.returncode
                    raise Crash(s.p.returncode, s.err())
                s.buf += c
        l, s.buf = s.buf.split(b'\n', 1)
        return l.decode('latin1')
    def err(s):
        s.errf.seek(0); return s.errf.read().decode('utf8', 'replace')[-4000:]
    def reply(s, timeout=None):
        out = []
        while True:
            l = s.line(timeout)
            if l == '.': return out
            out.append(l.split('\t'))
    def cmd(s, *fields):
        s.send(*[str(f) for f in fields]); return s.reply()
    def start(s, fn, *args): s.send('call', fn, *[_e(a) for a in args])
    def finish(s, timeout=None):
        rc, exc, logs, extra = None, None, [], []
        for f in s.reply(timeout):
            if f[0] == 'ret': rc = int(f[1])
            elif f[0] == 'exc': exc = _d(f[1]).decode('utf8', 'replace')
            elif f[0] == 'log': logs.append((int(f[1]), _d(f[2]).decode('utf8', 'replace')))
            elif f[0] == 'err': raise CheckError(' '.join(f))
            else: extra.append(f)
        return Result(rc, exc, logs, extra)
    def call(s, fn, *args, timeout=None):
        s.start(fn, *args); return s.finish(timeout)
    def call_paused(s, fn, args, on_pause):
        """a call with a pause armed: on_pause(kind of operation) runs at every pause"""
        s.start(fn, *args)
        rest = []
        while True:
            l = s.line()
            if l.startswith('paused\t'): on_pause(l.split('\t')[1]); s.send('go')
            elif l == '.': break
            else: rest.append(l)
        s.buf = ''.join(x + '\n' for x in rest + ['.']).encode('latin1') + s.buf
        return s.finish()
    def fault(s, mode, n=0):
        r = s.cmd('fault', mode, n)
        return dict(zip(('read', 'write', 'lock', 'sync', 'open', 'deltrunc', 'mut', 'all', 'file', 'full', 'data'), map(int, r[0][1:])))
    def level(s, n): s.cmd('level', n)
    def kill(s):
        try: s.p.kill()
        except OSError: pass
        s.p.wait()
    def close(s):
        try: s.p.stdin.close()
        except OSError: pass
        try: s.p.wait(10)
        except subprocess.TimeoutExpired: s.kill()
        s.p.stdout.close(); s.errf.close()

_exes = {}
def exe(flavour='asan', **kw):
    k = (flavour, tuple(sorted(kw.items(), key=str)))
    if k not in _exes: _exes[k] = _build.build(flavour, **kw)
    return _exes[k]

# ---------------------------------------------------------------- recording
# API functions: canonical operation and the roles of the arguments ('-': not a path of a file)
API = {
  'createChangeset': ('create', ['base', 'mod', 'out']),
  'createChangesetEx': ('create', ['drv', '-', 'base', 'mod', 'out']),
  'applyChangeset': ('apply', ['db', 'cs']),
  'applyChangesetEx': ('apply', ['drv', '-', 'db', 'cs']),
  'createRebasedChangeset': ('rebasecs', ['base', 'mod', 'thcs', 'out', 'conf']),
  'createRebasedChangesetEx': ('rebasecsx', ['drv', '-', 'base', 'mycs', 'thcs', 'out', 'conf']),
  'hasChanges': ('has', ['cs']),
  'changesCount': ('count', ['cs']),
  'listChanges': ('list', ['cs', 'out']),
  'listChangesSummary': ('summary', ['cs', 'out']),
  'invertChangeset': ('invert', ['cs', 'out']),
  'rebase': ('rebase', ['base', 'thdb', 'db', 'conf']),
  'rebaseEx': ('rebasex', ['drv', '-', 'base', 'db', 'thcs', 'conf']),
  'makeCopy': ('copy', ['drv', '-', 'base', 'drv2', '-', 'out']),
  # SQLite's session extension on the same files
  'sqIterate': ('sqiter', ['cs', 'out']),
  'sqApply': ('sqapply', ['db', 'cs']),
  'sqRecord': ('sqrecord', ['db', '-sql', 'out']),
  'sqInvert': ('sqinvert', ['cs', 'out']),
  'sqConcat': ('sqconcat', ['cs', 'mycs', 'out']),
  'dumpData': ('dump', ['drv', '-', 'base', 'out']),
}
ROLES = ['drv', 'drv2', 'base', 'mod', 'db', 'thdb', 'cs', 'thcs', 'mycs', 'out', 'conf']

class Pool:
    """contents of files, interned"""
    def __init__(s): s.items, s.ids, s.cache, s.raw = [], {}, {}, {}
    def intern(s, val):
        k = json.dumps(val, sort_keys=True)
        if k not in s.ids:
            s.items.append(val); s.ids[k] = len(s.items)
        return s.ids[k]
    def file(s, path, data, h):
        key = (h, os.path.splitext(path)[1])
        if key not in s.cache and path.endswith('.diff') and len(data) <= 40000: s.raw[h] = data
        if key not in s.cache: s.cache[key] = s.intern(proj.project(path, data))
        return s.cache[key]

class Scene:
    """A scratch directory with files, calls into the library and the recorded trace."""
    def __init__(s, runner_exe, name='scene', keep_level=4, env=None, timeout=60, big=False):
        s.dir = scratch(name); s.name = name
        s.tmp = os.path.join(s.dir, 'tmp'); os.mkdir(s.tmp)
        s.exe = runner_exe; s.env = env; s.timeout = timeout
        s.pool = Pool(); s.events = []; s.last = None; s.lv = keep_level
        s.runner = None; s.notes = []
        s.live = False       # databases that another process has open in WAL mode: the files are taken together with their logs
    def logical(s, path):
        tmp = s.dir + '.logical.gpkg'
        if os.path.exists(tmp): os.unlink(tmp)
        a, b = sqlite3.connect(path), sqlite3.connect(tmp)
        a.backup(b); b.close(); a.close()
        return tmp
    def start(s):
        if s.runner is None:
            s.runner = Runner(s.exe, cwd=s.dir, tmpdir=s.tmp, env=s.env, timeout=s.timeout); s.runner.level(s.lv)
        return s.runner
    def restart(s):
        if s.runner: s.runner.close(); s.runner = None
        return s.start()
    def p(s, *n): return os.path.join(s.dir, *n)
    def snap(s):
        out = {}
        for root, dirs, files in os.walk(s.dir):
            for f in files:
                full = os.path.join(root, f); rel = os.fsencode(os.path.relpath(full, s.dir))
                if os.path.islink(full) or not os.path.isfile(full):
                    out[esc(rel)] = [s.pool.intern(dict(k='special')), 'special']; continue
                if s.live and f.endswith(('-wal', '-shm')): continue
                if s.live and os.path.exists(full + '-wal'): full = s.logical(full)
                data = open(full, 'rb').read()
                h = hashlib.sha256(data).hexdigest()[:20]
                out[esc(rel)] = [s.pool.file(full, data, h), h]
        return out
    def _files(s, snap): return [[p, v[0], v[1]] for p, v in sorted(snap.items())]
    def sync_env(s):
        now = s.snap()
        if now != s.last:
            s.events.append(dict(op='env', files=s._files(now)))
            s.last = now
    def rel(s, path):
        if path is None: return ''
        b = path if isinstance(path, bytes) else path.encode('utf8')
        full = os.path.normpath(b if os.path.isabs(b) else os.path.join(s.dir.encode(), b)) if b else s.dir.encode() + b'/'
        d = s.dir.encode() + b'/'
        if not full.startswith(d) or os.path.realpath(os.path.dirname(full)) != os.path.dirname(full) or os.path.islink(full):
            # the name of the file that is meant (only existing parts are resolved)
            full = os.path.realpath(b if os.path.isabs(b) else os.path.join(s.dir.encode(), b))
        return esc(full[len(d):]) if full.startswith(d) else 'ABS:' + esc(full)
    def event(s, fn, args, res, extra=None):
        op, roles = API[fn]
        a = {r: '' for r in ROLES}
        miss = 0
        for r, v in zip(roles, args):
            if r[0] == '-': continue
            if v is None: miss = 1
            a[r] = (esc(v) if v is not None else '') if r in ('drv', 'drv2') else s.rel(v)
        for r in ('drv', 'drv2'):
            if r not in roles: a[r] = 'sqlite'
        lv = [l for l, _ in res.logs]
        ev = dict(op=op, fn=fn, a=a, miss=miss, rc=res.rc if res.exc is None else -1000, lv=lv, level=s.lv, fault=0,
                  fds=0, locked=0, memo=0, badout=0, exp='', labs=[], killed=0, obs=[], via='', got=['', 0],
                  lm=[[l, hashlib.sha256(s.norm([(l, t)]).encode()).hexdigest()[:8]] for l, t in res.logs])
        now = s.snap()
        ev['files'] = s._files(now); s.last = now
        if extra: ev.update(extra)
        s.events.append(ev)
        return ev
    def norm(s, logs):
        import re
        t = json.dumps([[a, b.replace(s.dir, '')] for a, b in logs])
        return re.sub(r'geodiff_\w{6}', 'geodiff_X', t)
    def call(s, fn, *args, extra=None, pre=None, post=None, on_pause=None):
        """one API call as an event; paths in args are relative to the scene; pre / post run right before and after the call"""
        r = s.start(); s.sync_env()
        if pre: pre()
        try:
            full = [s.full(fn, i, a) for i, a in enumerate(args)]
            res = r.call_paused(fn, full, on_pause) if on_pause else r.call(fn, *full)
        except Crash as e:
            s.runner = None
            s.notes.append('crash in %s: %s' % (fn, e.err[-1500:]))
            res = Result(-1001, None, [], [])
            extra = dict(extra or {}, crash=1)
        except Timeout:
            s.runner = None
            s.notes.append('timeout in %s' % fn)
            res = Result(-1002, None, [], [])
        finally:
            if post: post()
        s.res = res
        ev = s.event(fn, args, res, extra)
        return ev
    def full(s, fn, i, a):
        roles = API[fn][1]
        if a is None or i >= len(roles) or roles[i] in ('-', 'drv', 'drv2'): return a
        return s.p(a) if isinstance(a, str) else a
    def close(s):
        if s.runner: s.runner.close(); s.runner = None
        shutil.rmtree(s.dir, ignore_errors=True)
        if os.path.exists(s.dir + '.logical.gpkg'): os.unlink(s.dir + '.logical.gpkg')
    def trace(s):
        return dict(contents=s.pool.items, events=s.events)

# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=1, timeout=600, args=(), heap='2g', cwd=None):
    """runs TLC on spec/<module>.tla with the given configuration text; returns (returncode, output)"""
    d = scratch('tlc')
    cfgp = os.path.join(d, module + '.cfg'); open(cfgp, 'w').write(cfg)
    e = dict(os.environ); e.update(env or {}); e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4', '-cp', TLAJAR + ':' + TLACM, 'tlc2.TLC',
           '-config', cfgp, '-metadir', os.path.join(d, 'meta'), '-workers', str(workers), '-nowarning', '-noGenerateSpecTE'] + list(args) + \
          [os.path.join(VERIF, 'spec', module + '.tla')]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=cwd or d, errors='replace')
    except subprocess.TimeoutExpired as ex:
        raise CheckError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(d, ignore_errors=True); _scratch.remove(d)
    return r.returncode, r.stdout

def tlc_stats(out):
    import re
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

class Verdict:
    def __init__(s, ok, at=None, clauses=None, out='', states=0, trans=0): s.ok, s.at, s.clauses, s.out, s.states, s.trans = ok, at, clauses or [], out, states, trans

def validate(trace, props, module='Trace', render=True, heap='3g'):
    """validates a recorded trace against the specification for the given property ids"""
    d = scratch('trace'); p = os.path.join(d, 'trace.json')
    t = dict(trace)
    if render:
        t['render'] = _render(t)
    json.dump(t, open(p, 'w'))
    cfg = 'SPECIFICATION TraceSpec\nCONSTANTS Props = {%s}\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Accepted\n' % ','.join('"%s"' % x for x in props)
    rc, out = tlc(module, cfg, env={'TRACE': p}, heap=heap)
    shutil.rmtree(d, ignore_errors=True)
    import re
    gen, dist = tlc_stats(out)
    fails = re.findall(r'<<"FAIL", "([^"]*)", (\d+)', out)
    if rc == 0 and 'No error has been found' in out and not fails: return Verdict(True, out=out, states=dist, trans=gen - 1)
    if fails: return Verdict(False, int(fails[0][1]), sorted({f[0] for f in fails}), out, dist, gen)
    raise CheckError('TLC failed on a trace:\n' + out[-5000:])

def _render(t):
    toks = set()
    def walk(v):
        if isinstance(v, str):
            if v in proj.RENDER: toks.add(v)
        elif isinstance(v, list):
            for x in v: walk(x)
        elif isinstance(v, dict):
            for x in v.values(): walk(x)
    walk(t['contents'])
    return {k: [proj.RENDER[k], 's:' + k[2:] if k[:2] == 'i:' else proj.RENDER[k]] for k in sorted(toks | {'n'})}

_cases = {}
_caselock = threading.Lock()
def cases(what):
    """the named set of cases enumerated by TLC from spec/Cases.tla"""
    with _caselock:
        if what not in _cases:
            d = scratch('cases'); p = os.path.join(d, 'o.json')
            rc, out = tlc('Cases', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', env={'WHAT': what, 'OUT': p})
            if rc != 0 or not os.path.exists(p): raise CheckError('Cases %s: %s' % (what, out[-3000:]))
            _cases[what] = json.load(open(p))
            shutil.rmtree(d, ignore_errors=True)
        return _cases[what]
