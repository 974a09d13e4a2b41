"""Builds the library from /repo's sources into a scratch directory and calls it through ctypes."""
import atexit, concurrent.futures, ctypes, glob, os, shutil, sqlite3, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
W = tempfile.mkdtemp(prefix='gddemo')          # everything happens in here
_me = os.getpid()
def _clean():
    if os.getpid() == _me: shutil.rmtree(W, ignore_errors=True)
atexit.register(_clean)
os.mkdir(W + '/tmp'); os.environ['TMPDIR'] = W + '/tmp/'
os.chdir(W)

def build():
    src = [s for s in glob.glob(REPO + '/geodiff/src/**/*.cpp', recursive=True) if 'postgres' not in s and not s.endswith('geodiffinfo.cpp')] + [HERE + '/stub.cpp']
    inc = sorted({os.path.dirname(h) for h in glob.glob(REPO + '/geodiff/src/**/*.h*', recursive=True)})
    flags = ['-std=c++14', '-O0', '-w', '-fPIC', '-DSQLITE_CORE', '-DSQLITE_ENABLE_SESSION', '-DSQLITE_ENABLE_PREUPDATE_HOOK', '-I' + HERE + '/inc'] + ['-I' + d for d in inc]
    objs = ['%s/tmp/o%d.o' % (W, i) for i in range(len(src))]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda p: subprocess.check_call(['g++'] + flags + ['-c', p[0], '-o', p[1]]), zip(src, objs)))
    subprocess.check_call(['g++', '-shared', '-o', W + '/libgd.so'] + objs + ['-lsqlite3', '-lpthread', '-ldl'])
    for o in objs: os.unlink(o)
build()
L = ctypes.CDLL(W + '/libgd.so')
CB = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_char_p)
logs = []
_cb = CB(lambda level, msg: logs.append((level, msg.decode('utf8', 'replace'))))
L.GEODIFF_setLoggerCallback(_cb); L.GEODIFF_setMaximumLoggerLevel(4)
def call(fn, *args):
    logs.clear()
    return getattr(L, 'GEODIFF_' + fn)(*[None if a is None else a.encode() for a in args])
def db(name, *sql):
    if os.path.exists(name): os.unlink(name)
    c = sqlite3.connect(name, isolation_level=None)
    for s in sql: c.executescript(s)
    c.close(); return name
def edit(src, name, *sql):
    shutil.copy(src, name); c = sqlite3.connect(name, isolation_level=None)
    for s in sql: c.executescript(s)
    c.close(); return name
def rows(name, sql):
    c = sqlite3.connect(name); c.text_factory = bytes
    try: return c.execute(sql).fetchall()
    finally: c.close()
def check(cond, what):
    if not cond: print('BROKEN: ' + what); sys.exit(1)
def ok(rc, what): check(rc == 0, '%s failed: %s' % (what, logs))
def done(): print('fine'); sys.exit(0)
