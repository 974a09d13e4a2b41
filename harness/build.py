#!/usr/bin/env python3
"""Builds the runner from /repo's current working tree. Products are cached by content hash under
/verif/build (ignored by git); a fresh copy builds everything from scratch."""
import hashlib, os, subprocess, sys, glob, concurrent.futures, fcntl, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_BUILD', os.path.join(os.path.dirname(HERE), 'build'))

COMMON = ['-std=c++14', '-g', '-w', '-DSQLITE_CORE', '-DSQLITE_ENABLE_SESSION', '-DSQLITE_ENABLE_PREUPDATE_HOOK',
          '-DGEODIFF_STATIC', '-D_GLIBCXX_ASSERTIONS']
FLAVOURS = {
  # optimisation/sanitizer flags, link flags
  'asan': (['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-static-libasan'], ['-fsanitize=address', '-static-libasan']),
  'plain': (['-O1', '-DGDX_FILES'], []),
  'shared': (['-O1', '-fPIC'], ['-shared']),
}

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise SystemExit('build failed (rc %d): %s\n%s' % (r.returncode, ' '.join(cmd), r.stdout[-6000:]))

def build(flavour='asan', extra_src=None, name='gdx', postgres=False):
    src = sorted(glob.glob(REPO + '/geodiff/src/**/*.cpp', recursive=True))
    src = [s for s in src if os.path.basename(s) != 'geodiffinfo.cpp' and (postgres or 'postgres' not in os.path.basename(s))]
    hdr = sorted(glob.glob(REPO + '/geodiff/src/**/*.h*', recursive=True))
    mine = [HERE + '/gpkg_stub.cpp'] + [os.path.join(HERE, x) if not x.startswith('/') else x for x in (extra_src if extra_src is not None else ['gdx.cpp'])]
    minehdr = sorted(glob.glob(HERE + '/inc*/**/*.h*', recursive=True))
    cfl, lfl = FLAVOURS[flavour]
    inc = sorted({os.path.dirname(h) for h in hdr})
    flags = COMMON + cfl + ['-I' + HERE + '/inc'] + (['-DVERIF_POSTGRES', '-I' + HERE + '/inc_pg'] if postgres else []) + ['-I' + d for d in inc]
    H = hashlib.sha256()
    H.update(repr((flags, lfl, name, mine)).encode())
    for f in hdr + minehdr: H.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    hh = H.hexdigest()
    os.makedirs(OUT, exist_ok=True)
    allh = hashlib.sha256(hh.encode())
    objs = []
    jobs = []
    for f in src + mine:
        k = hashlib.sha256(hh.encode() + f.encode() + open(f, 'rb').read()).hexdigest()[:24]
        allh.update(k.encode())
        o = os.path.join(OUT, k + '.o'); objs.append(o)
        if not os.path.exists(o): jobs.append((f, o))
    exe = os.path.join(OUT, name + '-' + flavour + '-' + allh.hexdigest()[:20])
    if os.path.exists(exe): return exe
    def comp(j):
        f, o = j
        t = o + '.%d.tmp' % os.getpid()
        sh(['g++'] + flags + ['-c', f, '-o', t]); os.rename(t, o)
    with concurrent.futures.ThreadPoolExecutor(8) as ex: list(ex.map(comp, jobs))
    t = exe + '.%d.tmp' % os.getpid()
    sh(['g++'] + lfl + ['-o', t] + objs + ['-lsqlite3', '-lpthread', '-ldl']); os.rename(t, exe)
    return exe

if __name__ == '__main__':
    print(build(*(sys.argv[1:] or ['asan'])))
