#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in tools/seeddefs.py and confirms them in private copies of /repo.
  seeds.py make [id...]      write the folders (patches against /repo's HEAD)
  seeds.py confirm [id...]   with a copy of /repo mounted in a private namespace: builds, stable tests, demo both ways
  seeds.py catch [id...] [--check Cxx]  runs the quick check of the bug's property on the changed copy
No check reads any of this."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); SEEDED = VERIF + '/seeded'
sys.path.insert(0, HERE)
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
def make(ids):
    from seeddefs import SEEDS
    root = sh(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).stdout.split()[0]
    for s in SEEDS:
        if ids and s['id'] not in ids: continue
        d = SEEDED + '/' + s['id']; t = tempfile.mkdtemp()
        sh(['git', '-C', '/repo', 'worktree', 'prune']); r = sh(['git', '-C', '/repo', 'archive', '--format=tar', '-o', t + '/r.tar', 'HEAD'])
        os.mkdir(t + '/r'); sh(['tar', 'xf', t + '/r.tar', '-C', t + '/r']); sh(['git', 'init', '-q'], cwd=t + '/r'); sh(['git', 'add', '-A'], cwd=t + '/r'); sh(['git', '-c', 'user.name=a', '-c', 'user.email=a', 'commit', '-qm', 'x'], cwd=t + '/r')
        old = []
        for f, a, b in s['edits']:
            p = t + '/r/geodiff/src/' + f; x = open(p).read()
            if x.count(a) != 1: raise SystemExit('%s: %d times in %s: %r' % (s['id'], x.count(a), f, a))
            open(p, 'w').write(x.replace(a, b))
        diff = subprocess.run(['git', 'diff'], cwd=t + '/r', stdout=subprocess.PIPE, text=True).stdout
        # lines of the original repository have to be touched
        orig = 0
        base = {}
        cur = None
        for l in diff.split('\n'):
            if l.startswith('--- a/'): cur = l[6:]; base[cur] = sh(['git', '-C', '/repo', 'show', root + ':' + cur]).stdout.split('\n')
            elif l.startswith('-') and cur and l[1:] in base[cur] and l[1:].strip() not in ('', '{', '}'): orig += 1
        if not orig: print('WARNING %s removes no original line' % s['id'])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.py', 'w').write('import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom gdl import *\n' + s['demo'].strip() + '\ndone()\n')
        for x in ('demo.sh', 'gdl.py', 'stub.cpp'): shutil.copy(HERE + '/seedlib/' + x, d)
        os.chmod(d + '/demo.sh', 0o755); shutil.copytree(HERE + '/seedlib/inc', d + '/inc')
        shutil.rmtree(t)
def private(script, ids):
    """a copy of /repo mounted over /repo in a private mount namespace"""
    t = tempfile.mkdtemp(prefix='seed')
    sh(['cp', '-a', '/repo', t + '/r']); shutil.copytree(VERIF, t + '/v', ignore=shutil.ignore_patterns('evidence', 'replays'), symlinks=True); os.makedirs(t + '/v/evidence', exist_ok=True)
    open(t + '/s.sh', 'w').write('set -e\nmount --bind %s/r /repo\nmount --bind %s/v /verif\ncd /repo\n%s' % (t, t, script))
    r = sh(['unshare', '-Urm', 'bash', t + '/s.sh'])
    shutil.rmtree(t); return r
def confirm1(i):
    r = private('''
D=%s/%s; T=$(mktemp -d); cp -r $D $T/x; rm -f $T/x/patch.diff $T/x/meta.json
bash $T/x/demo.sh > $T/a 2>&1 && echo CLEAN-OK || { echo CLEAN-BAD; tail -3 $T/a; }
git apply $D/patch.diff
bash /opt/vp/test.sh $T/o.json > $T/t 2>&1 || true
python3 -c "
import json; o=json.load(open('$T/o.json')); s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); print('TESTS', 'OK' if s <= set(o['passed']) else 'BAD %%s' %% (s-set(o['passed'])))"
timeout 300 bash $T/x/demo.sh > $T/a 2>&1 && echo PATCHED-OK || echo PATCHED-BROKEN; grep -h -A3 BROKEN: $T/a || tail -3 $T/a
rm -rf "$T"
''' % (SEEDED, i), [i]).stdout
    good = 'CLEAN-OK' in r and 'TESTS OK' in r and 'PATCHED-BROKEN' in r
    return i, good, r
def catch1(i, check):
    m = json.load(open('%s/%s/meta.json' % (SEEDED, i))); c = check or m['property']
    r = private('git apply %s/%s/patch.diff\ncd /verif; time VERIF_SEED=1 VERIF_TIER=quick python3 checks/run.py %s\n' % (SEEDED, i, c), [i])
    v = 'VIOLATION property=%s' % c in r.stdout
    return i, v, ('%s rc=%d ' % (c, r.returncode)) + ('caught ' if v else 'MISSED ') + ' '.join(re.findall(r'VIOLATION.*', r.stdout)[:2])[:300] + ' '.join(re.findall(r'real.*', r.stdout)) + ('' if r.returncode in (0, 1) else r.stdout[-1500:])
if __name__ == '__main__':
    cmd = sys.argv[1]; ids = [a for a in sys.argv[2:] if not a.startswith('--') and not re.match(r'C\d\d$', a)]; check = next((a for a in sys.argv[2:] if re.match(r'C\d\d$', a)), None)
    if cmd == 'make': make(ids)
    else:
        ids = ids or sorted(os.listdir(SEEDED))
        with concurrent.futures.ThreadPoolExecutor(3 if cmd == 'confirm' else 2) as ex:
            for i, good, r in ex.map(confirm1 if cmd == 'confirm' else (lambda i: catch1(i, check)), ids):
                print(i, 'good' if good else 'BAD', '' if cmd == 'confirm' and good else r, flush=True)
