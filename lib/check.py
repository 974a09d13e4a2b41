"""Common frame of all checks: run stories against the implementation, validate the recorded traces against
the specification for one property, model check the specification, write the evidence."""
import os, sys, json, time, random, shutil, threading, traceback, concurrent.futures
import gd, proj
from gd import CheckError, SEED, TIER, THOROUGH, VERIF

JOBS = int(os.environ.get('VERIF_JOBS', '7'))

def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            f = l.split(None, 3)
            if len(f) >= 4 and f[0] == 'known:' and f[1] == 'property=' + prop: out[f[2].split('=', 1)[1]] = f[3].strip()
    return out

class Ctx:
    """given to a story; collects scenes"""
    def __init__(s, check, name):
        s.check, s.name = check, name
        s.rng = random.Random('%s/%s' % (SEED, name))
        s.scenes, s.units = [], 0
    def scene(s, flavour='asan', **kw):
        sc = gd.Scene(gd.exe(flavour), name=s.name[:20].replace('/', '_'), **kw); s.scenes.append(sc); return sc
    def close(s):
        for x in s.scenes: x.close()

class Check:
    def __init__(s, prop, level='model_checking', rule='', assumptions=(), props=None, flavours=('asan',)):
        s.prop, s.level, s.rule, s.assumptions = prop, level, rule, list(assumptions)
        s.props = props or [prop]; s.flavours = flavours
        s.stories, s.mc, s.extra = [], [], []
        s.t0 = time.time()
        s.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events=0, mc_states=0, mc_transitions=0, stories=0)
        s.samples, s.violations, s.distinct = [], [], set()
        s.lock = threading.Lock()
        s.known = known_findings(prop)
        s.opcount = {}
    def story(s, name, fn, **kw): s.stories.append((name, fn, kw))
    def model(s, module, cfg, **kw): s.mc.append((module, cfg, kw))
    def part(s, name, fn): s.extra.append((name, fn))     # fn(check) -> list of violation texts; counts into check.cov

    # -- one story
    def run_story(s, name, fn, kw, count=True):
        """returns None or (scene index, verdict, trace)"""
        ctx = Ctx(s, name)
        err = None
        try:
            try: fn(ctx, **kw)
            except CheckError: raise
            except Exception as e: err = traceback.format_exc()
            bad = None
            for i, sc in enumerate(ctx.scenes):
                if sc.runner: sc.runner.close(); sc.runner = None
                tr = sc.trace()
                v = gd.validate(tr, s.props, module=getattr(sc, 'module', 'Trace'))
                if count:
                    with s.lock:
                        s.cov['events'] += len(tr['events'])
                        s.cov['states'] += v.states; s.cov['transitions'] += v.trans
                        for e in tr['events']: s.opcount[e['op']] = s.opcount.get(e['op'], 0) + 1
                        for e in tr['events']:
                            if e['op'] != 'env': s.distinct.add(json.dumps([e.get('fn'), e.get('rc'), [x[2] for x in e['files']]]))
                        if v.ok: s.cov['traces_validated_against_impl'] += 1
                if not v.ok and bad is None: bad = (i, v, tr, sc.notes)
            if bad: return bad
            if err:
                # the harness could not go on: nothing was rejected, but the story is incomplete
                raise CheckError('story %s: %s\n%s' % (name, err, '\n'.join(n for sc in ctx.scenes for n in sc.notes)))
            if count:
                with s.lock:
                    s.cov['stories'] += 1
                    if len(s.samples) < 3 and ctx.scenes:
                        sc = ctx.scenes[0]
                        s.samples.append(dict(story=name, calls=[[e['fn'], {k: v for k, v in e['a'].items() if v}, e['rc']] for e in sc.events if e['op'] != 'env'][:6]))
            return None
        finally:
            ctx.close()

    def handle(s, name, fn, kw):
        bad = s.run_story(name, fn, kw)
        if bad is None: return
        again = s.run_story(name, fn, kw, count=False)     # a rejection has to repeat
        tries = 1
        while again is None and tries < kw.get('_tries', 3):
            again = s.run_story(name, fn, kw, count=False); tries += 1
        if again is None: raise CheckError('story %s: rejection did not repeat (event %s: %s)' % (name, bad[1].at, bad[1].clauses))
        s.report(name, bad[1].at, bad[2], 'clauses %s rejected event %d of the trace' % (bad[1].clauses, bad[1].at), bad[3])

    def report(s, name, at, trace, text, notes=()):
        d = os.path.join(gd.BUILD, 'replays', s.prop); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name.replace('/', '_') + '.json')
        ev = trace['events'][at - 1] if trace and at and at <= len(trace['events']) else None
        json.dump(dict(property=s.prop, story=name, seed=SEED, tier=TIER, what=text, event=ev, at=at, notes=list(notes), trace=trace,
                       rerun='VERIF_SEED=%d VERIF_TIER=%s python3 checks/run.py %s --only %s' % (SEED, TIER, s.prop, name)), open(p, 'w'), indent=1)
        with s.lock: s.violations.append((name, p, text + ((' ' + json.dumps({k: ev[k] for k in ('fn', 'a', 'rc', 'lv') if k in ev})) if ev else '') + (' ' + '; '.join(notes)[:300] if notes else '')))

    def run_mc(s, module, cfg, kw):
        rc, out = gd.tlc(module, cfg, **kw)
        if rc != 0 or 'No error has been found' not in out: raise CheckError('model checking %s failed:\n%s' % (module, out[-4000:]))
        gen, dist = gd.tlc_stats(out)
        with s.lock:
            s.cov['mc_states'] += dist; s.cov['mc_transitions'] += gen; s.cov['states'] += dist; s.cov['transitions'] += gen

    def main(s, argv=()):
        only = argv[argv.index('--only') + 1] if '--only' in argv else None
        for f in s.flavours: gd.exe(f)
        errors = []
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            fs = []
            if not only:
                for m in s.mc: fs.append(ex.submit(s.run_mc, *m))
            for n, fn in s.extra:
                if not only or only == n: fs.append(ex.submit(s.run_part, n, fn))
            for n, fn, kw in s.stories:
                if not only or only == n: fs.append(ex.submit(s.handle, n, fn, kw))
            for f in concurrent.futures.as_completed(fs):
                try: f.result()
                except CheckError as e: errors.append(str(e))
                except Exception: errors.append(traceback.format_exc())
        known, new = [], []
        for v in s.violations: (known if v[0] in s.known else new).append(v)
        s.evidence(len(new))
        for name, text in s.known.items():
            if any(v[0] == name for v in known): print('KNOWN-FINDING: property=%s %s' % (s.prop, text))
        for n, p, t in new: print('VIOLATION property=%s replay=%s\n  story %s: %s' % (s.prop, p, n, t))
        print('%s: %s in %.1fs' % (s.prop, json.dumps(s.cov), time.time() - s.t0))
        gd.cleanup()
        if errors: print('ERROR\n' + '\n'.join(errors[:5])[:6000], file=sys.stderr)
        return 1 if new else 2 if errors else 0

    def run_part(s, name, fn):
        bad = fn(s)
        for b in bad or []: s.report(*b)

    def evidence(s, nviol):
        cov = dict(s.cov)
        cov['calls_by_operation'] = s.opcount
        if s.level in ('fault_enumeration', 'exploration'):
            cov.setdefault('evaluations', cov['events'])
            cov['distinct_nontrivial'] = len(s.distinct)
        cov['rule'] = s.rule
        cov['samples'] = s.samples[:3] or ['none']
        p = os.path.join(VERIF, 'evidence'); os.makedirs(p, exist_ok=True)
        json.dump(dict(property=s.prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=s.level, coverage=cov,
                       assumptions=s.assumptions, wall_s=round(time.time() - s.t0, 2), violations=nviol), open(os.path.join(p, s.prop + '.json'), 'w'), indent=1)
