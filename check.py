"""Check of one property: check.py C03 [--tier quick|thorough] [--strict] [--only SUBSTRING].

1. Extracts the functions under contract from the current source (VERIF_REPO, default /repo), generates every proof
   obligation of their contracts and has the solvers discharge them.
2. Concurrently runs the concrete harness of the property on the same source: it replays refuted obligations as
   failing inputs, and stands in (bounded, never counted as proved) for functions outside the verifier.
Exit 0: held on everything explored. Exit 1: a VIOLATION line."""
import argparse, fcntl, importlib, json, os, shutil, signal, subprocess, sys, tempfile, time, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')
TRUSTED = ['pydv (this repository\'s generator of obligations from the Python AST; CPython semantics of the subset it executes)',
           'z3 4.x and cvc5 1.1.2',
           'floating point treated as real arithmetic, Python integers as mathematical integers',
           'class invariants of the mesh classes: attributes hold the types of pydv/schema.py; list fields are never shared between objects']


def budgets(tier):
    return {'quick': dict(fal=25, scale=1.0, retry=4.0, d1=240, d2=200, deep=120, gen=150, shards=2, workers=3, jobs=3),
            'thorough': dict(fal=240, scale=3.0, retry=6.0, d1=400, d2=200, deep=200, gen=250, shards=3, workers=3, jobs=3)}[tier]


def prove(prop, tier, only, out, retry_at=None):
    """Child process: verify every contract of the property; report to out (a JSON lines file)."""
    f = open(out, 'w')

    def say(**k):
        f.write(json.dumps(k, default=str) + '\n')
        f.flush()
    b = budgets(tier)
    try:
        from pydv import prog, execr, solve
        from pydv.values import Unsupported
        m = importlib.import_module('contracts.' + prop.lower())
    except ModuleNotFoundError as e:
        if e.name == 'contracts.' + prop.lower():
            say(done=True)
            return
        raise
    try:
        pr = prog.Program()
    except Exception as e:
        say(fn='*', outside='source cannot be read: %r' % e)
        say(done=True)
        return
    t0 = time.time()
    todo = [c for c in m.CONTRACTS if not only or only in label(c)]
    f.close()
    running = {}
    for c in sorted(todo, key=lambda c: -c.weight):
        while len(running) >= b['workers']:
            pid, _ = os.wait()
            running.pop(pid, None)
        pid = os.fork()
        if pid == 0:
            try:
                prove_one(c, m, pr, b, t0, out)
            except BaseException as e:
                append(out, fn=label(c), outside='generator failed: %r %s' % (e, traceback.format_exc()[-600:]))
            finally:
                os._exit(0)
        running[pid] = c
    while running:
        pid, _ = os.wait()
        running.pop(pid, None)
    append(out, done=True)


def label(c):
    return c.qual + (' (%s)' % c.note if c.note else '')


def append(out, **k):
    with open(out, 'a') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.write(json.dumps(k, default=str) + '\n')
        f.flush()


class GenLimit(Exception):
    pass


def onalarm(*_):
    raise GenLimit()


def prove_one(c, m, pr, b, t0, out):
    """Child process: generate and discharge the obligations of one contract."""
    from pydv import execr, solve
    from pydv.values import Unsupported
    signal.signal(signal.SIGALRM, onalarm)
    name = label(c)
    sch = getattr(c, 'schema', None) or m.SCHEMA
    ex = execr.Exec(pr, sch, execr.modular_table(m), getattr(m, 'OPTS', {}))
    g0 = time.time()
    try:
        signal.alarm(b['gen'])
        ends = ex.verify(c)['ends']
        signal.alarm(0)
    except (Unsupported, GenLimit) as e:
        signal.alarm(0)
        return append(out, fn=name, outside='time limit of the generator' if isinstance(e, GenLimit) else 'outside the contract: %s' % e)
    g1 = time.time()
    solve.discharge(ex.obls, jobs=b['jobs'] + (3 if c.weight > 1 else 0), scale=b['scale'], deadline=t0 + b['d1'])
    if not ex.obls:
        return append(out, fn=name, outside='no obligations generated')
    if solve.vacuous(ex.smokes):
        return append(out, fn=name, outside='contract is vacuous: no normal exit is reachable')
    append(out, fn=name, note=getattr(c, 'about', ''), **summary(ex, g1 - g0, time.time() - g1))
    bad = [o for o in ex.obls if o.status == 'unknown' and o.backend != 'budget']
    if bad:
        # obligations the solvers left open get a second, longer look before they count as failed
        for o in bad:
            o.status = None
        solve.discharge(ex.obls, jobs=b['jobs'], scale=b['retry'], deadline=max(time.time() + 60, t0 + b['d1'] + b['d2']))
        append(out, fn=name, **summary(ex, g1 - g0, time.time() - g1))
    if not ends['return'] and all(o.status == 'proved' for o in ex.obls):
        return append(out, fn=name, outside='contract is vacuous: the function never returns')
    dead = solve.vacuous_bodies(ex.body_smokes)
    if dead:
        return append(out, fn=name, outside='contract is vacuous: no pass through the loop %s is possible' % ', '.join(dead))
    sh = ex.shape()
    if sh and any(o.status != 'proved' for o in ex.obls):
        append(out, fn=name, outside='the loops of the code are not those the contract describes: ' + '; '.join(sh[:3]))


def summary(ex, gen, solve_s):
    ob = []
    for o in ex.obls:
        ob.append([o.label, o.status, o.backend, round(o.time or 0, 3), o.path, o.model if o.status == 'refuted' else None])
    return dict(obligations=ob, gen_s=round(gen, 2), solve_s=round(solve_s, 2), modular=sorted(getattr(ex, 'used_contracts', ())),
                trusted=sorted(getattr(ex, 'trusted_used', ())))


def falsify(prop, seed, tier, seconds, d, k):
    out = os.path.join(d, 'f%s_%d.json' % (tier, k))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO)
    err = open(out + '.err', 'w')
    p = subprocess.Popen([PY, os.path.join(HERE, 'falsify', 'run.py'), prop, '--seed', str(seed * 1000 + k), '--tier', tier,
                          '--seconds', str(seconds), '--out', out], env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=err,
                         start_new_session=True)
    return p, out, time.time() + seconds * 1.5 + 90


def reap(ps):
    res = []
    for p, out, lim in ps:
        try:
            p.wait(max(1, lim - time.time()))
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        if os.path.exists(out):
            res.append(json.load(open(out)))
        else:
            res.append({'evaluations': 0, 'distinct': 0, 'keys': [], 'failure': None, 'known': [], 'bound': '', 'time': 0, 'samples': [],
                        'blind': 'harness ended without an answer: ' + open(out + '.err').read()[-400:]})
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--strict', action='store_true', help='development: anything not proved is an error')
    ap.add_argument('--only')
    ap.add_argument('--noproof', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    b = budgets(a.tier)
    d = tempfile.mkdtemp(prefix='verif_')
    try:
        rc = check(a, seed, b, d, t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)


def check(a, seed, b, d, t0):
    fps = [falsify(a.prop, seed, a.tier, b['fal'], d, k) for k in range(b['shards'])]
    pout = os.path.join(d, 'proof')
    hard = t0 + (700 if a.tier == 'quick' else 3600)
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            if not a.noproof:
                prove(a.prop, a.tier, a.only, pout)
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(0)
    fr = reap(fps)
    early = any(r['failure'] for r in fr)
    while True:
        q, _ = os.waitpid(pid, os.WNOHANG)
        if q:
            break
        if time.time() > hard or (early and time.time() > t0 + 240):
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            break
        time.sleep(0.2)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    fns, outside = {}, {}
    done = False
    if os.path.exists(pout):
        for l in open(pout):
            try:
                r = json.loads(l)
            except ValueError:
                continue
            if r.get('done'):
                done = True
            elif 'outside' in r:
                outside[r['fn']] = r['outside']
            else:
                fns[r['fn']] = dict(fns.get(r['fn'], {}), **r)
    for fn in outside:
        fns.pop(fn, None)
    failed = [(fn, o) for fn, r in fns.items() for o in r['obligations'] if o[1] != 'proved' and o[2] != 'budget']
    unfinished = [(fn, o) for fn, r in fns.items() for o in r['obligations'] if o[2] == 'budget']
    fail = next((r['failure'] for r in fr if r['failure']), None)
    deep = []
    if failed and not fail:
        deep = reap([falsify(a.prop, seed + 17, 'deep', b['deep'], d, k) for k in range(6)])
        fail = next((r['failure'] for r in deep if r['failure']), None)
    return report(a, seed, t0, fns, outside, failed, unfinished, fail, fr + deep, done)


def report(a, seed, t0, fns, outside, failed, unfinished, fail, fr, done):
    prop = a.prop
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json'))) if os.path.exists(os.path.join(HERE, 'MANIFEST.json')) else {'checks': []}
    level = next((c['level'] for c in man['checks'] if c['property'] == prop), 'proof' if fns else 'exploration')
    nob = sum(len(r['obligations']) for r in fns.values())
    nok = sum(1 for r in fns.values() for o in r['obligations'] if o[1] == 'proved')
    back = {}
    for r in fns.values():
        for o in r['obligations']:
            if o[1] == 'proved':
                back[o[2]] = back.get(o[2], 0) + 1
    keys = set(k for r in fr for k in r.get('keys', ()))
    try:
        sys.path.insert(0, HERE)
        info = importlib.import_module('contracts.' + prop.lower())
        about = getattr(info, 'ABOUT', {})
    except Exception:
        about = {}
    bounded = {'label': 'bounded, not counted as proved', 'evaluations': sum(r['evaluations'] for r in fr), 'distinct_nontrivial': len(keys),
               'rule': (fr[0]['bound'] if fr else '') + '; every case is a distinct well-formed input (counted by hash)',
               'samples': [s for r in fr for s in r['samples']][:3] or ['none'], 'blind': [r['blind'] for r in fr if r['blind']],
               'functions': about.get('bounded', [])}
    cov = {'functions_under_contract': {fn: {'obligations': len(r['obligations']), 'discharged': sum(o[1] == 'proved' for o in r['obligations']),
                                             'solver_s': r['solve_s'], 'generator_s': r['gen_s'],
                                             'callees_by_contract': r.get('modular', [])} for fn, r in fns.items()},
           'back_ends': back, 'solver_s': round(sum(r['solve_s'] for r in fns.values()), 2),
           'outside_contract_on_this_tree': outside, 'unfinished': len(unfinished),
           'not_discharged': [{'function': fn, 'obligation': o[0], 'status': o[1]} for fn, o in failed][:50]}
    if level == 'proof':
        cov.update({'obligations': nob, 'discharged': nok, 'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (prop, a.tier),
                    'trusted_base': TRUSTED + about.get('trusted', []), 'bounded_stand_in': bounded})
    else:
        cov.update({k: bounded[k] for k in ('evaluations', 'distinct_nontrivial', 'rule', 'samples')})
        cov['obligations_discharged'] = nok
    viol = 0
    line = None
    rp = None
    if fail:
        rp = os.path.join(ev, 'replay', prop + '.json')
        json.dump({'property': prop, 'message': fail['message'], 'case': fail['case'],
                   'failed_obligations': [{'function': fn, 'obligation': o[0], 'status': o[1]} for fn, o in failed][:20],
                   'replay_cmd': '%s %s/falsify/run.py %s --replay %s' % (PY, HERE, prop, rp)}, open(rp, 'w'), indent=1, default=str)
        line = 'VIOLATION property=%s replay=%s' % (prop, rp)
        viol = 1
    elif failed:
        rp = os.path.join(ev, 'replay', prop + '_obligation.json')
        json.dump({'property': prop, 'failed_obligations': [{'function': fn, 'obligation': o[0], 'status': o[1], 'back_end': o[2], 'path': o[4],
                                                             'verifier_output': o[5]} for fn, o in failed],
                   'note': 'no failing input was found by the concrete harness'}, open(rp, 'w'), indent=1, default=str)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)
        viol = 1
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    listed = {k['id']: k for k in json.load(open(kf)).get('findings', [])} if os.path.exists(kf) else {}
    for r in fr[:1]:
        for kid, msg in r['known']:
            if msg and kid in listed and listed[kid]['property'] == prop:
                known.append((kid, msg))
            elif msg and not line:
                rp = os.path.join(ev, 'replay', prop + '.json')
                json.dump({'property': prop, 'message': msg, 'case': kid}, open(rp, 'w'))
                line = 'VIOLATION property=%s replay=%s' % (prop, rp)
                viol = 1
    json.dump({'property': prop, 'tier': a.tier, 'seed': seed, 'level': level, 'coverage': cov,
               'assumptions': TRUSTED + about.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': viol},
              open(os.path.join(ev, prop + '.json'), 'w'), indent=1, default=str)
    for kid, msg in known:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, kid, msg))
    print('%s: %d functions under contract, %d/%d obligations discharged, %d concrete cases, %.0f s' % (
        prop, len(fns), nok, nob, bounded['evaluations'], time.time() - t0))
    for fn, why in outside.items():
        print('  not decided by proof on this tree: %s: %s' % (fn, why))
    for w in bounded['blind']:
        print('  concrete harness cannot observe the code: %s' % w)
    for fn, o in failed[:10]:
        print('  not discharged: %s: %s (%s)' % (fn, o[0], o[1]))
    if unfinished:
        print('  %d obligations left for lack of time' % len(unfinished))
    if fail:
        print('  failing input: %s' % fail['message'])
    if line:
        print(line)
    sys.stdout.flush()
    if a.strict and (outside or unfinished or failed or not done):
        return 2
    return 1 if line else 0


main()
