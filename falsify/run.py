"""Runs the concrete cases of one property: run.py C03 --seed 1 --tier quick --out F, or run.py C03 --replay F."""
import argparse, hashlib, importlib, json, os, random, signal, sys, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
try:
    import base  # noqa: E402
except Exception as e:
    base, broken = None, e


class Slow(Exception):
    pass


class Blind(Exception):
    """The harness cannot observe the code any more (a name it uses is gone): says nothing about the property."""


def alarm(*_):
    raise Slow()


def ours(o):
    m = getattr(o, '__module__', None) or getattr(o, '__name__', '') or ''
    f = getattr(sys.modules.get(m), '__file__', '') or ''
    return isinstance(o, type(sys)) or '/crysgsu/' in f


def run_one(m, case, limit=20):
    """None when the property holds on the case, else a message."""
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    random.seed(7)
    try:
        base.quiet(m.test, case)
        return None
    except base.Bad as e:
        return str(e)
    except Slow:
        return 'no answer within %d s' % limit
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/crysgsu/' in f.filename]
        if not where:
            if isinstance(e, AttributeError) and e.obj is not None and ours(e.obj):
                raise Blind(repr(e))
            if isinstance(e, TypeError) and 'argument' in str(e):
                raise Blind(repr(e))
            if isinstance(e, (ImportError, NameError)):
                raise Blind(repr(e))
        at = ' at %s:%s' % (os.path.basename(where[-1].filename), where[-1].name) if where else ' observing the result'
        return 'unexpected %s: %s%s' % (type(e).__name__, str(e)[:200], at)
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seconds', type=float, default=60)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    res = {'evaluations': 0, 'distinct': 0, 'failure': None, 'known': [], 'bound': '', 'time': 0, 'samples': [], 'blind': None}
    t0 = time.time()
    keys = set()

    def save():
        res['time'] = round(time.time() - t0, 2)
        res['distinct'] = len(keys)
        res['keys'] = sorted(keys)
        if a.out:
            with open(a.out + '.part', 'w') as f:
                json.dump(res, f, indent=1, default=str)
            os.rename(a.out + '.part', a.out)
        else:
            del res['keys']
            json.dump(res, sys.stdout, indent=1, default=str)
    if base is None:
        import traceback as tbm
        tb = tbm.extract_tb(broken.__traceback__)
        if any('/crysgsu/' in f.filename for f in tb):
            res['failure'] = {'message': 'the code cannot be imported: %r' % broken, 'case': {}}
        else:
            res['blind'] = repr(broken)
        if a.replay:
            print('property %s: the code cannot be imported: %r' % (a.prop, broken))
            sys.exit(1)
        return save()
    m = importlib.import_module(a.prop.lower())
    res['bound'] = getattr(m, 'BOUND', '')
    if a.replay:
        case = json.load(open(a.replay))['case']
        msg = run_one(m, case)
        print('property %s: %s' % (a.prop, 'fails: ' + msg if msg else 'holds on this input'))
        sys.exit(1 if msg else 0)
    try:
        for kid, case in getattr(m, 'known', lambda: [])():
            res['known'].append([kid, run_one(m, dict(case, strict=True))])
        r = random.Random(a.seed)
        n = {'quick': 16, 'thorough': 600, 'deep': 120}[a.tier]
        for case in m.cases(r, n):
            k = hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12]
            msg = run_one(m, case)
            res['evaluations'] += 1
            keys.add(k)
            if len(res['samples']) < 2 and res['evaluations'] % 7 == 1:
                t = json.dumps(case, default=str)
                res['samples'].append(t if len(t) < 1500 else t[:1500] + '...')
            if msg:
                res['failure'] = {'message': msg, 'case': case}
                break
            if time.time() - t0 > a.seconds:
                break
    except Blind as e:
        res['blind'] = str(e)
    save()


main()
