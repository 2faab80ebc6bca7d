"""Developer driver: run.py c19 [qual-substring]"""
import sys, time, importlib, traceback, faulthandler, signal
faulthandler.register(signal.SIGUSR1)
sys.path.insert(0, '/verif')
from pydv import prog, execr, solve
from pydv.values import Unsupported

def main():
    m = importlib.import_module('contracts.' + sys.argv[1])
    sub = ([a for a in sys.argv[2:] if a[0] != '-'] or [''])[0]
    pr = prog.Program()
    table = {c.qual: c for c in m.CONTRACTS}
    tot = {}
    for c in m.CONTRACTS:
        if sub not in c.qual and not (sub.endswith("$") and c.qual.endswith(sub[:-1])) or (sub.endswith("$") and not c.qual.endswith(sub[:-1])):
            continue
        ex = execr.Exec(pr, m.SCHEMA, execr.modular_table(m), getattr(m, 'OPTS', {}))
        t0 = time.time()
        try:
            st = ex.verify(c)
        except Unsupported as e:
            print('%-40s UNSUPPORTED %s' % (c.qual, e))
            if '-v' in sys.argv: traceback.print_exc()
            continue
        except Exception:
            print('%-40s CRASH' % c.qual); traceback.print_exc(); continue
        t1 = time.time()
        solve.discharge(ex.obls, scale=0.5 if '-q' in sys.argv else 1.0)
        cnt = {}
        for o in ex.obls:
            cnt[o.status] = cnt.get(o.status, 0) + 1
        print('%-40s %s  paths=%d %s gen=%.1fs solve=%.1fs' % (c.qual + (c.note and '/' + c.note), cnt, st['paths'], st['ends'], t1 - t0, time.time() - t1), flush=True)
        if ex.shape(): print('      SHAPE', ex.shape())
        print('      queries %.1fs' % ex.query_time, 'VACUOUS' if solve.vacuous(ex.smokes) else '', solve.vacuous_bodies(ex.body_smokes) or '')
        seen = {}
        for o in ex.obls:
            if o.status != 'proved':
                k = (o.label, o.status)
                seen.setdefault(k, []).append(o)
        for k, os_ in seen.items():
            print('    ', k[1], k[0], 'x%d' % len(os_), 'path', os_[0].path, os_[0].backend, (os_[0].model or [])[:12])
        for o in sorted(ex.obls, key=lambda o: -o.time)[:3]:
            if o.time > 3: print('     slow %.1f %s %s' % (o.time, o.label, o.backend))
main()
