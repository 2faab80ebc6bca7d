"""Runs the check of each planted bug's property on a scratch copy with the bug: trybugs.py [-t tier] [id ...]"""
import json, os, shutil, subprocess, sys, tempfile, time
a = sys.argv[1:]
tier = 'quick'
if a[:1] == ['-t']:
    tier, a = a[1], a[2:]
ids = a or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d = '/verif/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='try_')
    try:
        subprocess.run('cp -a /repo %s/r' % w, shell=True)
        r = subprocess.run('git apply %s/patch.diff' % d, shell=True, cwd=w + '/r', capture_output=True, text=True)
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stderr[:200])
            continue
        t = time.time()
        r = subprocess.run('timeout 900 python3-vt /verif/check.py %s --tier %s' % (m['property'], tier), shell=True, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=w + '/r', VERIF_SEED='1'))
        o = r.stdout.strip().split('\n')
        how = 'CAUGHT' if r.returncode == 1 and 'VIOLATION' in o[-1] else 'missed' if r.returncode == 0 else 'ERROR'
        print('%-30s %s %s %.0fs %s' % (i, m['property'], how + (' (proof only)' if o[-1].endswith('found') else ''), time.time() - t,
                                       '' if how == 'missed' else ' | '.join(x.strip()[:140] for x in o if 'not discharged' in x or 'failing input' in x or 'not decided' in x)[:420]), flush=True)
        if how == 'ERROR':
            print(r.stderr[-500:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
