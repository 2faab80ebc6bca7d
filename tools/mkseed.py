"""Builds /verif/seeded/<id>/ from the definitions in seeds_*.py and confirms each in a scratch copy: mkseed.py [id ...]"""
import glob, importlib, json, os, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
SEEDS = [s for f in sorted(glob.glob(H + '/seeds_*.py')) for s in importlib.import_module(os.path.basename(f)[:-3]).SEEDS]


def sh(c, cwd, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def stable(cwd, out):
    """Runs the stable tests of a scratch copy directly (the test script runs /repo's own tree)."""
    e = sh('cd crysgsu && timeout 200 /opt/venv/bin/python -B -c "%s"' % '', cwd)
    return e


def main():
    only = sys.argv[1:]
    for s in SEEDS:
        if only and s['id'] not in only:
            continue
        d = '/verif/seeded/' + s['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        w = tempfile.mkdtemp(prefix='seed_')
        try:
            sh('cp -a /repo %s/r' % w, '/')
            r = w + '/r'
            for f, old, new in s['edits']:
                t = open(r + '/' + f, newline='').read()
                if t.count(old) != 1:
                    print(s['id'], 'EDIT MATCHES', t.count(old), repr(old[:60]))
                    break
                open(r + '/' + f, 'w', newline='').write(t.replace(old, new))
            else:
                p = sh('git diff', r).stdout
                open(d + '/patch.diff', 'w').write(p)
                shutil.copy(H + '/seedkit.py', d + '/seedkit.py')
                open(d + '/demo.py', 'w').write('import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom seedkit import *\n' + s['demo'])
                open(d + '/demo.sh', 'w').write('#!/bin/sh\n# run with the repository as working directory\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                os.chmod(d + '/demo.sh', 0o755)
                json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
                a = sh('%s/demo.sh' % d, '/repo')
                b = sh('%s/demo.sh' % d, r)
                print(s['id'], s['prop'], 'clean', a.returncode, (a.stdout + a.stderr)[-300:] if a.returncode else '', 'bug', b.returncode,
                      (b.stdout or b.stderr).strip().split('\n')[-1][:150], 'OK' if a.returncode == 0 and b.returncode else 'BAD')
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
