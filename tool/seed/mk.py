#!/usr/bin/env python3
"""mk.py [ID...]: (re)creates /verif/seeded/<id> from seeds/*.py and validates each (build, stable tests, demo on both trees, check)"""
import sys, os, subprocess, json, shutil, glob, tempfile
R = '/repo'; H = os.path.dirname(os.path.abspath(__file__)); S = '/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def seeds():
    r = {}
    for f in sorted(glob.glob(H + '/seeds/*.py')):
        ns = {}
        exec(open(f).read(), ns)
        r.update(ns['SEEDS'])
    return r
def stable():
    o = tempfile.mktemp(suffix='.json'); sh('bash /opt/vp/test.sh ' + o)
    res = json.load(open(o)); os.unlink(o)
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base['stable']); got = set(res.get('passed', []))
    return want - got
def main(ids):
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    allseeds = seeds()
    for i in ids or allseeds:
        s = allseeds[i]; d = S + '/' + i; os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s['edits']:
                p = R + '/' + f; t = open(p).read(); n = t.count(old)
                if n != 1: print(i, 'PATTERN', f, n); raise KeyError
                open(p, 'w').write(t.replace(old, new))
            open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            shutil.copy(H + '/media.h', d); 
            open(d + '/demo.sh', 'w').write(open(H + '/demo.sh').read().replace('timeout 60 ./demo', 'timeout 200 %s ./demo' % s['tool'] if s.get('tool') else 'timeout 60 ./demo'))
            open(d + '/demo.cpp', 'w').write('#include "media.h"\nusing namespace media;\n' + s['demo'].lstrip())
            b = sh('bash /opt/vp/build.sh')
            if b.returncode: print(i, 'BUILD FAILS', b.stdout[-1500:]); raise KeyError
            m = stable()
            bug = sh('bash %s/demo.sh' % d, cwd=R)
            r = sh('python3 /verif/bin/check.py ' + s['property'])
            caught = r.returncode == 1 and 'VIOLATION property=' + s['property'] in r.stdout
        except KeyError:
            continue
        finally:
            sh('git -C /repo checkout -- .')
            b = sh('bash /opt/vp/build.sh'); assert not b.returncode
        ok = sh('bash %s/demo.sh' % d, cwd=R)
        print(i, s['property'], 'tests-missing', m or 0, 'demo(bug)', bug.returncode, 'demo(ok)', ok.returncode, 'CAUGHT' if caught else 'MISSED rc=%d' % r.returncode)
        if ok.returncode or not bug.returncode or '-v' in os.environ.get('SEEDV', ''): print(' bug:', (bug.stdout + bug.stderr)[-600:], '\n ok:', (ok.stdout + ok.stderr)[-600:])
        if not caught: print((r.stdout + r.stderr)[-600:])
        else: print('   ', [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')][0][:300])
        sys.stdout.flush()
main([k for a in sys.argv[1:] for k in seeds() if k.startswith(a)])
