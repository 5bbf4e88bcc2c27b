"""tryedit.py FILE <<< python-literal list of (old,new): applies edits in /tmp/plant/repo one by one, runs the stable tests, reverts; prints pass/fail"""
import ast, os, subprocess, sys
R = '/tmp/plant/repo'
E = dict(os.environ, PYTHONPATH=R + ':/opt/vp/plugins', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Nehalem', PYTHONDONTWRITEBYTECODE='1')
for fn, old, new in ast.literal_eval(sys.stdin.read()):
    p = R + '/sqpdfo/' + fn
    s = open(p).read()
    if s.count(old) < 1:
        print('NOT FOUND', fn, repr(old)); continue
    open(p, 'w').write(s.replace(old, new))
    r = subprocess.run('/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider -p vp_seed -W ignore --tb=no --timeout=120 --ignore=tests/test_sqpdfo_all.py tests'.split(), cwd=R, env=E, capture_output=True, text=True)
    print(r.stdout.strip().splitlines()[-1], '|', fn, repr(new[:100]))
    open(p, 'w').write(s)
