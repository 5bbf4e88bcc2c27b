"""mut.py < list of (file, old, new, checks): for each edit: apply in /tmp/plant/repo, run the stable tests (8 min limit), run the checks, revert; one line per edit"""
import ast, os, subprocess, sys
R = os.environ.get('PLANT', '/tmp/plant/repo')
E = dict(os.environ, VERIF_REPO=R)
T = dict(os.environ, PYTHONPATH=R + ':/opt/vp/plugins', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Nehalem', PYTHONDONTWRITEBYTECODE='1')
for item in ast.literal_eval(sys.stdin.read()):
    fn, old, new, checks = item
    p = R + '/sqpdfo/' + fn
    s = open(p).read()
    if s.count(old) < 1:
        print('NOT FOUND', fn, repr(old), flush=True); continue
    open(p, 'w').write(s.replace(old, new))
    try:
        try:
            r = subprocess.run('/opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider -p vp_seed -W ignore --tb=no --ignore=tests/test_sqpdfo_all.py tests'.split(), cwd=R, env=T, capture_output=True, text=True, timeout=120)
            t = 'tests ok' if r.returncode == 0 else 'TESTS FAIL'
        except subprocess.TimeoutExpired:
            t = 'TESTS HANG'
        res = []
        for c in checks.split(',') if t == 'tests ok' else []:
            r = subprocess.run(['/verif/run', c, '--noevidence', '--show', '1'], env=E, capture_output=True, text=True)
            res.append('%s=%d%s' % (c, r.returncode, sorted({l.split('key=')[1].split()[0][:30] for l in r.stdout.splitlines() if 'key=' in l and 'KNOWN' not in l})))
        print(t, '|', ' '.join(res), '|', fn, repr(new[:80]), flush=True)
    finally:
        open(p, 'w').write(s)
