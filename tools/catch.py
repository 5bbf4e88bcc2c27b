"""catch.py CHECK[,CHECK] < list of (file, old, new): apply each edit in /tmp/plant/repo, run the checks on it, revert; prints verdicts"""
import ast, os, subprocess, sys
R = '/tmp/plant/repo'
E = dict(os.environ, VERIF_REPO=R)
for item in ast.literal_eval(sys.stdin.read()):
    fn, old, new = item[:3]
    checks = item[3].split(',') if len(item) > 3 else sys.argv[1].split(',')
    p = R + '/sqpdfo/' + fn
    s = open(p).read()
    if s.count(old) < 1:
        print('NOT FOUND', fn, repr(old)); continue
    open(p, 'w').write(s.replace(old, new))
    try:
        for c in checks:
            r = subprocess.run(['/verif/run', c, '--noevidence', '--show', '1'], env=E, capture_output=True, text=True)
            print(c, 'rc', r.returncode, [l.strip()[:70] for l in r.stdout.splitlines() if 'key=' in l and not 'KNOWN' in l], '|', fn, repr(new[:90]), flush=True)
            if r.returncode == 2: print(r.stdout[-600:])
    finally:
        open(p, 'w').write(s)
