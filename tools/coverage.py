"""Lines of the code under test no check executed.  Usage: VERIF_COV=DIR ./run Cnn ...; tools/coverage.py DIR [FILE]"""
import glob
import os
import sys
d = sys.argv[1]
repo = os.environ.get('VERIF_REPO', '/repo') + '/sqpdfo/'
seen = {}
for f in glob.glob(d + '/*'):
    for l in open(f):
        a, _, b = l.strip().rpartition(':')
        if b:
            seen.setdefault(a, set()).add(int(b))


def lines(co, out):
    for _, _, ln in co.co_lines():
        if ln:
            out.add(ln)
    for k in co.co_consts:
        if hasattr(k, 'co_lines'):
            lines(k, out)


for f in sorted(os.listdir(repo)):
    if not f.endswith('.py') or (len(sys.argv) > 2 and sys.argv[2] not in f):
        continue
    src = open(repo + f).read()
    out = set()
    lines(compile(src, f, 'exec'), out)
    miss = sorted(out - seen.get(f, set()))
    print('%-32s %4d of %4d lines not run' % (f, len(miss), len(out)))
    L = src.splitlines()
    if len(sys.argv) > 2:
        for k in miss:
            print('   %4d %s' % (k, L[k - 1][:130]))
