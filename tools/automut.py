"""automut.py FILE N SEED [CHECKS]: N random single-token mutants of /tmp/plant/repo/sqpdfo/FILE that pass the stable tests; checks are run in
turn until one reports; a survivor is printed with its diff line for review"""
import warnings; warnings.simplefilter('ignore')
import ast, os, random, re, subprocess, sys
R = os.environ.get('PLANT', '/tmp/plant/repo')
E = dict(os.environ, VERIF_REPO=R)
T = dict(os.environ, PYTHONPATH=R + ':/opt/vp/plugins', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Nehalem', PYTHONDONTWRITEBYTECODE='1')
M = {'bcdfo_augment_Y.py': 'C21', 'bcdfo_build_QR_of_Y.py': 'C14,C21,C22', 'bcdfo_computeLj.py': 'C22,C14', 'bcdfo_computeP.py': 'C14,C24', 'bcdfo_evalL.py': 'C22',
     'bcdfo_evalP.py': 'C15', 'bcdfo_evalZ.py': 'C14,C15', 'bcdfo_find_new_yj.py': 'C22', 'bcdfo_gradP.py': 'C15', 'bcdfo_hessP.py': 'C15', 'bcdfo_include_in_Y.py': 'C21',
     'bcdfo_poisedness_Y.py': 'C22,C26', 'bcdfo_projgrad.py': 'C15', 'bcdfo_repair_Y.py': 'C22,C26', 'bcdfo_replace_in_Y.py': 'C21', 'bcdfo_solve_TR_MS.py': 'C16',
     'bcdfo_solve_TR_MS_bc.py': 'C17', 'blls.py': 'C18', 'minq.py': 'C17,C18,C13', 'sqpdfo.py': 'C10,C12,C09,C01,C11', 'sqpdfo_augmX_evalf.py': 'C07,C24,C03,C23,C12',
     'sqpdfo_bfgs_update.py': 'C19', 'sqpdfo_check_cond.py': 'C19,C24', 'sqpdfo_check_convex.py': 'C19', 'sqpdfo_computeHessian.py': 'C24,C19,C13',
     'sqpdfo_compute_multiplier.py': 'C18,C05', 'sqpdfo_evalfgh.py': 'C07,C10,C01', 'sqpdfo_find_smallf.py': 'C23', 'sqpdfo_finish.py': 'C12,C02', 'sqpdfo_func.py': 'C09,C07',
     'sqpdfo_init_prob.py': 'C10,C02', 'sqpdfo_iter_printout.py': 'C12,C11', 'sqpdfo_main.py': 'C06,C12,C24,C03,C26,C04,C05,C13,C02,C07', 'sqpdfo_optimality.py': 'C24,C05,C13',
     'sqpdfo_options.py': 'C10,C08', 'sqpdfo_prelim.py': 'C10,C04,C03,C24,C02,C07', 'sqpdfo_solve_TR_bc.py': 'C25', 'sqpdfo_swap_in_Y.py': 'C21,C23', 'sqpdfo_truncated_cg.py': 'C20',
     'sqpdfo_values.py': 'C10,C02', 'sqpdfo_global_variables.py': 'C08,C24', 'helper.py': 'C21,C02', 'runtime.py': 'C21,C02'}
fn, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
checks = (sys.argv[4] if len(sys.argv) > 4 else M[fn]).split(',')
rng = random.Random(fn + str(seed))
p = R + '/sqpdfo/' + fn
src = open(p).read()
lines = src.split('\n')
off = [0]
for l in lines: off.append(off[-1] + len(l.encode()) + 1)
b = src.encode()
pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
cand = []
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['==']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*'}
tree = ast.parse(src)
for n in ast.walk(tree):
    if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
        a, z = pos(n.left)[1], pos(n.comparators[0])[0]
        for o in CMP[type(n.ops[0])]: cand.append((a, z, ' ' + o + ' '))
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
        a, z = pos(n.left)[1], pos(n.right)[0]
        t = b[a:z].decode()
        sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}[type(n.op)]
        if t.count(sym) == 1: cand.append((a, z, t.replace(sym, BIN[type(n.op)])))
    elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
        v = n.value
        for w in ([v + 1, v - 1] if isinstance(v, int) else [v * 10, v / 10]): cand.append((*pos(n), repr(w) if w >= 0 else '(%r)' % w))
    elif isinstance(n, ast.BoolOp):
        a, z = pos(n.values[0])[1], pos(n.values[1])[0]
        t = b[a:z].decode()
        u = t.replace('and', 'or') if isinstance(n.op, ast.And) else t.replace('or', 'and')
        if u != t: cand.append((a, z, u))
    elif isinstance(n, (ast.If, ast.While)):
        a, z = pos(n.test); cand.append((a, z, 'not (' + b[a:z].decode() + ')'))
        if isinstance(n, ast.If): cand.append((a, z, 'False'))
    elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        a, z = pos(n); cand.append((a, z, 'pass'))
rng.shuffle(cand)
done = 0
k = {'test': 0, 'caught': 0, 'survived': 0}
try:
    for a, z, t in cand:
        if done >= N: break
        ln = b[:a].count(b'\n')
        if re.search(r'nargout|verbose|reshape|disp|info.ce=copy|options.fout', lines[ln]) or re.search(r'verbose|fout', b[a:z].decode()): continue
        if 'print' in lines[ln] or 'disp' in lines[ln] or 'fprintf' in lines[ln]: continue
        new = b[:a] + t.encode() + b[z:]
        try: ast.parse(new)
        except SyntaxError: continue
        open(p, 'wb').write(new)
        try:
            r = subprocess.run('/opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider -p vp_seed -W ignore --tb=no --ignore=tests/test_sqpdfo_all.py tests'.split(), cwd=R, env=T, capture_output=True, text=True, timeout=60)
            ok = r.returncode == 0
        except subprocess.TimeoutExpired: ok = False
        if not ok: k['test'] += 1; continue
        done += 1
        hit = None
        for c in checks:
            r = subprocess.run(['/verif/run', c, '--noevidence', '--show', '1'], env=E, capture_output=True, text=True)
            if r.returncode: hit = c + '=%d' % r.returncode; break
        k['caught' if hit else 'survived'] += 1
        show = '%s:%d  %s   [%s -> %s]' % (fn, ln + 1, lines[ln].strip()[:110], b[a:z].decode()[:60].replace('\n', ' '), t[:60].replace('\n', ' '))
        print(('caught ' + hit if hit else 'SURVIVED'), '|', show, flush=True)
finally:
    open(p, 'w').write(src)
print('SUMMARY', fn, k, flush=True)
