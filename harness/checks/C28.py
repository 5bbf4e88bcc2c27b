"""Runs started inside a user function of another run, or in other threads, do not influence each other."""
import contextlib
import copy
import io
import random
import sys
import threading
import hooks
import probgen
import runner

RULE = ('case = 2..4 different problems x options, solved one after the other, then (nested) with complete runs started inside user-function calls of '
        'another run, up to three levels deep, or (scheduled) in threads of which exactly one runs at a time, the next one being drawn at every '
        'user-function call and at calls of internal routines, or (free) in threads with a switch interval of a microsecond; every run is compared bitwise '
        'with the run alone; non-trivial = inner runs were made / switches happened; distinct by (problems, mode, interleaving)')
ASSUMPTIONS = ['the history file in the working directory is shared by the runs and is not looked at']
MIN = {'inner_runs': 60, 'switches': 2000, 'threaded_runs': 60, 'nested_cases': 20}

POINTS = [('sqpdfo_global_variables', n) for n in
          ('get_filename_f', 'get_filename_cons', 'get_nbr_slacks', 'get_slacks', 'set_slacks', 'set_nbr_slacks', 'set_filename_f', 'set_filename_cons',
           'get_iter', 'set_iter')] + \
    [('sqpdfo_augmX_evalf', 'sqpdfo_augmX_evalf_'), ('bcdfo_computeP', 'bcdfo_computeP_'), ('bcdfo_build_QR_of_Y', 'bcdfo_build_QR_of_Y_'),
     ('sqpdfo_solve_TR_bc', 'sqpdfo_solve_TR_bc_'), ('sqpdfo_compute_multiplier', 'sqpdfo_compute_multiplier_'), ('sqpdfo_optimality', 'sqpdfo_optimality_'),
     ('sqpdfo_computeHessian', 'sqpdfo_computeHessian_'), ('sqpdfo_main', 'sqpdfo_main_'), ('sqpdfo_prelim', 'sqpdfo_prelim_'),
     ('sqpdfo_options', 'sqpdfo_options_'), ('sqpdfo_finish', 'sqpdfo_finish_')]


def cases(tier, seed):
    import e2e
    return [dict(s=s, mode=('nested', 'sched', 'sched', 'free')[i % 4]) for i, s in enumerate(e2e.seeds(tier, seed, 160, 1600, 28))]


class Sched:
    """Exactly one of the threads runs; at each point the next one is drawn."""

    def __init__(self, n, rr):
        self.rr = rr
        self.n = n
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.loc = threading.local()
        self.log = []
        self.switches = 0
        self.rate = rr.choice([1.0, 0.5, 0.1])

    def point(self):
        i = getattr(self.loc, 'i', None)
        if i is None:
            return
        if self.rr.random() > self.rate:
            return
        j = self.rr.choice(sorted(self.alive))
        if j != i:
            self.switches += 1
            if len(self.log) < 4000:
                self.log.append(j)
            self.sem[j].release()
            self.sem[i].acquire()

    def run(self, jobs):
        res = [None] * self.n

        def body(i):
            self.loc.i = i
            self.sem[i].acquire()
            try:
                res[i] = jobs[i]()
            finally:
                self.alive.discard(i)
                if self.alive:
                    self.sem[self.rr.choice(sorted(self.alive))].release()
        th = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        for t in th:
            t.start()
        self.sem[self.rr.randrange(self.n)].release()
        for t in th:
            t.join()
        return res


def compare(m, key, r, solo, what):
    a, b = runner.sig(r), runner.sig(solo)
    m.check(a == b, key, lambda: '%s: flag %r alone %r, evaluations %d alone %d, first different evaluation %r%s' % (
        what, getattr(r, 'flag', None), getattr(solo, 'flag', None), len(r.f), len(solo.f),
        next((i for i, (u, v) in enumerate(zip(r.f, solo.f)) if u != v), None), '; raised ' + r.err[-400:] if r.err and not solo.err else ''))


def nested(m, rr, ps, os_, kws, solo):
    depth = rr.choice([1, 1, 2, 3])
    count = [0]

    def wrap(level):
        """problem of this level, whose user functions sometimes start a run of the next level"""
        p = copy.copy(ps[level % len(ps)])
        if level >= depth:
            return p
        every = rr.choice([2, 5, 9])
        start = rr.randrange(every)
        k = [0]

        def hook(fun, before):
            def g(x):
                k[0] += 1
                v = fun(x) if not before else None
                if k[0] % every == start and count[0] < 12:
                    count[0] += 1
                    j = (level + 1) % len(ps)
                    r = runner.run(wrap(level + 1), os_[j], **kws[j])
                    m.ev('inner_runs')
                    compare(m, 'inner-run-differs', r, solo[j], 'run inside a user function at level %d' % (level + 1))
                return fun(x) if before else v
            return g
        w = rr.choice(['f', 'c', 'both'])
        if w in ('f', 'both') or p.c is None:
            p.f = hook(p.f, rr.random() < .5)
        if w in ('c', 'both') and p.c is not None:
            p.c = hook(p.c, rr.random() < .5)
        return p
    r = runner.run(wrap(0), os_[0], **kws[0])
    compare(m, 'outer-run-differs', r, solo[0], 'run with runs inside its user functions')
    m.ev('nested_cases')
    return count[0]


def run_case(case, m):
    s = case['s']
    rr = random.Random('C28-%s' % s)
    n = rr.choice([2, 2, 3, 4])
    ps, os_, kws = [], [], []
    for i in range(n):
        q = s * 7 + i
        p = probgen.hostile(q) if rr.random() < .15 else probgen.general(q, nmax=4)
        o = probgen.rand_options(q, msimul=40)
        o['verbose'] = rr.choice([0, 0, 0, 2])
        kw = {}
        t = rr.random()
        if t < .08:
            kw['fault'] = ('f', rr.randrange(6), rr.choice(['nan', 'exc']))
        elif t < .14:
            o['hess_approx'] = 'nonsense'
        elif t < .18:
            kw['raw'] = dict(func_f=None)
        if case['mode'] == 'nested' and i == 0:
            kw = {}
            o['hess_approx'] = rr.choice(['bfgs', 'model'])
        ps.append(p)
        os_.append(o)
        kws.append(kw)
    solo = [runner.run(p, o, **kw) for p, o, kw in zip(ps, os_, kws)]
    if case['mode'] == 'nested':
        c = nested(m, rr, ps, os_, kws, solo)
        if c:
            m.nontrivial('nested', c, [p.desc() for p in ps], os_)
        m.sample(dict(mode='nested', problems=[p.desc() for p in ps], inner_runs=c))
        return
    with contextlib.redirect_stdout(io.StringIO()):
        if case['mode'] == 'sched':
            sc = Sched(n, rr)
            pq = []
            for p in ps:
                q = copy.copy(p)
                q.f = (lambda x, f=p.f: (sc.point(), f(x), sc.point())[1])
                if p.c is not None:
                    q.c = (lambda x, c=p.c: (sc.point(), c(x), sc.point())[1])
                pq.append(q)
            with hooks.Hook() as h:
                if rr.random() < .7:
                    for mod, name in rr.sample(POINTS, rr.randrange(1, len(POINTS))):
                        if not h.point(mod, name, sc.point):
                            m.ev('missing_point')
                res = sc.run([lambda i=i: runner.run(pq[i], os_[i], quiet=False, **kws[i]) for i in range(n)])
            sw, key = sc.switches, ''.join(map(str, sc.log))
        else:
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            try:
                res = [None] * n

                def body(i):
                    res[i] = runner.run(ps[i], os_[i], quiet=False, **kws[i])
                th = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
                for t in th:
                    t.start()
                for t in th:
                    t.join()
            finally:
                sys.setswitchinterval(old)
            sw, key = 0, 'free'
    m.ev('switches', sw)
    for i in range(n):
        m.ev('threaded_runs')
        if res[i] is None:
            m.bad('thread-without-result', 'run %d of %d ended without a result' % (i, n))
            continue
        compare(m, 'parallel-run-differs', res[i], solo[i], 'run %d of %d in parallel (%s)' % (i, n, case['mode']))
    m.nontrivial(case['mode'], [p.desc() for p in ps], key)
    m.sample(dict(mode=case['mode'], problems=[p.desc() for p in ps], switches=sw))
