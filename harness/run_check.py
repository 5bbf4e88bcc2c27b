"""Driver: python3 run_check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Spawns workers that import the code under test from /repo's current tree, feeds them
the case list of checks/<property>.py and aggregates what their monitors observed.
exit 0: held on everything explored; exit 1 + VIOLATION line: refuted;
exit 2: inconclusive (monitor not reached, too many cases without an answer, harness error)."""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'


def worker_env(scratch):
    e = dict(os.environ)
    e.update(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
             OPENBLAS_CORETYPE='Nehalem', PYTHONDONTWRITEBYTECODE='1',
             PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'), PYTHONHASHSEED='0',
             TMPDIR=scratch)
    e.pop('PYTHONPATH', None)
    return e


def cpu_of(pid):
    """CPU seconds of our own child process"""
    try:
        with open('/proc/%d/stat' % pid) as fh:
            t = fh.read().rsplit(')', 1)[1].split()
        return (int(t[11]) + int(t[12])) / float(os.sysconf('SC_CLK_TCK'))
    except Exception:
        return None


class Shard(threading.Thread):
    def __init__(self, prop, k, cases, scratch, case_cpu, deadline, results):
        super().__init__(daemon=True)
        self.a = (prop, k, cases, scratch, case_cpu, deadline, results)
        self.proc = None

    def run(self):
        prop, k, cases, scratch, case_cpu, deadline, results = self.a
        todo = list(cases)
        gen = 0
        while todo and time.time() < deadline:
            gen += 1
            cwd = os.path.join(scratch, 'w%d_%d' % (k, gen))
            os.makedirs(cwd)
            lf = os.path.join(cwd, 'cases.json')
            of = os.path.join(cwd, 'out.jsonl')
            run = os.path.join(cwd, 'cwd')
            os.makedirs(run)
            with open(lf, 'w') as fh:
                json.dump(todo, fh)
            open(of, 'w').close()
            with open(os.path.join(cwd, 'stdout'), 'w') as so:
                self.proc = subprocess.Popen(
                    [PY, os.path.join(HERE, 'worker.py'), prop, lf, of], cwd=run,
                    env=worker_env(scratch), stdin=subprocess.DEVNULL, stdout=so, stderr=so)
            cur = None
            cur_cpu = 0.0
            pos = 0
            ended = False
            finished = set()
            why = None

            def drain():
                nonlocal pos, cur, cur_cpu, ended
                with open(of) as fh:
                    fh.seek(pos)
                    while True:
                        line = fh.readline()
                        if not line.endswith('\n'):
                            break
                        pos = fh.tell()
                        d = json.loads(line)
                        if d[0] == 'start':
                            cur = d[1]
                            cur_cpu = cpu_of(self.proc.pid) or 0.0
                        elif d[0] == 'done':
                            finished.add(d[1])
                            results[d[1]] = (d[2], d[3])
                            cur = None
                        else:
                            ended = True
            while True:
                rc = self.proc.poll()
                drain()
                if rc is not None:
                    drain()
                    break
                c = cpu_of(self.proc.pid)
                if cur is not None and c is not None and c - cur_cpu > case_cpu:
                    why = 'cpu'
                    self.proc.kill()
                    self.proc.wait()
                    drain()
                    break
                if time.time() > deadline:
                    why = 'deadline'
                    self.proc.kill()
                    self.proc.wait()
                    drain()
                    break
                time.sleep(0.1)
            if ended:
                break
            if cur is not None and cur not in finished:
                results[cur] = ('timeout' if why == 'cpu' else 'unfinished' if why else 'died', None)
                finished.add(cur)
            elif not finished and why is None:
                with open(os.path.join(cwd, 'stdout')) as fh:
                    txt = fh.read()[-3000:]
                results['startup%d' % k] = ('startup', txt)
                break
            todo = [c for c in todo if c[0] not in finished]


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 8)
    ap.add_argument('--noevidence', action='store_true')
    ap.add_argument('--show', type=int, default=5)
    a = ap.parse_args()
    t0 = time.time()
    # re-exec in the right interpreter (numpy of the package's venv)
    if os.path.realpath(sys.executable) != os.path.realpath(PY) and not os.environ.get('VERIF_REEXEC'):
        os.environ['VERIF_REEXEC'] = '1'
        os.execv(PY, [PY] + sys.argv)
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    import importlib
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    mod = importlib.import_module('checks.' + a.prop)
    if a.replay:
        rp = json.load(open(a.replay))
        cases = [rp['case']]
    else:
        cases = mod.cases(a.tier, a.seed)
    cases = list(enumerate(cases))
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % a.prop)
    results = {}
    limit = float(getattr(mod, 'WALL', {}).get(a.tier, 800 if a.tier == 'quick' else 3000))
    deadline = t0 + limit
    jobs = max(1, min(a.jobs, len(cases)))
    shards = [Shard(a.prop, k, cases[k::jobs], scratch, getattr(mod, 'CASE_CPU', 120), deadline, results)
              for k in range(jobs)]
    try:
        for s in shards:
            s.start()
        for s in shards:
            s.join()
    finally:
        for s in shards:
            if s.proc and s.proc.poll() is None:
                s.proc.kill()
                s.proc.wait()
        shutil.rmtree(scratch, ignore_errors=True)

    counts = {}
    keys = set()
    samples = []
    viols = []            # (case idx, key, msg)
    harness_errors = []
    timeouts = []
    died = []
    unfinished = 0
    data = []
    nrun = 0
    for idx in sorted(results, key=lambda z: (isinstance(z, str), z)):
        res, err = results[idx]
        if res == 'timeout':
            timeouts.append(idx)
            continue
        if res == 'died':
            died.append(idx)
            continue
        if res == 'unfinished':
            unfinished += 1
            continue
        if res == 'startup':
            harness_errors.append('worker startup: ' + str(err))
            continue
        nrun += 1
        for k, v in res['counts'].items():
            counts[k] = counts.get(k, 0) + v
        keys.update(res['keys'])
        if len(samples) < 3:
            samples += res['samples']
        data += [(idx, d) for d in res['data']]
        for key, msg in res['viol']:
            viols.append((idx, key, msg))
        if err:
            harness_errors.append('case %s: %s' % (idx, err))
    unfinished += len(cases) - nrun - len(timeouts) - len(died) - unfinished
    if hasattr(mod, 'finalize') and not a.replay:
        for idx, key, msg in mod.finalize(data, counts, a.tier):
            viols.append((idx, key, msg))
    if getattr(mod, 'HANG_IS_VIOLATION', False):
        for idx in timeouts:
            viols.append((idx, 'no-return', 'no return within %s CPU seconds' % getattr(mod, 'CASE_CPU', 120)))

    known = [(k, w) for (p, k, w) in known_findings() if p == a.prop]
    kset = {k for k, _ in known}
    kseen = {}
    new = []
    for v in viols:
        if v[1] in kset:
            kseen[v[1]] = kseen.get(v[1], 0) + 1
        else:
            new.append(v)
    for k, w in known:
        print('KNOWN-FINDING: property=%s %s (key %s, seen %d times in this run)' % (a.prop, w, k, kseen.get(k, 0)))

    if not a.noevidence:
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=getattr(mod, 'LEVEL', 'exploration'),
                  coverage=dict(evaluations=nrun, distinct_nontrivial=len(keys), rule=mod.RULE,
                                samples=samples or [dict(note='none')],
                                monitor_events={k: counts[k] for k in sorted(counts)},
                                cases_without_answer=dict(cpu_timeout=len(timeouts), died=len(died),
                                                          unfinished=unfinished),
                                known_finding_hits=kseen),
                  wall_s=round(time.time() - t0, 2), violations=len(new),
                  assumptions=getattr(mod, 'ASSUMPTIONS', []))
        with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write('\n')

    print('%s %s seed=%d: %d/%d cases, %d distinct non-trivial, %d events, timeouts=%d died=%d unfinished=%d errors=%d (%.1fs)' % (
        a.prop, a.tier, a.seed, nrun, len(cases), len(keys), sum(counts.values()), len(timeouts), len(died),
        unfinished, len(harness_errors), time.time() - t0))
    if new:
        bykey = {}
        for idx, key, msg in new:
            bykey.setdefault(key, []).append((idx, msg))
        first = None
        for key, lst in bykey.items():
            idx, msg = lst[0]
            case = cases[idx][1] if isinstance(idx, int) else None
            path = os.path.join(VERIF, 'evidence', 'replay', '%s-%s.json' % (a.prop, re.sub(r'[^A-Za-z0-9_.-]', '_', key)[:60]))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as fh:
                json.dump(dict(property=a.prop, key=key, case=case, message=msg, occurrences=len(lst),
                               tier=a.tier, seed=a.seed), fh, indent=1, default=str)
            print('  key=%s occurrences=%d' % (key, len(lst)))
            for i, mm in lst[:a.show]:
                print('    case %s %s: %s' % (i, json.dumps(cases[i][1], default=str)[:200] if isinstance(i, int) else '', mm[:600]))
            first = first or path
        print('VIOLATION property=%s replay=%s' % (a.prop, first))
        return 1
    if harness_errors:
        print('HARNESS ERROR (%d): %s' % (len(harness_errors), harness_errors[0][-3000:]))
        return 2
    if a.replay:
        print('replayed case: no violation')
        return 0
    if len(timeouts) + len(died) + unfinished > max(1, 0.05 * len(cases)):
        print('INCONCLUSIVE: too many cases without an answer')
        return 2
    for k, mn in getattr(mod, 'MIN', {}).items():
        if counts.get(k, 0) < mn:
            print('INCONCLUSIVE: monitor event %r seen %d times, need %d' % (k, counts.get(k, 0), mn))
            return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
