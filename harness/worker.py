"""worker: runs the cases of one shard, one JSON line per case on the output file."""
import importlib
import json
import os
import sys
import traceback
import warnings
warnings.simplefilter('ignore')


def cover(d, pk, pid):
    """Record every line of the code under test that runs (tools/coverage.py reads the files)."""
    f = open(os.path.join(d, '%s-%d' % (pid, os.getpid())), 'a', buffering=1)
    mo = sys.monitoring
    mo.use_tool_id(5, 'verif-cov')

    def line(code, ln):
        if code.co_filename.startswith(pk):
            f.write('%s:%d\n' % (code.co_filename[len(pk):], ln))
        return mo.DISABLE
    mo.register_callback(5, mo.events.LINE, line)
    mo.set_events(5, mo.events.LINE)


def main():
    pid, listfile, outfile = sys.argv[1:4]
    repo = os.environ.get('VERIF_REPO', '/repo')
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.path.insert(0, repo)
    import numpy as np
    np.seterr(all='ignore')
    import sqpdfo
    assert os.path.realpath(sqpdfo.__file__).startswith(os.path.realpath(repo) + '/'), sqpdfo.__file__
    import mon
    cov = os.environ.get('VERIF_COV')
    if cov:
        cover(cov, os.path.realpath(os.path.join(repo, 'sqpdfo')) + '/', pid)
    mod = importlib.import_module('checks.' + pid)
    cases = json.load(open(listfile))
    out = open(outfile, 'a', buffering=1)
    for idx, case in cases:
        out.write(json.dumps(['start', idx]) + '\n')
        m = mon.Mon(case)
        err = None
        try:
            mod.run_case(case, m)
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            err = traceback.format_exc()
            fr = traceback.extract_tb(e.__traceback__)
            pk = os.path.realpath(os.path.join(repo, 'sqpdfo')) + '/'
            inside = [t for t in fr if os.path.realpath(t.filename).startswith(pk)]
            if inside and not isinstance(e, MemoryError):
                # the code under test raised on a case whose inputs are in the documented domain
                last = inside[-1]
                m.bad('raise:%s@%s:%s' % (type(e).__name__, os.path.basename(last.filename), last.name), err[-900:])
                err = None
        try:
            line = json.dumps(['done', idx, m.out(), err], default=mon.js)
        except Exception:
            line = json.dumps(['done', idx, dict(counts={}, viol=[], keys=[], samples=[], data=[]),
                               traceback.format_exc()])
        out.write(line + '\n')
    out.write(json.dumps(['end']) + '\n')


main()
