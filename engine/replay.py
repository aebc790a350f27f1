"""Concrete execution of scenarios on the unmodified code.

  replay.py FILE           replay one violation file; exit 1 if it reproduces
  replay.py --jobs FILE    run many (scenario, picks, values) jobs, print one JSON line each
"""
import importlib, json, os, random, signal, sys, traceback, warnings, io
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0] = VERIF
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def run_one(prop, scen, picks, values, seed, timeout, extra=None):
    from engine.api import ConcCtx, Failed, Skip
    mod = importlib.import_module('props.' + prop)
    fn = dict((s['name'], s['fn']) for s in mod.SCENARIOS)[scen]
    c = ConcCtx(picks, values, random.Random(seed))
    c.tier = (extra or {}).get('tier', 'quick')
    random.seed(1)
    import numpy as np
    np.random.seed(1)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        fn(c)
        res = ('pass', '')
    except Failed as e:
        res = ('fail', str(e))
    except Skip:
        res = ('skip', '')
    except Hang:
        res = ('fail', 'does not terminate within %d s' % timeout)
    except RecursionError as e:
        res = ('fail', 'unbounded recursion')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.relpath(f.filename, '/'), f.lineno) for f in reversed(tb[-4:]))
        # an error inside the scenario itself (not below the code under test) is a harness error
        inrepo = any('/CTL/' in f.filename for f in tb)
        if isinstance(e, np.linalg.LinAlgError):
            res = ('skip', 'numpy could not factorise')
        else:
            res = ('fail' if inrepo else 'error', 'unexpected %s: %s (%s)' % (type(e).__name__, str(e)[:300], where))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = out
    return res, c.trace


def main():
    from engine.loader import load_plain
    load_plain()
    if sys.argv[1] == '--jobs':
        with open(sys.argv[2]) as f:
            jobs = json.load(f)
        for j in jobs:
            best = None
            tries = [(j.get('values'), 0)] if j.get('values') else []
            tries += [(None, s) for s in range(1, j.get('random', 4) + 1)]
            if j.get('ints'):
                tries = [(j['values'], 0)] + [(j['ints'], s) for s in range(1, j.get('random', 4) + 1)] + tries[1:]
            for vals, seed in tries:
                (res, msg), trace = run_one(j['property'], j['scenario'], j['picks'], vals, seed, j.get('timeout', 30), j)
                if res == 'fail':
                    best = {'result': 'fail', 'msg': msg, 'values': vals, 'seed': seed, 'trace': trace}
                    break
                if res == 'error' and str(j.get('what', '')).split(':')[0] == msg[len('unexpected '):].split(':')[0] and j.get('kind') == 'exception':
                    # what the code under test returned cannot be used as the property says: same error symbolically and concretely
                    best = {'result': 'fail', 'msg': 'what the code returns cannot be used as stated: ' + msg, 'values': vals, 'seed': seed, 'trace': trace}
                    break
                if best is None or (res == 'pass') > (best['result'] == 'pass'):
                    best = {'result': res, 'msg': msg, 'values': vals, 'seed': seed, 'trace': []}
                if 'terminate' in msg:
                    break
            print(json.dumps(best, default=str), flush=True)
        return 0
    with open(sys.argv[1]) as f:
        j = json.load(f)
    (res, msg), trace = run_one(j['property'], j['scenario'], j['picks'], j['values'], j['seed'], 120, j)
    for n, v in trace:
        print('  %s = %s' % (n, v))
    print(('REPRODUCED: ' if res == 'fail' else res + ': ') + msg)
    return 1 if res in ('fail', 'error') else 0


if __name__ == '__main__':
    sys.exit(main())
