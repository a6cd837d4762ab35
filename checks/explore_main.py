"""Run-time contract checking of the real code on generated inputs (the
search for a failing input; labelled bounded, never counted as proof).

usage: explore_main.py PID SCRATCH SEED TIER OUT [REPLAY]"""
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings


class CaseTimeout(BaseException):
    pass


fired = []


def _alarm(sig, frm):
    fired.append(1)
    raise CaseTimeout('case did not finish within its time limit')


def finish(out, res, t0):
    res['wall_s'] = time.monotonic() - t0
    res['complete'] = True
    with open(out, 'w') as f:
        json.dump(res, f, default=str)


def main():
    pid, scratch, seed, tier, out = sys.argv[1:6]
    replay = sys.argv[6] if len(sys.argv) > 6 else None
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, scratch)
    sys.path.insert(1, here)
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    os.environ.setdefault('PYTHONHASHSEED', '0')
    mod = importlib.import_module('explore.' + pid)
    if getattr(mod, 'PURE', None) is not None:
        sys._cheetah_namemapper_pure = mod.PURE
    work = os.path.join(scratch, 'work')
    os.makedirs(work, exist_ok=True)
    os.chdir(work)
    signal.signal(signal.SIGALRM, _alarm)
    budget = {'quick': getattr(mod, 'QUICK_S', 30),
              'thorough': getattr(mod, 'THOROUGH_S', 300)}[tier]
    budget = float(os.environ.get('EXPLORE_S') or budget)
    t0 = time.monotonic()
    rng = random.Random(int(seed))
    res = {'evaluations': 0, 'distinct': 0, 'samples': [], 'failures': [],
           'rule': getattr(mod, 'RULE', ''), 'errors': [], 'kinds': {}}
    seen = set()
    last = out + '.last'
    msg = None
    if hasattr(mod, 'setup'):
        signal.setitimer(signal.ITIMER_REAL, 60, 3)
        try:
            mod.setup(scratch)
        except CaseTimeout:
            pass
        except BaseException:
            tb = traceback.format_exc()
            if os.path.join(scratch, 'Cheetah') not in tb:
                raise
            msg = 'unexpected exception from the code under test while the ' \
                'exploration is prepared: ' + tb[-900:]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if fired:
            msg = 'code under test does not terminate while the ' \
                'exploration is prepared'
    if msg:
        res['evaluations'] = 1
        res['failures'].append({'case': {'kind': 'setup'}, 'message': msg})
        finish(out, res, t0)
        return
    if replay:
        cases = [json.load(open(replay))['case']]
    else:
        cases = mod.cases(rng, tier)
    limit = getattr(mod, 'CASE_S', 40)
    for case in cases:
        if time.monotonic() - t0 > budget and not replay:
            break
        key = hashlib.md5(json.dumps(case, sort_keys=True,
                                     default=str).encode()).digest()
        if key in seen:
            continue
        seen.add(key)
        if getattr(mod, 'RISKY', False):
            with open(last, 'w') as f:
                json.dump(case, f)
        res['evaluations'] += 1
        del fired[:]
        # again and again: code under test may swallow the exception
        signal.setitimer(signal.ITIMER_REAL, limit, 3)
        try:
            msg = mod.check(case)
        except CaseTimeout as e:
            msg = 'does not terminate: %s' % e
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            msg = None
            tb = traceback.format_exc()
            if os.path.join(scratch, 'Cheetah') in tb:
                msg = 'unexpected exception from the code under test: ' + \
                    tb[-900:]
            res['errors'].append({'case': case, 'error':
                                  traceback.format_exc()[-1500:]})
            if len(res['errors']) > 20:
                break
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if fired:
            msg = 'does not terminate within %d s' % limit
        if msg != 'skip':
            res['distinct'] += 1
            k = case.get('kind', '') if isinstance(case, dict) else ''
            res['kinds'][k] = res['kinds'].get(k, 0) + 1
            if res['kinds'][k] <= 2 and len(res['samples']) < 12:
                res['samples'].append(case)
        if msg and msg != 'skip':
            res['failures'].append({'case': case, 'message': msg})
            if len(res['failures']) >= 5 or fired:
                break
    if hasattr(mod, 'teardown'):
        mod.teardown()
    finish(out, res, t0)


if __name__ == '__main__':
    main()
    sys.stdout.flush()
    os._exit(0)
