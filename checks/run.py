"""run.py PID [--tier quick|thorough]: decide one property on /repo."""
import importlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

from checks import common  # noqa: E402

EVID = os.path.join(HERE, 'evidence')


def _worker(q, unit_mod, idx, scratch, tier):
    try:
        from pyvc.runner import verify
        from pyvc.interp import SourceIndex
        from pyvc.core import STATS
        m = importlib.import_module(unit_mod)
        U = m.UNITS[idx]
        u = U() if isinstance(U, type) else U
        u.tier = tier
        u.scratch = scratch
        if hasattr(u, 'verify'):
            r = u.verify(SourceIndex(scratch))
        else:
            r = verify(u, SourceIndex(scratch))
        d = r if isinstance(r, dict) else r.as_dict()
        d['solver_s'] = round(STATS.solver_s, 3)
        d['queries'] = STATS.queries
        q.put(d)
    except BaseException:
        q.put({'name': '%s[%d]' % (unit_mod, idx), 'status': 'unreached',
               'why': 'engine: ' + traceback.format_exc()[-3000:],
               'obligations': 0, 'discharged': 0, 'instances': 0,
               'refuted': [], 'unproved': [], 'names': [], 'backends': {},
               'paths': 0, 'wall_s': 0, 'used_contracts': [], 'inlined': [],
               'assumptions': [], 'target': '?', 'solver_s': 0,
               'queries': 0})


def run_units(mods, scratch, tier, jobs=6, only=None, wall=500):
    """every unit in its own forked process"""
    sys.path.insert(0, scratch)
    sys._cheetah_namemapper_pure = True
    import Cheetah.NameMapper  # noqa: F401
    todo = []
    results = []
    for mod, names in mods:
        try:
            m = importlib.import_module(mod)
        except Exception:
            results.append({
                'name': mod, 'status': 'unreached', 'target': mod,
                'why': 'contract module does not load on this tree: ' +
                traceback.format_exc()[-2000:]})
            continue
        for i, U in enumerate(m.UNITS):
            n = U.name
            if names and n not in names:
                continue
            if only and only not in n:
                continue
            todo.append((mod, i, n))
    ctx = multiprocessing.get_context('fork')
    running = []
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            mod, i, n = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_worker, args=(q, mod, i, scratch, tier))
            p.start()
            running.append((p, q, n, time.time()))
        time.sleep(0.02)
        for ent in list(running):
            p, q, n, st = ent
            got = None
            try:
                got = q.get_nowait()
            except Exception:
                pass
            if got is not None:
                results.append(got)
                p.join(5)
                if p.is_alive():
                    p.terminate()
                running.remove(ent)
            elif not p.is_alive() or time.time() - st > wall:
                try:
                    got = q.get(timeout=0.5)
                    results.append(got)
                except Exception:
                    results.append({
                        'name': n, 'status': 'unreached', 'target': '?',
                        'why': 'verifier process ended or ran out of time'})
                if p.is_alive():
                    p.kill()
                running.remove(ent)
    return results


def explore(pid, scratch, seed, tier, wall):
    out = os.path.join(scratch, 'explore.json')
    if not os.path.exists(os.path.join(HERE, 'explore', pid + '.py')):
        return None
    cmd = [common.PY, os.path.join(HERE, 'checks', 'explore_main.py'), pid,
           scratch, str(seed), tier, out]
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run(cmd, capture_output=True, text=True,
                           errors='replace', timeout=wall, env=env,
                           stdin=subprocess.DEVNULL)
        rc, err = p.returncode, (p.stderr or '')[-3000:]
    except subprocess.TimeoutExpired as e:
        rc, err = 'timeout', ''
    if os.path.exists(out):
        with open(out) as f:
            r = json.load(f)
        r['rc'] = rc
        return r
    r = {'evaluations': 0, 'distinct': 0, 'samples': [], 'failures': [],
         'errors': [], 'rule': '', 'rc': rc, 'stderr': err}
    last = out + '.last'
    if os.path.exists(last) and rc != 0:
        with open(last) as f:
            case = json.load(f)
        r['failures'].append({'case': case, 'message':
                              'the process running the real code ended '
                              'abnormally (%s) on this input: %s'
                              % (rc, err[-800:])})
    else:
        r['errors'].append({'error': 'exploration ended with %s: %s'
                            % (rc, err)})
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--unit') + 1] if '--unit' in sys.argv \
        else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = importlib.import_module('checks.registry').CHECKS[pid]
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    scratch, cmsg = common.scratch_build()
    rc = 0
    try:
        wall = 400 if tier == 'quick' else 3000
        need = {'failures': [], 'errors': [], 'evaluations': 0,
                'distinct': 0, 'samples': [], 'rule': ''}
        box = {}

        def bg():
            box['ex'] = explore(pid, scratch, seed, tier, wall)
        import threading
        th = threading.Thread(target=bg)
        if '--no-explore' not in sys.argv:
            th.start()
        units = run_units(prop['units'], scratch, tier, only=only,
                          wall=wall) if '--no-proof' not in sys.argv else []
        if '--no-explore' not in sys.argv:
            th.join()
        ex = box.get('ex') or need
    finally:
        common.remove(scratch)
    lines = []
    known = load_known(pid)
    n = 0
    refuted = [u for u in units if u['status'] == 'refuted']
    new_fail = [f for f in ex['failures'] if not is_known(known, f)]
    seen_known = {k['match']: k for k in known for f in ex['failures']
                  if k.get('match') and k['match'] in f['message']}
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if new_fail:
        path = os.path.join(EVID, 'replay', '%s.json' % pid)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'case': new_fail[0]['case'],
                       'message': new_fail[0]['message'],
                       'all_failures': new_fail,
                       'failed_obligations': [
                           {'unit': u['name'], 'target': u['target'],
                            'refuted': u['refuted']} for u in refuted],
                       'how': 'checks/replay.sh %s' % path}, f, indent=1,
                      default=str)
        for fl in new_fail[:3]:
            print('failing input: %s\n   -> %s' % (
                json.dumps(fl['case'], default=str)[:600],
                fl['message'][:900]))
        for u in refuted:
            for x in u['refuted']:
                print('failed obligation: %s :: %s' % (u['name'],
                                                       x['obligation']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        n = len(new_fail)
        rc = 1
    elif refuted:
        path = os.path.join(EVID, 'replay', '%s.json' % pid)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'failed_obligations': [
                {'unit': u['name'], 'target': u['target'],
                 'refuted': u['refuted'], 'why': u.get('why', '')}
                for u in refuted],
                'note': 'the verifier refutes these obligations on the '
                'current source; the search over %d concrete inputs of the '
                'real code found no failing one' % ex['evaluations']},
                f, indent=1, default=str)
        for u in refuted:
            for x in u['refuted']:
                print('failed obligation: %s :: %s\n   countermodel: %s' % (
                    u['name'], x['obligation'],
                    x['model'].replace('\n', '; ')[:600]))
        print('VIOLATION property=%s replay=%s no-failing-input-found'
              % (pid, path))
        n = len(refuted)
        rc = 1
    ev = evidence(pid, tier, seed, prop, units, ex, time.time() - t0, n,
                  cmsg)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    c = ev['coverage']
    print('%s %s: %d/%d obligations discharged over %d functions under '
          'contract; %d bounded, %d unreached; %d concrete evaluations; '
          '%.1f s' % (pid, tier, c['discharged'], c['obligations'],
                      c['functions_proved'], len(c['bounded']),
                      len(c['unreached']), ex['evaluations'],
                      time.time() - t0))
    for u in units:
        if u['status'] not in ('proved', 'refuted') or '-v' in sys.argv:
            print('   %-9s %s: %s' % (u['status'], u['name'],
                                      u.get('why', '')[-700:]))
    for e in ex.get('errors', [])[:3]:
        print('   exploration error: %s' % json.dumps(
            e, default=str)[-900:])
    if rc == 0 and (not c['discharged'] and prop['units'] and
                    not ex['evaluations']):
        print('check error: nothing was decided')
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('findings', []) if k['property'] == pid]


def is_known(known, f):
    return any(k.get('match') and k['match'] in f['message'] for k in known)


def evidence(pid, tier, seed, prop, units, ex, wall, nviol, cmsg):
    proved = [u for u in units if u['status'] == 'proved']
    obl = sum(u.get('obligations', 0) for u in units
              if u['status'] in ('proved', 'refuted', 'unproved'))
    dis = sum(u.get('discharged', 0) for u in units
              if u['status'] in ('proved', 'refuted', 'unproved'))
    backends = {}
    for u in units:
        for b, k in (u.get('backends') or {}).items():
            backends[b] = backends.get(b, 0) + k
    trusted = ['pyvc VC generator and symbolic interpreter (/verif/pyvc), '
               'cross-checked against CPython by pyvc/selftest',
               'z3 %s, cvc5 as second back end' % _z3v()]
    trusted += prop.get('trusted', [])
    ass = set(prop.get('assumptions', []))
    for u in units:
        ass.update(u.get('assumptions') or [])
    return {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': prop.get('level', 'proof'),
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': 'cd /verif && %s checks/run.py %s --tier %s' % (
                common.PY, pid, tier),
            'trusted_base': trusted,
            'functions_proved': len(proved),
            'functions_under_contract': [
                {'unit': u['name'], 'function': u.get('target'),
                 'status': u['status'],
                 'obligations': u.get('names', []),
                 'obligation_instances': u.get('instances', 0),
                 'paths': u.get('paths', 0),
                 'callee_contracts_used': u.get('used_contracts', []),
                 'bodies_executed': u.get('inlined', []),
                 'solver_s': u.get('solver_s', 0),
                 'wall_s': round(u.get('wall_s', 0) or 0, 2)}
                for u in units],
            'bounded': [{'unit': u['name'], 'why': u.get('why', '')[:600]}
                        for u in units if u['status'] == 'bounded'],
            'unreached': [{'unit': u['name'], 'why': u.get('why', '')[:600]}
                          for u in units if u['status'] in
                          ('unreached', 'vacuous', 'unproved')],
            'refuted': [u['name'] for u in units
                        if u['status'] == 'refuted'],
            'instances_by_back_end': backends,
            'solver_s': round(sum(u.get('solver_s', 0) for u in units), 2),
            'evaluations': ex['evaluations'],
            'distinct_nontrivial': ex['distinct'],
            'rule': 'run-time contract checks of the real code on generated '
                    'inputs (bounded, not counted as proof): ' +
                    str(ex.get('rule', '')),
            'samples': ex['samples'][:8],
            'case_kinds': ex.get('kinds', {}),
            'exploration_errors': ex.get('errors', [])[:3],
        },
        'assumptions': sorted(ass),
        'wall_s': round(wall, 2),
        'violations': nviol,
    }


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


if __name__ == '__main__':
    main()
