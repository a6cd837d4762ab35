#!/usr/bin/env python3
"""Confirm planted changes and run the checks on them (development tool).

Each change is tried in a private mount namespace in which a copy of /repo
is bound over /repo, so several run at once and /repo is never touched.
usage: seedtest.py [--no-tests] [--check] [--mkdemo] ID...
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ns(copy, cmd, timeout=900, verif=None):
    m = 'mount --bind %s /repo && ' % copy
    if verif:
        m += 'mount --bind %s %s/evidence && ' % (verif, V)
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', m + cmd],
                          capture_output=True, text=True, timeout=timeout)


def one(sid, opts):
    d = os.path.join(V, 'seeded', sid)
    out = [sid]
    t = tempfile.mkdtemp(prefix='seed-%s-' % sid)
    try:
        c = os.path.join(t, 'repo')
        subprocess.run(['cp', '-a', '/repo', c], check=True)
        demo = os.path.join(t, 'demo')
        shutil.copytree(d, demo)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        r = ns(c, 'bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo && bash %s/demo.sh' % demo, 300)
        out.append('clean demo rc=%d%s' % (r.returncode, '' if not r.returncode else ' BAD ' + (r.stdout + r.stderr)[-300:]))
        r = subprocess.run(['git', '-C', c, 'apply', os.path.join(d, 'patch.diff')], capture_output=True, text=True)
        if r.returncode:
            return out + ['APPLY FAILS ' + r.stderr]
        r = ns(c, 'bash /opt/vp/build.sh')
        if r.returncode:
            return out + ['BUILD FAILS ' + r.stderr[-300:]]
        r = ns(c, 'cd /repo && bash %s/demo.sh' % demo, 300)
        out.append('patched demo rc=%d%s' % (r.returncode, '' if r.returncode else ' BAD'))
        if '--no-tests' not in opts:
            o = os.path.join(t, 'o.json')
            ns(c, 'bash /opt/vp/test.sh ' + o)
            b = json.load(open('/opt/vp/BASELINE.json'))
            b = b.get('passed') or b.get('stable') or b
            got = set(json.load(open(o))['passed'])
            lost = [x for x in b if x not in got]
            out.append('tests lost=%d%s' % (len(lost), ' BAD ' + str(lost[:2]) if lost else ''))
        if '--check' in opts:
            ev = os.path.join(t, 'ev')
            os.mkdir(ev)
            for p in [prop]:
                m = json.load(open(os.path.join(V, 'MANIFEST.json')))
                ck = [x for x in m['checks'] if x['property'] == p] if 'checks' in m else []
                r = ns(c, 'cd %s && VERIF_TIER=quick VERIF_SEED=1 python3-vt checks/run.py %s --tier quick' % (V, p), 1000, verif=ev)
                vl = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
                out.append('check rc=%d %s' % (r.returncode, ' | '.join(vl)[:160] or 'MISSED ' + r.stderr[-200:]))
                rp = os.path.join(ev, 'replay', p + '.json')
                if os.path.exists(rp) and '-v' in opts:
                    out.append(open(rp).read()[:1500])
        return out
    except Exception as e:
        return out + ['ERROR %r' % e]
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == '__main__':
    opts = [a for a in sys.argv[1:] if a.startswith('-')]
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or \
        sorted(os.listdir(os.path.join(V, 'seeded')))
    with ThreadPoolExecutor(4 if '--check' not in opts else 2) as ex:
        for r in ex.map(lambda s: one(s, opts), ids):
            print('\n   '.join(r), flush=True)
