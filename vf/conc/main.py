"""python -m vf.conc.main PROP --seed N --seconds S | --replay FILE      (run with the interpreter of the project)"""
import argparse
import json
import os
import signal
import sys
import time
import traceback

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
import numpy as np


def rng_of(prop, name, seed, k):
    import zlib
    return np.random.default_rng([zlib.crc32(f'{prop}.{name}'.encode()), seed, k])


class CaseTimeout(BaseException):
    pass


def on_alarm(sig, frame):
    raise CaseTimeout()


def one(prop, name, fn, seed, k, limit=20):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return fn(rng_of(prop, name, seed, k))
    except CaseTimeout as e:
        fr = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in traceback.extract_tb(e.__traceback__)
              if '/fides/' in f.filename]
        return ('TIMEOUT', f'{prop}.{name} seed {seed} k {k}: {fr[-4:]}')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inreal = any('/fides/' in f.filename for f in tb)
        where = next((f for f in reversed(tb)), None)
        if inreal and '/vf/conc/' not in tb[-1].filename:
            return f'{type(e).__name__}: {e} (at {where.filename}:{where.lineno})'
        return ('HARNESS', f'{type(e).__name__}: {e} at {where.filename}:{where.lineno}')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('props', nargs='*')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--seconds', type=float, default=8)
    ap.add_argument('--maxcases', type=int, default=10 ** 9)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--stride', type=int, default=1)
    ap.add_argument('--stop', type=int, default=1)
    ap.add_argument('--replay')
    a = ap.parse_args()
    from . import props
    if a.replay:
        d = json.load(open(a.replay))
        c = d['case']
        fn = dict((n, f) for n, w, f in props.CASES[c['prop']])[c['name']]
        r = one(c['prop'], c['name'], fn, c['seed'], c['k'], 80)
        if isinstance(r, tuple) and r[0] == 'TIMEOUT' and 'not terminate' in str(c.get('what')):
            r = 'does not terminate (80 s): ' + r[1]
        print(json.dumps({'violation': r}))
        return 1 if r and not isinstance(r, tuple) else 0
    out = {}
    for prop in a.props or sorted(props.CASES):
        cs = props.CASES.get(prop, [])
        cnt = {n: 0 for n, w, f in cs}
        spent = {n: 0. for n, w, f in cs}
        viol, harness, slow = [], [], []
        t0 = time.time()
        tot = sum(w for n, w, f in cs)
        done = 0
        while cs and time.time() - t0 < a.seconds and done < a.maxcases and len(viol) < a.stop:
            n, w, fn = min(cs, key=lambda c: spent[c[0]] / c[1])
            k = a.start + cnt[n] * a.stride
            t1 = time.time()
            r = one(prop, n, fn, a.seed, k)
            spent[n] += time.time() - t1 + 1e-6
            cnt[n] += 1
            done += 1
            if isinstance(r, tuple) and r[0] == 'TIMEOUT' and not slow:
                # typical cases take milliseconds: confirm that this one does not end
                r = one(prop, n, fn, a.seed, k, 80)
                if isinstance(r, tuple) and r[0] == 'TIMEOUT':
                    r = 'does not terminate (80 s): ' + r[1]
            if isinstance(r, tuple) and r[0] == 'TIMEOUT':
                slow.append(r[1])
            elif isinstance(r, tuple):
                harness.append(r[1])
                if len(harness) > 20:
                    break
            elif r:
                viol.append({'prop': prop, 'name': n, 'seed': a.seed, 'k': k, 'what': str(r)[:3000]})
        out[prop] = {'cases': cnt, 'violations': viol, 'harness_errors': harness, 'timeouts': slow, 'seconds': time.time() - t0}
    print(json.dumps(out))
    return 0


if __name__ == '__main__':
    sys.exit(main())
