"""Concrete replay of solver models on the real code (run by the repository's own interpreter).

usage: python -m vf.replay PID jobs.json out.json"""
import json
import os
import re
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def own_fault(e):
    """the harness itself looked for something internal that is not there (any more): says nothing about the code"""
    where = traceback.extract_tb(e.__traceback__)[-1].filename
    here = os.path.dirname(os.path.abspath(__file__))
    if not os.path.abspath(where).startswith(here + os.sep):
        return False
    return (isinstance(e, AttributeError) and re.search(r"attribute '_(?!_)|module 'glompo", str(e)) is not None
            or isinstance(e, KeyError) and re.match(r"'_(?!_)", str(e)) is not None)


def run_job(hs, job, env, ConS, Stop, plain):
    h = hs[job['harness']]
    S = ConS(job['values'], h.cfg)
    S.tier = job.get('tier', 'quick')
    S.deep = S.tier == 'thorough'
    env.S = S
    env.reset()
    out = {'exc': None, 'stop': None}
    try:
        h.fn(S)
    except Stop as e:
        out['stop'] = str(e)
    except Exception as e:
        out['exc'] = f'{type(e).__name__}: {e}'
        if own_fault(e):
            out['stop'], out['exc'] = 'harness: ' + out['exc'], None
        out['tb'] = traceback.format_exc()[-3000:]
    except BaseException as e:
        out['stop'] = type(e).__name__
    finally:
        S.cleanup()
    out['failed'] = S.failed
    out['passed'] = len(S.passed)
    out['missing'] = S.missing
    out['observed'] = [(l, plain(v)) for l, v in S.observed]
    return out


def main():
    pid, jf, of = sys.argv[1:4]
    import signal
    with open(jf) as f:
        jobs = json.load(f)
    import random
    random.seed(int(os.environ.get('VERIF_SEED', '1')))
    from vf import env
    from vf.drivers import ConS, Stop, plain
    from vf.harness import load_prop
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    sys.stderr = devnull if not os.environ.get('VF_DEBUG') else sys.stderr
    tier = os.environ.get('VERIF_TIER', 'quick')
    env.load(False)
    mod = load_prop(pid)
    hs = {h.name: h for h in mod.harnesses(tier)}

    class TO(BaseException):
        pass

    def on_alarm(*a):
        raise TO()
    signal.signal(signal.SIGALRM, on_alarm)
    res = []
    for job in jobs:
        signal.alarm(30)
        try:
            r = run_job(hs, job, env, ConS, Stop, plain)
        except TO:
            r = {'exc': None, 'stop': 'timeout', 'failed': [], 'passed': 0, 'missing': [], 'observed': []}
        finally:
            signal.alarm(0)
        if r['stop'] == 'TO':
            r['stop'] = 'timeout'
        res.append(r)
        with open(of + '.tmp', 'w') as f:
            json.dump(res, f)
    with open(of, 'w') as f:
        json.dump(res, f)
    os._exit(0)


if __name__ == '__main__':
    main()
