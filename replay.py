#!/opt/venv/bin/python
"""Replay solver models on the real package.

replay.py FILE.json      one counterexample (builds a scratch copy of /repo)
replay.py --batch FILE   used by the checks (VERIF_REPLAY_ROOT = built copy)
"""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))


def run_jobs(spec):
    root = os.environ['VERIF_REPLAY_ROOT']
    sys.path[:] = [p for p in sys.path if os.path.realpath(p) not in ('/repo', HERE)]
    sys.path.insert(0, root)
    sys.path.append(HERE)
    import warnings
    warnings.simplefilter('ignore')
    import regreg
    assert os.path.realpath(regreg.__file__).startswith(os.path.realpath(root)), regreg.__file__
    from symx import harness, runner
    _, obs = runner.get_obligations(spec['property'], spec['tier'])
    byname = {o.name: o for o in obs}
    out = []
    import signal

    class TO(Exception):
        pass

    def h(*a):
        raise TO('timeout')
    signal.signal(signal.SIGALRM, h)
    done = set()
    devnull = open(os.devnull, 'w')
    for j in spec['jobs']:
        key = (j['ob'], j['label'])
        if j['kind'] == 'cex' and key in done:
            out.append(dict(status='skip'))
            continue
        c = harness.ReplayCtx(byname[j['ob']], j['inputs'])
        real_out = sys.stdout
        sys.stdout = devnull
        try:
            signal.alarm(20)
            st, fl = c.run()
            signal.alarm(0)
        except TO:
            st, fl = 'timeout', ''
        finally:
            signal.alarm(0)
            sys.stdout = real_out
        if st == 'fail':
            if j['kind'] == 'cex':
                done.add(key)
            out.append(dict(status='fail', failures=fl[:6]))
        else:
            out.append(dict(status=st, why=str(fl)))
    return out


def main():
    if sys.argv[1] == '--batch':
        spec = json.load(open(sys.argv[2]))
        out = run_jobs(spec)
        sys.stdout.write('\n@@RESULT@@' + json.dumps(out, default=str))
        sys.stdout.flush()
        os._exit(0)
    sys.path.insert(0, HERE)
    from symx import runner
    spec = json.load(open(sys.argv[1]))
    b = runner.Build()
    b.start()
    try:
        root = b.path()
        if root is None:
            print('build failed', b.log)
            return 2
        jobs = [dict(ob=spec['ob'], kind='cex', inputs=spec['inputs'], label=spec['label'], known=None)]
        res, err = runner.replay_batch(spec['property'], spec['tier'], jobs, root)
        print(json.dumps(res, indent=1) if res is not None else err)
        return 1 if res and res[0]['status'] == 'fail' else 0
    finally:
        b.cleanup()


if __name__ == '__main__':
    sys.exit(main())
