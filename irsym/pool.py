"""Runs jobs (one harness instance each) in forked workers."""
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback


class Job:
    def __init__(self, h, *args, cfg='def', cost=1, **opt):
        self.h, self.args, self.cfg, self.cost, self.opt = h, tuple(args) + (0,) * (4 - len(args)), cfg, cost, opt

    @property
    def name(self):
        s = '%s:%s' % (self.h, ','.join(map(str, self.args)))
        o = [kv for kv in sorted(self.opt.items()) if kv[0] != 'optional']
        if o:
            s += ':' + ','.join('%s=%s' % kv for kv in o)
        return s if self.cfg == 'def' else self.cfg + '/' + s


def run_jobs(jobs, fn, workers, deadline, stop_on=None, mem_gb=8):
    """fn(job) -> dict, executed in a forked child. Yields (job, result dict) as they finish.
    A job not finished at `deadline` yields {'status': 'timeout'}."""
    todo = sorted(jobs, key=lambda j: -j.cost)[::-1]
    run = {}
    try:
        while todo or run:
            while todo and len(run) < workers and time.time() < deadline:
                j = todo.pop()
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        signal.signal(signal.SIGINT, signal.SIG_DFL)
                        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
                        t = time.time()
                        try:
                            res = fn(j)
                        except Exception as e:
                            res = {'status': 'error', 'why': '%s: %s' % (type(e).__name__, e),
                                   'tb': traceback.format_exc()[-1500:]}
                        res['wall'] = time.time() - t
                        data = pickle.dumps(res)
                        with os.fdopen(w, 'wb') as f:
                            f.write(data)
                    except BaseException:
                        code = 1
                    os._exit(code)
                os.close(w)
                run[r] = (pid, j, [], time.time())
            if not run:
                for j in todo:
                    yield j, {'status': 'timeout', 'why': 'not started within the time budget', 'wall': 0}
                return
            rl, _, _ = select.select(list(run), [], [], max(0.05, min(1.0, deadline - time.time())))
            for r in rl:
                pid, j, buf, t0 = run[r]
                d = os.read(r, 1 << 16)
                if d:
                    buf.append(d)
                    continue
                os.close(r)
                del run[r]
                os.waitpid(pid, 0)
                try:
                    res = pickle.loads(b''.join(buf))
                except Exception:
                    res = {'status': 'error', 'why': 'worker died (memory?)', 'wall': time.time() - t0}
                yield j, res
            if time.time() >= deadline:
                for r, (pid, j, buf, t0) in list(run.items()):
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    del run[r]
                    yield j, {'status': 'timeout', 'why': 'time budget exceeded', 'wall': time.time() - t0}
    finally:
        for r, (pid, j, buf, t0) in run.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
