"""run jobs in forked children (one process per job, so a solver crash costs one job)"""
import os, pickle, resource, select, signal, time

def run(n, fn, workers=8, limit=None, on_done=None):
    """fn(i) in a child for each i; results[i] is the value, or ('crash', signal/status) or ('timeout',)"""
    res = [None] * n; live = {}; nxt = 0
    while nxt < n or live:
        while nxt < n and len(live) < workers:
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r); os.setpgid(0, 0); resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.RLIM_INFINITY))
                    v = pickle.dumps(fn(nxt))
                    with os.fdopen(w, 'wb') as f: f.write(v)
                    code = 0
                except BaseException as e:
                    try:
                        with os.fdopen(w, 'wb') as f: f.write(pickle.dumps(('crash', repr(e)[:300])))
                    except BaseException: pass
                finally: os._exit(code)
            os.close(w); live[r] = [pid, nxt, b'', time.time()]; nxt += 1
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            d = os.read(r, 1 << 20)
            if d: live[r][2] += d
            else: done(r, live, res, on_done)
        if limit:
            for r in list(live):
                pid, i, buf, t0 = live[r]
                if time.time() - t0 > limit(i):
                    try: os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        try: os.kill(pid, signal.SIGKILL)
                        except OSError: pass
                    os.close(r); os.waitpid(pid, 0); del live[r]; res[i] = ('timeout',)
                    if on_done: on_done(i, res[i])
    return res
def done(r, live, res, on_done):
    pid, i, buf, t0 = live.pop(r); os.close(r)
    _, st = os.waitpid(pid, 0)
    try: res[i] = pickle.loads(buf)
    except Exception: res[i] = ('crash', st)
    if on_done: on_done(i, res[i])
