"""Jobs in forked processes, managed by a single-threaded loop: a job that dies or exceeds its time is reported, never waited for."""
import os, sys, time, pickle, select, signal

def _child(f, arg, w):
    try:
        os.setpgid(0, 0)
        data = pickle.dumps(f(arg))
    except BaseException as e:
        try: data = pickle.dumps(Lost('%s: %s' % (type(e).__name__, e)))
        except Exception: data = pickle.dumps(Lost('job failed'))
    try:
        sys.stdout.flush(); sys.stderr.flush()
        v = memoryview(data)
        while v: v = v[os.write(w, v):]
    finally: os._exit(0)

class Lost:
    """What happened to a job without an answer."""
    def __init__(self, why): self.why = why

def run(jobs, procs=8):
    """jobs: [(function, argument, seconds)]; yields (index, result) in order of completion."""
    todo = list(enumerate(jobs))[::-1]; live = {}
    try:
        while todo or live:
            while todo and len(live) < procs:
                k, (f, arg, secs) = todo.pop()
                sys.stdout.flush(); sys.stderr.flush()
                r, w = os.pipe(); pid = os.fork()
                if pid == 0:
                    for fd in live: os.close(fd)
                    os.close(r); _child(f, arg, w)
                os.close(w)
                try: os.setpgid(pid, pid)
                except OSError: pass
                live[r] = [k, pid, [], time.time() + secs]
            t = max(0.0, min(x[3] for x in live.values()) - time.time())
            ready = select.select(list(live), [], [], min(t, 5.0) + 0.01)[0]
            for r in ready:
                d = os.read(r, 1 << 20)
                if d: live[r][2].append(d); continue
                yield _end(live, r, None)
            now = time.time()
            for r in [r for r, x in live.items() if x[3] < now]: yield _end(live, r, 'stopped at its time limit')
    finally:
        for r in list(live): _end(live, r, 'stopped')

def _end(live, r, why):
    k, pid, parts, _ = live.pop(r)
    os.close(r)
    try: os.killpg(pid, signal.SIGKILL)
    except OSError:
        try: os.kill(pid, signal.SIGKILL)
        except OSError: pass
    st = os.waitpid(pid, 0)[1]
    if why is None:
        try: return k, pickle.loads(b''.join(parts))
        except Exception: why = 'the process ended (status %d)' % st
    return k, Lost(why)

def map(f, args, secs, procs=8):
    out = [None] * len(args)
    for k, v in run([(f, a, secs) for a in args], procs): out[k] = v
    return out
