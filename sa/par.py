"""Independent pieces of a check, decided by several processes (forked, so that all share the loaded program)."""
import os
import pickle
import sys


def each(fn, jobs, procs=None):
    """[fn(job) for job in jobs]; results have to be picklable."""
    procs = min(procs or os.cpu_count() or 1, len(jobs), 8)
    if procs <= 1:
        return [fn(j) for j in jobs]
    kids = []
    for k in range(procs):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out = pickle.dumps([fn(j) for j in jobs[k::procs]])
                with os.fdopen(w, "wb") as f:
                    f.write(out)
                code = 0
            except BaseException as e:
                import traceback
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    res = [None] * len(jobs)
    failed = False
    for k, (pid, r) in enumerate(kids):
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if st:
            failed = True
            continue
        res[k::procs] = pickle.loads(data)
    if failed:
        raise RuntimeError("a part of the check failed")
    return res
