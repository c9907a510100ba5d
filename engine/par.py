"""Run jobs in separate processes; a job that dies or overruns gives None, never a hang."""
from __future__ import annotations

import multiprocessing as mp
import os
import signal
import time
from multiprocessing.connection import wait

CTX = mp.get_context("fork")


def child(fn, job, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        conn.send(fn(job))
    except BaseException as e:  # noqa: BLE001
        try:
            conn.send(("crash", "%s: %s" % (type(e).__name__, e)))
        except Exception:  # noqa: BLE001
            pass
    conn.close()
    os._exit(0)


def run(fn, jobs, workers, timeout, stop=None):
    """[fn(job)] with None for a job that died or ran out of time (or was cut off because stop(result) held)."""
    out = [None] * len(jobs)
    todo = list(range(len(jobs)))[::-1]
    live = {}
    halted = False
    while (todo and not halted) or live:
        while todo and len(live) < workers and not halted:
            i = todo.pop()
            r, w = CTX.Pipe(duplex=False)
            p = CTX.Process(target=child, args=(fn, jobs[i], w), daemon=True)
            p.start()
            w.close()
            live[r] = (i, p, time.time() + timeout)
        for r in wait(list(live), timeout=0.5):
            i, p, _ = live.pop(r)
            try:
                out[i] = r.recv()
            except (EOFError, OSError):
                pass
            r.close()
            p.join(2)
            if p.is_alive():
                p.kill()
            if stop is not None and out[i] is not None and stop(out[i]):
                halted = True
        now = time.time()
        for r, (i, p, end) in list(live.items()):
            if now > end or halted:
                if r.poll():
                    continue
                p.kill()
                p.join()
                r.close()
                del live[r]
    return out
