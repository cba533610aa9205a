#!/usr/bin/env python3
"""Mutation campaign: applies each mutant to a scratch copy of /repo and runs the
check of its property against it.   mutants.py [-j N] [name|property ...]"""
import os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []
N = "src/naive/"
def m(name, props, *edits):
    M.append((name, props.split(), edits))
oq, om, tp, sem, con = N + "naive_operation_queue.cpp", N + "naive_operation_queue_manager.cpp", N + "naive_threadpool.cpp", N + "naive_semaphore.cpp", N + "naive_consumable.cpp"
mt, ops, pq, sq, ti, sn, gr = [N + "naive_%s.cpp" % x for x in "manual_thread operations parallel_queue serial_queue timer socket_notifier group".split()]
sig, sigh, sb = "src/signals.cpp", "include/xdispatch/signals.h", "include/xdispatch/signals_barrier.h"
wq, lb, ca = "src/waitable_queue.cpp", "src/lightweight_barrier.cpp", "src/cancelable.cpp"
cq = N + "3rdparty/concurrentqueue.h"
exec(open(os.path.join(V, "tools", "mutants.txt")).read())

def run(mut, jobs_left):
    name, props, edits = mut
    d = "/tmp/mut/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ("src", "include", "config.h.in"):
        subprocess.run(["cp", "-a", "/repo/" + x, d], check=True)
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p, newline="").read()
        n = 1
        if isinstance(old, tuple): # the nth occurrence
            old, n = old
        parts = s.split(old)
        if len(parts) <= n:
            print("%-32s DOES NOT APPLY: %s" % (name, old), flush=True)
            return
        open(p, "w", newline="").write(old.join(parts[:n]) + new + old.join(parts[n:]))
    env = dict(os.environ, XMC_REPO=d, XMC_BUILD=d + "/b")
    caught = []
    for p in props:
        t = time.time()
        r = subprocess.run([sys.executable, V + "/check.py", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=V)
        what = ""
        for l in r.stdout.splitlines():
            if l.startswith("scenario "):
                what = l[9:90]
                break
            if l.startswith("ERROR") or "build failed" in l:
                what = l + r.stdout[-300:]
        caught.append("%s:%s %.0fs %s" % (p, {0: "missed", 1: "CAUGHT"}.get(r.returncode, "ERR%d" % r.returncode), time.time() - t, what))
        if r.returncode == 1:
            break
    print("%-32s %s" % (name, " | ".join(caught)), flush=True)
    shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    want = sys.argv[1:]
    for x in M:
        if not want or x[0] in want or any(p in want for p in x[1][:1]):
            run(x, 0)
