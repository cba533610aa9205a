#!/usr/bin/env python3
"""Systematic mutation of /repo's sources: automutate.py <worker> <workers> <log> [file...]
Deletes statements, negates conditions, swaps operators and constants line by
line in a scratch copy and runs the checks of the file until one reports."""
import os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "src/naive/naive_operation_queue.cpp": "C01 C02 C03 C23 C30 C05 C31 C36 C35",
 "src/naive/naive_operation_queue.h": "C01 C23",
 "src/naive/naive_operation_queue_manager.cpp": "C01 C23 C28 C32",
 "src/naive/naive_operation_queue_manager.h": "C01 C23 C28",
 "src/naive/naive_threadpool.cpp": "C01 C09 C08 C10 C30 C31 C34 C23 C32",
 "src/naive/naive_threadpool.h": "C01 C09",
 "src/naive/naive_semaphore.cpp": "C01 C09 C25",
 "src/naive/naive_semaphore.h": "C01 C09 C25",
 "src/naive/naive_consumable.cpp": "C06 C04 C08 C07 C11 C25",
 "src/naive/naive_consumable.h": "C06 C04 C08",
 "src/naive/naive_manual_thread.cpp": "C24 C01 C30 C36",
 "src/naive/naive_thread.cpp": "C20 C21 C01 C23",
 "src/naive/naive_operations.cpp": "C04 C05 C06 C07 C23 C36",
 "src/naive/naive_operations.h": "C04 C05 C06",
 "src/naive/naive_parallel_queue.cpp": "C04 C05 C01 C10 C08 C23",
 "src/naive/naive_serial_queue.cpp": "C04 C05 C01 C10 C08 C23 C02",
 "src/naive/naive_timer.cpp": "C18 C19 C05 C27 C08 C23 C35 C36",
 "src/naive/naive_socket_notifier.cpp": "C20 C21 C19 C27 C08 C35 C36",
 "src/naive/naive_group.cpp": "C06 C07 C08 C27",
 "src/naive/naive_backend.cpp": "C27 C24 C10 C01",
 "src/naive/naive_backend_internal.h": "C27 C24 C10 C01",
 "src/naive/naive_inverse_lockguard.h": "C01 C02",
 "src/signals.cpp": "C12 C13 C14 C29 C15 C17 C16 C35",
 "include/xdispatch/signals.h": "C13 C15 C12 C14 C17 C29 C35 C36",
 "include/xdispatch/signals_barrier.h": "C16",
 "src/waitable_queue.cpp": "C22 C27 C35 C36",
 "src/lightweight_barrier.cpp": "C11 C06",
 "src/barrier_operation.cpp": "C11",
 "include/xdispatch/barrier_operation.h": "C11",
 "include/xdispatch/impl/lightweight_barrier.h": "C11",
 "src/cancelable.cpp": "C19 C12 C18 C32",
 "include/xdispatch/impl/cancelable.h": "C19 C12 C18",
 "src/backend.cpp": "C27 C24 C10 C33 C01 C32",
 "src/timer.cpp": "C18 C27 C19",
 "src/socket_notifier.cpp": "C20 C27 C21",
 "src/group.cpp": "C06 C07 C27",
 "src/queue.cpp": "C01 C05 C04 C33 C27",
 "src/operation.cpp": "C01 C04 C11",
 "include/xdispatch/operation.h": "C01 C04 C05 C06 C25",
 "include/xdispatch/queue.h": "C01 C04 C05",
 "include/xdispatch/group.h": "C06 C07",
 "include/xdispatch/timer.h": "C18 C27",
 "include/xdispatch/socket_notifier.h": "C20 C27",
 "include/xdispatch/waitable_queue.h": "C22",
 "include/xdispatch/backend_naive_ithreadpool.h": "C08 C09",
 "src/trace_utils.h": "C34",
 "src/thread_utils.cpp": "C34 C09",
 "src/trace_utils.cpp": "C34 C27",
 "src/xdispatch_internal.h": "C27 C01",
 "src/qt5/qt5_serial_queue.cpp": "C28 C27",
 "src/qt5/qt5_threadpool.cpp": "C28 C27",
 "src/qt5/qt5_parallel_queue.cpp": "C28 C27",
 "src/qt5/qt5_signals.cpp": "C28",
 "src/qt5/qt5_socket_notifier.cpp": "C27 C28",
 "src/qt5/qt5_timer.cpp": "C27 C28",
}
SKIP = re.compile(r"^\s*(//|\*|/\*|#|using |namespace|return;|public:|private:|protected:|friend |template|typedef|struct |class |explicit |virtual |~|static_assert|XDISPATCH_(Q_|TP_|)?(TRACE|WARNING)|<<|break;)")
def mutants(path):
    lines = open(path, newline="").read().split("\n")
    comment = False
    for i, l in enumerate(lines):
        s = l.rstrip("\r")
        if "/*" in s and "*/" not in s: comment = True
        if comment:
            if "*/" in s: comment = False
            continue
        if not s.strip() or SKIP.match(s): continue
        code = s.split("//")[0]
        def put(new): return "\n".join(lines[:i] + [new] + lines[i+1:])
        t = code.strip()
        # statements on their own line
        if t.endswith(";") and not t.startswith(("return", "}", "const ", "auto ", "static ", "std::shared_ptr<", "bool ", "int ", "size_t ")) and ("(" in t or "=" in t or "+" in t) and t.count("(") == t.count(")") and " override" not in t and " final" not in t and "= delete" not in t and "= default" not in t:
            prev = lines[i-1].strip() if i else ""
            if prev.endswith((";", "{", "}", ":", ")")) or prev == "" or prev.startswith("//"):
                yield i, "del", put("" if not prev.endswith(")") else re.match(r"\s*", code).group(0) + ";")
        m = re.match(r"^(\s*)((?:\} else )?if|while) \((.*)\) \{$", code.rstrip())
        if m:
            yield i, "neg", put("%s%s (!(%s)) {" % (m.group(1), m.group(2), m.group(3)))
            if m.group(2) != "while":
                yield i, "iftrue", put("%s%s (true || (%s)) {" % (m.group(1), m.group(2), m.group(3)))
        for a, b in (("&&", "||"), ("||", "&&"), ("==", "!="), ("!=", "=="), (" < ", " <= "), (" > ", " >= "), (" >= ", " > "), (" <= ", " < "), (" + ", " - "), (" - ", " + "), ("true", "false"), ("false", "true"), ("++", "--"), ("--", "++"), ("fetch_add", "fetch_sub"), ("fetch_sub", "fetch_add"), ("notify_all", "notify_one"), ("push_back", "push_front"), ("empty()", "size() == 1"), ("std::min", "std::max"), ("std::max", "std::min")):
            for k in re.finditer(r"(?<![\w<>=!&|+-])" + re.escape(a) + r"(?![\w<>=&|+-])" if a[0].isalpha() or a in ("++", "--") else re.escape(a), code):
                if a in ("true", "false") and re.search(r"\w$", code[:k.start()]): continue
                if a == "&&" and re.search(r"[\w>]$", code[:k.start()]): continue
                yield i, "%s>%s" % (a.strip(), b.strip()), put(code[:k.start()] + b + code[k.end():])
        for k in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.\"])", code):
            if "include" in code or "version" in code: continue
            yield i, "num", put(code[:k.start()] + str(int(k.group(1)) + 1) + code[k.end():])

def main():
    w, n, log = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or list(MAP)
    d = "/tmp/am/%d" % w
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for x in ("src", "include", "config.h.in"):
        subprocess.run(["cp", "-a", "/repo/" + x, d], check=True)
    env = dict(os.environ, XMC_REPO=d, XMC_BUILD=d + "/b")
    done = set(l.split(" |")[0] for l in open(log)) if os.path.exists(log) else set()
    idx = 0
    for f in files:
        src = "/repo/" + f
        if not os.path.exists(src): print("no", f); continue
        orig = open(src, newline="").read()
        for i, kind, text in mutants(src):
            idx += 1
            if idx % int(os.environ.get("AM_STRIDE", "1")): continue
            if idx // int(os.environ.get("AM_STRIDE", "1")) % n != w: continue
            name = "%s:%d %s" % (f, i + 1, kind) + " @%d" % idx
            if name in done: continue
            open(os.path.join(d, f), "w", newline="").write(text)
            res = []
            for p in MAP[f].split():
                t = time.time()
                r = subprocess.run(["timeout", "400", sys.executable, V + "/check.py", p, "--cap", "8"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=V)
                if r.returncode == 1:
                    sc = [l[9:70] for l in r.stdout.splitlines() if l.startswith("scenario ")]
                    res.append("%s CAUGHT %s" % (p, sc[0] if sc else "")); break
                if "build failed" in r.stdout:
                    res.append("does not compile"); break
                if r.returncode:
                    res.append("%s ERR%d %s" % (p, r.returncode, r.stdout[-100:].replace("\n", " ")))
                    if r.returncode == 124: break
            else:
                res.append("SURVIVED")
            new = text.split("\n")[i].strip()
            with open(log, "a") as o:
                o.write("%s | %s | %s\n" % (name, "; ".join(res), new))
        open(os.path.join(d, f), "w", newline="").write(orig)
        # keep the cache small
        if subprocess.run(["du", "-sm", d + "/b"], stdout=subprocess.PIPE, text=True).stdout.split()[0:1] > ["9999"]:
            shutil.rmtree(d + "/b")
if __name__ == "__main__":
    if sys.argv[1] == "count":
        t = 0
        for f in MAP:
            if os.path.exists("/repo/" + f):
                c = len(list(mutants("/repo/" + f))); t += c; print(c, f)
            else: print("missing", f)
        print(t)
    else:
        main()
