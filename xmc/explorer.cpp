// xmc explorer: enumerates all executions of a scenario whose deviation cost
// does not exceed the bound, best (cheapest) first, with state caching, on
// several worker processes.
//
// The runtime resets the static data of the program before each execution, so
// everything in here lives on the stack or in shared memory.
#include "rt.h"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace xmc;

namespace {

constexpr int MAXLEVEL = 64;
constexpr uint32_t MAXNODES = 1u << 27;
constexpr int TBITS = 26;
constexpr int MAXVIOL = 64;
constexpr int NOUT = 1 << 16;
constexpr int MAXJOBS = 64;

struct Node
{
    uint32_t parent, pt, check, next;
    uint16_t choice;
    uint8_t cost, pad;
};

struct Level
{
    std::atomic<uint32_t> lock;
    uint32_t head;
    std::atomic<uint64_t> open; // pushed and not finished
    std::atomic<uint64_t> execs;
};

struct Viol
{
    char sig[512];
    char msg[4096];
    int ndevs, cost, status;
    bool known;
    uint64_t hits;
    Dev devs[MAXDEV];
};

struct Shared
{
    std::atomic<uint32_t> nnodes;
    std::atomic<uint64_t> ended; // executions that reached their end
    std::atomic<uint64_t> pending, execs, pruned, states, steps, fresh_steps, outcomes;
    std::atomic<uint64_t> maxsteps, maxpts, maxthreads, maxvtime, transitions;
    std::atomic<int> stop; // 1 violation, 2 time cap, 3 internal error, 4 out of nodes/table
    char error[1024];
    Level lev[MAXLEVEL];
    std::atomic<uint32_t> vlock;
    int nviol;
    Viol viol[MAXVIOL];
    std::atomic<uint64_t> out[NOUT];
    std::atomic<uint64_t> table_used;
    int bound;
    bool all;
    const Scenario* sc;
    int nknown;
    char known[64][512];
    RunResult res[MAXJOBS + 1];
    std::atomic<uint64_t> validated; // executions whose prefix was replayed and compared
    // sampled executions (for the evidence): the last one of each cost level
    int sn[MAXLEVEL];
    Dev sdev[MAXLEVEL][MAXDEV];
    uint64_t shash[MAXLEVEL];
};

Shared* S;
Node* N;
std::atomic<uint64_t>* T;

void
out(int fd, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void
out(int fd, const char* fmt, ...)
{
    char b[8192];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 1)
        n = sizeof b - 1;
    const char* p = b;
    while (n > 0) {
        long w = ::write(fd, p, n);
        if (w <= 0)
            return;
        p += w;
        n -= w;
    }
}

void
lock(std::atomic<uint32_t>& l)
{
    int spins = 0;
    while (l.exchange(1, std::memory_order_acquire)) {
        if (++spins > 100) {
            syscall(SYS_sched_yield);
            spins = 0;
        }
    }
}
void
unlock(std::atomic<uint32_t>& l)
{
    l.store(0, std::memory_order_release);
}
template<typename A, typename B>
void
atomic_max(A& a, B v)
{
    auto o = a.load();
    while (o < v && !a.compare_exchange_weak(o, v)) {
    }
}

// key: 56 bits, low 8 bits: lowest cost it was reached with
bool
seen(uint64_t key, int cost, bool* fresh)
{
    uint64_t k = key & ~0xffull;
    if (!k)
        k = 0x100;
    uint64_t h = (key * 0x9E3779B97F4A7C15ull) >> (64 - TBITS);
    uint64_t mask = (1ull << TBITS) - 1;
    for (int i = 0; i < 512; i++) {
        std::atomic<uint64_t>& e = T[(h + i) & mask];
        uint64_t v = e.load(std::memory_order_relaxed);
        if (v == 0) {
            if (e.compare_exchange_strong(v, k | cost)) {
                *fresh = true;
                return false;
            }
        }
        if ((v & ~0xffull) == k) {
            while (true) {
                if ((int)(v & 0xff) <= cost)
                    return true;
                if (e.compare_exchange_strong(v, k | cost))
                    return false;
            }
        }
    }
    return false; // table full: explore again
}

int
devs_of(uint32_t n, Dev* d)
{
    int c = 0;
    for (uint32_t k = n; k != 0; k = N[k].parent)
        c++;
    if (c > MAXDEV)
        return -1;
    int i = c;
    for (uint32_t k = n; k != 0; k = N[k].parent) {
        --i;
        d[i].pt = N[k].pt;
        d[i].choice = N[k].choice;
        d[i].check = N[k].check;
    }
    return c;
}

void
add_violation(const RunResult* r, const Dev* d, int nd)
{
    lock(S->vlock);
    Viol* v = nullptr;
    for (int i = 0; i < S->nviol; i++)
        if (!strcmp(S->viol[i].sig, r->sig))
            v = &S->viol[i];
    bool fresh = false;
    if (!v && S->nviol < MAXVIOL) {
        v = &S->viol[S->nviol];
        strcpy(v->sig, r->sig);
        v->hits = 0;
        v->known = false;
        for (int i = 0; i < S->nknown; i++)
            if (!strcmp(S->known[i], r->sig))
                v->known = true;
        fresh = true;
        S->nviol++;
    }
    if (v) {
        v->hits++;
        if (fresh || r->cost < v->cost || (r->cost == v->cost && nd < v->ndevs)) {
            strcpy(v->msg, r->msg);
            v->ndevs = nd;
            v->cost = r->cost;
            v->status = r->status;
            memcpy(v->devs, d, nd * sizeof(Dev));
        }
        if (!v->known && !S->all)
            S->stop = 1;
    }
    unlock(S->vlock);
}

void
worker(int id)
{
    rt_worker_init();
    RunResult* r = &S->res[id];
    Dev devs[MAXDEV];
    while (!S->stop) {
        if (S->pending == 0)
            break;
        uint32_t n = 0;
        bool got = false;
        int lv = 0;
        for (; lv <= S->bound; lv++) {
            Level& l = S->lev[lv];
            if (!l.head)
                continue;
            lock(l.lock);
            if (l.head) {
                n = l.head;
                l.head = N[n].next;
                got = true;
            }
            unlock(l.lock);
            if (got)
                break;
        }
        if (!got) {
            struct timespec ts = { 0, 200000 };
            syscall(SYS_nanosleep, &ts, nullptr);
            continue;
        }
        int nd = devs_of(n == 1 ? 0 : n, devs);
        if (nd < 0) {
            snprintf(S->error, sizeof S->error, "prefix too long");
            S->stop = 3;
            break;
        }
        rt_run(S->sc, devs, nd, seen, false, r);
        S->execs++;
        S->lev[lv].execs++;
        S->states += r->fresh_states;
        S->steps += r->steps;
        S->fresh_steps += r->fresh_steps;
        atomic_max(S->maxsteps, r->steps);
        atomic_max(S->maxpts, (uint64_t)r->npt);
        atomic_max(S->maxthreads, (uint64_t)r->threads);
        atomic_max(S->maxvtime, r->vtime);
        if (nd > 0 && r->status != ST_DIVERGED)
            S->validated++;
        if (r->status == ST_PRUNED)
            S->pruned++;
        if (r->status == ST_OK)
            S->ended++;
        if (r->status == ST_OK && (S->lev[lv].execs < 100 || S->lev[lv].execs % 1024 == 0)) {
            lock(S->vlock);
            memcpy(S->sdev[lv], devs, nd * sizeof(Dev));
            S->sn[lv] = nd + 1;
            S->shash[lv] = r->hash;
            unlock(S->vlock);
        }
        if (r->status == ST_DIVERGED || r->status == ST_ERROR) {
            lock(S->vlock);
            int o = snprintf(S->error, sizeof S->error, "replay diverged (%s) prefix:", r->msg);
            for (int i = 0; i < nd && o < 900; i++)
                o += snprintf(S->error + o, sizeof S->error - o, " %u:%u", devs[i].pt, devs[i].choice);
            unlock(S->vlock);
            S->stop = 3;
            break;
        }
        if (r->has_outcome && r->status == ST_OK) {
            uint64_t o = r->outcome | 1;
            for (uint64_t h = o * 0x9E3779B97F4A7C15ull >> 48, i = 0; i < NOUT; i++) {
                uint64_t v = S->out[(h + i) & (NOUT - 1)].load();
                if (v == o)
                    break;
                if (v == 0 && S->out[(h + i) & (NOUT - 1)].compare_exchange_strong(v, o)) {
                    S->outcomes++;
                    break;
                }
                if (v == o)
                    break;
            }
        }
        // alternatives
        int ncost = 0;
        for (int i = 0; i < nd; i++)
            ncost = 0;
        {
            // recompute the cost along the execution
            uint32_t heads[MAXLEVEL] = {}, tails[MAXLEVEL] = {};
            uint64_t cnt[MAXLEVEL] = {};
            uint64_t total = 0;
            for (int i = 0; i < r->npt; i++) {
                const Pt& p = r->pts[i];
                const uint8_t* c = r->costs + p.off;
                if (p.fresh) {
                    for (int k = 0; k < p.n; k++) {
                        if (k == p.chosen)
                            continue;
                        int cc = ncost + c[k];
                        if (cc > S->bound)
                            continue;
                        uint32_t m = S->nnodes.fetch_add(1);
                        if (m >= MAXNODES - 64) {
                            S->stop = 4;
                            break;
                        }
                        N[m].parent = n == 1 ? 0 : n;
                        N[m].pt = i;
                        N[m].check = p.sig;
                        N[m].choice = k;
                        N[m].cost = cc;
                        N[m].next = heads[cc];
                        heads[cc] = m;
                        if (!tails[cc])
                            tails[cc] = m;
                        cnt[cc]++;
                        total++;
                    }
                }
                ncost += c[p.chosen];
            }
            S->pending += total;
            for (int k = 0; k <= S->bound; k++) {
                if (!heads[k])
                    continue;
                Level& l = S->lev[k];
                l.open += cnt[k];
                lock(l.lock);
                N[tails[k]].next = l.head;
                l.head = heads[k];
                unlock(l.lock);
            }
        }
        if (r->status == ST_VIOLATION || r->status == ST_HANG)
            add_violation(r, devs, nd);
        S->lev[lv].open--;
        S->pending--;
    }
}

void
json_str(int fd, const char* s)
{
    out(fd, "\"");
    char b[4096];
    int o = 0;
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') {
            b[o++] = '\\';
            b[o++] = c;
        } else if (c == '\n') {
            b[o++] = '\\';
            b[o++] = 'n';
        } else if (c < 32 || c > 126)
            b[o++] = '?';
        else
            b[o++] = c;
        if (o > 4000) {
            b[o] = 0;
            out(fd, "%s", b);
            o = 0;
        }
    }
    b[o] = 0;
    out(fd, "%s\"", b);
}

const Scenario*
find_scenario(const char* n)
{
    for (Scenario* s = g_scenarios; s; s = s->next)
        if (!strcmp(s->name, n))
            return s;
    return nullptr;
}

int
usage()
{
    out(2, "usage: list | run <scenario> [--bound n] [--cap s] [--jobs n] [--known file] [--out json] [--replay-dir d] [--all] [--tier quick|thorough] | replay <scenario> [--devs p:c,..] [--file f] [--trace]\n");
    return 2;
}

} // namespace

int
main(int argc, char** argv)
{
    if (argc < 2)
        return usage();
    if (!getenv("XMC_NOASLR")) {
        if (personality(ADDR_NO_RANDOMIZE) != -1) {
            setenv("XMC_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    if (!strcmp(argv[1], "list")) {
        for (Scenario* s = g_scenarios; s; s = s->next) {
            out(1, "{\"property\":\"%s\",\"name\":\"%s\",\"bound\":%d,\"bound_thorough\":%d,\"cap\":%d,\"races\":%d,\"spurious\":%d,\"cpus\":%d,\"free_block\":%d,\"about\":", s->property, s->name, s->opt.bound, s->opt.bound_thorough, s->opt.quick_cap_s, s->opt.races, s->opt.spurious, s->opt.cpus, s->opt.free_block);
            json_str(1, s->opt.about);
            out(1, "}\n");
        }
        return 0;
    }
    if (argc < 3)
        return usage();
    Scenario* sc = const_cast<Scenario*>(find_scenario(argv[2]));
    if (!sc) {
        out(2, "no scenario %s\n", argv[2]);
        return 2;
    }
    int bound = -1, jobs = 8;
    double cap = 100;
    const char *outf = nullptr, *known = nullptr, *rdir = nullptr, *devstr = nullptr, *file = nullptr;
    bool all = false, trace = false, thorough = false;
    for (int i = 3; i < argc; i++) {
        auto is = [&](const char* o) { return !strcmp(argv[i], o) && i + 1 < argc; };
        if (is("--bound"))
            bound = atoi(argv[++i]);
        else if (is("--jobs"))
            jobs = atoi(argv[++i]);
        else if (is("--cap"))
            cap = atof(argv[++i]);
        else if (is("--out"))
            outf = argv[++i];
        else if (is("--known"))
            known = argv[++i];
        else if (is("--replay-dir"))
            rdir = argv[++i];
        else if (is("--devs"))
            devstr = argv[++i];
        else if (is("--file"))
            file = argv[++i];
        else if (is("--tier"))
            thorough = !strcmp(argv[++i], "thorough");
        else if (!strcmp(argv[i], "--all"))
            all = true;
        else if (!strcmp(argv[i], "--trace"))
            trace = true;
        else
            return usage();
    }
    if (bound < 0)
        bound = thorough ? sc->opt.bound_thorough : sc->opt.bound;
    if (jobs > MAXJOBS)
        jobs = MAXJOBS;
    auto shm = [](size_t n) {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            out(2, "xmc: out of memory\n");
            _exit(3);
        }
        return p;
    };
    S = (Shared*)shm(sizeof(Shared));
    N = (Node*)shm(sizeof(Node) * (size_t)MAXNODES);
    T = (std::atomic<uint64_t>*)shm(8ull << TBITS);
    S->bound = bound;
    S->all = all;
    S->sc = sc;
    if (known) {
        FILE* f = fopen(known, "r");
        if (f) {
            while (S->nknown < 64 && fgets(S->known[S->nknown], 512, f)) {
                char* p = strchr(S->known[S->nknown], '\n');
                if (p)
                    *p = 0;
                if (S->known[S->nknown][0])
                    S->nknown++;
            }
            fclose(f);
        }
    }
    rt_init();
    if (!strcmp(argv[1], "replay")) {
        Dev* devs = (Dev*)shm(sizeof(Dev) * MAXDEV);
        int nd = 0;
        char* buf = (char*)shm(1 << 16);
        if (file) {
            FILE* f = fopen(file, "r");
            char line[20000];
            while (f && fgets(line, sizeof line, f))
                if (!strncmp(line, "devs: ", 6))
                    strcpy(buf, line + 6);
            if (f)
                fclose(f);
            devstr = buf;
        }
        for (const char* p = devstr; p && *p;) {
            unsigned a, b;
            if (sscanf(p, "%u:%u", &a, &b) != 2)
                break;
            devs[nd].pt = a;
            devs[nd].choice = b;
            devs[nd++].check = 0;
            p = strchr(p, ',');
            if (p)
                p++;
        }
        rt_snapshot();
        rt_worker_init();
        rt_run(sc, devs, nd, nullptr, trace, &S->res[0]);
        RunResult* r = &S->res[0];
        if (trace) {
            const char* t = rt_trace();
            size_t l = strlen(t);
            while (l > 0) {
                long w = write(1, t, l);
                if (w <= 0)
                    break;
                t += w;
                l -= w;
            }
        }
        out(1, "status=%d cost=%d steps=%llu points=%d threads=%d hash=%llx\n", r->status, r->cost, (unsigned long long)r->steps, r->npt, r->threads, (unsigned long long)r->hash);
        if (r->sig[0])
            out(1, "signature: %s\n%s\n", r->sig, r->msg);
        _exit(r->status == ST_VIOLATION || r->status == ST_HANG ? 1 : r->status == ST_OK ? 0 : 2);
    }
    rt_snapshot();
    // root node
    S->nnodes = 2;
    N[1] = Node{ 0, 0, 0, 0, 0, 0, 0 };
    S->lev[0].head = 1;
    S->lev[0].open = 1;
    S->pending = 1;
    uint64_t t0 = rt_wall_ns();
    long* pids = (long*)shm(sizeof(long) * MAXJOBS);
    long self = getpid();
    for (int i = 0; i < jobs; i++) {
        long p = rt_raw_clone();
        if (p == 0) {
            syscall(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL);
            if (syscall(SYS_getppid) != self)
                _exit(0);
            worker(i);
            _exit(0);
        }
        pids[i] = p;
    }
    int alive = jobs;
    bool crashed = false;
    while (alive > 0) {
        int st;
        long p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            alive--;
            for (int i = 0; i < jobs; i++)
                if (pids[i] == p)
                    pids[i] = 0;
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                crashed = true;
                if (!S->stop) {
                    snprintf(S->error, sizeof S->error, "worker ended with status %x", st);
                    S->stop = 3;
                }
            }
            continue;
        }
        uint64_t el = rt_wall_ns() - t0;
        if (el > cap * 1e9 && !S->stop)
            S->stop = 2;
        if (S->stop && el > (cap + 90) * 1e9)
            for (int i = 0; i < jobs; i++)
                if (pids[i])
                    kill(pids[i], SIGKILL);
        struct timespec ts = { 0, el < 200000000ull ? 1000000 : 5000000 };
        syscall(SYS_nanosleep, &ts, nullptr);
    }
    (void)crashed;
    double wall = (rt_wall_ns() - t0) / 1e9;
    int complete = -1;
    for (int i = 0; i <= bound; i++) {
        if (S->lev[i].open != 0)
            break;
        complete = i;
    }
    if (S->stop == 3)
        complete = -1;
    // confirm violations
    int unknown = 0, unconfirmed = 0;
    rt_worker_init();
    for (int i = 0; i < S->nviol; i++) {
        Viol& v = S->viol[i];
        RunResult* r = &S->res[jobs];
        rt_hang_limit(v.status == ST_HANG ? 60 : 30);
        bool ok = true;
        int reps = v.status == ST_HANG ? 1 : 2;
        for (int k = 0; k < reps; k++) {
            rt_run(sc, v.devs, v.ndevs, nullptr, k == reps - 1, r);
            if (r->status != v.status || strcmp(r->sig, v.sig) != 0)
                ok = false;
        }
        if (!ok) {
            unconfirmed++;
            out(1, "unconfirmed: [%s] replay gave status %d [%s]\n", v.sig, r->status, r->sig);
            v.status = -1;
            continue;
        }
        if (!v.known)
            unknown++;
        if (rdir) {
            char path[1024];
            uint64_t h = 1469598103934665603ull;
            for (const char* p = v.sig; *p; p++)
                h = (h ^ (unsigned char)*p) * 1099511628211ull;
            snprintf(path, sizeof path, "%s/%s-%08x.txt", rdir, sc->name, (unsigned)h);
            int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0) {
                out(fd, "property: %s\nscenario: %s\nsignature: %s\ndevs: ", sc->property, sc->name, v.sig);
                for (int k = 0; k < v.ndevs; k++)
                    out(fd, "%s%u:%u", k ? "," : "", v.devs[k].pt, v.devs[k].choice);
                out(fd, "\nmessage: %s\n\nTrace of the failing execution:\n", v.msg);
                const char* t = rt_trace();
                size_t l = strlen(t);
                while (l > 0) {
                    long w = write(fd, t, l > 65536 ? 65536 : l);
                    if (w <= 0)
                        break;
                    t += w;
                    l -= w;
                }
                close(fd);
            }
        }
    }
    if (unconfirmed && !S->error[0]) {
        snprintf(S->error, sizeof S->error, "violation could not be replayed");
        S->stop = 3;
        complete = -1;
    }
    // re-run the sampled executions: same hash, and text for the evidence
    uint64_t resampled = 0, badsample = 0;
    char* samples = (char*)shm(1 << 20);
    size_t so = 0;
    int maxl = -1;
    rt_trace_limit(1 << 20);
    for (int l = 0; l <= bound; l++)
        if (S->sn[l])
            maxl = l;
    for (int l = 0; l <= bound && S->stop != 3; l++) {
        if (!S->sn[l])
            continue;
        RunResult* r = &S->res[jobs];
        rt_run(sc, S->sdev[l], S->sn[l] - 1, nullptr, true, r);
        resampled++;
        if (r->hash != S->shash[l] || r->status != ST_OK)
            badsample++;
        if (l != 0 && l != maxl)
            continue;
        so += snprintf(samples + so, 4000, "%s{cost %d, deviations", so ? " " : "", l);
        for (int k = 0; k < S->sn[l] - 1 && k < 12; k++)
            so += snprintf(samples + so, 100, " %u:%u", S->sdev[l][k].pt, S->sdev[l][k].choice);
        so += snprintf(samples + so, 100, "; %llu steps, %d threads; ", (unsigned long long)r->steps, r->threads);
        int lines = 0;
        for (const char* p = rt_trace(); *p && lines < 30;) {
            const char* e = strchr(p, '\n');
            if (!e)
                break;
            if (memmem(p, e - p, "EVENT", 5) || memmem(p, e - p, "-- deviation", 12)) {
                const char* b = p;
                while (*b == ' ')
                    b++;
                so += snprintf(samples + so, 300, "%.*s | ", (int)(e - b), b);
                lines++;
            }
            p = e + 1;
        }
        so += snprintf(samples + so, 10, "}");
    }
    if (badsample && !S->error[0]) {
        snprintf(S->error, sizeof S->error, "an execution could not be reproduced");
        S->stop = 3;
        complete = -1;
    }
    if (S->stop == 0 && S->ended == 0 && S->nviol == 0 && !S->error[0]) {
        // every execution was taken for a repetition of another one
        snprintf(S->error, sizeof S->error, "no execution reached its end");
        S->stop = 3;
        complete = -1;
    }
    const char* why = S->stop == 0 ? "complete" : S->stop == 1 ? "violation" : S->stop == 2 ? "time cap" : S->stop == 3 ? "error" : "memory";
    out(1, "%-28s %-9s bound %d/%d execs %llu states %llu steps %llu pruned %llu outcomes %llu maxsteps %llu threads %llu  %.1fs (%.0f/s)\n", sc->name, why, complete, bound, (unsigned long long)S->execs, (unsigned long long)S->states, (unsigned long long)S->steps, (unsigned long long)S->pruned, (unsigned long long)S->outcomes, (unsigned long long)S->maxsteps, (unsigned long long)S->maxthreads, wall, S->execs / wall);
    if (S->error[0])
        out(1, "  error: %s\n", S->error);
    for (int i = 0; i < S->nviol; i++) {
        Viol& v = S->viol[i];
        if (v.status < 0)
            continue;
        out(1, "  %s: %s (cost %d, %llu hits)\n    %s\n    devs ", v.known ? "known finding" : "violation", v.sig, v.cost, (unsigned long long)v.hits, v.msg);
        for (int k = 0; k < v.ndevs; k++)
            out(1, "%s%u:%u", k ? "," : "", v.devs[k].pt, v.devs[k].choice);
        out(1, "\n");
    }
    if (outf) {
        int fd = open(outf, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        out(fd, "{\"scenario\":\"%s\",\"property\":\"%s\",\"bound\":%d,\"completed_bound\":%d,\"stop\":\"%s\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"steps\":%llu,\"pruned\":%llu,\"outcomes\":%llu,\"max_steps\":%llu,\"max_points\":%llu,\"threads\":%llu,\"max_virtual_ms\":%llu,\"wall_s\":%.2f,\"error\":", sc->name, sc->property, bound, complete, why, (unsigned long long)S->execs, (unsigned long long)S->states, (unsigned long long)S->fresh_steps, (unsigned long long)S->steps, (unsigned long long)S->pruned, (unsigned long long)S->outcomes, (unsigned long long)S->maxsteps, (unsigned long long)S->maxpts, (unsigned long long)S->maxthreads, (unsigned long long)S->maxvtime / 1000000, wall);
        json_str(fd, S->error);
        out(fd, ",\"validated\":%llu,\"resampled\":%llu,\"sample\":", (unsigned long long)S->validated, (unsigned long long)resampled);
        json_str(fd, samples);
        out(fd, ",\"by_cost\":[");
        for (int i = 0; i <= bound; i++)
            out(fd, "%s%llu", i ? "," : "", (unsigned long long)S->lev[i].execs);
        out(fd, "],\"violations\":[");
        bool first = true;
        for (int i = 0; i < S->nviol; i++) {
            Viol& v = S->viol[i];
            if (v.status < 0)
                continue;
            out(fd, "%s{\"known\":%d,\"cost\":%d,\"hits\":%llu,\"sig\":", first ? "" : ",", v.known, v.cost, (unsigned long long)v.hits);
            first = false;
            json_str(fd, v.sig);
            out(fd, ",\"msg\":");
            json_str(fd, v.msg);
            out(fd, ",\"devs\":\"");
            for (int k = 0; k < v.ndevs; k++)
                out(fd, "%s%u:%u", k ? "," : "", v.devs[k].pt, v.devs[k].choice);
            uint64_t h = 1469598103934665603ull;
            for (const char* p = v.sig; *p; p++)
                h = (h ^ (unsigned char)*p) * 1099511628211ull;
            out(fd, "\",\"replay\":\"%s-%08x.txt\"}", sc->name, (unsigned)h);
        }
        out(fd, "]}\n");
        close(fd);
    }
    _exit(unknown ? 1 : S->stop == 3 ? 2 : 0);
}
