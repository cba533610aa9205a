// xmc runtime: runs one execution of a scenario under a controlled scheduler.
//
// Model threads are fibers of one OS thread; each has its own thread local
// storage (the TLS block of a parked real thread, selected through the FS
// register).  All synchronisation of the code under test arrives here, either
// through the __tsan_* callbacks of -fsanitize=thread (atomics, plain accesses,
// function entry/exit) or through the interposed pthread/libc functions below.
#include "rt.h"
#include <algorithm>
#include <asm/prctl.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <x86intrin.h>
#include <sys/single_threaded.h>

extern "C" char __data_start, _end, __executable_start, etext;

namespace xmc {

Scenario* g_scenarios = nullptr;
static bool g_active = false; // an execution is running and we are on a fiber

// ------------------------------------------------------------ memory map
constexpr uintptr_t HEAP = 0x100000000000ull; // + tid * ARENA ; arena MAXT is the boot arena
constexpr uintptr_t ARENA = 64ull << 20;
constexpr uintptr_t STK = 0x110000000000ull;
constexpr uintptr_t STKSZ = 1ull << 20;
constexpr uintptr_t META = 0x120000000000ull;
constexpr uintptr_t GADDR = 0x130000000000ull;

enum OpKind : uint8_t
{
    OP_NORMAL,
    OP_LOCK,
    OP_RDLOCK,
    OP_WRLOCK,
    OP_COND,
    OP_JOIN,
    OP_SLEEP,
    OP_QUIESCE,
    OP_SEM,
    OP_GUARD,
    OP_ONCE,
    OP_SELECT,
    OP_DONE
};
static const char* const kOpName[] = { "op", "lock", "rdlock", "wrlock", "cond_wait", "join", "sleep", "quiesce", "sem_wait", "static-guard", "once", "select", "done" };

constexpr uint64_t NEVER = ~0ull;

struct VC
{
    uint32_t c[MAXT];
    void join(const VC& o)
    {
        for (int i = 0; i < MAXT; i++)
            c[i] = std::max(c[i], o.c[i]);
    }
    void clear() { memset(c, 0, sizeof c); }
};

enum ObjKind : uint8_t
{
    K_NONE,
    K_ATOMIC,
    K_MUTEX,
    K_COND,
    K_RW,
    K_SEM,
    K_GUARD,
    K_OTHER
};

struct Obj
{
    uintptr_t addr;
    uint64_t lastW, readSum;
    int vc; // index + 1 of the release clock
    ObjKind kind;
    bool exclusive;
    int owner; // fiber id or -1
    int count; // recursion / readers / semaphore value
    int nwait; // number of condition waiters
};

struct Frame
{
    uintptr_t pc;
    uintptr_t call_pc;
    uint8_t cls;
};

struct TlsDtor
{
    void (*fn)(void*);
    void* arg;
};

constexpr int MAXFRAME = 400;

struct Fiber
{
    int id;
    bool used, started, done, joined, detached;
    void* sp;
    uintptr_t fs;
    uintptr_t lo, hi;
    OpKind op;
    const void* obj;
    const void* obj2;
    uint64_t deadline;
    bool wall; // the deadline is one of the wall clock
    bool timedout, woken, incond;
    uint64_t waitseq;
    void* (*start)(void*);
    void* arg;
    void* ret;
    VC vc, acq, rel;
    bool has_rel;
    uint64_t chain;
    uint32_t nev;
    uint32_t since; // visible operations since switched in
    uint32_t noev;  // scheduling points since its last event
    const void* spin_addr;
    uint64_t spin_val;
    int spin_n;
    int mc; // nesting depth of atomic-block functions
    int nframe;
    Frame frames[MAXFRAME];
    int ndtor;
    TlsDtor dtors[32];
    const void* spec[64];
    // select
    struct pollfd sel[8];
    int nsel;
    int quiet;
};

struct Cell
{
    uint32_t clk;
    uint8_t tid, mask, flags, used; // flags: 1 write, 2 atomic
    uint32_t pc;
    uint32_t pad;
};
struct Line
{
    Cell c[32][4];
}; // 256 bytes of application memory

constexpr int NOBJ = 1 << 15;
constexpr int NIDX = 1 << 17;
constexpr int NVC = 1 << 14;
constexpr int NLINE = 1 << 14;
constexpr int LIDX = 1 << 16;

struct Slot
{
    uint32_t epoch, idx;
};

struct Region
{
    char* addr;
    size_t len;
    char* copy;
};

struct Sym
{
    uintptr_t lo, hi;
    const char* name;
};

struct SockState
{
    int fd;
    bool r, w, closed;
};

struct RT
{
    // --- persistent
    bool inited;
    uintptr_t main_fs;
    uintptr_t park_fs[MAXT];
    uint32_t epoch;
    Region reg[64];
    int nreg;
    Sym* syms;
    int nsym;
    uint8_t* cls; // class per 16 bytes of text
    uintptr_t text_lo, text_hi;
    uintptr_t* guards;
    int nguards;
    void* expl_sp;
    bool fsgsbase;
    char* stack_alt;
    int hang_limit;
    uint64_t exec_start;
    uintptr_t tls_below, tls_above;
    uintptr_t boot_used_at_snapshot;
    // --- per execution
    const Scenario* sc;
    Options opt;
    Fiber f[MAXT];
    int nf;
    Fiber* cur;
    uint64_t now;
    uint64_t total; // state hash
    uint64_t noev;  // sum of Fiber::noev: orders the states between events
    int cost;
    const Dev* devs;
    int ndevs, nextdev;
    SeenFn seen;
    Pt pts[MAXPT];
    int npt;
    uint8_t costs[MAXCOST];
    int ncosts;
    uint64_t steps;
    int step_at_lastdev;
    bool tracing;
    Obj objs[NOBJ];
    int nobj;
    Slot oidx[NIDX];
    VC vcs[NVC];
    int nvc;
    Line lines[NLINE];
    int nline;
    Slot lidx[LIDX];
    uint32_t evict;
    uintptr_t brk[MAXT + 1];
    uintptr_t boot_end;
    int live;
    Event evs[MAXEV];
    int nevs;
    SockState socks[16];
    int nsocks;
    int nselect;
    int eintr_cost;
    int create_cost, create_failed;
    TlsDtor statics[256]; // destructors of static objects
    int nstatics;
    int64_t wall; // what the wall clock is ahead
    struct { const char *name, *value; } env[8];
    int nenv;
    bool allow_term;
    uint64_t waitseq;
    RunResult* out;
    uint64_t fresh_states, fresh_steps;
    bool in_runtime;
    char* trace;
    size_t tracelen;
    char notes[2048];
    uint64_t trace_last;
    int trace_rep;
    int seen_race;
    bool ending;
};
#define G (*reinterpret_cast<RT*>(GADDR))
constexpr size_t TRACECAP = 4 << 20;

// ------------------------------------------------------------ raw helpers
static inline long
raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long r;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

long
rt_raw_clone()
{
    return raw(SYS_clone, SIGCHLD, 0, 0, 0, 0);
}

uint64_t
rt_wall_ns()
{
    timespec ts;
    raw(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
    return ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

static inline uintptr_t
get_fs()
{
    uintptr_t v;
    raw(SYS_arch_prctl, ARCH_GET_FS, (long)&v);
    return v;
}

static inline void
set_fs(uintptr_t v)
{
    if (G.fsgsbase)
        asm volatile("wrfsbase %0" ::"r"(v) : "memory");
    else
        raw(SYS_arch_prctl, ARCH_SET_FS, (long)v);
}

asm(R"(
.text
.globl xmc_switch
.type xmc_switch,@function
xmc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size xmc_switch,.-xmc_switch
.globl xmc_tramp
.type xmc_tramp,@function
xmc_tramp:
    xorl %ebp,%ebp
    call xmc_fiber_main
    ud2
.size xmc_tramp,.-xmc_tramp
)");
extern "C" void xmc_switch(void** save, void* to);
extern "C" void xmc_tramp();

static inline uint64_t
mix(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6) + (a >> 2));
    x ^= x >> 32;
    x *= 0xD6E8FEB86659FD93ull;
    x ^= x >> 29;
    x *= 0xff51afd7ed558ccdull;
    x ^= x >> 32;
    return x;
}

// ------------------------------------------------------------ symbols
const char*
rt_symbol(const void* pcv)
{
    if (!G.syms)
        return "?";
    uintptr_t pc = (uintptr_t)pcv;
    int lo = 0, hi = G.nsym;
    while (lo < hi) {
        int m = (lo + hi) / 2;
        if (G.syms[m].lo <= pc)
            lo = m + 1;
        else
            hi = m;
    }
    if (lo == 0)
        return "?";
    const Sym& s = G.syms[lo - 1];
    if (pc >= s.hi)
        return "?";
    return s.name;
}

static void
demangle(const char* n, char* out, size_t cap)
{
    int st = 0;
    size_t len = 0;
    // allocate from the boot arena and forget about it: tracing must not move
    // the objects of the program
    const bool active = g_active;
    const uintptr_t brk = G.brk[MAXT];
    g_active = false;
    char* d = abi::__cxa_demangle(n, nullptr, &len, &st);
    const char* s = d ? d : n;
    // strip ABI tags and template noise a little, cut the argument list
    size_t o = 0;
    int depth = 0;
    for (size_t i = 0; s[i] && o + 1 < cap; i++) {
        char c = s[i];
        if (c == '(' && depth == 0 && o > 0) {
            if (strncmp(s + i, "(anonymous namespace)", 21) == 0) {
                i += 20;
                continue;
            }
            if (strncmp(s + i, "()", 2) == 0 && o >= 8 && !strncmp(out + o - 8, "operator", 8)) {
                out[o++] = '(';
                if (o + 1 < cap)
                    out[o++] = ')';
                i++;
                continue;
            }
            // skip argument list
            int p = 0;
            for (; s[i]; i++) {
                if (s[i] == '(')
                    p++;
                if (s[i] == ')' && --p == 0)
                    break;
            }
            if (!s[i])
                break;
            continue;
        }
        if (c == '<') {
            depth++;
            if (depth == 1)
                out[o++] = '<';
            continue;
        }
        if (c == '>') {
            depth--;
            if (depth == 0)
                out[o++] = '>';
            continue;
        }
        if (depth == 0)
            out[o++] = c;
    }
    out[o] = 0;
    G.brk[MAXT] = brk;
    g_active = active;
    // drop a leading return type (up to the last space before the name)
    char* sp = nullptr;
    for (char* q = out; *q; q++)
        if (*q == ' ' && strncmp(q + 1, "const", 5) != 0 && strncmp(q - (q - out >= 8 ? 8 : 0), "operator", 8) != 0)
            sp = q;
    if (sp && sp[1])
        memmove(out, sp + 1, strlen(sp + 1) + 1);
}

static bool
has(const char* s, const char* sub)
{
    return strstr(s, sub) != nullptr;
}

enum Cls : uint8_t
{
    C_NONE = 0,
    C_MC = 1,
    C_REF = 2,
    C_REFQ = 3, // reference count queries inside of libstdc++ smart pointers
    C_LIB = 8   // function of the code under test
};

static void
load_symbols()
{
    int fd = open("/proc/self/exe", O_RDONLY | O_CLOEXEC);
    struct stat st;
    fstat(fd, &st);
    char* m = (char*)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd);
    auto* eh = (Elf64_Ehdr*)m;
    auto* sh = (Elf64_Shdr*)(m + eh->e_shoff);
    G.text_lo = (uintptr_t)&__executable_start;
    G.text_hi = (uintptr_t)&etext + 4096;
    size_t ncls = (G.text_hi - G.text_lo) / 4 + 1;
    G.cls = (uint8_t*)mmap(nullptr, ncls, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < eh->e_shnum; i++) {
        if (sh[i].sh_type != SHT_SYMTAB)
            continue;
        auto* sy = (Elf64_Sym*)(m + sh[i].sh_offset);
        int n = sh[i].sh_size / sizeof(Elf64_Sym);
        const char* str = m + sh[sh[i].sh_link].sh_offset;
        G.syms = (Sym*)mmap(nullptr, n * sizeof(Sym) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        G.guards = (uintptr_t*)mmap(nullptr, n * 8 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (int k = 0; k < n; k++) {
            const char* nm = str + sy[k].st_name;
            int t = ELF64_ST_TYPE(sy[k].st_info);
            if (t == STT_OBJECT && !strncmp(nm, "_ZGV", 4))
                G.guards[G.nguards++] = sy[k].st_value;
            if (t != STT_FUNC || !sy[k].st_size)
                continue;
            G.syms[G.nsym++] = Sym{ sy[k].st_value, sy[k].st_value + sy[k].st_size, nm };
            uint8_t c = C_NONE;
            if (has(nm, "moodycamel"))
                c = C_MC;
            else if (has(nm, "_M_get_use_count") || has(nm, "_M_add_ref_lock"))
                c = C_REFQ;
            else if (!strncmp(nm, "_ZN9__gnu_cxx", 13) && (has(nm, "exchange_and_add") || has(nm, "__atomic_add")))
                c = C_REF;
            else if (has(nm, "St16_Sp_counted_base"))
                c = C_REF;
            if (c) {
                for (uintptr_t a = sy[k].st_value; a < sy[k].st_value + sy[k].st_size; a += 4)
                    if (a >= G.text_lo && a < G.text_hi)
                        G.cls[(a - G.text_lo) / 4] = c;
            }
        }
    }
    // names stay valid: the mapping of the file is kept
    std::sort(G.syms, G.syms + G.nsym, [](const Sym& a, const Sym& b) { return a.lo < b.lo; });
    std::sort(G.guards, G.guards + G.nguards);
}

static inline uint8_t
cls_of(uintptr_t pc)
{
    if (pc < G.text_lo || pc >= G.text_hi)
        return 0;
    return G.cls[(pc - G.text_lo) / 4];
}

// name of the innermost frame that belongs to the code under test
static void
lib_function(const Fiber* f, char* out, size_t cap)
{
    snprintf(out, cap, "?");
    for (int i = std::min(f->nframe, MAXFRAME) - 1; i >= 0; i--) {
        const char* n = rt_symbol((void*)f->frames[i].pc);
        if (has(n, "xdispatch") && !has(n, "_ZNSt") && !has(n, "_ZNKSt") && !has(n, "_ZSt") && !has(n, "__gnu_cxx")) {
            demangle(n, out, cap);
            return;
        }
        if (has(n, "moodycamel")) {
            demangle(n, out, cap);
            return;
        }
    }
}

static void
pc_function(uintptr_t pc, char* out, size_t cap)
{
    demangle(rt_symbol((void*)pc), out, cap);
}

// ------------------------------------------------------------ tracing
static size_t g_tracelimit = TRACECAP - 4096;
void
rt_trace_limit(size_t n)
{
    g_tracelimit = n && n < TRACECAP - 4096 ? n : TRACECAP - 4096;
}
static void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void
tracef(const char* fmt, ...)
{
    if (!G.tracing || G.tracelen > g_tracelimit)
        return;
    va_list ap;
    va_start(ap, fmt);
    G.tracelen += vsnprintf(G.trace + G.tracelen, 4000, fmt, ap);
    va_end(ap);
}

const char*
rt_trace()
{
    return G.trace;
}

static void
trace_op(const char* what, const void* obj, const char* extra = "")
{
    if (!G.tracing || !G.cur || G.tracelen > g_tracelimit)
        return;
    char fn[256];
    lib_function(G.cur, fn, sizeof fn);
    // collapse spinning
    uint64_t key = (uint64_t)(uintptr_t)obj ^ (uint64_t)(uintptr_t)what << 20 ^ (uint64_t)G.cur->id << 60;
    for (const char* p = extra; *p; p++)
        key = key * 31 + *p;
    if (key == G.trace_last) {
        if (++G.trace_rep == 3)
            tracef("      ... repeated\n");
        if (G.trace_rep >= 3)
            return;
    } else
        G.trace_rep = 0;
    G.trace_last = key;
    tracef("%5llu T%d %-12s %-14p %s%s\n", (unsigned long long)G.steps, G.cur->id, what, obj, fn, extra);
}

// ------------------------------------------------------------ ending
[[noreturn]] static void
end_exec(int status)
{
    G.out->status = status;
    G.ending = true;
    g_active = false;
    void* dummy;
    set_fs(G.main_fs);
    xmc_switch(&dummy, G.expl_sp);
    __builtin_unreachable();
}

static void
describe_threads(char* buf, size_t cap)
{
    size_t o = strlen(buf);
    for (int i = 0; i < G.nf; i++) {
        Fiber* f = &G.f[i];
        if (f->done)
            continue;
        char fn[256];
        lib_function(f, fn, sizeof fn);
        o += snprintf(buf + o, o < cap ? cap - o : 0, "\n    T%d %s%s in %s", i, kOpName[f->op], f->deadline != NEVER && f->op != OP_NORMAL ? " (timed)" : "", fn);
        if (o >= cap)
            return;
    }
}

[[noreturn]] static void
violation(const char* sig, const char* fmt, ...)
{
    g_active = false;
    RunResult* r = G.out;
    snprintf(r->sig, sizeof r->sig, "%s", sig);
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(r->msg, sizeof r->msg - 1200, fmt, ap);
    va_end(ap);
    if (G.notes[0] && n < (int)sizeof r->msg - 600)
        n += snprintf(r->msg + n, 500, "\n    notes: %s", G.notes);
    describe_threads(r->msg, sizeof r->msg - 1);
    tracef("VIOLATION %s: %s\n", r->sig, r->msg);
    end_exec(ST_VIOLATION);
}

void
fail(const char* fmt, ...)
{
    char m[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(m, sizeof m, fmt, ap);
    va_end(ap);
    g_active = false;
    // the signature is the message with digits removed
    char s[512];
    int o = 0;
    for (char* p = m; *p && o < 500; p++) {
        if (*p >= '0' && *p <= '9') {
            if (o == 0 || s[o - 1] != '#')
                s[o++] = '#';
        } else
            s[o++] = *p;
    }
    s[o] = 0;
    violation(s, "%s", m);
}

void
finish()
{
    end_exec(ST_OK);
}

// ------------------------------------------------------------ objects
static inline uint32_t
hash_addr(uintptr_t a)
{
    a >>= 2;
    a *= 0x9E3779B97F4A7C15ull;
    return (uint32_t)(a >> 40);
}

static Obj*
obj(const void* p, ObjKind k = K_ATOMIC)
{
    uintptr_t a = (uintptr_t)p;
    uint32_t h = hash_addr(a) & (NIDX - 1);
    while (true) {
        Slot& s = G.oidx[h];
        if (s.epoch != G.epoch) {
            if (G.nobj >= NOBJ)
                violation("internal: too many objects", "object table full");
            s.epoch = G.epoch;
            s.idx = G.nobj++;
            Obj& o = G.objs[s.idx];
            o.addr = a;
            o.lastW = o.readSum = 0;
            o.vc = 0;
            o.kind = k;
            o.owner = -1;
            o.count = 0;
            o.nwait = 0;
            o.exclusive = false;
            return &o;
        }
        if (G.objs[s.idx].addr == a) {
            if (G.objs[s.idx].kind == K_NONE)
                G.objs[s.idx].kind = k;
            return &G.objs[s.idx];
        }
        h = (h + 1) & (NIDX - 1);
    }
}

static Obj*
find_obj(const void* p)
{
    uintptr_t a = (uintptr_t)p;
    uint32_t h = hash_addr(a) & (NIDX - 1);
    while (true) {
        Slot& s = G.oidx[h];
        if (s.epoch != G.epoch)
            return nullptr;
        if (G.objs[s.idx].addr == a)
            return &G.objs[s.idx];
        h = (h + 1) & (NIDX - 1);
    }
}

static VC&
clock_of(Obj* o)
{
    if (!o->vc) {
        if (G.nvc >= NVC)
            violation("internal: too many clocks", "clock table full");
        G.vcs[G.nvc].clear();
        o->vc = ++G.nvc;
    }
    return G.vcs[o->vc - 1];
}

// an event of the partial order
static inline void
event(Fiber* f, int kind, Obj* o, bool write, uint64_t val = 0)
{
    uint64_t h = mix(f->chain, ((uint64_t)kind << 56) ^ o->addr ^ (val << 20));
    h = mix(h, (uint64_t)f->id << 32 | f->nev++);
    h = mix(h, write ? o->lastW + o->readSum : o->lastW);
    h = mix(h, G.now);
    f->chain = h;
    G.total += h;
    G.noev -= f->noev;
    f->noev = 0;
    if (write) {
        o->lastW = h;
        o->readSum = 0;
    } else
        o->readSum += h;
}
// an event without influence on other threads
static inline void
local_event(Fiber* f, int kind, uint64_t val)
{
    uint64_t h = mix(f->chain, ((uint64_t)kind << 56) ^ val);
    h = mix(h, (uint64_t)f->id << 32 | f->nev++);
    f->chain = h;
    G.total += h;
    G.noev -= f->noev;
    f->noev = 0;
}

static inline void
tick(Fiber* f)
{
    f->vc.c[f->id]++;
}

static inline void
acquire(Fiber* f, Obj* o)
{
    if (o->vc)
        f->vc.join(G.vcs[o->vc - 1]);
}
static inline void
release(Fiber* f, Obj* o)
{
    clock_of(o).join(f->vc);
    tick(f);
}

// ------------------------------------------------------------ scheduler
static bool
sock_closed(int fd)
{
    for (int i = 0; i < G.nsocks; i++)
        if (G.socks[i].fd == fd)
            return G.socks[i].closed;
    return fd >= 0;
}
static bool
sock_ready(int fd, bool wr)
{
    for (int i = 0; i < G.nsocks; i++)
        if (G.socks[i].fd == fd)
            return G.socks[i].closed || (wr ? G.socks[i].w : G.socks[i].r);
    return fd >= 0; // unknown: EBADF at once; none: times out
}
static bool
any_sock_ready(const Fiber* f)
{
    for (int i = 0; i < f->nsel; i++)
        if ((f->sel[i].events & POLLIN && sock_ready(f->sel[i].fd, false)) || (f->sel[i].events & POLLOUT && sock_ready(f->sel[i].fd, true)) || (!f->sel[i].events && sock_closed(f->sel[i].fd)))
            return true;
    return false;
}

static bool
enabled(Fiber* f)
{
    if (!f->used || f->done)
        return false;
    switch (f->op) {
        case OP_NORMAL:
            return true;
        case OP_LOCK: {
            Obj* o = obj(f->obj, K_MUTEX);
            return o->owner < 0 || (o->owner == f->id && f->obj2 == (void*)1) || (f->timedout && !f->incond);
        }
        case OP_RDLOCK: {
            Obj* o = obj(f->obj, K_RW);
            return o->owner < 0 || f->timedout;
        }
        case OP_WRLOCK: {
            Obj* o = obj(f->obj, K_RW);
            return (o->owner < 0 && o->count == 0) || f->timedout;
        }
        case OP_COND:
            return false; // signalled / timed out waiters are turned into OP_LOCK
        case OP_JOIN:
            return G.f[(uintptr_t)f->obj].done;
        case OP_SLEEP:
            return G.now >= f->deadline;
        case OP_QUIESCE:
            return false;
        case OP_SEM:
            return obj(f->obj, K_SEM)->count > 0 || f->timedout;
        case OP_GUARD:
        case OP_ONCE:
            return obj(f->obj, K_GUARD)->owner < 0;
        case OP_SELECT:
            return f->timedout || any_sock_ready(f);
        default:
            return false;
    }
}

static bool
timed(Fiber* f)
{
    if (!f->used || f->done || f->deadline == NEVER)
        return false;
    switch (f->op) {
        case OP_COND:
        case OP_SLEEP:
            return true;
        case OP_LOCK:
        case OP_RDLOCK:
        case OP_WRLOCK:
        case OP_SEM:
        case OP_SELECT:
            return !f->timedout;
        default:
            return false;
    }
}

static void
cond_leave(Fiber* f)
{
    Obj* c = obj(f->obj, K_COND);
    c->nwait--;
    f->op = OP_LOCK;
    f->obj = f->obj2;
    f->obj2 = nullptr;
    f->deadline = NEVER;
}

static void
advance(uint64_t to)
{
    if (to > G.now) {
        G.now = to;
        tracef("      -- time %llu.%06llu ms\n", (unsigned long long)(to / 1000000), (unsigned long long)(to % 1000000));
    }
    for (int i = 0; i < G.nf; i++) {
        Fiber* f = &G.f[i];
        if (timed(f) && f->deadline <= G.now) {
            if (f->op == OP_COND) {
                f->timedout = true;
                cond_leave(f);
            } else if (f->op != OP_SLEEP)
                f->timedout = true;
        }
    }
}

// makes a recorded choice; returns the option taken
static int
decide(int n, const uint8_t* cost, int kind, uint64_t salt)
{
    if (n <= 1)
        return 0;
    int idx = G.npt;
    if (idx >= MAXPT || G.ncosts + n >= MAXCOST)
        violation("step limit", "too many choice points");
    Pt& p = G.pts[idx];
    G.npt++;
    p.off = G.ncosts;
    p.n = n;
    memcpy(G.costs + G.ncosts, cost, n);
    G.ncosts += n;
    // (events, noev) grows along every execution: without noev two points of a
    // thread without an event in between would look like a state seen before
    uint64_t key = mix(mix(mix(G.total, salt), (uint64_t)kind << 40 ^ (uint64_t)n << 32 ^ G.now), G.noev);
    p.sig = (uint32_t)key | 1;
    int c = 0;
    p.fresh = 0;
    if (G.nextdev < G.ndevs) {
        const Dev& d = G.devs[G.nextdev];
        if (d.pt == (uint32_t)idx) {
            if (d.check && d.check != p.sig) {
                snprintf(G.out->msg, sizeof G.out->msg, "signature differs at point %d", idx);
                end_exec(ST_DIVERGED);
            }
            if (d.choice >= (uint32_t)n) {
                snprintf(G.out->msg, sizeof G.out->msg, "choice %u of %d at point %d", d.choice, n, idx);
                end_exec(ST_DIVERGED);
            }
            c = d.choice;
            G.nextdev++;
        }
    } else {
        p.fresh = 1;
        if (G.seen && !G.opt.noreduce) {
            bool fresh = false;
            if (G.seen(key, G.cost, &fresh)) {
                p.fresh = 0;
                G.npt--;
                end_exec(ST_PRUNED);
            }
            if (fresh)
                G.fresh_states++;
        } else
            G.fresh_states++;
    }
    p.chosen = c;
    G.cost += cost[c];
    if (c && G.tracing)
        tracef("      -- deviation: point %d option %d of %d\n", idx, c, n);
    return c;
}

static void
switch_to(Fiber* from, Fiber* to)
{
    if (from == to)
        return;
    G.cur = to;
    to->since = 0;
    to->spin_n = 0;
    set_fs(to->fs);
    xmc_switch(&from->sp, to->sp);
}

[[noreturn]] static void
deadlock()
{
    char sig[512];
    char fn[256];
    // the main thread of the scenario characterises the deadlock
    Fiber* f = &G.f[0];
    lib_function(f, fn, sizeof fn);
    snprintf(sig, sizeof sig, "deadlock: %s in %s", kOpName[f->op], fn);
    violation(sig, "deadlock: nothing can run anymore");
}

// cur has announced its next operation (cur->op); returns when it may run
static void
reschedule(Fiber* cur)
{
    G.steps++;
    cur->noev++;
    G.noev++;
    if (G.nextdev >= G.ndevs)
        G.fresh_steps++;
    if ((int)G.steps > G.opt.max_steps) {
        char fn[256], sig[300];
        lib_function(cur, fn, sizeof fn);
        snprintf(sig, sizeof sig, "livelock: no end after the step limit");
        violation(sig, "livelock: %d visible operations without reaching the end (running: %s)", G.opt.max_steps, fn);
    }
    while (true) {
        Fiber* opt[MAXT * 3];
        uint64_t optt[MAXT * 3];
        uint8_t cost[MAXT * 3];
        int n = 0;
        bool ce = !cur->done && enabled(cur);
        bool forced = false;
        if (ce) {
            cur->since++;
            if (cur->since > 3000)
                forced = true;
        } else
            cur->since = 0; // it blocks, so it does not spin
        if (ce && !forced) {
            opt[n] = cur;
            optt[n] = 0;
            cost[n++] = 0;
        }
        for (int k = 1; k <= G.nf; k++) {
            Fiber* f = &G.f[(cur->id + k) % G.nf];
            if (f == cur || !enabled(f))
                continue;
            opt[n] = f;
            optt[n] = 0;
            cost[n] = n == 0 ? 0 : (ce && !forced) ? 1 : G.opt.free_block ? 0 : 1;
            n++;
        }
        if (n == 0 && ce) {
            // forced yield without anybody else: if nothing but time can help
            uint64_t d = NEVER;
            for (int i = 0; i < G.nf; i++)
                if (timed(&G.f[i]))
                    d = std::min(d, G.f[i].deadline);
            if (d != NEVER) {
                advance(d);
                cur->since = 0;
                continue;
            }
            cur->since = 0;
            return;
        }
        uint64_t d = NEVER;
        Fiber* lazy = nullptr;
        for (int i = 0; i < G.nf; i++) {
            Fiber* f = &G.f[i];
            if (timed(f))
                d = std::min(d, f->deadline);
            if (f->used && !f->done && f->op == OP_QUIESCE && (!lazy || f->deadline < lazy->deadline))
                lazy = f;
        }
        if (n == 0) {
            if (lazy && lazy->deadline != NEVER && (d == NEVER || d > lazy->deadline)) {
                advance(lazy->deadline);
                lazy->op = OP_NORMAL;
                lazy->deadline = NEVER;
                continue;
            }
            if (d != NEVER) {
                advance(d);
                continue;
            }
            if (lazy) {
                lazy->op = OP_NORMAL;
                lazy->deadline = NEVER;
                continue;
            }
            if (G.opt.nodeadlock)
                end_exec(ST_OK);
            deadlock();
        }
        if (G.opt.timedev && d != NEVER && d > G.now && d - G.now <= (uint64_t)G.opt.timedev_max_ms * MS) {
            for (int i = 0; i < G.nf; i++) {
                Fiber* f = &G.f[i];
                if (!timed(f) || f->deadline != d)
                    continue;
                if (f->op == OP_COND && obj(f->obj2, K_MUTEX)->owner >= 0)
                    continue;
                opt[n] = f;
                optt[n] = d;
                cost[n++] = 1;
            }
        }
        if (G.opt.spurious) {
            for (int i = 0; i < G.nf; i++) {
                Fiber* f = &G.f[i];
                if (f->used && !f->done && f->op == OP_COND && obj(f->obj2, K_MUTEX)->owner < 0) {
                    opt[n] = f;
                    optt[n] = 1; // marks a spurious wake-up
                    cost[n++] = 1;
                }
            }
        }
        int c = decide(n, cost, 1, cur->id + 1);
        Fiber* next = opt[c];
        if (optt[c] == 1) {
            cond_leave(next);
            tracef("      -- spurious wake-up of T%d\n", next->id);
        } else if (optt[c]) {
            advance(optt[c]);
            if (!enabled(next))
                continue;
        }
        if (G.tracing && next != cur)
            tracef("      -- T%d -> T%d%s\n", cur->id, next->id, ce ? " (preempted)" : "");
        if (forced)
            cur->since = 0;
        if (next != cur)
            switch_to(cur, next);
        return;
    }
}

static inline void
point(Fiber* f, const void* o)
{
    f->op = OP_NORMAL;
    f->obj = o;
    f->deadline = NEVER;
    f->timedout = false;
    reschedule(f);
}

static inline void
block(Fiber* f, OpKind op, const void* o, const void* o2 = nullptr, uint64_t deadline = NEVER)
{
    f->op = op;
    f->obj = o;
    f->obj2 = o2;
    f->deadline = deadline;
    f->timedout = false;
    reschedule(f);
    f->op = OP_NORMAL;
    f->deadline = NEVER;
}

// ------------------------------------------------------------ fibers
static void
run_dtors(Fiber* f)
{
    while (f->ndtor > 0) {
        TlsDtor d = f->dtors[--f->ndtor];
        d.fn(d.arg);
    }
}

extern "C" void
xmc_fiber_main()
{
    Fiber* f = G.cur;
    if (f->id == 0) {
        G.sc->fn();
        end_exec(ST_OK);
    }
    f->ret = f->start(f->arg);
    run_dtors(f);
    // thread end is visible to join
    point(f, &f->done);
    Obj* o = obj(&f->done, K_OTHER);
    event(f, 2, o, true);
    release(f, o);
    trace_op("exit", nullptr);
    f->done = true;
    f->op = OP_DONE;
    reschedule(f);
    __builtin_unreachable();
}

static Fiber*
new_fiber(void* (*start)(void*), void* arg)
{
    if (G.nf >= MAXT)
        violation("internal: too many threads", "more than %d threads", MAXT);
    Fiber* f = &G.f[G.nf];
    int id = G.nf++;
    // do not clear the frames, they are large
    memset((void*)f, 0, offsetof(Fiber, frames));
    f->ndtor = 0;
    memset(f->spec, 0, sizeof f->spec);
    f->quiet = 0;
    f->id = id;
    f->used = true;
    f->fs = G.park_fs[id];
    f->lo = STK + id * STKSZ + 4096;
    f->hi = STK + (id + 1) * STKSZ;
    f->op = OP_NORMAL;
    f->deadline = NEVER;
    f->start = start;
    f->arg = arg;
    f->chain = mix(0x1234567, id);
    uintptr_t top = f->hi - 64;
    top &= ~15ull;
    uintptr_t* sp = (uintptr_t*)top;
    *--sp = 0;
    *--sp = 0;
    *--sp = (uintptr_t)&xmc_tramp; // after the return rsp is 16-byte aligned
    for (int i = 0; i < 6; i++)
        *--sp = 0;
    f->sp = sp;
    f->vc.c[id] = 1;
    return f;
}

// ------------------------------------------------------------ memory checks
static inline uint8_t*
meta(uintptr_t a)
{
    return (uint8_t*)(META + ((a - HEAP) >> 4));
}

static void
mem_violation(uintptr_t a, const char* what, bool write)
{
    char fn[256], sig[400];
    lib_function(G.cur, fn, sizeof fn);
    snprintf(sig, sizeof sig, "%s in %s", what, fn);
    violation(sig, "%s: %s of %p in %s", what, write ? "write" : "read", (void*)a, fn);
}

static inline void
check_mem(Fiber* f, uintptr_t a, bool write)
{
    if (a >= HEAP && a < HEAP + (MAXT + 1) * ARENA) {
        uint8_t m = *meta(a);
        if (__builtin_expect(m != 1, 0)) {
            if (m == 2)
                mem_violation(a, "use after free", write);
            else if (a - HEAP < MAXT * ARENA)
                mem_violation(a, "heap access out of bounds", write);
        }
    } else if (a >= STK && a < STK + MAXT * STKSZ) {
        int o = (a - STK) / STKSZ;
        if (o != f->id) {
            Fiber* t = &G.f[o];
            if (o >= G.nf || t->done || a < (uintptr_t)t->sp)
                mem_violation(a, "access to a dead stack frame", write);
        }
    } else if (a < 65536) {
        mem_violation(a, "null pointer access", write);
    }
}

static Line*
line_of(uintptr_t a)
{
    uintptr_t key = a >> 8;
    uint32_t h = (uint32_t)((key * 0x9E3779B97F4A7C15ull) >> 44) & (LIDX - 1);
    while (true) {
        Slot& s = G.lidx[h];
        if (s.epoch != G.epoch) {
            if (G.nline >= NLINE)
                return nullptr;
            s.epoch = G.epoch;
            s.idx = G.nline++;
            Line* l = &G.lines[s.idx];
            memset((void*)l, 0, sizeof *l);
            // remember the key in the padding of the first cell
            l->c[0][0].pad = (uint32_t)key;
            l->c[0][1].pad = (uint32_t)(key >> 32);
            return l;
        }
        Line* l = &G.lines[s.idx];
        if (l->c[0][0].pad == (uint32_t)key && l->c[0][1].pad == (uint32_t)(key >> 32))
            return l;
        h = (h + 1) & (LIDX - 1);
    }
}

static void
race_report(Fiber* f, uintptr_t a, const Cell& c, bool write, uintptr_t pc)
{
    char f1[230], f2[230], sig[500];
    pc_function(pc, f1, sizeof f1);
    pc_function(c.pc, f2, sizeof f2);
    char lf[256];
    lib_function(f, lf, sizeof lf);
    const char *x = f1, *y = f2;
    if (strcmp(x, y) > 0)
        std::swap(x, y);
    snprintf(sig, sizeof sig, "data race: %s / %s", x, y);
    violation(sig, "data race on %p: %s by T%d in %s (called from %s), earlier %s%s by T%d in %s", (void*)a, write ? "write" : "read", f->id, f1, lf, (c.flags & 2) ? "atomic " : "", (c.flags & 1) ? "write" : "read", c.tid, f2);
}

static inline void
race_check(Fiber* f, uintptr_t a, int size, bool write, bool atomic, uintptr_t pc)
{
    while (size > 0) {
        int off = a & 7;
        int len = std::min(size, 8 - off);
        uint8_t mask = ((1u << len) - 1) << off;
        Line* l = line_of(a);
        if (l) {
            Cell* cs = l->c[(a >> 3) & 31];
            int slot = -1, old = -1;
            for (int i = 0; i < 4; i++) {
                Cell& c = cs[i];
                if (!c.used) {
                    if (slot < 0)
                        slot = i;
                    continue;
                }
                if (c.tid == f->id) {
                    if (c.mask == mask && ((c.flags & 1) == write || write) && (c.flags & 2) == (atomic ? 2 : 0))
                        old = i;
                    else if (c.mask == mask && !write && (c.flags & 1) && c.clk == f->vc.c[f->id] && (c.flags & 2) == (atomic ? 2 : 0))
                        return; // own newer write at the same epoch covers it
                    continue;
                }
                if (!(c.mask & mask))
                    continue;
                if (!write && !(c.flags & 1))
                    continue;
                if (atomic && (c.flags & 2))
                    continue;
                if (c.clk > f->vc.c[c.tid])
                    race_report(f, a, c, write, pc);
                // ordered before us: superseded if we write all its bytes
                if (write && (c.mask & ~mask) == 0 && !atomic)
                    c.used = 0, slot = slot < 0 ? i : slot;
            }
            if (old >= 0)
                slot = old;
            if (slot < 0) {
                // evict: prefer a read
                slot = G.evict++ & 3;
                for (int i = 0; i < 4; i++)
                    if (!(cs[i].flags & 1)) {
                        slot = i;
                        break;
                    }
            }
            Cell& c = cs[slot];
            c.clk = f->vc.c[f->id];
            c.tid = f->id;
            c.mask = mask;
            c.flags = (write ? 1 : 0) | (atomic ? 2 : 0);
            c.used = 1;
            c.pc = (uint32_t)pc;
        }
        a += len;
        size -= len;
    }
}

static inline void
plain(uintptr_t a, int size, bool write, uintptr_t pc)
{
    if (!g_active)
        return;
    Fiber* f = G.cur;
    check_mem(f, a, write);
    if (G.opt.races && !f->quiet) {
        if (a >= f->lo && a < f->hi && false)
            return;
        race_check(f, a, size, write, false, pc);
    }
}

// ------------------------------------------------------------ atomics
static inline bool
is_guard(const volatile void* p)
{
    return std::binary_search(G.guards, G.guards + G.nguards, (uintptr_t)p);
}

static inline uint8_t
cur_cls(Fiber* f)
{
    return f->nframe > 0 && f->nframe <= MAXFRAME ? f->frames[f->nframe - 1].cls : 0;
}

enum MO
{
    relaxed = 0,
    consume,
    acq,
    rel,
    acq_rel,
    seq_cst
};
static inline bool
is_acq(int mo)
{
    mo &= 0x7f;
    return mo == consume || mo == acq || mo == acq_rel || mo == seq_cst;
}
static inline bool
is_rel(int mo)
{
    mo &= 0x7f;
    return mo == rel || mo == acq_rel || mo == seq_cst;
}

static inline void
sync_load(Fiber* f, Obj* o, int mo)
{
    if (!o->vc)
        return;
    if (is_acq(mo))
        f->vc.join(G.vcs[o->vc - 1]);
    else
        f->acq.join(G.vcs[o->vc - 1]);
}
static inline void
sync_store(Fiber* f, Obj* o, int mo, bool rmw)
{
    if (is_rel(mo)) {
        VC& v = clock_of(o);
        if (!rmw)
            v.clear();
        v.join(f->vc);
        tick(f);
    } else {
        if (f->has_rel) {
            VC& v = clock_of(o);
            if (!rmw)
                v.clear();
            v.join(f->rel);
        } else if (!rmw && o->vc)
            G.vcs[o->vc - 1].clear();
    }
}

static inline void
amem(Fiber* f, const volatile void* a, int size, bool write, uintptr_t pc)
{
    check_mem(f, (uintptr_t)a, write);
    if (G.opt.races && !f->quiet)
        race_check(f, (uintptr_t)a, size, write, true, pc);
}

template<typename T>
static inline T
a_load(const volatile T* a, int mo, uintptr_t pc)
{
    if (!g_active)
        return *a;
    Fiber* f = G.cur;
    uint8_t cl = cur_cls(f);
    if (sizeof(T) == 1 && is_guard(a)) {
        Obj* o = obj((void*)a, K_GUARD);
        acquire(f, o);
        return *a;
    }
    if (f->quiet || (f->mc && !G.opt.mcpoints)) {
        // no point
    } else if ((cl == C_REFQ && !G.opt.refpoints) || cl == C_REF) {
    } else {
        T v = *a;
        if (f->spin_addr == (void*)a && f->spin_val == (uint64_t)v) {
            if (++f->spin_n <= 1)
                point(f, (void*)a);
            else if (f->spin_n > 5000) {
                // spinning for long: somebody else has to run
                f->since = 1 << 20;
                point(f, (void*)a);
                f->spin_n = 0;
            }
        } else {
            f->spin_n = 0;
            point(f, (void*)a);
            f->spin_addr = (void*)a;
        }
    }
    amem(f, a, sizeof(T), false, pc);
    T v = *a;
    f->spin_val = (uint64_t)v;
    Obj* o = obj((void*)a);
    event(f, 10, o, false);
    sync_load(f, o, mo);
    if (G.tracing) {
        char b[64];
        snprintf(b, sizeof b, " = %llx", (unsigned long long)v);
        trace_op("load", (void*)a, b);
    }
    return v;
}

template<typename T>
static inline void
a_store(volatile T* a, T v, int mo, uintptr_t pc)
{
    if (!g_active) {
        *a = v;
        return;
    }
    Fiber* f = G.cur;
    f->spin_addr = nullptr;
    if (!(f->quiet || (f->mc && !G.opt.mcpoints)))
        point(f, (void*)a);
    amem(f, a, sizeof(T), true, pc);
    Obj* o = obj((void*)a);
    event(f, 11, o, true);
    sync_store(f, o, mo, false);
    *a = v;
    if (G.tracing) {
        char b[64];
        snprintf(b, sizeof b, " := %llx", (unsigned long long)v);
        trace_op("store", (void*)a, b);
    }
}

template<typename T, typename F>
static inline T
a_rmw(volatile T* a, int mo, uintptr_t pc, F fn, T operand, bool isadd)
{
    if (!g_active) {
        T o = *a;
        *a = fn(o);
        return o;
    }
    Fiber* f = G.cur;
    f->spin_addr = nullptr;
    uint8_t cl = cur_cls(f);
    bool local = false;
    if (cl == C_REF && isadd) {
        T cv = *a;
        // reference counts: additions commute, only the order of the last
        // two drops is observable
        bool inc = (typename std::make_signed<T>::type)operand > 0;
        local = inc || (typename std::make_signed<T>::type)cv > 2;
        if (!local && G.opt.refpoints && !f->quiet && !(f->mc && !G.opt.mcpoints))
            point(f, (void*)a);
    } else if (!(f->quiet || (f->mc && !G.opt.mcpoints)))
        point(f, (void*)a);
    amem(f, a, sizeof(T), true, pc);
    Obj* o = obj((void*)a);
    T ov = *a;
    *a = fn(ov);
    if (local)
        local_event(f, 12, (uintptr_t)a);
    else
        event(f, 13, o, true);
    sync_load(f, o, mo);
    sync_store(f, o, mo, true);
    if (G.tracing && !(cl == C_REF)) {
        char b[64];
        snprintf(b, sizeof b, " %llx -> %llx", (unsigned long long)ov, (unsigned long long)*a);
        trace_op("rmw", (void*)a, b);
    }
    return ov;
}

template<typename T>
static inline int
a_cas(volatile T* a, T* exp, T des, int mo, int fmo, bool weak, uintptr_t pc)
{
    if (!g_active) {
        if (*a == *exp) {
            *a = des;
            return 1;
        }
        *exp = *a;
        return 0;
    }
    Fiber* f = G.cur;
    f->spin_addr = nullptr;
    uint8_t cl = cur_cls(f);
    bool nopt = f->quiet || (f->mc && !G.opt.mcpoints) || (cl == C_REFQ && !G.opt.refpoints);
    if (!nopt)
        point(f, (void*)a);
    amem(f, a, sizeof(T), true, pc);
    Obj* o = obj((void*)a);
    T ov = *a;
    bool ok = ov == *exp;
    if (ok && weak && G.opt.weakcas && !nopt && cl != C_REFQ && cl != C_REF) {
        static const uint8_t cst[2] = { 0, 1 };
        if (decide(2, cst, 2, f->id + 1) == 1) {
            event(f, 15, o, false, 77);
            sync_load(f, o, fmo);
            trace_op("cas-spurious", (void*)a);
            return 0; // expected keeps its value, which equals the current one
        }
    }
    if (ok) {
        *a = des;
        event(f, 14, o, true);
        sync_load(f, o, mo);
        sync_store(f, o, mo, true);
    } else {
        event(f, 15, o, false);
        sync_load(f, o, fmo);
        *exp = ov;
    }
    if (G.tracing) {
        char b[64];
        snprintf(b, sizeof b, " %llx -> %llx %s", (unsigned long long)ov, (unsigned long long)des, ok ? "ok" : "failed");
        trace_op(weak ? "cas-weak" : "cas", (void*)a, b);
    }
    return ok;
}

static void
a_fence(int mo)
{
    if (!g_active)
        return;
    Fiber* f = G.cur;
    if (is_acq(mo))
        f->vc.join(f->acq);
    if (is_rel(mo)) {
        f->rel = f->vc;
        f->has_rel = true;
        tick(f);
    }
}

} // namespace xmc
using namespace xmc;

#define PC ((uintptr_t)__builtin_return_address(0))
#define X extern "C" __attribute__((visibility("default")))

X void __tsan_init() {}
X void __tsan_func_entry(void* call_pc)
{
    if (!g_active)
        return;
    Fiber* f = G.cur;
    uintptr_t pc = PC;
    uint8_t c = cls_of(pc);
    if (c == C_MC && !G.opt.mcpoints) {
        if (f->mc == 0 && !f->quiet)
            point(f, nullptr);
        f->mc++;
    }
    int n = f->nframe++;
    if (n < MAXFRAME) {
        f->frames[n].pc = pc;
        f->frames[n].call_pc = (uintptr_t)call_pc;
        f->frames[n].cls = c;
    } else if (n > 20000)
        violation("runaway recursion", "recursion deeper than 20000 frames");
}
X void __tsan_func_exit()
{
    if (!g_active)
        return;
    Fiber* f = G.cur;
    int n = --f->nframe;
    if (n < 0)
        f->nframe = 0;
    else if (n < MAXFRAME && f->frames[n].cls == C_MC && !G.opt.mcpoints)
        f->mc--;
}

#define RW(n)                                                                  \
    X void __tsan_read##n(void* a) { plain((uintptr_t)a, n, false, PC); }      \
    X void __tsan_write##n(void* a) { plain((uintptr_t)a, n, true, PC); }      \
    X void __tsan_read##n##_pc(void* a, void*) { plain((uintptr_t)a, n, false, PC); } \
    X void __tsan_write##n##_pc(void* a, void*) { plain((uintptr_t)a, n, true, PC); } \
    X void __tsan_volatile_read##n(void* a) { plain((uintptr_t)a, n, false, PC); } \
    X void __tsan_volatile_write##n(void* a) { plain((uintptr_t)a, n, true, PC); } \
    X void __tsan_unaligned_read##n(void* a) { plain((uintptr_t)a, n, false, PC); } \
    X void __tsan_unaligned_write##n(void* a) { plain((uintptr_t)a, n, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
X void __tsan_read_range(void* a, unsigned long n)
{
    if (n)
        plain((uintptr_t)a, n, false, PC);
}
X void __tsan_write_range(void* a, unsigned long n)
{
    if (n)
        plain((uintptr_t)a, n, true, PC);
}
X void __tsan_vptr_update(void** a, void* v)
{
    if (g_active && *a != v)
        plain((uintptr_t)a, 8, true, PC);
    else if (g_active)
        check_mem(G.cur, (uintptr_t)a, true);
}
X void __tsan_vptr_read(void** a) { plain((uintptr_t)a, 8, false, PC); }

#define ATOMICS(bits, T)                                                       \
    X T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return a_load<T>(a, mo, PC); } \
    X void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { a_store<T>(a, v, mo, PC); } \
    X T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo)            \
    {                                                                          \
        return a_rmw<T>(a, mo, PC, [v](T) { return v; }, v, false);            \
    }                                                                          \
    X T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo)           \
    {                                                                          \
        return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o + v); }, v, true);  \
    }                                                                          \
    X T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo)           \
    {                                                                          \
        return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o - v); }, (T)-v, true); \
    }                                                                          \
    X T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo)           \
    {                                                                          \
        return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o & v); }, v, false); \
    }                                                                          \
    X T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo)            \
    {                                                                          \
        return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o | v); }, v, false); \
    }                                                                          \
    X T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo)           \
    {                                                                          \
        return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o ^ v); }, v, false); \
    }                                                                          \
    X T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo)          \
    {                                                                          \
        return a_rmw<T>(a, mo, PC, [v](T o) { return (T) ~(o & v); }, v, false); \
    }                                                                          \
    X int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T d, int mo, int f) \
    {                                                                          \
        return a_cas<T>(a, e, d, mo, f, false, PC);                            \
    }                                                                          \
    X int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T d, int mo, int f) \
    {                                                                          \
        return a_cas<T>(a, e, d, mo, f, true, PC);                             \
    }                                                                          \
    X T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T d, int mo, int f) \
    {                                                                          \
        a_cas<T>(a, &e, d, mo, f, false, PC);                                  \
        return e;                                                              \
    }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
X void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
X void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------ heap
struct Hdr
{
    size_t size;
    uint32_t magic, arena;
};
constexpr uint32_t MAGIC = 0x584D4331;

static void
heap_boot()
{
    // reserve everything on first use (malloc is called before main)
    auto map = [](uintptr_t a, size_t n) {
        void* r = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (r != (void*)a) {
            static const char m[] = "xmc: cannot map memory\n";
            raw(SYS_write, 2, (long)m, sizeof m - 1);
            raw(SYS_exit_group, 3);
        }
    };
    map(GADDR, sizeof(RT));
    map(HEAP, (MAXT + 1) * ARENA);
    map(META, (MAXT + 1) * ARENA / 16);
    G.inited = true;
    for (int i = 0; i <= MAXT; i++)
        G.brk[i] = HEAP + i * ARENA;
}
static bool g_heap_up = false;

static void*
heap_alloc(size_t n, size_t align)
{
    if (!g_heap_up) {
        heap_boot();
        g_heap_up = true;
    }
    int ar = g_active && G.cur ? G.cur->id : MAXT;
    if (align < 16)
        align = 16;
    uintptr_t p = G.brk[ar];
    uintptr_t user = (p + sizeof(Hdr) + align - 1) & ~(align - 1);
    uintptr_t end = (user + n + 15) & ~15ull;
    if (end == user)
        end += 16;
    if (end > HEAP + (ar + 1) * ARENA - 64)
        return nullptr;
    G.brk[ar] = end;
    Hdr* h = (Hdr*)(user - sizeof(Hdr));
    h->size = n;
    h->magic = MAGIC;
    h->arena = ar;
    memset(meta(p), 3, (user - p) >> 4);
    memset(meta(user), 1, (end - user) >> 4);
    memset((void*)user, 0xA5, std::min<size_t>(n, 1 << 16));
    if (ar != MAXT)
        G.live++;
    return (void*)user;
}

static void
heap_free(void* p)
{
    if (!p || !g_heap_up)
        return;
    uintptr_t a = (uintptr_t)p;
    if (a < HEAP || a >= HEAP + (MAXT + 1) * ARENA)
        return;
    Hdr* h = (Hdr*)(a - sizeof(Hdr));
    if (h->magic != MAGIC || *meta(a) != 1) {
        if (g_active) {
            char fn[256], sig[300];
            lib_function(G.cur, fn, sizeof fn);
            snprintf(sig, sizeof sig, "double or invalid free in %s", fn);
            violation(sig, "double or invalid free of %p", p);
        }
        return;
    }
    size_t n = ((h->size + 15) & ~15ull);
    if (!n)
        n = 16;
    if (g_active) {
        Fiber* f = G.cur;
        if (G.opt.races && !f->quiet && h->size <= 4096)
            race_check(f, a, h->size, true, false, PC);
        // synchronisation objects in the block must be idle
        for (uintptr_t q = a; q < a + h->size && h->size <= 8192; q += 8) {
            Obj* o = find_obj((void*)q);
            if (!o)
                continue;
            if (o->kind == K_MUTEX && o->owner >= 0) {
                char fn[256], sig[300];
                lib_function(f, fn, sizeof fn);
                snprintf(sig, sizeof sig, "locked mutex released in %s", fn);
                violation(sig, "memory of a locked mutex is freed");
            }
            if (o->kind == K_COND && o->nwait > 0) {
                char fn[256], sig[300];
                lib_function(f, fn, sizeof fn);
                snprintf(sig, sizeof sig, "condition variable with waiters released in %s", fn);
                violation(sig, "memory of a condition variable with waiters is freed");
            }
            // the mutex may also have threads queued on it
            if (o->kind == K_MUTEX) {
                for (int i = 0; i < G.nf; i++)
                    if (G.f[i].used && !G.f[i].done && G.f[i].op == OP_LOCK && (uintptr_t)G.f[i].obj == q && &G.f[i] != f) {
                        char fn[256], sig[300];
                        lib_function(f, fn, sizeof fn);
                        snprintf(sig, sizeof sig, "mutex with waiting threads released in %s", fn);
                        violation(sig, "memory of a mutex is freed while T%d is about to lock it", i);
                    }
            }
        }
        if (h->arena != MAXT)
            G.live--;
    }
    memset(meta(a), 2, n >> 4);
}

X void* malloc(size_t n) { return heap_alloc(n, 16); }
X void free(void* p) { heap_free(p); }
X void* calloc(size_t a, size_t b)
{
    void* p = heap_alloc(a * b, 16);
    if (p)
        memset(p, 0, a * b);
    return p;
}
X void* realloc(void* p, size_t n)
{
    void* q = heap_alloc(n, 16);
    if (p && q) {
        Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
        memcpy(q, p, std::min(h->size, n));
        heap_free(p);
    }
    return q;
}
X int posix_memalign(void** out, size_t al, size_t n)
{
    *out = heap_alloc(n, al);
    return *out ? 0 : ENOMEM;
}
X void* aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al); }
X void* memalign(size_t al, size_t n) { return heap_alloc(n, al); }
X size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size : 0; }

// ------------------------------------------------------------ pthread
static inline Fiber*
self()
{
    return g_active ? G.cur : nullptr;
}

static uint64_t
abs_deadline(const timespec* ts)
{
    if (ts->tv_sec < 0)
        return 0;
    if ((uint64_t)ts->tv_sec > 10000000000ull)
        return NEVER - 1;
    return ts->tv_sec * 1000000000ull + ts->tv_nsec;
}
static bool
is_wall(clockid_t c)
{
    return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI;
}
// waits until a point in time of the wall clock, which may be set meanwhile
template<typename F>
static auto
wall_wait(const timespec* ts, clockid_t c, const F& wait)
{
    uint64_t d = abs_deadline(ts);
    Fiber* f = self();
    if (!f || !is_wall(c) || d > (uint64_t)INT64_MAX)
        return wait(d);
    d = (int64_t)d > G.wall ? d - G.wall : 0;
    f->wall = true;
    const auto r = wait(d);
    f->wall = false;
    return r;
}

static int
mutex_lock(pthread_mutex_t* m, uint64_t deadline, bool try_)
{
    Fiber* f = self();
    if (!f)
        return 0;
    check_mem(f, (uintptr_t)m, true);
    f->spin_addr = nullptr;
    Obj* o = obj(m, K_MUTEX);
    bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if (f->quiet)
        return 0;
    if (recursive && o->owner == f->id) {
        o->count++;
        return 0;
    }
    if (try_) {
        point(f, m);
        check_mem(f, (uintptr_t)m, true);
        if (o->owner >= 0) {
            event(f, 20, o, false);
            return EBUSY;
        }
    } else {
        block(f, OP_LOCK, m, recursive ? (void*)1 : nullptr, deadline);
        check_mem(f, (uintptr_t)m, true);
        if (f->timedout && o->owner >= 0) {
            event(f, 21, o, false);
            return ETIMEDOUT;
        }
    }
    o->owner = f->id;
    o->count = 1;
    event(f, 22, o, true);
    acquire(f, o);
    trace_op("lock", m);
    return 0;
}

X int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset(m, 0, sizeof *m);
    if (a) {
        int t = 0;
        pthread_mutexattr_gettype(a, &t);
        m->__data.__kind = t;
    }
    return 0;
}
X int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (g_active) {
        Obj* o = find_obj(m);
        if (o && o->owner >= 0)
            violation("locked mutex destroyed", "a locked mutex is destroyed");
    }
    return 0;
}
X int pthread_mutex_lock(pthread_mutex_t* m) { return mutex_lock(m, NEVER, false); }
X int pthread_mutex_trylock(pthread_mutex_t* m) { return mutex_lock(m, NEVER, true); }
X int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return wall_wait(t, CLOCK_REALTIME, [=](uint64_t d) { return mutex_lock(m, d, false); }); }
X int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const timespec* t) { return wall_wait(t, k, [=](uint64_t d) { return mutex_lock(m, d, false); }); }
X int pthread_mutex_unlock(pthread_mutex_t* m)
{
    Fiber* f = self();
    if (!f || f->quiet)
        return 0;
    check_mem(f, (uintptr_t)m, true);
    Obj* o = obj(m, K_MUTEX);
    f->spin_addr = nullptr;
    if (o->owner != f->id) {
        char fn[256], sig[300];
        lib_function(f, fn, sizeof fn);
        snprintf(sig, sizeof sig, "unlock of a mutex not owned in %s", fn);
        violation(sig, "T%d unlocks a mutex owned by T%d", f->id, o->owner);
    }
    if (--o->count > 0)
        return 0;
    event(f, 23, o, true);
    release(f, o);
    o->owner = -1;
    o->count = 0;
    trace_op("unlock", m);
    return 0;
}

static int
cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
{
    Fiber* f = self();
    if (!f)
        return 0;
    check_mem(f, (uintptr_t)c, true);
    point(f, c);
    Obj* co = obj(c, K_COND);
    Obj* mo = obj(m, K_MUTEX);
    if (mo->owner != f->id)
        violation("condition wait without the mutex", "cond_wait without holding the mutex");
    trace_op(deadline == NEVER ? "cond_wait" : "cond_timedwait", c);
    if (deadline != NEVER && deadline <= G.now) {
        // already expired: release and re-acquire
        event(f, 24, co, true);
        event(f, 23, mo, true);
        release(f, mo);
        mo->owner = -1;
        block(f, OP_LOCK, m);
        mo = obj(m, K_MUTEX);
        mo->owner = f->id;
        mo->count = 1;
        event(f, 22, mo, true, 3);
        acquire(f, mo);
        return ETIMEDOUT;
    }
    event(f, 24, co, true);
    event(f, 23, mo, true);
    release(f, mo);
    mo->owner = -1;
    mo->count = 0;
    co->nwait++;
    f->waitseq = ++G.waitseq;
    f->woken = false;
    f->op = OP_COND;
    f->obj = c;
    f->obj2 = m;
    f->deadline = deadline;
    f->timedout = false;
    f->incond = true;
    reschedule(f);
    f->incond = false;
    f->op = OP_NORMAL;
    f->deadline = NEVER;
    check_mem(f, (uintptr_t)m, true);
    mo = obj(m, K_MUTEX);
    if (mo->owner >= 0)
        violation("internal: mutex taken twice", "woken waiter found its mutex locked");
    mo->owner = f->id;
    mo->count = 1;
    bool to = f->timedout && !f->woken;
    event(f, 25, mo, true, to);
    acquire(f, mo);
    trace_op("woken", c, to ? " (timeout)" : "");
    f->timedout = false;
    return to ? ETIMEDOUT : 0;
}

static int
cond_signal(pthread_cond_t* c, bool all)
{
    Fiber* f = self();
    if (!f)
        return 0;
    check_mem(f, (uintptr_t)c, true);
    f->spin_addr = nullptr;
    point(f, c);
    check_mem(f, (uintptr_t)c, true);
    Obj* co = obj(c, K_COND);
    event(f, all ? 27 : 26, co, true);
    trace_op(all ? "notify_all" : "notify_one", c);
    Fiber* w[MAXT];
    int n = 0;
    for (int i = 0; i < G.nf; i++) {
        Fiber* t = &G.f[i];
        if (t->used && !t->done && t->op == OP_COND && t->obj == c)
            w[n++] = t;
    }
    if (!n)
        return 0;
    std::sort(w, w + n, [](Fiber* a, Fiber* b) { return a->waitseq < b->waitseq; });
    if (all) {
        for (int i = 0; i < n; i++) {
            w[i]->woken = true;
            cond_leave(w[i]);
        }
    } else {
        int k = 0;
        if (n > 1 && G.opt.notify_any) {
            uint8_t cst[MAXT];
            for (int i = 0; i < n; i++)
                cst[i] = i ? 1 : 0;
            k = decide(n, cst, 3, f->id + 1);
            if (k)
                event(f, 28, co, true, k);
        }
        w[k]->woken = true;
        cond_leave(w[k]);
    }
    return 0;
}

X int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    memset(c, 0, sizeof *c);
    return 0;
}
X int pthread_cond_destroy(pthread_cond_t* c)
{
    if (g_active) {
        Obj* o = find_obj(c);
        if (o && o->nwait > 0)
            violation("condition variable with waiters destroyed", "a condition variable with waiters is destroyed");
    }
    return 0;
}
X int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, NEVER); }
X int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return wall_wait(t, CLOCK_REALTIME, [=](uint64_t d) { return cond_wait(c, m, d); }); }
X int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { return wall_wait(t, k, [=](uint64_t d) { return cond_wait(c, m, d); }); }
X int pthread_cond_signal(pthread_cond_t* c) { return cond_signal(c, false); }
X int pthread_cond_broadcast(pthread_cond_t* c) { return cond_signal(c, true); }

// reader/writer locks
static int
rw_lock(pthread_rwlock_t* r, bool wr, uint64_t dl, bool try_)
{
    Fiber* f = self();
    if (!f || f->quiet)
        return 0;
    check_mem(f, (uintptr_t)r, true);
    f->spin_addr = nullptr;
    Obj* o = obj(r, K_RW);
    if (try_) {
        point(f, r);
        if (o->owner >= 0 || (wr && o->count > 0)) {
            event(f, 30, o, false);
            return EBUSY;
        }
    } else {
        block(f, wr ? OP_WRLOCK : OP_RDLOCK, r, nullptr, dl);
        if (o->owner >= 0 || (wr && o->count > 0)) {
            event(f, 31, o, false);
            return ETIMEDOUT;
        }
    }
    if (wr)
        o->owner = f->id;
    else
        o->count++;
    event(f, 32, o, true);
    acquire(f, o);
    trace_op(wr ? "wrlock" : "rdlock", r);
    return 0;
}
X int pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t*)
{
    memset(r, 0, sizeof *r);
    return 0;
}
X int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
X int pthread_rwlock_rdlock(pthread_rwlock_t* r) { return rw_lock(r, false, NEVER, false); }
X int pthread_rwlock_wrlock(pthread_rwlock_t* r) { return rw_lock(r, true, NEVER, false); }
X int pthread_rwlock_tryrdlock(pthread_rwlock_t* r) { return rw_lock(r, false, NEVER, true); }
X int pthread_rwlock_trywrlock(pthread_rwlock_t* r) { return rw_lock(r, true, NEVER, true); }
X int pthread_rwlock_timedrdlock(pthread_rwlock_t* r, const timespec* t) { return wall_wait(t, CLOCK_REALTIME, [=](uint64_t d) { return rw_lock(r, false, d, false); }); }
X int pthread_rwlock_timedwrlock(pthread_rwlock_t* r, const timespec* t) { return wall_wait(t, CLOCK_REALTIME, [=](uint64_t d) { return rw_lock(r, true, d, false); }); }
X int pthread_rwlock_unlock(pthread_rwlock_t* r)
{
    Fiber* f = self();
    if (!f || f->quiet)
        return 0;
    check_mem(f, (uintptr_t)r, true);
    Obj* o = obj(r, K_RW);
    event(f, 33, o, true);
    release(f, o);
    if (o->owner == f->id)
        o->owner = -1;
    else if (o->count > 0)
        o->count--;
    return 0;
}

// threads; pthread_t is the fiber id + 1
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
X int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*start)(void*), void* arg)
{
    Fiber* f = self();
    if (!f) {
        if (!real_create)
            real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
        return real_create(t, a, start, arg);
    }
    f->spin_addr = nullptr;
    static char thread_table;
    point(f, &thread_table);
    Obj* o = obj(&thread_table, K_OTHER);
    event(f, 40, o, true);
    if (G.create_cost) {
        uint8_t c[2] = { 0, (uint8_t)G.create_cost };
        if (G.create_cost < 0 || decide(2, c, 4, f->id + 1) == 1) {
            event(f, 42, o, true, 1);
            G.create_failed++;
            tracef("      -- pthread_create: EAGAIN\n");
            return EAGAIN;
        }
    }
    Fiber* n = new_fiber(start, arg);
    n->vc.join(f->vc);
    tick(f);
    n->chain = mix(n->chain, f->chain);
    *t = (pthread_t)(n->id + 1);
    trace_op("create", (void*)(uintptr_t)n->id);
    if (a) {
        int st = 0;
        pthread_attr_getdetachstate(a, &st);
        n->detached = st == PTHREAD_CREATE_DETACHED;
    }
    return 0;
}
X int pthread_join(pthread_t t, void** ret)
{
    Fiber* f = self();
    if (!f)
        return 0;
    int id = (int)t - 1;
    if (id < 0 || id >= G.nf)
        violation("join of an invalid thread", "join of thread %d", id);
    if (id == f->id)
        return EDEADLK;
    Fiber* o = &G.f[id];
    if (o->joined || o->detached)
        violation("thread joined twice", "join of a joined or detached thread");
    block(f, OP_JOIN, (void*)(uintptr_t)id);
    Obj* ob = obj(&o->done, K_OTHER);
    event(f, 41, ob, false);
    acquire(f, ob);
    o->joined = true;
    trace_op("join", (void*)(uintptr_t)id);
    if (ret)
        *ret = o->ret;
    return 0;
}
X int pthread_detach(pthread_t t)
{
    if (g_active && (int)t - 1 < G.nf)
        G.f[(int)t - 1].detached = true;
    return 0;
}
X pthread_t pthread_self()
{
    if (g_active)
        return (pthread_t)(G.cur->id + 1);
    static pthread_t (*real)();
    if (!real)
        real = (decltype(real))dlsym(RTLD_NEXT, "pthread_self");
    return real();
}
X int pthread_setname_np(pthread_t, const char*) { return 0; }

X int pthread_once(pthread_once_t* o, void (*fn)())
{
    Fiber* f = self();
    if (!f) {
        if (*o == PTHREAD_ONCE_INIT) {
            *o = 1;
            fn();
        }
        return 0;
    }
    if (*o == 2) {
        acquire(f, obj(o, K_GUARD));
        return 0;
    }
    block(f, OP_ONCE, o);
    Obj* ob = obj(o, K_GUARD);
    event(f, 42, ob, true);
    acquire(f, ob);
    if (*o == 2)
        return 0;
    ob->owner = f->id;
    fn();
    ob->owner = -1;
    *o = 2;
    event(f, 43, ob, true);
    release(f, ob);
    return 0;
}

// pthread keys: real keys before the executions start, own storage inside
static bool g_key_used[64];
X int pthread_key_create(pthread_key_t* k, void (*)(void*))
{
    for (int i = 0; i < 64; i++)
        if (!g_key_used[i]) {
            g_key_used[i] = true;
            *k = i;
            return 0;
        }
    return EAGAIN;
}
X int pthread_key_delete(pthread_key_t k)
{
    g_key_used[k] = false;
    return 0;
}
static const void* g_spec[64];
X void* pthread_getspecific(pthread_key_t k)
{
    Fiber* f = self();
    return (void*)(f ? f->spec[k & 63] : g_spec[k & 63]);
}
X int pthread_setspecific(pthread_key_t k, const void* v)
{
    Fiber* f = self();
    (f ? f->spec : g_spec)[k & 63] = v;
    return 0;
}

// semaphores
static int
sem_take(sem_t* s, uint64_t dl, bool try_)
{
    Fiber* f = self();
    if (!f)
        return 0;
    check_mem(f, (uintptr_t)s, true);
    f->spin_addr = nullptr;
    Obj* o = obj(s, K_SEM);
    if (try_)
        point(f, s);
    else
        block(f, OP_SEM, s, nullptr, dl);
    if (o->count <= 0) {
        event(f, 50, o, false);
        errno = try_ ? EAGAIN : ETIMEDOUT;
        return -1;
    }
    o->count--;
    event(f, 51, o, true);
    acquire(f, o);
    trace_op("sem_wait", s);
    return 0;
}
X int sem_init(sem_t* s, int, unsigned v)
{
    if (g_active)
        obj(s, K_SEM)->count = v;
    return 0;
}
X int sem_destroy(sem_t*) { return 0; }
X int sem_wait(sem_t* s) { return sem_take(s, NEVER, false); }
X int sem_trywait(sem_t* s) { return sem_take(s, NEVER, true); }
X int sem_timedwait(sem_t* s, const timespec* t) { return wall_wait(t, CLOCK_REALTIME, [=](uint64_t d) { return sem_take(s, d, false); }); }
X int sem_clockwait(sem_t* s, clockid_t k, const timespec* t) { return wall_wait(t, k, [=](uint64_t d) { return sem_take(s, d, false); }); }
X int sem_post(sem_t* s)
{
    Fiber* f = self();
    if (!f)
        return 0;
    check_mem(f, (uintptr_t)s, true);
    point(f, s);
    Obj* o = obj(s, K_SEM);
    o->count++;
    event(f, 52, o, true);
    release(f, o);
    trace_op("sem_post", s);
    return 0;
}

// ------------------------------------------------------------ C++ runtime
X int __cxa_guard_acquire(uint64_t* g)
{
    char* b = (char*)g;
    if (*b)
        return 0;
    Fiber* f = self();
    if (!f)
        return 1;
    Obj* o = obj(g, K_GUARD);
    if (o->owner == f->id)
        violation("recursive static initialisation", "recursive static initialisation");
    block(f, OP_GUARD, g);
    event(f, 60, o, true);
    acquire(f, o);
    if (*b)
        return 0;
    o->owner = f->id;
    return 1;
}
X void __cxa_guard_release(uint64_t* g)
{
    *(char*)g = 1;
    Fiber* f = self();
    if (!f)
        return;
    Obj* o = obj(g, K_GUARD);
    event(f, 61, o, true);
    release(f, o);
    o->owner = -1;
}
X void __cxa_guard_abort(uint64_t* g)
{
    if (g_active)
        obj(g, K_GUARD)->owner = -1;
}
X int __cxa_thread_atexit(void (*fn)(void*), void* arg, void*)
{
    Fiber* f = self();
    if (f && f->ndtor < 32)
        f->dtors[f->ndtor++] = TlsDtor{ fn, arg };
    return 0;
}
X int __cxa_thread_atexit_impl(void (*fn)(void*), void* arg, void* d) { return __cxa_thread_atexit(fn, arg, d); }

X void abort()
{
    if (g_active) {
        char fn[256], sig[300];
        lib_function(G.cur, fn, sizeof fn);
        snprintf(sig, sizeof sig, "abort in %s", fn);
        violation(sig, "abort() called");
    }
    raw(SYS_kill, raw(SYS_getpid), SIGABRT);
    raw(SYS_exit_group, 134);
    __builtin_unreachable();
}
X void __assert_fail(const char* what, const char* file, unsigned line, const char*)
{
    if (g_active) {
        char fn[256], sig[300];
        lib_function(G.cur, fn, sizeof fn);
        snprintf(sig, sizeof sig, "assertion failed in %s", fn);
        violation(sig, "assertion failed: %.200s (%s:%u)", what, file, line);
    }
    abort();
}
static void
on_terminate()
{
    if (g_active) {
        char fn[256], sig[500];
        lib_function(G.cur, fn, sizeof fn);
        const char* ex = "";
        std::type_info* ti = abi::__cxa_current_exception_type();
        if (ti)
            ex = ti->name();
        if (*ex && G.allow_term)
            finish();
        snprintf(sig, sizeof sig, "terminate in %s%s%s", fn, *ex ? " on exception " : "", ex);
        violation(sig, "std::terminate called");
    }
    raw(SYS_exit_group, 134);
    __builtin_unreachable();
}
// statics are only destroyed by exit_process()
X int __cxa_atexit(void (*fn)(void*), void* arg, void*)
{
    if (!g_active)
        return 0;
    if (G.nstatics == 256)
        violation("internal: too many static objects", "too many static objects");
    G.statics[G.nstatics++] = TlsDtor{ fn, arg };
    return 0;
}
// ------------------------------------------------------------ time & system
X int clock_gettime(clockid_t c, timespec* ts) noexcept
{
    if (!g_active)
        return raw(SYS_clock_gettime, c, (long)ts);
    uint64_t t = G.now + (is_wall(c) ? G.wall : 0);
    ts->tv_sec = t / 1000000000ull;
    ts->tv_nsec = t % 1000000000ull;
    return 0;
}
X int gettimeofday(timeval* tv, void*) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
X time_t time(time_t* t) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
static int
do_sleep(uint64_t deadline)
{
    Fiber* f = self();
    f->spin_addr = nullptr;
    if (deadline <= G.now) {
        point(f, nullptr);
        local_event(f, 70, 0);
        return 0;
    }
    trace_op("sleep", nullptr);
    local_event(f, 70, deadline);
    block(f, OP_SLEEP, nullptr, nullptr, deadline);
    local_event(f, 71, G.now);
    return 0;
}
X int nanosleep(const timespec* ts, timespec*)
{
    if (!g_active)
        return raw(SYS_nanosleep, (long)ts, 0);
    return do_sleep(G.now + abs_deadline(ts));
}
X int clock_nanosleep(clockid_t c, int flags, const timespec* ts, timespec*)
{
    if (!g_active)
        return raw(SYS_clock_nanosleep, c, flags, (long)ts, 0);
    if (!(flags & TIMER_ABSTIME))
        return do_sleep(G.now + abs_deadline(ts));
    return wall_wait(ts, c, [](uint64_t d) { return do_sleep(d); });
}
X int usleep(useconds_t us)
{
    if (!g_active)
        return 0;
    return do_sleep(G.now + us * 1000ull);
}
X unsigned sleep(unsigned s)
{
    if (!g_active)
        return 0;
    return do_sleep(G.now + s * 1000000000ull);
}
X int sched_yield() noexcept
{
    Fiber* f = self();
    if (!f)
        return 0;
    // yielding is modelled as a very short sleep: everybody else may run first
    f->spin_addr = nullptr;
    local_event(f, 72, 0);
    point(f, nullptr);
    return 0;
}
X long sysconf(int n) noexcept
{
    if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)
        return g_active ? G.opt.cpus : 1;
    static long (*real)(int);
    if (!real)
        real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    return real(n);
}
X char* getenv(const char* name) noexcept
{
    const size_t n = strlen(name);
    if (g_active) {
        for (int i = 0; i < G.nenv; i++)
            if (!strcmp(G.env[i].name, name))
                return (char*)G.env[i].value;
        // the environment of the check must not make a difference
        if (!strncmp(name, "XDISPATCH", 9))
            return nullptr;
    }
    for (char** e = ::environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=')
            return *e + n + 1;
    return nullptr;
}
X char* secure_getenv(const char* name) noexcept { return getenv(name); }
X int setpriority(int, unsigned, int) noexcept { return 0; }
X int getpriority(int, unsigned) noexcept { return 0; }
X int prctl(int, ...) noexcept { return 0; }

// waits for the sockets in f->sel; the number of those that are ready, -1 with
// errno set, or -2 if one of them is not open
static int
wait_for_sockets(Fiber* f, uint64_t dl)
{
    G.nselect++;
    f->spin_addr = nullptr;
    static char sock_obj;
    point(f, &sock_obj);
    Obj* o = obj(&sock_obj, K_OTHER);
    event(f, 80, o, false);
    trace_op("select", (void*)(intptr_t)(f->nsel ? f->sel[0].fd : -1));
    if (G.eintr_cost) {
        uint8_t c[2] = { 0, (uint8_t)G.eintr_cost };
        if (decide(2, c, 4, f->id + 1) == 1) {
            event(f, 81, o, false, 1);
            errno = EINTR;
            tracef("      -- select: EINTR\n");
            return -1;
        }
    }
    // a socket that is already closed fails at once; closing it while select()
    // is blocked does not wake it up (as on Linux)
    for (int i = 0; i < f->nsel; i++)
        if (sock_closed(f->sel[i].fd)) {
            event(f, 82, o, false, 2);
            return -2;
        }
    block(f, OP_SELECT, &sock_obj, nullptr, dl);
    event(f, 83, o, false);
    int n = 0;
    for (int k = 0; k < f->nsel; k++) {
        f->sel[k].revents = 0;
        for (int i = 0; i < G.nsocks; i++)
            if (G.socks[i].fd == f->sel[k].fd)
                f->sel[k].revents = f->sel[k].events & ((G.socks[i].r ? POLLIN : 0) | (G.socks[i].w ? POLLOUT : 0));
        n += f->sel[k].revents != 0;
    }
    return n;
}
// an fd_set may be one of several in a row
static bool
fd_bit(const fd_set* s, int i)
{
    return s && ((const unsigned long*)s)[i / 64] >> (i % 64) & 1;
}
static int
do_select(Fiber* f, int nfds, fd_set* r, fd_set* w, fd_set* e, uint64_t dl)
{
    f->nsel = 0;
    for (int i = 0; i < nfds && f->nsel < 8; i++) {
        const short ev = (fd_bit(r, i) ? POLLIN : 0) | (fd_bit(w, i) ? POLLOUT : 0);
        if (ev || fd_bit(e, i))
            f->sel[f->nsel++] = { i, ev, 0 };
    }
    const int n = wait_for_sockets(f, dl);
    if (n < 0) {
        if (n == -2)
            errno = EBADF;
        return -1;
    }
    for (fd_set* s : { r, w, e })
        if (s)
            for (int i = 0; i < nfds; i += 64)
                ((unsigned long*)s)[i / 64] = 0;
    int bits = 0;
    for (int k = 0; k < f->nsel; k++) {
        const int fd = f->sel[k].fd;
        if (f->sel[k].revents & POLLIN) {
            ((unsigned long*)r)[fd / 64] |= 1ul << (fd % 64);
            bits++;
        }
        if (f->sel[k].revents & POLLOUT) {
            ((unsigned long*)w)[fd / 64] |= 1ul << (fd % 64);
            bits++;
        }
    }
    return bits;
}
static int
do_poll(Fiber* f, struct pollfd* p, nfds_t n, uint64_t dl)
{
    f->nsel = 0;
    for (nfds_t i = 0; i < n && f->nsel < 8; i++) {
        p[i].revents = 0;
        if (p[i].fd < 0)
            continue;
        const short ev = (p[i].events & (POLLIN | POLLRDNORM) ? POLLIN : 0) | (p[i].events & (POLLOUT | POLLWRNORM) ? POLLOUT : 0);
        f->sel[f->nsel++] = { p[i].fd, ev, 0 };
    }
    const int res = wait_for_sockets(f, dl);
    if (res == -1)
        return -1;
    int ready = 0;
    for (nfds_t i = 0; i < n; i++) {
        if (p[i].fd < 0)
            continue;
        if (sock_closed(p[i].fd))
            p[i].revents = POLLNVAL;
        else if (res > 0)
            for (int k = 0; k < f->nsel; k++)
                if (f->sel[k].fd == p[i].fd)
                    p[i].revents |= f->sel[k].revents & (p[i].events | (p[i].events & POLLRDNORM ? POLLIN : 0) | (p[i].events & POLLWRNORM ? POLLOUT : 0));
        ready += p[i].revents != 0;
    }
    return ready;
}
X int select(int nfds, fd_set* r, fd_set* w, fd_set* e, timeval* tv)
{
    Fiber* f = self();
    if (!f)
        return raw(SYS_select, nfds, (long)r, (long)w, (long)e, (long)tv);
    return do_select(f, nfds, r, w, e, tv ? G.now + tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull : NEVER);
}
X int pselect(int nfds, fd_set* r, fd_set* w, fd_set* e, const timespec* ts, const sigset_t*)
{
    Fiber* f = self();
    if (!f)
        return raw(SYS_pselect6, nfds, (long)r, (long)w, (long)e, (long)ts, 0);
    return do_select(f, nfds, r, w, e, ts ? G.now + abs_deadline(ts) : NEVER);
}
X int poll(struct pollfd* p, nfds_t n, int ms)
{
    Fiber* f = self();
    if (!f)
        return raw(SYS_poll, (long)p, n, ms);
    return do_poll(f, p, n, ms < 0 ? NEVER : G.now + ms * 1000000ull);
}
X int ppoll(struct pollfd* p, nfds_t n, const timespec* ts, const sigset_t*)
{
    Fiber* f = self();
    if (!f)
        return raw(SYS_ppoll, (long)p, n, (long)ts, 0);
    return do_poll(f, p, n, ts ? G.now + abs_deadline(ts) : NEVER);
}
X long xmc_fd_elt(long fd)
{
    if (fd >= FD_SETSIZE && self())
        violation("fd_set overflow", "socket %ld does not fit into an fd_set of %d sockets", fd, FD_SETSIZE);
    return fd / (8 * (long)sizeof(long));
}

// ------------------------------------------------------------ harness API
namespace xmc {
int
choose(int n, int cost)
{
    if (!g_active || n <= 1)
        return 0;
    uint8_t c[256];
    for (int i = 0; i < n && i < 256; i++)
        c[i] = i ? cost : 0;
    int r = decide(std::min(n, 256), c, 5, G.cur->id + 1);
    local_event(G.cur, 90, r + 1);
    tracef("      -- T%d chose %d of %d\n", G.cur->id, r, n);
    return r;
}
static char g_log_obj;
void
visible(const void* o)
{
    if (!g_active)
        return;
    Fiber* f = G.cur;
    f->spin_addr = nullptr;
    if (!o)
        o = &g_log_obj;
    point(f, o);
    event(f, 91, obj(o, K_OTHER), true);
}
int
ev(int kind, int a, int b)
{
    if (!g_active)
        return -1;
    Fiber* f = G.cur;
    f->spin_addr = nullptr;
    point(f, &g_log_obj);
    event(f, 92, obj(&g_log_obj, K_OTHER), true, mix(kind, (uint64_t)a << 32 ^ (uint32_t)b));
    if (G.nevs >= MAXEV)
        violation("internal: event log full", "event log full");
    G.evs[G.nevs] = Event{ kind, a, b, f->id, G.now };
    tracef("%5llu T%d EVENT kind=%d a=%d b=%d t=%llums\n", (unsigned long long)G.steps, f->id, kind, a, b, (unsigned long long)(G.now / MS));
    return G.nevs++;
}
const Event* events() { return G.evs; }
int nevents() { return G.nevs; }
int
count(int kind)
{
    int n = 0;
    for (int i = 0; i < G.nevs; i++)
        n += G.evs[i].kind == kind;
    return n;
}
int
count(int kind, int a)
{
    int n = 0;
    for (int i = 0; i < G.nevs; i++)
        n += G.evs[i].kind == kind && G.evs[i].a == a;
    return n;
}
int
find(int kind, int a, int b)
{
    for (int i = 0; i < G.nevs; i++)
        if (G.evs[i].kind == kind && (a == -1 || G.evs[i].a == a) && (b == -2147483647 || G.evs[i].b == b))
            return i;
    return -1;
}
void
quiesce(uint64_t ns)
{
    if (!g_active)
        return;
    Fiber* f = G.cur;
    f->spin_addr = nullptr;
    local_event(f, 93, ns);
    block(f, OP_QUIESCE, nullptr, nullptr, G.now + ns);
    local_event(f, 94, G.now);
    // everything that happened is visible to the observer
    for (int i = 0; i < G.nf; i++)
        f->vc.join(G.f[i].vc);
    event(f, 95, obj(&g_log_obj, K_OTHER), true);
}
uint64_t now() { return G.now; }
void
outcome(uint64_t h)
{
    G.out->outcome = G.out->has_outcome ? mix(G.out->outcome, h) : mix(7, h);
    G.out->has_outcome = true;
}
void
note(const char* fmt, ...)
{
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    size_t l = strlen(G.notes);
    snprintf(G.notes + l, sizeof G.notes - l, "%s%s", l ? "; " : "", b);
    tracef("      -- note: %s\n", b);
}
int tid() { return g_active ? G.cur->id : -1; }
Quiet::Quiet()
{
    if (g_active)
        G.cur->quiet++;
}
Quiet::~Quiet()
{
    if (g_active)
        G.cur->quiet--;
}
int
threads_alive()
{
    int n = 0;
    for (int i = 0; i < G.nf; i++)
        n += !G.f[i].done;
    return n;
}
int
blocked_on_time()
{
    int n = 0;
    for (int i = 0; i < G.nf; i++)
        n += timed(&G.f[i]);
    return n;
}
static void
sock_store(int fd, bool r, bool w, bool closed)
{
    int i = 0;
    while (i < G.nsocks && G.socks[i].fd != fd)
        i++;
    if (i == G.nsocks && G.nsocks < 16)
        G.nsocks++;
    G.socks[i] = SockState{ fd, r, w, closed };
    tracef("      -- socket %d: readable=%d writable=%d closed=%d\n", fd, r, w, closed);
}
void
sock_set(int fd, bool r, bool w, bool closed)
{
    visible();
    sock_store(fd, r, w, closed);
}
void
sock_update(int fd, bool (*readable)(void*), void* arg)
{
    visible();
    sock_store(fd, readable(arg), false, false);
}
int select_calls() { return G.nselect; }
void
exit_process()
{
    visible();
    tracef("      -- exit\n");
    run_dtors(G.cur);
    while (G.nstatics > 0) {
        visible();
        TlsDtor d = G.statics[--G.nstatics];
        d.fn(d.arg);
    }
    visible();
    finish();
}
void
set_wall_clock(long long ms)
{
    visible();
    G.wall += ms * 1000000ll;
    tracef("      -- wall clock set %s by %lld ms\n", ms < 0 ? "back" : "forward", ms < 0 ? -ms : ms);
    for (int i = 0; i < G.nf; i++)
        if (G.f[i].used && !G.f[i].done && G.f[i].wall && G.f[i].deadline != NEVER)
            G.f[i].deadline = (int64_t)G.f[i].deadline > ms * 1000000ll ? G.f[i].deadline - ms * 1000000ll : 0;
}
void sock_faults(int c) { G.eintr_cost = c; }
void
set_env(const char* name, const char* value)
{
    int i = 0;
    while (i < G.nenv && strcmp(G.env[i].name, name))
        i++;
    if (i == 8)
        violation("internal: too many environment variables", "too many environment variables");
    G.env[i] = { name, value };
    G.nenv += i == G.nenv;
}
void thread_faults(int c) { G.create_cost = c; }
int thread_failures() { return G.create_failed; }
void allow_terminate(bool b) { G.allow_term = b; }
int heap_live() { return G.live; }

// ------------------------------------------------------------ init / run
static void*
parked(void*)
{
    uintptr_t fs = get_fs();
    int i = __atomic_fetch_add(&G.nf, 1, __ATOMIC_SEQ_CST);
    G.park_fs[i] = fs;
    while (true)
        raw(SYS_pause);
    return nullptr;
}

static int
phdr_cb(dl_phdr_info* info, size_t, void* data)
{
    auto* sum = (size_t*)data;
    for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_TLS)
            *sum += info->dlpi_phdr[i].p_memsz + info->dlpi_phdr[i].p_align;
    return 0;
}

static void
on_signal(int sig, siginfo_t* si, void* ucv)
{
    auto* uc = (ucontext_t*)ucv;
    if (sig == SIGALRM) {
        if (!g_active || !G.exec_start)
            return;
        if (rt_wall_ns() - G.exec_start < (uint64_t)G.hang_limit * 1000000000ull)
            return;
        sigset_t s;
        sigemptyset(&s);
        sigprocmask(SIG_SETMASK, &s, nullptr);
        char fn[256];
        lib_function(G.cur, fn, sizeof fn);
        snprintf(G.out->sig, sizeof G.out->sig, "hang: endless loop without synchronisation in %s", fn);
        snprintf(G.out->msg, sizeof G.out->msg, "%s", G.out->sig);
        end_exec(ST_HANG);
    }
    if (g_active) {
        sigset_t s;
        sigemptyset(&s);
        sigprocmask(SIG_SETMASK, &s, nullptr);
        char fn[256], sg[300];
        uintptr_t a = (uintptr_t)si->si_addr;
        lib_function(G.cur, fn, sizeof fn);
        bool so = a >= G.cur->lo - 8192 && a < G.cur->lo + 4096;
        snprintf(sg, sizeof sg, "%s in %s", so ? "stack overflow" : sig == SIGSEGV || sig == SIGBUS ? "invalid memory access" : "fatal signal", fn);
        violation(sg, "signal %d at address %p, pc %p", sig, si->si_addr, (void*)uc->uc_mcontext.gregs[REG_RIP]);
    }
    raw(SYS_write, 2, (long)"xmc: internal crash\n", 20);
    char b[128];
    int n = snprintf(b, sizeof b, "signal %d addr %p pc %p\n", sig, si->si_addr, (void*)uc->uc_mcontext.gregs[REG_RIP]);
    raw(SYS_write, 2, (long)b, n);
    raw(SYS_exit_group, 4);
}

int
rt_hang_limit(int s)
{
    int o = G.hang_limit;
    G.hang_limit = s;
    return o;
}

void
rt_init()
{
    if (!g_heap_up) {
        heap_boot();
        g_heap_up = true;
    }
    G.main_fs = get_fs();
    {
        // is wrfsbase usable?
        FILE* f = nullptr;
        (void)f;
        unsigned long hw = 0;

        char** e = ::environ;
        while (*e)
            e++;
        auto* av = (Elf64_auxv_t*)(e + 1);
        for (; av->a_type != AT_NULL; av++)
            if (av->a_type == AT_HWCAP2)
                hw = av->a_un.a_val;
        G.fsgsbase = hw & 2;
    }
    __libc_single_threaded = 0;
    void* r = mmap((void*)STK, MAXT * STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (void*)STK) {
        fprintf(stderr, "xmc: cannot map stacks\n");
        _exit(3);
    }
    for (int i = 0; i < MAXT; i++)
        mprotect((void*)(STK + i * STKSZ), 4096, PROT_NONE);
    G.trace = (char*)mmap(nullptr, TRACECAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    load_symbols();
    // parked threads provide the TLS blocks
    G.nf = 0;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 128 * 1024);
    for (int i = 0; i < MAXT; i++) {
        pthread_t t;
        if (pthread_create(&t, &at, parked, nullptr)) {
            fprintf(stderr, "xmc: cannot create threads\n");
            _exit(3);
        }
        while (__atomic_load_n(&G.nf, __ATOMIC_SEQ_CST) <= i)
            raw(SYS_sched_yield);
    }
    G.nf = 0;
    size_t tls = 0;
    dl_iterate_phdr(phdr_cb, &tls);
    G.tls_below = (tls + 63) & ~63ull;
    G.tls_above = 2304; // struct pthread
    std::set_terminate(on_terminate);
    G.stack_alt = (char*)mmap(nullptr, 256 * 1024, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    G.hang_limit = 20;
}

static void
add_region(char* a, size_t n)
{
    Region& r = G.reg[G.nreg++];
    r.addr = a;
    r.len = n;
    r.copy = (char*)mmap(nullptr, (n + 4095) & ~4095ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}

// must be called in the process that runs executions (after clone)
void
rt_worker_init()
{
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = G.stack_alt;
    ss.ss_size = 256 * 1024;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM })
        sigaction(s, &sa, nullptr);
    itimerval it;
    it.it_interval.tv_sec = 1;
    it.it_interval.tv_usec = 0;
    it.it_value = it.it_interval;
    setitimer(ITIMER_REAL, &it, nullptr);
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0 && !getenv("XMC_STDERR")) {
        dup2(fd, 2);
        close(fd);
    }
}

void
rt_snapshot()
{
    // writable data of the program and of the C library
    add_region(&__data_start, &_end - &__data_start);
    FILE* m = fopen("/proc/self/maps", "r");
    char line[1024];
    while (fgets(line, sizeof line, m)) {
        unsigned long lo, hi;
        char perm[8], path[512] = "";
        if (sscanf(line, "%lx-%lx %7s %*s %*s %*s %511s", &lo, &hi, perm, path) < 3)
            continue;
        if (perm[1] != 'w')
            continue;
        if ((strstr(path, "libc.so") || strstr(path, "libm.so")) && perm[0] == 'r')
            add_region((char*)lo, hi - lo);
    }
    fclose(m);
    for (int i = 0; i < MAXT; i++)
        add_region((char*)(G.park_fs[i] - G.tls_below), G.tls_below + G.tls_above);
    G.boot_end = G.brk[MAXT];
    add_region((char*)(HEAP + MAXT * ARENA), G.boot_end - (HEAP + MAXT * ARENA));
    add_region((char*)meta(HEAP + MAXT * ARENA), (G.boot_end - (HEAP + MAXT * ARENA)) / 16);
    for (int i = 0; i < G.nreg; i++)
        memcpy(G.reg[i].copy, G.reg[i].addr, G.reg[i].len);
}

void
rt_run(const Scenario* s, const Dev* devs, int ndevs, SeenFn seen, bool trace, RunResult* out)
{
    // restore the initial memory; the TLS regions of unused threads are clean
    int tlsfirst = -1;
    for (int i = 0; i < G.nreg; i++) {
        Region& r = G.reg[i];
        if (r.addr == (char*)(G.park_fs[0] - G.tls_below))
            tlsfirst = i;
        if (tlsfirst >= 0 && i >= tlsfirst && i < tlsfirst + MAXT && i - tlsfirst >= G.nf)
            continue;
        memcpy(r.addr, r.copy, r.len);
    }
    // clear the heap metadata of the last execution
    for (int i = 0; i < MAXT; i++) {
        uintptr_t b = HEAP + i * ARENA;
        if (G.brk[i] > b)
            memset(meta(b), 0, ((G.brk[i] - b) >> 4) + 1);
        G.brk[i] = b;
    }
    G.brk[MAXT] = G.boot_end;
    G.sc = s;
    G.opt = s->opt;
    G.nf = 0;
    G.now = 1000000000ull * 1000; // an arbitrary origin
    G.total = 0;
    G.noev = 0;
    G.cost = 0;
    G.devs = devs;
    G.ndevs = ndevs;
    G.nextdev = 0;
    G.seen = seen;
    G.npt = 0;
    G.ncosts = 0;
    G.steps = 0;
    G.nobj = 0;
    G.nvc = 0;
    G.nline = 0;
    G.evict = 0;
    G.live = 0;
    G.nevs = 0;
    G.nsocks = 0;
    G.nselect = 0;
    G.eintr_cost = 0;
    G.create_cost = G.create_failed = 0;
    G.nstatics = 0;
    G.nenv = 0;
    G.wall = 1600000000ll * 1000000000ll;
    G.allow_term = false;
    G.waitseq = 0;
    G.out = out;
    G.fresh_states = 0;
    G.fresh_steps = 0;
    G.tracing = trace;
    G.tracelen = 0;
    G.trace[0] = 0;
    G.trace_last = 0;
    G.trace_rep = 0;
    G.notes[0] = 0;
    G.ending = false;
    if (++G.epoch == 0) {
        memset((void*)G.oidx, 0, sizeof G.oidx);
        memset((void*)G.lidx, 0, sizeof G.lidx);
        G.epoch = 1;
    }
    out->status = ST_ERROR;
    out->sig[0] = out->msg[0] = 0;
    out->has_outcome = false;
    out->outcome = 0;
    Fiber* f = new_fiber(nullptr, nullptr);
    G.cur = f;
    G.exec_start = rt_wall_ns();
    g_active = true;
    set_fs(f->fs);
    xmc_switch(&G.expl_sp, f->sp);
    // back here via end_exec
    g_active = false;
    G.exec_start = 0;
    if (out->status != ST_DIVERGED && out->status != ST_HANG && G.nextdev < G.ndevs && out->status != ST_VIOLATION) {
        out->status = ST_DIVERGED;
        snprintf(out->msg, sizeof out->msg, "execution ended before all choices of the prefix were used");
    }
    out->cost = G.cost;
    out->npt = G.npt;
    out->pts = G.pts;
    out->costs = G.costs;
    out->steps = G.steps;
    out->threads = G.nf;
    out->vtime = G.now - 1000000000000ull;
    out->fresh_states = G.fresh_states;
    out->fresh_steps = G.fresh_steps;
    out->hash = mix(G.total, G.now);
    if (out->status == ST_DIVERGED && !out->sig[0])
        snprintf(out->sig, sizeof out->sig, "diverged");
}
} // namespace xmc
