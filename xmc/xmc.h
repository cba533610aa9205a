// xmc - a stateless model checker for multi-threaded C++ code.
// Interface used by the harnesses.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
#include <string>

namespace xmc {

// what happens to data races found by the happens-before detector
enum Races { R_OFF = 0, R_ON = 1 };

struct Options
{
    int bound = 2;          // maximum number of deviations (quick tier), -1: not part of it
    int bound_thorough = 3; // ... (thorough tier)
    bool races = false;     // run the happens-before race detector
    bool free_block = false; // choosing another thread when the running one blocked is free
    bool timedev = true;    // "the earliest sleeper wakes although others could run" is a deviation
    int timedev_max_ms = 2000; // ... only for sleepers that are due within this time
    bool spurious = false;  // spurious condition variable wake-ups are a deviation
    bool weakcas = true;    // spurious failure of compare_exchange_weak is a deviation
    bool mcpoints = false;  // scheduling points inside of moodycamel::ConcurrentQueue
    bool refpoints = true;  // scheduling points at the last shared_ptr reference drops
    int cpus = 1;           // answer of sysconf(_SC_NPROCESSORS_ONLN)
    int max_steps = 20000;  // visible operations per execution
    bool noreduce = false;  // disable state caching
    bool nodeadlock = false; // executions where nothing can run anymore are fine
    int notify_any = 1;     // notify_one may pick any waiter (as a deviation)
    const char* about = ""; // one line for the evidence
    int threads = 0;        // (documentation) number of harness threads
    int quick_cap_s = 0;    // time cap of this scenario in the quick tier (0: default)
};

struct Scenario
{
    const char* property;
    const char* name;
    void (*fn)();
    Options opt;
    Scenario* next;
};
extern Scenario* g_scenarios;
struct Registrar
{
    Scenario s;
    Registrar(const char* prop, const char* name, void (*fn)(), const Options& o)
      : s{ prop, name, fn, o, nullptr }
    {
        s.next = g_scenarios;
        g_scenarios = &s;
    }
};

// ---- available inside of a scenario ------------------------------------
// reports a violation of the property and ends the execution
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define XCHECK(c, ...)                                                         \
    do {                                                                       \
        if (!(c))                                                              \
            ::xmc::fail(__VA_ARGS__);                                          \
    } while (0)
// ends the execution successfully, now
[[noreturn]] void finish();
// environment / input choice 0..n-1; each alternative costs 'cost' deviations
int choose(int n, int cost = 0);
// a visible operation on a harness object
void visible(const void* obj = nullptr);
// appends to the global event log (a visible operation); returns the position
int ev(int kind, int a = 0, int b = 0);
struct Event
{
    int kind, a, b;
    int tid;
    uint64_t ns;
};
const Event* events();
int nevents();
int count(int kind);
int count(int kind, int a);
int find(int kind, int a = -1, int b = -2147483647); // first position or -1
// waits until nothing else can run without time passing beyond now+ns
void quiesce(uint64_t ns = 0);
uint64_t now(); // virtual time in ns
constexpr uint64_t MS = 1000000ull;
// records an observed outcome (for the number of distinct outcomes)
void outcome(uint64_t h);
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
int tid(); // current model thread
// advances a private counter; not visible, not instrumented
struct Quiet
{
    Quiet();
    ~Quiet();
};
// number of model threads that are alive
int threads_alive();
int blocked_on_time(); // threads sleeping / in timed waits
// simulated sockets for select()
void sock_set(int fd, bool readable, bool writable, bool closed);
// same, but what is to be read is decided by f together with the change (no other thread in between)
void sock_update(int fd, bool (*readable)(void*), void* arg);
int select_calls();
void sock_faults(int eintr_cost); // 0: none; otherwise EINTR is a choice with that cost
void thread_faults(int create_cost); // 0: none; creating a thread fails: -1: always, otherwise as a choice with that cost
int thread_failures(); // creations that failed so far
void set_env(const char* name, const char* value); // environment variable, nullptr: not set. Neither is copied
void set_wall_clock(long long ms); // set forward (or back) by that much
// returns from main(): destroys the thread local objects of the thread and all static
// objects constructed within the execution while other threads go on, then ends it
void exit_process();
// std::terminate() because of an exception nobody caught ends the execution as OK
void allow_terminate(bool);
// live heap blocks allocated by model threads since start
int heap_live();
} // namespace xmc

#define XMC_CAT2(a, b) a##b
#define XMC_CAT(a, b) XMC_CAT2(a, b)
#define SCENARIO(prop, name, ...)                                              \
    static void XMC_CAT(xmc_fn_, name)();                                      \
    static xmc::Options XMC_CAT(xmc_opt_, name)()                              \
    {                                                                          \
        xmc::Options o;                                                        \
        __VA_ARGS__;                                                           \
        return o;                                                              \
    }                                                                          \
    static xmc::Registrar XMC_CAT(xmc_reg_, name)(                             \
      prop, #name, &XMC_CAT(xmc_fn_, name), XMC_CAT(xmc_opt_, name)());        \
    static void XMC_CAT(xmc_fn_, name)()
