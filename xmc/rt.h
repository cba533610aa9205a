// internal interface between the runtime (rt.cpp) and the explorer (explorer.cpp)
#pragma once
#include "xmc.h"
#include <cstring>

namespace xmc {

constexpr int MAXT = 32;
constexpr int MAXPT = 250000;
constexpr int MAXCOST = 1000000;
constexpr int MAXDEV = 512;
constexpr int MAXEV = 4096;

struct Dev
{
    uint32_t pt;
    uint32_t choice;
    uint32_t check; // signature at that point (0: not checked)
};

struct Pt
{
    uint32_t off; // into costs
    uint16_t n;
    uint16_t chosen;
    uint32_t sig;
    uint8_t fresh; // alternatives may be scheduled here
};

enum Status
{
    ST_OK = 0,
    ST_PRUNED,
    ST_VIOLATION,
    ST_DIVERGED,
    ST_HANG,
    ST_ERROR
};

struct RunResult
{
    int status;
    int cost; // deviation cost of the execution
    char sig[512];
    char msg[4096];
    int npt;
    Pt* pts;
    uint8_t* costs;
    uint64_t steps;
    uint64_t fresh_states; // states first reached by this execution
    uint64_t fresh_steps;  // visible operations executed after the prefix
    uint64_t outcome;
    bool has_outcome;
    uint64_t hash;
    int threads; // model threads created
    uint64_t vtime; // virtual nanoseconds that passed
};

// state cache, provided by the explorer: returns true if the state was
// reached before with at most this cost (prune)
typedef bool (*SeenFn)(uint64_t key, int cost, bool* fresh);

void rt_init();                // once, in the root process
void rt_snapshot();            // once, after init
void rt_run(const Scenario* s, const Dev* devs, int ndevs, SeenFn seen, bool trace, RunResult* out);
const char* rt_trace(); // text of the last traced execution
void rt_trace_limit(size_t n); // 0: as much as there is room for
const char* rt_symbol(const void* pc);
long rt_raw_clone();
uint64_t rt_wall_ns();
int rt_hang_limit(int s); // seconds
void rt_worker_init();
} // namespace xmc
