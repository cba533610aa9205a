// shared helpers of the harnesses; public interface of the library only
#pragma once
#include <stdexcept>
#include <xdispatch/dispatch.h>
#include <xdispatch/backend_naive.h>
#include <xdispatch/signals.h>
#include <xdispatch/signals_barrier.h>
#include <xdispatch/waitable_queue.h>
#include <xdispatch/barrier_operation.h>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include "xmc.h"
#include <xdispatch/impl/ibackend.h>
#include <xdispatch/impl/iqueue_impl.h>

using std::chrono::milliseconds;

// event kinds
enum
{
    E_START = 1,
    E_END,
    E_POST,
    E_POSTED,
    E_WAIT,
    E_WAITED,
    E_MARK,
    E_DONE,
};

// somebody sets the clock of the system an hour forward or back
inline std::thread
wall_clock_setter()
{
    static const int AT[] = { 0, 3, 40 };
    const int at = AT[xmc::choose(3)];
    const long long by = xmc::choose(2) ? 3600000 : -3600000;
    return std::thread([=] {
        std::this_thread::sleep_for(milliseconds(at));
        xmc::set_wall_clock(by);
    });
}

// a pool that runs every work on a new thread: no limit, no ordering at all;
// it lives as long as one of its threads does
struct spawn_pool
  : public xdispatch::naive::ithreadpool
  , public std::enable_shared_from_this<spawn_pool>
{
    void execute(const xdispatch::operation_ptr& work, xdispatch::queue_priority) override
    {
        auto self = shared_from_this();
        std::thread([work, self] { run_with_threadpool(*work, self.get()); }).detach();
    }
    void notify_thread_blocked() override {}
    void notify_thread_unblocked() override {}
};

inline xdispatch::naive::ithreadpool_ptr
make_spawn_pool()
{
    return std::make_shared<spawn_pool>();
}

// a pool with a fixed number of threads working off a fifo (no growth)
struct fixed_pool : public xdispatch::naive::ithreadpool
{
    struct state
    {
        std::mutex m;
        std::condition_variable c;
        std::vector<xdispatch::operation_ptr> q;
        bool stop = false;
    };
    std::shared_ptr<state> s = std::make_shared<state>();
    explicit fixed_pool(int n)
    {
        for (int i = 0; i < n; i++) {
            auto st = s;
            auto* self = this;
            std::thread([st, self] {
                for (;;) {
                    xdispatch::operation_ptr w;
                    {
                        std::unique_lock<std::mutex> l(st->m);
                        st->c.wait(l, [&] { return st->stop || !st->q.empty(); });
                        if (st->q.empty())
                            return;
                        w = st->q.front();
                        st->q.erase(st->q.begin());
                    }
                    run_with_threadpool(*w, self);
                }
            }).detach();
        }
    }
    ~fixed_pool() override
    {
        std::lock_guard<std::mutex> l(s->m);
        s->stop = true;
        s->c.notify_all();
    }
    void execute(const xdispatch::operation_ptr& work, xdispatch::queue_priority) override
    {
        std::lock_guard<std::mutex> l(s->m);
        s->q.push_back(work);
        s->c.notify_one();
    }
    void notify_thread_blocked() override {}
    void notify_thread_unblocked() override {}
};

// a serial queue on the global pool
inline xdispatch::queue
create_serial_queue(const char* label)
{
    return xdispatch::queue(label);
}
namespace xdispatch {
ibackend& backend_for_type(backend_type type);
}
// a parallel queue on the global pool
inline xdispatch::queue
create_parallel_queue(const char* label, xdispatch::queue_priority p = xdispatch::queue_priority::DEFAULT)
{
    return xdispatch::queue(label,
                            xdispatch::backend_for_type(xdispatch::backend_type::naive).create_parallel_queue(label, p));
}

// repeats something: fails if every round leaves more memory allocated
template<typename Func>
inline void
check_no_growth(Func f, uint64_t settle = 0, int rounds = 7)
{
    int last = 0, grown = 0;
    for (int i = 0; i < rounds; i++) {
        f();
        xmc::quiesce(settle);
        const int live = xmc::heap_live();
        if (i > 0 && live > last)
            grown++;
        last = live;
    }
    XCHECK(grown < rounds - 2, "the heap grows with every round (%d blocks)", last);
}
