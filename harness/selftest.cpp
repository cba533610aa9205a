// Self test of the model checker: programs with a known verdict.  The name of
// a scenario tells what has to be reported: ok_*, or bad_* (any violation).
#include "common.h"
#include <atomic>
#include <semaphore.h>
using namespace xmc;

// two threads with 3 visible steps each plus the observer: number of
// interleavings is known when neither bound nor reduction apply
SCENARIO("self", ok_count_interleavings, o.bound = 30; o.noreduce = true; o.free_block = true;)
{
    std::thread t([] {
        visible();
        visible();
    });
    visible();
    visible();
    t.join();
}
SCENARIO("self", bad_lost_update, o.bound = 1;)
{
    std::atomic<int> x{ 0 };
    std::thread t([&] { x.store(x.load() + 1); });
    x.store(x.load() + 1);
    t.join();
    XCHECK(x == 2, "lost update %d", x.load());
}
SCENARIO("self", ok_update, o.bound = 10;)
{
    std::atomic<int> x{ 0 };
    std::thread t([&] { x++; });
    x++;
    t.join();
    XCHECK(x == 2, "lost update %d", x.load());
}
SCENARIO("self", bad_race, o.bound = 0; o.races = true;)
{
    int x = 0;
    std::thread t([&] { x++; });
    x++;
    t.join();
}
SCENARIO("self", ok_mutex, o.bound = 10; o.races = true;)
{
    int x = 0;
    std::mutex m;
    std::thread t([&] {
        std::lock_guard<std::mutex> l(m);
        x++;
    });
    {
        std::lock_guard<std::mutex> l(m);
        x++;
    }
    t.join();
    XCHECK(x == 2, "x is %d", x);
}
SCENARIO("self", bad_abba, o.bound = 1;)
{
    std::mutex a, b;
    std::thread t([&] {
        std::lock_guard<std::mutex> l(a);
        std::lock_guard<std::mutex> k(b);
    });
    {
        std::lock_guard<std::mutex> l(b);
        std::lock_guard<std::mutex> k(a);
    }
    t.join();
}
SCENARIO("self", bad_missed_wakeup, o.bound = 1;)
{
    std::mutex m;
    std::condition_variable c;
    std::atomic<bool> flag{ false };
    std::thread t([&] {
        flag = true;
        c.notify_one(); // without the lock
    });
    {
        std::unique_lock<std::mutex> l(m);
        while (!flag)
            c.wait(l);
    }
    t.join();
}
SCENARIO("self", ok_wakeup, o.bound = 10; o.races = true; o.spurious = true;)
{
    std::mutex m;
    std::condition_variable c;
    bool flag = false;
    std::thread t([&] {
        std::lock_guard<std::mutex> l(m);
        flag = true;
        c.notify_one();
    });
    {
        std::unique_lock<std::mutex> l(m);
        while (!flag)
            c.wait(l);
    }
    t.join();
}
SCENARIO("self", bad_spurious, o.bound = 1; o.spurious = true;)
{
    std::mutex m;
    std::condition_variable c;
    bool flag = false;
    std::thread t([&] {
        std::lock_guard<std::mutex> l(m);
        flag = true;
        c.notify_one();
    });
    {
        std::unique_lock<std::mutex> l(m);
        if (!flag)
            c.wait(l);
        XCHECK(flag, "woken without reason");
    }
    t.join();
}
SCENARIO("self", bad_uaf, o.bound = 1;)
{
    auto* p = new std::atomic<int>(0);
    std::thread t([p] { (*p)++; });
    visible();
    delete p;
    t.join();
}
SCENARIO("self", ok_shared_ptr, o.bound = 10; o.races = true;)
{
    auto p = std::make_shared<std::vector<int>>(3);
    std::thread t([p]() mutable { p.reset(); });
    p.reset();
    t.join();
    quiesce();
}
SCENARIO("self", bad_shared_ptr_order, o.bound = 1;)
{
    struct d
    {
        ~d() { ev(E_MARK, tid()); }
    };
    auto p = std::make_shared<d>();
    std::thread t([p]() mutable { p.reset(); });
    p.reset();
    t.join();
    XCHECK(events()[0].a != 0, "main thread destroyed it");
}
SCENARIO("self", bad_weakcas, o.bound = 1;)
{
    std::atomic<int> x{ 0 };
    int e = 0;
    XCHECK(x.compare_exchange_weak(e, 1), "spurious");
}
SCENARIO("self", bad_relaxed_publication, o.bound = 2; o.races = true;)
{
    std::atomic<int*> p{ nullptr };
    std::thread t([&] { p.store(new int(3), std::memory_order_relaxed); });
    int* v = p.load(std::memory_order_acquire);
    if (v)
        XCHECK(*v == 3, "x");
    t.join();
}
SCENARIO("self", ok_publication, o.bound = 10; o.races = true;)
{
    std::atomic<int*> p{ nullptr };
    std::thread t([&] { p.store(new int(3), std::memory_order_release); });
    int* v = p.load(std::memory_order_acquire);
    if (v)
        XCHECK(*v == 3, "x");
    t.join();
}
SCENARIO("self", bad_timeout_race, o.bound = 3;)
{
    // the sleeper may be late or early relative to running threads
    std::atomic<int> x{ 0 };
    std::thread t([&] {
        std::this_thread::sleep_for(milliseconds(10));
        x = 1;
    });
    visible();
    XCHECK(x == 0, "time passed");
    t.join();
}
SCENARIO("self", ok_time, o.bound = 3;)
{
    auto t0 = std::chrono::steady_clock::now();
    std::thread t([&] { std::this_thread::sleep_for(milliseconds(10)); });
    t.join();
    XCHECK(std::chrono::steady_clock::now() - t0 >= milliseconds(10), "too early");
}
SCENARIO("self", bad_livelock, o.bound = 0; o.max_steps = 500;)
{
    std::atomic<int> x{ 0 };
    while (x.exchange(0) == 0) {
    }
}
SCENARIO("self", ok_spin, o.bound = 5;)
{
    std::atomic<int> x{ 0 };
    std::thread t([&] { x = 1; });
    while (x.load() == 0) {
    }
    t.join();
}
SCENARIO("self", bad_terminate, o.bound = 0;)
{
    std::thread t([] { throw 1; });
    t.join();
}
SCENARIO("self", bad_dead_stack, o.bound = 2;)
{
    std::atomic<int*> p{ nullptr };
    std::thread t([&] {
        int v = 1;
        p = &v;
        visible();
    });
    int* v = p;
    visible();
    if (v)
        (*v)++;
    t.join();
}
SCENARIO("self", bad_notify_other, o.bound = 2;)
{
    // notify_one may wake up the wrong waiter
    std::mutex m;
    std::condition_variable c;
    int turn = 0;
    auto w = [&](int i) {
        std::unique_lock<std::mutex> l(m);
        while (turn != i)
            c.wait(l);
    };
    std::thread a(w, 1);
    std::thread b(w, 2);
    quiesce();
    {
        std::lock_guard<std::mutex> l(m);
        turn = 1;
        c.notify_one();
    }
    a.join();
    {
        std::lock_guard<std::mutex> l(m);
        turn = 2;
        c.notify_one();
    }
    b.join();
}
SCENARIO("self", bad_exchange_handshake, o.bound = 3;)
{
    // a flag based mutual exclusion without the second flag
    std::atomic<int> in{ 0 };
    std::atomic<bool> f{ false };
    auto w = [&] {
        if (!f.load()) {
            f = true;
            XCHECK(++in == 1, "two inside");
            --in;
            f = false;
        }
    };
    std::thread t(w);
    w();
    t.join();
}
// a timed out waiter has to get its mutex back first
SCENARIO("self", ok_timeout_relock, o.bound = 4;)
{
    std::mutex m;
    std::condition_variable c;
    std::thread t([&] {
        std::this_thread::sleep_for(milliseconds(10));
        std::lock_guard<std::mutex> l(m);
        visible();
        c.notify_one();
        visible();
    });
    {
        std::unique_lock<std::mutex> l(m);
        c.wait_for(l, milliseconds(10));
    }
    t.join();
}
