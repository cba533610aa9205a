// C05: delayed operations run once, on their queue and never early
#include "kinds.h"
static constexpr uint64_t LONG = 5000 * MS;

// a delayed operation which knows its earliest time
static void
delayed(const queue& q, int id, int ms)
{
    const uint64_t t0 = now();
    q.after(milliseconds(ms), [id, ms, t0] {
        ev(E_START, id);
        XCHECK(now() - t0 >= ms * MS, "operation %d ran %llu ns after the call instead of %d ms", id, (unsigned long long)(now() - t0), ms);
        ev(E_END, id);
    });
}
static const int D[] = { 0, 1, 10, 1000 };

SCENARIO("C05", serial, o.bound = 2; o.bound_thorough = 3; o.about = "one delayed operation with delays 0..1000 on a serial queue";)
{
    auto q = create_serial_queue("q");
    delayed(q, 0, D[choose(4)]);
    quiesce(LONG);
    check_once(1);
}
SCENARIO("C05", parallel, o.bound = 2; o.bound_thorough = 3; o.about = "one delayed operation with delays 0..1000 on the global queue";)
{
    delayed(global_queue(), 0, D[choose(4)]);
    quiesce(LONG);
    check_once(1);
}
SCENARIO("C05", serial_busy, o.bound = 2; o.bound_thorough = 3; o.about = "the delay elapses while the serial queue is busy: still exclusive";)
{
    auto q = create_serial_queue("q");
    delayed(q, 0, 10);
    q.async([] {
        ev(E_START, 1);
        std::this_thread::sleep_for(milliseconds(15));
        ev(E_END, 1);
    });
    quiesce(LONG);
    check_once(2);
    check_exclusive();
}
SCENARIO("C05", two_delays, o.bound = 1; o.bound_thorough = 2; o.about = "two delayed operations on one serial queue";)
{
    auto q = create_serial_queue("q");
    delayed(q, 0, 20);
    delayed(q, 1, 10);
    quiesce(LONG);
    check_once(2);
    check_exclusive();
    outcome(order_hash());
}
SCENARIO("C05", two_threads, o.bound = 1; o.bound_thorough = 2; o.about = "two threads with delayed operations on their own queue types";)
{
    auto q = create_serial_queue("q");
    std::thread t([&] { delayed(q, 0, 5); });
    delayed(global_queue(), 1, 5);
    t.join();
    quiesce(LONG);
    check_once(2);
}
SCENARIO("C05", handle_dropped, o.bound = 2; o.bound_thorough = 3; o.about = "the queue handle is dropped while the operation is delayed";)
{
    {
        auto q = create_serial_queue("q");
        delayed(q, 0, 10);
    }
    quiesce(LONG);
    check_once(1);
}
SCENARIO("C05", custom_pool, o.bound = 2; o.bound_thorough = 3; o.about = "delayed operation on a queue with its own pool";)
{
    auto q = choose(2) ? naive::create_serial_queue("q", make_spawn_pool()) : naive::create_parallel_queue("q", make_spawn_pool());
    delayed(q, 0, 10);
    quiesce(LONG);
    check_once(1);
}
SCENARIO("C05", nested, o.bound = 1; o.bound_thorough = 2; o.about = "a delayed operation delays another one on the same queue";)
{
    auto q = create_serial_queue("q");
    q.after(milliseconds(5), [&] {
        ev(E_START, 0);
        delayed(q, 1, 5);
        ev(E_END, 0);
    });
    quiesce(LONG);
    check_once(2);
    check_exclusive();
}
SCENARIO("C05", released, o.bound = 2; o.bound_thorough = 3; o.about = "the operation is released once it ran, not before";)
{
    std::weak_ptr<int> w;
    const bool serial = choose(2);
    {
        auto token = std::make_shared<int>(0);
        w = token;
        auto q = serial ? create_serial_queue("q") : create_parallel_queue("q");
        q.after(milliseconds(choose(2) * 10), [token] { ev(E_START, 0); });
    }
    quiesce(LONG);
    check_once(1);
    XCHECK(w.expired(), "the delayed operation is still alive");
}
SCENARIO("C05", repeated_use, o.bound = 1; o.bound_thorough = 1; o.about = "many delayed operations leave nothing allocated behind";)
{
    auto q = create_serial_queue("q");
    check_no_growth([&] { q.after(milliseconds(1), [] {}); }, 100 * MS);
}
SCENARIO("C05", main_queue, o.bound = 1; o.bound_thorough = 2; o.about = "delayed operation on the main queue";)
{
    const int me = tid();
    const uint64_t t0 = now();
    main_queue().after(milliseconds(10), [=] {
        ev(E_START, 0);
        XCHECK(tid() == me, "not on the main thread");
        XCHECK(now() - t0 >= 10 * MS, "early");
        finish();
    });
    exec();
}
SCENARIO("C05", visibility, o.bound = 1; o.bound_thorough = 2; o.races = true; o.about = "writes before after() are visible inside of the operation";)
{
    int v = 0;
    v = 5;
    lightweight_barrier b;
    global_queue().after(milliseconds(1), [&] {
        XCHECK(v == 5, "not visible");
        v = 6;
        b.complete();
    });
    b.wait();
    XCHECK(v == 6, "not visible");
}

static const long long ALL[] = { 0,    1,    2,    3,    4,    5,     7,     9,     10,     11,     13,      15,      16,       19,       20,
                                 25,   33,   50,   63,   64,   65,    99,    100,   101,    128,    250,     255,     256,      257,      500,
                                 777,  999,  1000, 1001, 1500, 4999,  5000,  5001,  9999,   10000,  30000,   30001,   32767,    32768,    60000,
                                 65535, 65536, 65537, 100000, 3600000, 86400000, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 4294967306ll };
SCENARIO("C05", all_delays, o.bound = 0; o.bound_thorough = 1; o.timedev_max_ms = 0; o.about = "delays of any size from none to weeks are respected to the millisecond, on every kind of queue";)
{
    const long long d = ALL[choose((int)(sizeof(ALL) / sizeof(ALL[0])))];
    const int kind = choose(4);
    queue q = kind == 0 ? global_queue() : kind == 1 ? create_serial_queue("q") : kind == 2 ? create_parallel_queue("q") : main_queue();
    std::thread m;
    if (kind == 3) {
        m = std::thread([] { exec(); });
        m.detach();
    }
    const uint64_t t0 = now();
    q.after(milliseconds(d), [=] {
        XCHECK(now() - t0 >= d * MS, "ran %llu ns after the call instead of %lld ms", (unsigned long long)(now() - t0), d);
        // nothing else keeps the system busy
        XCHECK(now() - t0 < (d + 1000) * MS, "ran %llu ns after the call instead of %lld ms", (unsigned long long)(now() - t0), d);
        ev(E_START, 0);
        ev(E_END, 0);
    });
    if (d > 0) {
        quiesce((d - 1) * MS);
        XCHECK(now() - t0 >= d * MS || count(E_START) == 0, "ran early");
    }
    quiesce((d + 2000) * MS);
    check_once(1);
}
SCENARIO("C05", every_kind, o.bound = 0; o.bound_thorough = 1; o.about = "every kind of operation on every kind of queue, delayed repeatedly";)
{
    object_with_work object;
    const int kind = choose(KINDS), times = 1 + choose(2), ms = D[choose(4)];
    queue q = queue_of_kind(choose(QUEUES));
    const uint64_t t0 = now();
    use_kind(kind, 0, object, [&](const auto& f) {
        for (int i = 0; i < times; i++)
            q.after(milliseconds(ms), f);
    });
    quiesce(LONG);
    XCHECK(count(E_START, 0) == times && count(E_END, 0) == times && count(E_START) == times, "executed %d times for %d submissions", count(E_START), times);
    for (int i = 0; i < nevents(); i++)
        XCHECK(events()[i].ns >= t0 + ms * MS, "executed too early");
}
SCENARIO("C05", many, o.bound = 0; o.bound_thorough = 0; o.max_steps = 500000; o.about = "300 delayed operations one after the other on every kind of queue: nothing accumulates";)
{
    queue q = queue_of_kind(choose(QUEUES));
    int live = 0;
    for (int i = 0; i < 300; i++) {
        q.after(milliseconds(i % 3), [i] { ev(E_START, i); });
        quiesce(5 * MS);
        XCHECK(count(E_START, i) == 1, "operation %d was executed %d times", i, count(E_START, i));
        if (i == 20)
            live = heap_live();
    }
    XCHECK(heap_live() <= live + 10, "the heap grew by %d blocks", heap_live() - live);
}
SCENARIO("C05", wall_clock, o.timedev = false; o.bound = 1; o.bound_thorough = 2; o.about = "the clock of the system is set while waiting: no influence on delays";)
{
    queue q = choose(2) ? global_queue() : create_serial_queue("q");
    std::thread c = wall_clock_setter();
    const uint64_t t0 = now();
    q.after(milliseconds(50), [] { ev(E_START, 0); ev(E_END, 0); });
    quiesce(1000 * MS);
    c.join();
    check_once(1);
    XCHECK(events()[find(E_START, 0)].ns == t0 + 50 * MS, "ran %llu ns after the call instead of 50 ms", (unsigned long long)(events()[find(E_START, 0)].ns - t0));
}
