// C02: operations of one serial queue never overlap
#include "queues.h"
static void
done(int n, uint64_t time = 0)
{
    quiesce(time);
    check_once(n);
    check_exclusive();
    outcome(order_hash());
}
SCENARIO("C02", two_submitters, o.bound = 5; o.bound_thorough = 9; o.about = "two threads submit to a serial queue on a pool that runs everything at once";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    std::thread t([&] { q.async(rec(0)); });
    q.async(rec(1));
    t.join();
    done(2);
}
SCENARIO("C02", three_submitters, o.bound = 2; o.bound_thorough = 4; o.about = "three threads, five operations";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    std::thread t([&] { q.async(rec(0)); q.async(rec(1)); });
    std::thread u([&] { q.async(rec(2)); });
    q.async(rec(3));
    q.async(rec(4));
    t.join();
    u.join();
    done(5);
}
SCENARIO("C02", nested, o.bound = 3; o.bound_thorough = 6; o.about = "submission from within a running operation";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    q.async(make_operation([&] {
        ev(E_START, 0);
        q.async(rec(1));
        q.async(rec(2));
        ev(E_END, 0);
    }));
    q.async(rec(3));
    done(4);
}
SCENARIO("C02", yielding_drain, o.bound = 2; o.bound_thorough = 3; o.about = "the drain gives up its thread after its share of operations";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    q.async(make_operation([&] {
        ev(E_START, 0);
        for (int i = 1; i < 12; i++)
            q.async(rec(i));
        ev(E_END, 0);
    }));
    done(12);
}
SCENARIO("C02", yielding_drain_submitters, o.bound = 2; o.bound_thorough = 3; o.about = "submissions racing with a drain that gives up its thread";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    for (int i = 0; i < 11; i++)
        q.async(rec(i));
    std::thread t([&] { q.async(rec(11)); });
    t.join();
    done(12);
}
SCENARIO("C02", apply_and_async, o.bound = 2; o.bound_thorough = 4; o.about = "apply() from one thread, async() from another";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    std::thread t([&] { q.async(rec(2)); });
    q.apply(2, [](size_t i) {
        ev(E_START, (int)i);
        ev(E_END, (int)i);
    });
    t.join();
    done(3);
}
SCENARIO("C02", small_apply_busy, o.bound = 2; o.bound_thorough = 4; o.about = "apply() of up to three iterations while the queue is busy with an operation, from this thread and from another queue's operation";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    const int n = choose(4);
    q.async([] {
        ev(E_START, 10);
        std::this_thread::sleep_for(milliseconds(3));
        ev(E_END, 10);
    });
    if (choose(2))
        std::this_thread::sleep_for(milliseconds(1));
    auto run = [q, n]() mutable {
        q.apply(n, [](size_t i) {
            ev(E_START, (int)i);
            visible();
            ev(E_END, (int)i);
        });
    };
    if (choose(2)) {
        auto p = naive::create_parallel_queue("p", make_spawn_pool());
        group g;
        g.async(make_operation([run] { auto r = run; r(); }), p);
        g.wait();
    } else
        run();
    XCHECK(count(E_END) >= n, "apply() returned too early");
    quiesce(10 * MS);
    XCHECK(count(E_END) == n + 1 && count(E_START) == n + 1, "wrong number of executions");
    check_exclusive();
}
SCENARIO("C02", after_and_async, o.bound = 2; o.bound_thorough = 4; o.about = "delayed operation becoming due while others are submitted";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    q.after(milliseconds(10), rec(0));
    std::this_thread::sleep_for(milliseconds(10));
    q.async(rec(1));
    done(2, 1000 * MS);
}
SCENARIO("C02", group_and_async, o.bound = 2; o.bound_thorough = 4; o.about = "operations submitted through a group and directly";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    group g;
    std::thread t([&] { g.async(rec(0), q); });
    q.async(rec(1));
    g.notify(rec(2), q);
    t.join();
    quiesce(10 * MS);
    done(3);
}
SCENARIO("C02", global_pool, o.bound = 2; o.bound_thorough = 4; o.about = "serial queue on the real global pool with several threads";)
{
    auto q = create_serial_queue("q");
    std::thread t([&] { q.async(rec(0)); });
    q.async(rec(1));
    q.async(rec(2));
    t.join();
    done(3);
}
SCENARIO("C02", two_queues_one_pool, o.bound = 2; o.bound_thorough = 4; o.about = "two serial queues share the pool: exclusive per queue only";)
{
    auto pool = make_spawn_pool();
    auto q = naive::create_serial_queue("q", pool);
    auto p = naive::create_serial_queue("p", pool);
    std::thread t([&] { q.async(rec(0)); p.async(make_operation([] { visible(); })); });
    p.async(make_operation([] { visible(); }));
    q.async(rec(1));
    t.join();
    done(2);
}
SCENARIO("C02", dropped_with_pending, o.bound = 3; o.bound_thorough = 5; o.about = "handle dropped while operations are pending: the rest still runs exclusively";)
{
    {
        auto q = naive::create_serial_queue("q", make_spawn_pool());
        std::thread([q] { q.async(rec(0)); }).detach();
        q.async(rec(1));
        q.async(rec(2));
    }
    done(3);
}
SCENARIO("C02", signal_and_async, o.bound = 2; o.bound_thorough = 3; o.about = "timer rounds and direct submissions on one serial queue";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    timer t(milliseconds(10), q);
    t.handler([] {
        ev(E_START, 0);
        ev(E_END, 0);
    });
    t.resume();
    q.async(rec(1));
    std::this_thread::sleep_for(milliseconds(10));
    q.async(rec(2));
    quiesce();
    t.cancel();
    check_exclusive();
}

SCENARIO("C02", histories_preempted, o.bound = 1; o.bound_thorough = 2; o.timedev = false; o.about = "every sequence of two submissions of all kinds and pauses, with preemptions";)
{
    queue_history(create_serial_queue("q"), 2, true);
}
