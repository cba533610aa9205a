// C07: group::notify fires once, after the group's work completed
#include "groups.h"
#include "kinds.h"

static void
work(group& g, const queue& q, int id, int ms = 0)
{
    g.async([id, ms] {
        ev(E_START, id);
        if (ms)
            std::this_thread::sleep_for(milliseconds(ms));
        ev(E_END, id);
    }, q);
}
// registers notification k which needs the operations [0, n) to be finished
static void
notify(group& g, const queue& q, int k, int n)
{
    g.notify([k, n] {
        ev(E_DONE, k);
        for (int i = 0; i < n; i++)
            XCHECK(count(E_END, i) == 1, "notification %d ran before operation %d was finished", k, i);
        ev(E_MARK, k);
    }, q);
}
static void
settled(int works, int notifications, uint64_t t = 0)
{
    quiesce(t);
    for (int i = 0; i < works; i++)
        XCHECK(count(E_START, i) == 1, "operation %d was executed %d times", i, count(E_START, i));
    for (int k = 0; k < notifications; k++)
        XCHECK(count(E_DONE, k) == 1, "notification %d was executed %d times", k, count(E_DONE, k));
}
static queue
pq()
{
    return naive::create_parallel_queue("q", make_spawn_pool());
}

SCENARIO("C07", one, o.bound = 3; o.bound_thorough = 4; o.about = "two operations and a notification on parallel queues";)
{
    auto q = pq();
    group g;
    work(g, q, 0);
    work(g, q, 1);
    notify(g, q, 0, 2);
    settled(2, 1);
}
SCENARIO("C07", empty_group, o.bound = 3; o.bound_thorough = 5; o.about = "the group has no work: no waiting involved";)
{
    auto q = pq();
    group g;
    const uint64_t t0 = now();
    notify(g, q, 0, 0);
    settled(0, 1);
    XCHECK(now() - t0 < 2500 * MS, "time passed");
}
SCENARIO("C07", after_work_finished, o.bound = 3; o.bound_thorough = 5; o.about = "registered when everything is finished already";)
{
    auto q = pq();
    group g;
    work(g, q, 0);
    quiesce();
    notify(g, q, 0, 1);
    settled(1, 1);
}
SCENARIO("C07", second_batch, o.bound = 2; o.bound_thorough = 3; o.about = "a first batch finished before the second, which takes its time, is submitted";)
{
    auto q = pq();
    group g;
    work(g, q, 0);
    quiesce();
    work(g, q, 1, 10);
    notify(g, q, 0, 2);
    settled(2, 1, 3000 * MS);
}
SCENARIO("C07", serial_target, o.bound = 2; o.bound_thorough = 3; o.about = "notification on a serial queue keeps the guarantees of that queue";)
{
    auto q = pq();
    auto s = create_serial_queue("s");
    group g;
    work(g, q, 0);
    s.async([] { ev(E_POST); visible(); ev(E_POSTED); });
    g.notify([] {
        XCHECK(count(E_POST) == count(E_POSTED), "overlaps");
        XCHECK(count(E_END, 0) == 1, "early");
        ev(E_POST); ev(E_DONE, 0); ev(E_POSTED);
    }, s);
    s.async([] { XCHECK(count(E_POST) == count(E_POSTED), "overlaps"); ev(E_POST); visible(); ev(E_POSTED); });
    settled(1, 1);
}
SCENARIO("C07", same_serial_queue, o.bound = 2; o.bound_thorough = 3; o.about = "work and notification on the same serial queue";)
{
    auto s = create_serial_queue("s");
    group g;
    work(g, s, 0);
    notify(g, s, 0, 1);
    settled(1, 1);
}
SCENARIO("C07", two_notifications, o.bound = 2; o.bound_thorough = 3; o.about = "two notifications with work in between";)
{
    auto q = pq();
    group g;
    work(g, q, 0);
    notify(g, q, 0, 1);
    work(g, q, 1);
    notify(g, q, 1, 2);
    settled(2, 2);
}
SCENARIO("C07", two_threads, o.bound = 2; o.bound_thorough = 3; o.about = "two threads register notifications at the same time";)
{
    auto q = pq();
    group g;
    work(g, q, 0, 5);
    std::thread t([&] { notify(g, q, 0, 1); });
    notify(g, q, 1, 1);
    t.join();
    settled(1, 2, 3000 * MS);
}
SCENARIO("C07", racing_wait, o.bound = 2; o.bound_thorough = 3; o.about = "a wait runs next to the notification";)
{
    auto q = pq();
    group g;
    work(g, q, 0);
    notify(g, q, 0, 1);
    g.wait(milliseconds(choose(2) ? -1 : 5));
    settled(1, 1, 3000 * MS);
}
SCENARIO("C07", long_running, o.bound = 2; o.bound_thorough = 3; o.about = "the work takes hours: longer than any internal timeout";)
{
    auto q = pq();
    group g;
    work(g, q, 0, 1000 * 3600 * 100);
    notify(g, q, 0, 1);
    settled(1, 1, 1000ull * 3600 * 200 * MS);
}
SCENARIO("C07", never_finishing, o.bound = 1; o.bound_thorough = 2; o.about = "the work does not finish within a century: no notification";)
{
    auto q = pq();
    group g;
    work(g, q, 0, 2000000000);
    notify(g, q, 0, 1);
    quiesce(1500000000ull * MS);
    XCHECK(count(E_DONE) == 0, "notified although the work is not finished");
}
SCENARIO("C07", group_dropped, o.bound = 2; o.bound_thorough = 4; o.about = "the group goes away right after notify()";)
{
    auto q = pq();
    {
        group g;
        work(g, q, 0);
        notify(g, q, 0, 1);
    }
    settled(1, 1);
}
SCENARIO("C07", notification_notifies, o.bound = 2; o.bound_thorough = 3; o.about = "the notification submits to the group and registers the next one";)
{
    auto q = pq();
    auto g = std::make_shared<group>();
    work(*g, q, 0);
    g->notify([g, q] {
        ev(E_DONE, 0);
        XCHECK(count(E_END, 0) == 1, "early");
        work(*g, q, 1);
        notify(*g, q, 1, 2);
    }, q);
    g.reset();
    settled(2, 2);
}
SCENARIO("C07", global_pool, o.bound = 2; o.bound_thorough = 3; o.about = "everything on the global pool, with as many notifications as threads";)
{
    group g;
    work(g, global_queue(), 0, 5);
    notify(g, global_queue(), 0, 1);
    notify(g, global_queue(), 1, 1);
    settled(1, 2, 3000 * MS);
}
SCENARIO("C07", released, o.bound = 2; o.bound_thorough = 3; o.about = "notification and group are released afterwards";)
{
    std::weak_ptr<int> w;
    auto q = pq();
    {
        auto token = std::make_shared<int>(0);
        w = token;
        group g;
        work(g, q, 0);
        g.notify([token] { ev(E_DONE, 0); }, q);
    }
    settled(1, 1);
    XCHECK(w.expired(), "the notification is still alive");
}
SCENARIO("C07", main_queue, o.bound = 1; o.bound_thorough = 2; o.about = "notification on the main queue";)
{
    const int me = tid();
    auto q = pq();
    group g;
    work(g, q, 0);
    g.notify([me] {
        XCHECK(tid() == me, "wrong thread");
        XCHECK(count(E_END, 0) == 1, "early");
        finish();
    }, main_queue());
    exec();
}
SCENARIO("C07", visibility, o.bound = 2; o.bound_thorough = 3; o.races = true; o.about = "what the work wrote is visible in the notification";)
{
    auto q = pq();
    group g;
    int v[2] = { 0, 0 };
    g.async([&] { v[0] = 1; }, q);
    g.async([&] { v[1] = 1; }, q);
    lightweight_barrier b;
    g.notify([&] {
        XCHECK(v[0] == 1 && v[1] == 1, "not visible");
        b.complete();
    }, q);
    b.wait();
}

SCENARIO("C07", histories, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.about = "every sequence of four operations (work on the global and serial queues, notifications, waits with and without timeout, pauses, copies) on a group";)
{
    group_history(4, false);
}
SCENARIO("C07", histories_preempted, o.bound = -1; o.bound_thorough = 1; o.timedev = false; o.about = "... of three operations, with preemptions";)
{
    group_history(3, true);
}
SCENARIO("C07", every_kind, o.bound = 1; o.bound_thorough = 2; o.about = "every kind of operation as notification on every kind of queue and the default one, of an empty and a busy group";)
{
    object_with_work object;
    group g;
    const int kind = choose(KINDS), times = 1 + choose(2), target = choose(QUEUES + 1), busy = choose(2);
    if (busy)
        g.async([] {
            std::this_thread::sleep_for(milliseconds(1));
            ev(E_DONE);
        });
    use_kind(kind, 0, object, [&](const auto& f) {
        if (target < QUEUES) {
            queue q = queue_of_kind(target);
            for (int i = 0; i < times; i++)
                g.notify(f, q);
        } else
            for (int i = 0; i < times; i++)
                g.notify(f);
    });
    quiesce(2500 * MS);
    XCHECK(count(E_START) == times && count(E_END, 0) == times, "%d executions of %d notifications", count(E_START), times);
    if (busy)
        XCHECK(find(E_DONE) < find(E_START), "notified too early");
}
SCENARIO("C07", many, o.bound = 0; o.bound_thorough = 0; o.max_steps = 500000; o.about = "300 notifications of one group one after the other";)
{
    group g;
    const int busy = choose(2);
    int live = 0;
    for (int i = 0; i < 300; i++) {
        if (busy)
            g.async([i] {
                std::this_thread::sleep_for(milliseconds(1));
                ev(E_DONE, i);
            });
        g.notify([i] { ev(E_START, i); });
        quiesce(5 * MS);
        XCHECK(count(E_START, i) == 1, "%d executions of notification %d", count(E_START, i), i);
        XCHECK(!busy || find(E_DONE, i) < find(E_START, i), "notified too early");
        if (i == 20)
            live = heap_live();
    }
    XCHECK(heap_live() <= live + 10, "the heap grew by %d blocks", heap_live() - live);
}
