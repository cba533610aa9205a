// C09: the thread pool keeps its thread limit and always recovers
#include "queues.h"

// checks the number of operations executing at the same time against the
// limit plus the peak of threads within a blocking call of the library
// (bracketed by E_WAIT / E_WAITED)
static void
check_limit(int cpus, int tolerance = 0)
{
    int running = 0, blocked = 0, peak = 0, most = 0;
    for (int i = 0; i < nevents(); i++) {
        switch (events()[i].kind) {
            case E_WAIT: blocked++; break;
            case E_WAITED: blocked--; break;
            case E_START: running++; break;
            case E_END: running--; break;
            default: break;
        }
        if (blocked > peak)
            peak = blocked;
        if (running > most)
            most = running;
        XCHECK(running <= 2 * cpus + peak + tolerance, "%d operations run at the same time with a limit of %d threads and %d blocked", running, 2 * cpus, peak);
    }
    outcome(most * 10 + peak);
}
// takes some time without the pool knowing about it
static void
busy(int id, int ms = 1)
{
    ev(E_START, id);
    std::this_thread::sleep_for(milliseconds(ms));
    ev(E_END, id);
}
static void
settled(int n, int cpus, int tolerance = 0)
{
    quiesce(5000 * MS);
    check_once(n);
    check_limit(cpus, tolerance);
}

SCENARIO("C09", burst, o.bound = 3; o.bound_thorough = 4; o.about = "three operations at once, two threads";)
{
    for (int i = 0; i < 3; i++)
        global_queue().async([i] { busy(i); });
    settled(3, 1);
}
SCENARIO("C09", burst_two_cpus, o.bound = 2; o.bound_thorough = 3; o.cpus = 2; o.about = "six operations at once, four threads";)
{
    for (int i = 0; i < 6; i++)
        global_queue().async([i] { busy(i); });
    settled(6, 2);
}
SCENARIO("C09", two_submitters, o.bound = 2; o.bound_thorough = 3; o.about = "two threads submit two operations each: racing for the last free thread";)
{
    std::thread t([] {
        for (int i = 0; i < 2; i++)
            global_queue().async([i] { busy(i); });
    });
    for (int i = 2; i < 4; i++)
        global_queue().async([i] { busy(i); });
    t.join();
    settled(4, 1);
}
SCENARIO("C09", three_submitters, o.bound = 2; o.bound_thorough = 3; o.about = "three threads submit to queues of different priorities";)
{
    std::thread t([] { global_queue(queue_priority::BACKGROUND).async([] { busy(0); }); });
    std::thread u([] { global_queue(queue_priority::USER_INTERACTIVE).async([] { busy(1); }); });
    create_serial_queue("q").async([] { busy(2); });
    t.join();
    u.join();
    settled(3, 1);
}
SCENARIO("C09", submit_from_operations, o.bound = 2; o.bound_thorough = 3; o.about = "operations that submit further ones";)
{
    for (int i = 0; i < 2; i++)
        global_queue().async([i] {
            ev(E_START, i);
            global_queue().async([i] { busy(2 + i); });
            std::this_thread::sleep_for(milliseconds(1));
            ev(E_END, i);
        });
    settled(4, 1);
}
SCENARIO("C09", idle_threads_reused, o.bound = 2; o.bound_thorough = 3; o.about = "burst after all threads fell asleep";)
{
    for (int i = 0; i < 2; i++)
        global_queue().async([i] { busy(i); });
    std::this_thread::sleep_for(milliseconds(10));
    for (int i = 2; i < 5; i++)
        global_queue().async([i] { busy(i); });
    settled(5, 1);
}
SCENARIO("C09", burst_after_expiry, o.bound = 2; o.bound_thorough = 3; o.about = "burst after all idle threads expired";)
{
    for (int i = 0; i < 2; i++)
        global_queue().async([i] { busy(i); });
    quiesce(100000 * MS);
    XCHECK(threads_alive() <= 2, "idle threads do not expire");
    for (int i = 2; i < 5; i++)
        global_queue().async([i] { busy(i); });
    settled(5, 1);
}
SCENARIO("C09", burst_at_expiry, o.bound = 2; o.bound_thorough = 3; o.about = "burst at the very moment the idle threads expire";)
{
    for (int i = 0; i < 2; i++)
        global_queue().async([i] {
            ev(E_START, i);
            ev(E_END, i);
        });
    std::this_thread::sleep_for(std::chrono::seconds(30));
    for (int i = 2; i < 5; i++)
        global_queue().async([i] { busy(i); });
    settled(5, 1, 1);
}
SCENARIO("C09", again_after_expiry_race, o.bound = 2; o.bound_thorough = 3; o.about = "the accounting is intact after submissions racing with the expiry: later bursts keep the exact limit";)
{
    global_queue().async([] {
        ev(E_START, 0);
        ev(E_END, 0);
    });
    std::this_thread::sleep_for(std::chrono::seconds(30));
    global_queue().async([] { busy(1); });
    quiesce(100000 * MS);
    for (int i = 2; i < 5; i++)
        global_queue().async([i] { busy(i); });
    settled(5, 1);
}
SCENARIO("C09", two_submitters_at_expiry, o.bound = 2; o.bound_thorough = 3; o.about = "two threads submit when the idle thread expires";)
{
    global_queue().async([] {
        ev(E_START, 0);
        ev(E_END, 0);
    });
    std::thread t([] {
        std::this_thread::sleep_for(std::chrono::seconds(30));
        global_queue().async([] { busy(1); });
    });
    std::this_thread::sleep_for(std::chrono::seconds(30));
    global_queue().async([] { busy(2); });
    t.join();
    settled(3, 1, 1);
    quiesce(100000 * MS);
    for (int i = 3; i < 6; i++)
        global_queue().async([i] { busy(i); });
    settled(6, 1, 1);
}
SCENARIO("C09", blocked_threads_replaced, o.bound = 2; o.bound_thorough = 2; o.quick_cap_s = 25; o.about = "a blocked thread is replaced by one more, not by several";)
{
    auto p = naive::create_parallel_queue("p", make_spawn_pool());
    global_queue().async([p] {
        ev(E_START, 0);
        ev(E_WAIT);
        p.apply(1, [](size_t) { std::this_thread::sleep_for(milliseconds(3)); });
        ev(E_WAITED);
        ev(E_END, 0);
    });
    for (int i = 1; i < 4; i++)
        global_queue().async([i] { busy(i); });
    settled(4, 1);
}
SCENARIO("C09", limit_back_after_blocking, o.bound = 1; o.bound_thorough = 2; o.about = "the limit is back to normal after blocked threads returned and idle ones expired";)
{
    auto p = naive::create_parallel_queue("p", make_spawn_pool());
    for (int k = 0; k < 2; k++)
        global_queue().async([p] {
            group g;
            g.async([] { std::this_thread::sleep_for(milliseconds(3)); }, p);
            g.wait(milliseconds(1));
            g.wait(milliseconds(1));
            p.apply(1, [](size_t) { std::this_thread::sleep_for(milliseconds(3)); });
        });
    quiesce(100000 * MS);
    for (int i = 0; i < 4; i++)
        global_queue().async([i] { busy(i); });
    settled(4, 1);
}
SCENARIO("C09", limit_back_after_timers, o.bound = 1; o.bound_thorough = 2; o.about = "the limit is back to normal after timers and notifiers were cancelled";)
{
    {
        timer t(milliseconds(10), global_queue());
        t.handler([] {});
        t.resume(milliseconds(5));
        sock_set(5, true, false, false);
        socket_notifier n(5, notifier_type::READ, global_queue());
        n.handler([](socket_t, notifier_type) { std::this_thread::sleep_for(milliseconds(5)); });
        n.resume();
        std::this_thread::sleep_for(milliseconds(8));
        t.cancel();
        n.cancel();
    }
    quiesce(100000 * MS);
    for (int i = 0; i < 4; i++)
        global_queue().async([i] { busy(i); });
    settled(4, 1);
}
SCENARIO("C09", limit_kept_with_timers, o.bound = 1; o.bound_thorough = 2; o.about = "waiting timers do not take threads from operations";)
{
    ev(E_WAIT);
    timer t(milliseconds(5000), global_queue());
    t.handler([] {});
    t.resume(milliseconds(5000));
    for (int i = 0; i < 4; i++)
        global_queue().async([i] { busy(i); });
    quiesce(2500 * MS);
    check_once(4);
    check_limit(1);
    t.cancel();
    ev(E_WAITED);
}
// operations which only complete once all of them are being executed
struct rendezvous
{
    std::mutex m;
    std::condition_variable c;
    const int expected;
    int arrived = 0;
    explicit rendezvous(int n)
      : expected(n)
    {}
    void arrive()
    {
        std::unique_lock<std::mutex> l(m);
        if (++arrived == expected)
            c.notify_all();
        while (arrived < expected)
            c.wait(l);
    }
};
static void
rendezvous_of(int n, int first)
{
    auto r = std::make_shared<rendezvous>(n);
    for (int i = 0; i < n; i++)
        global_queue().async([r, i, first] {
            ev(E_START, first + i);
            r->arrive();
            ev(E_END, first + i);
        });
}
SCENARIO("C09", all_threads_used, o.bound = 2; o.bound_thorough = 3; o.about = "as many operations as the limit allows which wait for each other on their own: all are executed at the same time, whatever the threads did before";)
{
    const int before = choose(3);
    for (int i = 0; i < before; i++)
        global_queue().async([i] { busy(i); });
    if (choose(2))
        std::this_thread::sleep_for(milliseconds(10));
    rendezvous_of(2, before);
    settled(before + 2, 1);
}
SCENARIO("C09", all_threads_used_two_cpus, o.bound = 1; o.bound_thorough = 2; o.cpus = 2; o.about = "the same with four threads";)
{
    const int before = choose(5);
    for (int i = 0; i < before; i++)
        global_queue().async([i] { busy(i); });
    std::this_thread::sleep_for(milliseconds(10));
    rendezvous_of(4, before);
    settled(before + 4, 2);
}
static void
any_load(int cpus)
{
    const int before = choose(2 * cpus + 2);
    for (int i = 0; i < before; i++)
        global_queue().async([i] { busy(i); });
    if (choose(2))
        std::this_thread::sleep_for(milliseconds(10));
    rendezvous_of(2 * cpus, before);
    // and more than there are threads for
    for (int i = 0; i < 3; i++)
        global_queue().async([i, before, cpus] { busy(before + 2 * cpus + i); });
    settled(before + 2 * cpus + 3, cpus);
}
SCENARIO("C09", all_threads_used_three_cpus, o.bound = 1; o.bound_thorough = 1; o.cpus = 3; o.about = "the same with six threads and more operations than threads";) { any_load(3); }
SCENARIO("C09", all_threads_used_eight_cpus, o.bound = 0; o.bound_thorough = 1; o.cpus = 8; o.about = "the same with 16 threads";) { any_load(8); }
SCENARIO("C09", all_threads_used_twelve_cpus, o.bound = 0; o.bound_thorough = 0; o.cpus = 12; o.about = "the same with 24 threads";) { any_load(12); }
SCENARIO("C09", all_threads_used_at_expiry, o.bound = 2; o.bound_thorough = 3; o.about = "... when one idle thread or two are about to expire";)
{
    const int before = 1 + choose(2);
    for (int i = 0; i < before; i++)
        global_queue().async([i] {
            ev(E_START, i);
            ev(E_END, i);
        });
    std::this_thread::sleep_for(std::chrono::seconds(30));
    rendezvous_of(2, before);
    settled(before + 2, 1, 1);
}
SCENARIO("C09", all_threads_used_two_submitters, o.bound = 2; o.bound_thorough = 3; o.about = "... submitted by two threads";)
{
    global_queue().async([] { busy(0); });
    std::this_thread::sleep_for(milliseconds(10));
    auto r = std::make_shared<rendezvous>(2);
    auto op = [r](int i) {
        ev(E_START, i);
        r->arrive();
        ev(E_END, i);
    };
    std::thread t([op] { global_queue(queue_priority::BACKGROUND).async([op] { op(1); }); });
    global_queue().async([op] { op(2); });
    t.join();
    settled(3, 1);
}
SCENARIO("C09", all_threads_used_after_blocking, o.bound = 2; o.bound_thorough = 2; o.about = "... while and after a thread was blocked within the library";)
{
    auto p = naive::create_parallel_queue("p", make_spawn_pool());
    global_queue().async([p] {
        ev(E_START, 0);
        ev(E_WAIT);
        p.apply(1, [](size_t) { std::this_thread::sleep_for(milliseconds(3)); });
        ev(E_WAITED);
        ev(E_END, 0);
    });
    std::this_thread::sleep_for(milliseconds(choose(2) ? 10 : 1));
    rendezvous_of(2, 1);
    settled(3, 1);
}
SCENARIO("C09", counters_race_free, o.bound = 2; o.bound_thorough = 3; o.races = true; o.about = "the pool itself has no data races: two submitters, idle threads, expiry";)
{
    global_queue().async([] {});
    std::thread t([] { global_queue().async([] {}); });
    std::this_thread::sleep_for(std::chrono::seconds(30));
    global_queue(queue_priority::BACKGROUND).async([] {});
    t.join();
    quiesce(40000 * MS);
}
