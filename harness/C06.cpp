// C06: group::wait returns true only after all submitted work finished
#include "groups.h"
#include "kinds.h"

static void
work(group& g, const queue& q, int id, int ms = 0)
{
    g.async([id, ms] {
        ev(E_START, id);
        if (ms)
            std::this_thread::sleep_for(milliseconds(ms));
        ev(E_END, id);
    }, q);
}
// waits and checks the result against the operations [0,n) which were
// submitted before; returns the result
static bool
waits(group& g, int n, int timeout = -1)
{
    const uint64_t t0 = now();
    const bool res = g.wait(milliseconds(timeout));
    int ended = 0;
    for (int i = 0; i < n; i++)
        ended += count(E_END, i);
    if (res) {
        for (int i = 0; i < n; i++)
            XCHECK(count(E_END, i) == 1, "wait() returned true but operation %d did not finish", i);
    } else {
        XCHECK(timeout >= 0, "unlimited wait() returned false");
        XCHECK(now() - t0 >= timeout * MS, "wait() returned false after %llu ns instead of %d ms", (unsigned long long)(now() - t0), timeout);
    }
    (void)ended;
    return res;
}
static queue
pq()
{
    return naive::create_parallel_queue("q", make_spawn_pool());
}

SCENARIO("C06", one_batch, o.bound = 4; o.bound_thorough = 6; o.about = "two operations on a parallel queue, unlimited wait";)
{
    auto q = pq();
    group g;
    work(g, q, 0);
    work(g, q, 1);
    waits(g, 2);
}
SCENARIO("C06", empty, o.bound = 4; o.about = "waiting for a group without work, several times and with every kind of timeout";)
{
    group g;
    XCHECK(g.wait(milliseconds(0)), "an empty group timed out");
    XCHECK(g.wait(milliseconds(-1)), "an empty group timed out");
    XCHECK(g.wait(milliseconds(10)), "an empty group timed out");
}
SCENARIO("C06", two_batches, o.bound = 3; o.bound_thorough = 5; o.about = "a second batch after a finished wait";)
{
    auto q = pq();
    group g;
    work(g, q, 0);
    waits(g, 1);
    work(g, q, 1);
    waits(g, 2);
    waits(g, 2);
}
SCENARIO("C06", second_batch_after_finish, o.bound = 3; o.bound_thorough = 5; o.about = "the first operation is finished when the second is submitted, no wait in between";)
{
    auto q = pq();
    group g;
    work(g, q, 0);
    quiesce();
    work(g, q, 1);
    waits(g, 2);
}
SCENARIO("C06", finish_and_resubmit_long, o.bound = 2; o.bound_thorough = 4; o.about = "as before with the second operation taking long and a timeout";)
{
    auto q = pq();
    group g;
    work(g, q, 0);
    quiesce();
    work(g, q, 1, 20);
    waits(g, 2, 5);
    waits(g, 2);
}
SCENARIO("C06", timeouts, o.bound = 3; o.bound_thorough = 4; o.about = "limited waits shorter and longer than the work, then an unlimited one";)
{
    auto q = pq();
    group g;
    work(g, q, 0, 10);
    static const int T[] = { 0, 5, 10, 50 };
    waits(g, 1, T[choose(4)]);
    waits(g, 1);
    XCHECK(g.wait(milliseconds(0)), "finished group timed out");
}
SCENARIO("C06", poll, o.bound = 2; o.bound_thorough = 3; o.about = "polling with a zero timeout while work is submitted in between";)
{
    auto q = pq();
    group g;
    work(g, q, 0, 5);
    waits(g, 1, 0);
    work(g, q, 1, 1);
    waits(g, 2, 0);
    waits(g, 2, 2);
    waits(g, 2);
}
SCENARIO("C06", two_waiters, o.bound = 3; o.bound_thorough = 4; o.about = "two threads wait for the same work";)
{
    auto q = pq();
    group g;
    work(g, q, 0);
    std::thread t([&] { waits(g, 1); });
    waits(g, 1);
    t.join();
}
SCENARIO("C06", two_waiters_timeout, o.bound = 3; o.bound_thorough = 4; o.about = "a limited and an unlimited wait at the same time, followed by another";)
{
    auto q = pq();
    group g;
    work(g, q, 0, 10);
    std::thread t([&] { waits(g, 1, 5); });
    waits(g, 1);
    t.join();
    waits(g, 1);
}
SCENARIO("C06", three_waiters, o.bound = 2; o.bound_thorough = 3; o.about = "three threads wait, work of two batches";)
{
    auto q = pq();
    group g;
    work(g, q, 0);
    std::thread t([&] { waits(g, 1); });
    std::thread u([&] { waits(g, 1); });
    work(g, q, 1);
    waits(g, 2);
    t.join();
    u.join();
}
SCENARIO("C06", async_racing_wait, o.bound = 3; o.bound_thorough = 5; o.about = "work submitted while another thread waits; a later wait covers it";)
{
    auto q = pq();
    group g;
    work(g, q, 0);
    std::thread t([&] { work(g, q, 1); });
    waits(g, 1);
    t.join();
    waits(g, 2);
}
SCENARIO("C06", two_submitters, o.bound = 3; o.bound_thorough = 4; o.about = "two threads submit and wait on their own";)
{
    auto q = pq();
    group g;
    std::thread t([&] {
        work(g, q, 1);
        g.wait();
        XCHECK(count(E_END, 1) == 1, "wait() returned true but operation 1 did not finish");
    });
    work(g, q, 0);
    waits(g, 1);
    t.join();
    waits(g, 2);
}
SCENARIO("C06", submit_wait_twice_racing, o.bound = 2; o.bound_thorough = 3; o.about = "two threads each submit and wait twice";)
{
    auto q = pq();
    group g;
    auto body = [&](int a, int b) {
        work(g, q, a);
        XCHECK(g.wait(), "failed");
        XCHECK(count(E_END, a) == 1, "wait() returned true but operation %d did not finish", a);
        work(g, q, b);
        XCHECK(g.wait(), "failed");
        XCHECK(count(E_END, b) == 1, "wait() returned true but operation %d did not finish", b);
    };
    std::thread t([&] { body(2, 3); });
    body(0, 1);
    t.join();
    waits(g, 4);
}
SCENARIO("C06", nested_submit, o.bound = 2; o.bound_thorough = 4; o.about = "an operation of the group submits another one";)
{
    auto q = pq();
    group g;
    g.async([&] {
        ev(E_START, 0);
        work(g, q, 1);
        ev(E_END, 0);
    }, q);
    waits(g, 1);
    waits(g, 2);
}
SCENARIO("C06", wait_in_operation, o.bound = 2; o.bound_thorough = 3; o.about = "waiting inside of an operation of the pool";)
{
    group g;
    lightweight_barrier b;
    global_queue().async([&] {
        work(g, global_queue(), 0);
        waits(g, 1);
        b.complete();
    });
    b.wait();
}
SCENARIO("C06", serial_targets, o.bound = 2; o.bound_thorough = 4; o.about = "operations on two serial queues";)
{
    auto pool = make_spawn_pool();
    auto q = naive::create_serial_queue("q", pool);
    auto p = naive::create_serial_queue("p", pool);
    group g;
    work(g, q, 0);
    work(g, p, 1);
    work(g, q, 2);
    waits(g, 3);
}
SCENARIO("C06", global_pool, o.bound = 2; o.bound_thorough = 3; o.about = "the real pool";)
{
    group g;
    work(g, global_queue(), 0);
    work(g, global_queue(queue_priority::BACKGROUND), 1);
    waits(g, 2);
}
SCENARIO("C06", notify_between, o.bound = 1; o.bound_thorough = 2; o.about = "a notification is pending on the group while others wait";)
{
    auto q = pq();
    group g;
    work(g, q, 0, 5);
    g.notify([] { ev(E_DONE); }, q);
    work(g, q, 1, 1);
    waits(g, 2);
    waits(g, 2);
    quiesce(100 * MS);
    XCHECK(count(E_DONE) == 1, "%d notifications", count(E_DONE));
}
SCENARIO("C06", many_batches, o.bound = 1; o.bound_thorough = 2; o.about = "the group's memory does not grow with every wait";)
{
    auto q = naive::create_parallel_queue("q", std::make_shared<fixed_pool>(1));
    group g;
    check_no_growth([&] {
        work(g, q, nevents());
        XCHECK(g.wait(), "failed");
    });
}
SCENARIO("C06", many_polls, o.bound = 1; o.bound_thorough = 2; o.about = "the group's memory does not grow with every unsuccessful wait";)
{
    auto q = naive::create_parallel_queue("q", std::make_shared<fixed_pool>(1));
    group g;
    work(g, q, 0, 100);
    check_no_growth([&] { g.wait(milliseconds(0)); });
}
SCENARIO("C06", dropped_group, o.bound = 3; o.bound_thorough = 4; o.about = "the group is destroyed before its work is done";)
{
    auto q = pq();
    {
        group g;
        work(g, q, 0);
        work(g, q, 1);
        g.wait(milliseconds(0));
        work(g, q, 2);
    }
    quiesce();
    check_once(3);
}
SCENARIO("C06", visibility, o.bound = 3; o.bound_thorough = 4; o.races = true; o.about = "what the operations wrote is visible after wait() returned true";)
{
    auto q = pq();
    group g;
    int v[3] = { 0, 0, 0 };
    g.async([&] { v[0] = 1; }, q);
    g.async([&] { v[1] = 1; }, q);
    std::thread t([&] {
        if (g.wait())
            XCHECK(v[0] == 1 && v[1] == 1, "not visible");
    });
    if (g.wait(milliseconds(10)))
        XCHECK(v[0] == 1 && v[1] == 1, "not visible");
    g.async([&] { v[2] = 1; }, q);
    g.wait();
    XCHECK(v[2] == 1, "not visible");
    t.join();
}

SCENARIO("C06", histories, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.about = "every sequence of four operations (work on parallel and serial queues, notifications, waits with and without timeout, pauses, copies) on a group";)
{
    group_history(4, true);
}
SCENARIO("C06", histories_long, o.bound = -1; o.bound_thorough = 0; o.timedev = false; o.about = "... of five operations";)
{
    group_history(5, false);
}
SCENARIO("C06", every_kind, o.bound = 1; o.bound_thorough = 2; o.about = "every kind of operation submitted to a group for every kind of queue, by priority and for the default queue";)
{
    object_with_work object;
    group g;
    const int kind = choose(KINDS), times = 1 + choose(2), target = choose(QUEUES + 2);
    use_kind(kind, 0, object, [&](const auto& f) {
        if (target < QUEUES) {
            queue q = queue_of_kind(target);
            for (int i = 0; i < times; i++)
                g.async(f, q);
        } else
            for (int i = 0; i < times; i++) {
                if (target == QUEUES)
                    g.async(f);
                else
                    g.async(f, queue_priority::USER_INITIATED);
            }
    });
    XCHECK(g.wait(), "not done");
    XCHECK(count(E_END, 0) == times && count(E_START) == times, "%d of %d operations were finished", count(E_END), times);
    XCHECK(g.wait(milliseconds(0)), "not done");
    quiesce(10 * MS);
    XCHECK(count(E_START) == times, "%d executions", count(E_START));
}
SCENARIO("C06", many, o.bound = 0; o.bound_thorough = 0; o.max_steps = 500000; o.about = "300 batches of one group, with and without limited waits in between: nothing accumulates";)
{
    group g;
    int live = 0;
    const int polled = choose(3), size = 1 + choose(3);
    for (int i = 0; i < 300; i++) {
        for (int k = 0; k < size; k++)
            g.async([i] {
                std::this_thread::sleep_for(milliseconds(1));
                ev(E_END, i);
            });
        for (int k = 0; k < polled; k++)
            XCHECK(!g.wait(std::chrono::milliseconds(0)), "returned true before the work was done");
        XCHECK(g.wait(), "not done");
        XCHECK(count(E_END, i) == size, "returned before the work of batch %d was done", i);
        if (i == 20)
            live = heap_live();
    }
    XCHECK(heap_live() <= live + 10, "the heap grew by %d blocks", heap_live() - live);
}
SCENARIO("C06", exact_times, o.timedev = false; o.bound = 0; o.bound_thorough = 1; o.about = "two waits with every pair of timeouts from none to years and work of every length";)
{
    static const long long T[] = { 0, 1, 7, 999, 1500, 3600000, 2147483649ll, 4294967300ll, 86400000ll * 3000, -1 };
    static const long long C[] = { 0, 1, 5, 998, 1200, 3599000, 2147483648ll, 4294967299ll, 86400000ll * 2999 };
    const long long c = C[choose(9)], t[] = { T[choose(10)], T[choose(10)] };
    auto p = naive::create_parallel_queue("p", make_spawn_pool());
    group g;
    const uint64_t done = now() + c * MS;
    g.async([c] { std::this_thread::sleep_for(milliseconds(c)); }, p);
    for (int i = 0; i < 2; i++) {
        const uint64_t t0 = now(), completed = std::max(done, t0), limit = t0 + t[i] * MS;
        const bool r = g.wait(milliseconds(t[i]));
        if (t[i] < 0 || limit > done)
            XCHECK(r && now() == completed, "wait(%lld ms) returned %d after %lld ms", t[i], r, (long long)((now() - t0) / MS));
        else
            XCHECK(now() == (r ? completed : limit) && (!r || now() >= done), "wait(%lld ms) returned %d after %lld ms", t[i], r, (long long)((now() - t0) / MS));
    }
}
SCENARIO("C06", time_used_up, o.timedev = false; o.bound = 1; o.bound_thorough = 2; o.about = "three batches of different lengths in every order, each followed by a limited wait: a wait neither ends early nor takes longer than its timeout";)
{
    auto p = naive::create_parallel_queue("p", make_spawn_pool());
    group g;
    uint64_t ends = 0;
    for (int i = 0; i < 3; i++) {
        static const int W[] = { 2, 6, 11 }, T[] = { 0, 4, 9 };
        const int work = W[choose(3)], timeout = T[choose(3)];
        ends = std::max(ends, now() + work * MS);
        g.async([work] { std::this_thread::sleep_for(milliseconds(work)); }, p);
        const uint64_t t0 = now();
        const bool res = g.wait(milliseconds(timeout));
        XCHECK(res || now() >= t0 + timeout * MS, "wait() returned false too early");
        XCHECK(!res || now() >= ends, "wait() returned true too early");
        XCHECK(now() == (res ? std::max(t0, ends) : t0 + timeout * MS), "wait(%d ms) took %d ms", timeout, int((now() - t0) / MS));
    }
    XCHECK(g.wait() && now() >= ends, "wait() returned too early");
}
SCENARIO("C06", wall_clock, o.timedev = false; o.bound = 1; o.bound_thorough = 2; o.about = "the clock of the system is set while waiting: no influence on timeouts";)
{
    auto p = naive::create_parallel_queue("p", make_spawn_pool());
    group g;
    const int work = choose(2) ? 30 : 200;
    std::thread c = wall_clock_setter();
    const uint64_t t0 = now();
    g.async([work] { std::this_thread::sleep_for(milliseconds(work)); }, p);
    const bool r = g.wait(milliseconds(50));
    XCHECK(r == (work == 30) && now() == t0 + (r ? 30 : 50) * MS, "wait(50 ms) for work of %d ms returned %d after %lld ms", work, r, (long long)((now() - t0) / MS));
    XCHECK(g.wait(milliseconds(-1)), "wait failed");
    c.join();
}
