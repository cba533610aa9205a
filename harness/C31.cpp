// C31: the pool copes with threads that cannot be created
#include "kinds.h"
#include <system_error>

static void
busy(int id, int ms = 1)
{
    ev(E_START, id);
    std::this_thread::sleep_for(milliseconds(ms));
    ev(E_END, id);
}
// whether the submission was accepted
template<typename F>
static bool
attempt(const F& f)
{
    try {
        f();
        return true;
    } catch (const std::system_error&) {
        XCHECK(thread_failures() > 0, "failed although threads could be created");
        return false;
    }
}
// the thread of the queue manager exists from here on
static void
warm_up()
{
    create_serial_queue("w");
}
// threads besides the main thread and the one of the queue manager
static int
pool_threads()
{
    return threads_alive() - 2;
}
// accepted operations are executed exactly once, those refused at most once
static void
settled(const std::vector<bool>& accepted)
{
    quiesce(5000 * MS);
    for (int i = 0; i < (int)accepted.size(); i++) {
        XCHECK(count(E_START, i) <= 1, "operation %d was executed %d times", i, count(E_START, i));
        XCHECK(!accepted[i] || count(E_START, i) == 1, "operation %d was accepted but never executed", i);
    }
    outcome(count(E_START) * 100 + thread_failures());
}
// the most operations executed at the same time
static int
most()
{
    int running = 0, m = 0;
    for (int i = 0; i < nevents(); i++) {
        running += events()[i].kind == E_START;
        running -= events()[i].kind == E_END;
        m = std::max(m, running);
    }
    return m;
}
// all threads of the pool are used once they can be created again
static void
full_strength(int cpus, int first, int excess = 0)
{
    struct rendezvous
    {
        std::mutex m;
        std::condition_variable c;
        int arrived = 0;
    };
    auto r = std::make_shared<rendezvous>();
    thread_faults(0);
    for (int i = 0; i < 2 * cpus; i++)
        global_queue().async([=] {
            ev(E_START, first + i);
            std::unique_lock<std::mutex> l(r->m);
            if (++r->arrived == 2 * cpus)
                r->c.notify_all();
            while (r->arrived < 2 * cpus)
                r->c.wait(l);
            ev(E_END, first + i);
        });
    quiesce(5000 * MS);
    for (int i = 0; i < 2 * cpus; i++)
        XCHECK(count(E_END, first + i) == 1, "%d operations are not executed at the same time anymore after %d failures", 2 * cpus, thread_failures());
    // but not more of them than before
    for (int i = 0; i < 2 * cpus + 2; i++)
        global_queue().async([=] { busy(first + 2 * cpus + i, 5); });
    quiesce(5000 * MS);
    XCHECK(most() <= 2 * cpus + excess, "%d operations executed at the same time with a limit of %d", most(), 2 * cpus + excess);
}

SCENARIO("C31", any_creation, o.bound = 2; o.bound_thorough = 4; o.about = "any of the attempts to create a thread fails while operations are submitted";)
{
    warm_up();
    std::unique_ptr<queue> handle(new queue(choose(2) ? create_serial_queue("q") : global_queue()));
    const auto q = [&]() -> queue& { return *handle; };
    thread_faults(1);
    std::vector<bool> accepted;
    for (int i = 0; i < 3; i++) {
        const bool alone = pool_threads() == 0;
        accepted.push_back(attempt([&] { q().async([i] { busy(i); }); }));
        XCHECK(accepted[i] || alone || pool_threads() == 0, "refused although the pool has a thread");
    }
    thread_faults(0);
    const int next = choose(3);
    if (next == 2) {
        // the queue is destroyed and no one submits to it anymore
        handle.reset();
        accepted.push_back(attempt([&] { create_serial_queue("other").async([] { busy(3); }); }));
    } else
        accepted.push_back(attempt([&] { (next ? q() : global_queue()).async([] { busy(3); }); }));
    XCHECK(accepted[3], "still refused");
    settled(accepted);
    for (int i = 0; i < 4; i++)
        XCHECK(count(E_START, i) == 1, "operation %d is stuck", i);
}
SCENARIO("C31", strength, o.bound = 1; o.bound_thorough = 2; o.about = "up to five failures one after the other, then all threads are used again";)
{
    warm_up();
    const int n = choose(6), before = choose(2);
    if (before)
        global_queue().async([] { busy(90, 40); });
    thread_faults(-1);
    for (int i = 0; i < n; i++) {
        const bool ok = attempt([&] { global_queue().async([i] { busy(80 + i); }); });
        XCHECK(ok == (before || pool_threads() > 0), "%s", ok ? "accepted without any thread" : "refused although the pool has a thread");
    }
    if (choose(2))
        std::this_thread::sleep_for(milliseconds(50));
    full_strength(1, 0);
    for (int i = 0; i < n; i++)
        XCHECK(count(E_START, 80 + i) == 1, "operation %d is stuck", i);
}
SCENARIO("C31", strength_two_cpus, o.bound = 0; o.bound_thorough = 1; o.cpus = 2; o.about = "the same with four threads and up to eight failures";)
{
    warm_up();
    const int before = choose(4), n = choose(9);
    for (int i = 0; i < before; i++)
        global_queue().async([i] { busy(90 + i, 40); });
    thread_faults(-1);
    for (int i = 0; i < n; i++)
        attempt([&] { global_queue().async([i] { busy(80 + i); }); });
    if (choose(2))
        std::this_thread::sleep_for(milliseconds(50));
    full_strength(2, 0);
}
SCENARIO("C31", after_expiry, o.bound = 1; o.bound_thorough = 2; o.about = "the failure hits when all threads have expired or are about to";)
{
    warm_up();
    global_queue().async([] { busy(90); });
    std::this_thread::sleep_for(choose(2) ? std::chrono::seconds(30) : std::chrono::seconds(31));
    thread_faults(-1);
    attempt([&] { global_queue().async([] { busy(91); }); });
    full_strength(1, 0, 1);
    XCHECK(count(E_START, 91) == 1, "operation is stuck");
}
SCENARIO("C31", two_submitters, o.bound = 2; o.bound_thorough = 3; o.about = "two threads submit at the same time while creating threads may fail";)
{
    warm_up();
    thread_faults(0);
    std::vector<bool> accepted(4);
    bool a = false, b = false;
    std::thread t([&] {
        for (int i = 0; i < 1; i++)
            a = attempt([&] { global_queue().async([i] { busy(i); }); });
    });
    thread_faults(1);
    b = attempt([&] { global_queue().async([] { busy(1); }); });
    t.join();
    thread_faults(0);
    accepted[0] = a;
    accepted[1] = b;
    for (int i = 2; i < 4; i++)
        accepted[i] = attempt([&] { global_queue().async([i] { busy(i); }); });
    settled(accepted);
    for (int i = 0; i < 4; i++)
        XCHECK(count(E_START, i) == 1, "operation %d is stuck", i);
    full_strength(1, 4);
}
SCENARIO("C31", blocked, o.bound = 1; o.bound_thorough = 2; o.about = "a thread blocks in the library and the one to make up for it cannot be created: no exception, the limit stays, everything completes once there are threads again";)
{
    warm_up();
    const int how = choose(4);
    lightweight_barrier b;
    group g;
    global_queue().async([&] {
        ev(E_MARK);
        switch (how) {
            case 0: b.wait(); break;
            case 1: g.wait(milliseconds(-1)); break;
            case 2: global_queue().apply(2, [](size_t i) { ev(E_DONE, (int)i); }); break;
            case 3: create_serial_queue("p").apply(2, [](size_t i) { ev(E_DONE, (int)i); }); break;
        }
        ev(E_MARK);
    });
    thread_faults(-1);
    if (how == 1)
        g.async([] { ev(E_DONE, 0); }, global_queue());
    quiesce(20 * MS);
    XCHECK(count(E_MARK) >= 1, "did not start");
    thread_faults(0);
    if (how == 0)
        b.complete();
    global_queue().async([] { busy(50); });
    global_queue().async([] { busy(51); });
    quiesce(1000 * MS);
    XCHECK(count(E_MARK) == 2, "still blocked");
    XCHECK(count(E_START) == 2, "operations are stuck");
    full_strength(1, 0, 1);
}
SCENARIO("C31", timers, o.bound = 1; o.bound_thorough = 2; o.about = "timers and notifiers started while threads cannot be created run as soon as there is one";)
{
    warm_up();
    const bool busy_pool = choose(2);
    if (busy_pool)
        global_queue().async([] { busy(90, 30); });
    thread_faults(-1);
    timer t(milliseconds(10), global_queue());
    t.handler([] { ev(E_DONE); });
    const bool ok = attempt([&] { t.resume(milliseconds(10)); });
    XCHECK(ok == busy_pool, "%s", ok ? "accepted without a thread" : "refused although the pool has a thread");
    std::this_thread::sleep_for(milliseconds(100));
    thread_faults(0);
    global_queue().async([] { busy(91); });
    quiesce(200 * MS);
    XCHECK(count(E_DONE) >= 5, "the timer fired %d times", count(E_DONE));
    t.cancel();
    full_strength(1, 0, 1);
}
SCENARIO("C31", groups_and_kinds, o.bound = 1; o.bound_thorough = 2; o.about = "every way to submit an operation, on every kind of queue, while creating threads may fail";)
{
    warm_up();
    const queue q = queue_of_kind(choose(QUEUES));
    const int how = choose(4);
    thread_faults(choose(2) ? 1 : -1);
    group g;
    attempt([&] {
        switch (how) {
            case 0: q.async([] { ev(E_START, 0); ev(E_END, 0); }); break;
            case 1: g.async([] { ev(E_START, 0); ev(E_END, 0); }, q); break;
            case 2: g.notify([] { ev(E_START, 0); ev(E_END, 0); }, q); break;
            case 3: q.after(milliseconds(5), [] { ev(E_START, 0); ev(E_END, 0); }); break;
        }
    });
    thread_faults(0);
    q.async([] { ev(E_START, 1); ev(E_END, 1); });
    const int n = 2 + choose(2);
    if (n == 3)
        global_queue().async([] { ev(E_START, 2); ev(E_END, 2); });
    quiesce(200 * MS);
    for (int i = 0; i < n; i++)
        XCHECK(count(E_END, i) == 1, "operation %d was executed %d times", i, count(E_END, i));
    XCHECK(g.wait(milliseconds(0)), "the group never completes");
}
SCENARIO("C31", first_use, o.bound = 2; o.bound_thorough = 3; o.about = "no thread can be created when the library is used for the first time: fails, and works later on";)
{
    const int what = choose(3);
    thread_faults(1);
    bool ok = attempt([&] {
        switch (what) {
            case 0: create_serial_queue("a"); break;
            case 1: create_parallel_queue("b").async([] {}); break;
            case 2: {
                timer t(milliseconds(0), global_queue());
                t.handler([] {});
                t.resume(milliseconds(0));
                break;
            }
        }
    });
    XCHECK(ok || thread_failures() > 0, "refused");
    thread_faults(0);
    const queue q = create_serial_queue("q");
    q.async([] { busy(0); });
    global_queue().async([] { busy(1); });
    settled({ true, true });
    full_strength(1, 2, 1);
}
