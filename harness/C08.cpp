// C08: blocking inside pool operations never stalls the system
#include "queues.h"

// a pool with one thread per work that checks the notifications about blocked
// threads: only from its own threads, in turns
struct counting_pool : public naive::ithreadpool
{
    std::mutex m;
    int blocked = 0, unblocked = 0, running = 0;
    int state[64] = {};
    int blocks_of[64] = {};
    void execute(const operation_ptr& work, queue_priority) override
    {
        std::thread([work, this] {
            {
                std::lock_guard<std::mutex> l(m);
                running |= 1 << tid();
            }
            run_with_threadpool(*work, this);
            std::lock_guard<std::mutex> l(m);
            running &= ~(1 << tid());
            XCHECK(state[tid()] == 0, "the operation ended but its thread is still counted as blocked");
        }).detach();
    }
    void notify_thread_blocked() override
    {
        std::lock_guard<std::mutex> l(m);
        XCHECK(running & (1 << tid()), "a thread of somebody else reports to be blocked");
        XCHECK(state[tid()] == 0, "blocked twice");
        state[tid()] = 1;
        blocks_of[tid()]++;
        blocked++;
    }
    void notify_thread_unblocked() override
    {
        std::lock_guard<std::mutex> l(m);
        XCHECK(running & (1 << tid()), "a thread of somebody else reports to be unblocked");
        XCHECK(state[tid()] == 1, "unblocked without being blocked");
        state[tid()] = 0;
        unblocked++;
    }
    void settled(int at_least)
    {
        std::lock_guard<std::mutex> l(m);
        XCHECK(blocked == unblocked, "%d threads blocked, %d unblocked", blocked, unblocked);
        XCHECK(blocked >= at_least, "the pool was told %d times that a thread is blocked, expected %d", blocked, at_least);
    }
};
static std::shared_ptr<counting_pool>
counting()
{
    return std::make_shared<counting_pool>();
}
static void
fin()
{
    quiesce();
    XCHECK(count(E_DONE) == 1, "stuck");
}

SCENARIO("C08", apply_balanced, o.timedev = false; o.bound = 2; o.bound_thorough = 3; o.about = "apply() in an operation: its pool is told once per blocking call";)
{
    auto pool = counting();
    auto q = naive::create_parallel_queue("q", pool);
    auto p = naive::create_parallel_queue("p", make_spawn_pool());
    q.async([&] {
        // the iteration cannot finish before this thread blocks
        p.apply(1, [](size_t) { std::this_thread::sleep_for(milliseconds(1)); });
        ev(E_DONE);
    });
    quiesce(2500 * MS);
    XCHECK(count(E_DONE) == 1, "stuck");
    pool->settled(1);
}
SCENARIO("C08", group_wait_balanced, o.timedev = false; o.bound = 2; o.bound_thorough = 3; o.about = "group::wait() in an operation, with timeouts before and after the work is finished";)
{
    auto pool = counting();
    auto q = naive::create_parallel_queue("q", pool);
    auto p = naive::create_parallel_queue("p", make_spawn_pool());
    static const int T[] = { -1, 0, 5, 20 };
    const int t = T[choose(4)];
    group g;
    q.async([&, t] {
        g.async([] { std::this_thread::sleep_for(milliseconds(10)); }, p);
        g.wait(milliseconds(t));
        ev(E_DONE);
    });
    quiesce(2500 * MS);
    XCHECK(count(E_DONE) == 1, "stuck");
    pool->settled(t ? 1 : 0);
}
SCENARIO("C08", group_chain_balanced, o.timedev = false; o.bound = 2; o.bound_thorough = 3; o.about = "waiting for several unfinished batches at once";)
{
    auto pool = counting();
    auto q = naive::create_parallel_queue("q", pool);
    auto p = naive::create_parallel_queue("p", make_spawn_pool());
    group g;
    q.async([&] {
        g.async([] { std::this_thread::sleep_for(milliseconds(10)); }, p);
        g.wait(milliseconds(1));
        g.async([] { std::this_thread::sleep_for(milliseconds(20)); }, p);
        g.wait(milliseconds(1));
        g.wait();
        ev(E_DONE);
    });
    quiesce(2500 * MS);
    XCHECK(count(E_DONE) == 1, "stuck");
    pool->settled(2);
}
SCENARIO("C08", barrier_not_in_pool, o.bound = 3; o.bound_thorough = 5; o.about = "waits of threads which belong to no pool concern no pool";)
{
    auto pool = counting();
    auto q = naive::create_parallel_queue("q", pool);
    group g;
    g.async([] { visible(); }, q);
    g.wait();
    q.apply(2, [](size_t) { visible(); });
    quiesce();
    pool->settled(0);
    XCHECK(pool->blocked == 0, "a foreign thread was counted as blocked");
}
SCENARIO("C08", serial_apply_in_pool, o.timedev = false; o.bound = 2; o.bound_thorough = 3; o.about = "apply() on a serial queue of the same pool, nested";)
{
    auto pool = counting();
    auto q = naive::create_serial_queue("q", pool);
    auto p = naive::create_serial_queue("p", pool);
    q.async([&] {
        p.apply(2, [](size_t) { std::this_thread::sleep_for(milliseconds(1)); });
        ev(E_DONE);
    });
    quiesce(2500 * MS);
    XCHECK(count(E_DONE) == 1, "stuck");
    pool->settled(1);
}
SCENARIO("C08", nested_apply, o.bound = 2; o.bound_thorough = 3; o.about = "apply in apply in apply on the global queue with two threads";)
{
    global_queue().apply(2, [](size_t) {
        global_queue().apply(1, [](size_t) { global_queue().apply(1, [](size_t) { ev(E_MARK); }); });
    });
    XCHECK(count(E_MARK) == 2, "not all ran");
    ev(E_DONE);
    fin();
}
SCENARIO("C08", all_threads_blocked, o.bound = 2; o.bound_thorough = 2; o.quick_cap_s = 20; o.about = "more blocking operations than threads: all wait for work queued behind them";)
{
    group outer;
    for (int i = 0; i < 3; i++)
        outer.async([] {
            group g;
            g.async([] { ev(E_MARK); }, global_queue());
            g.wait();
        }, global_queue());
    outer.wait();
    XCHECK(count(E_MARK) == 3, "not all ran");
    ev(E_DONE);
    fin();
}
SCENARIO("C08", blocked_for_low_priority, o.bound = 2; o.bound_thorough = 3; o.about = "high priority operations block on low priority ones";)
{
    group outer;
    for (int i = 0; i < 2; i++)
        outer.async([] {
            global_queue(queue_priority::BACKGROUND).apply(1, [](size_t) { ev(E_MARK); });
        }, global_queue(queue_priority::USER_INTERACTIVE));
    outer.wait();
    XCHECK(count(E_MARK) == 2, "not all ran");
    ev(E_DONE);
    fin();
}
SCENARIO("C08", serial_queues_blocked, o.bound = 2; o.bound_thorough = 2; o.about = "serial queues of the global pool that wait for each other";)
{
    auto a = create_serial_queue("a"), b = create_serial_queue("b"), c = create_serial_queue("c");
    group g;
    g.async([&] { b.apply(1, [&](size_t) { c.apply(1, [](size_t) { ev(E_MARK); }); }); }, a);
    g.wait();
    XCHECK(count(E_MARK) == 1, "not all ran");
    ev(E_DONE);
    fin();
}
SCENARIO("C08", timers_do_not_occupy, o.bound = 1; o.bound_thorough = 2; o.about = "more waiting timers than threads and an operation";)
{
    std::vector<timer> ts;
    for (int i = 0; i < 3; i++) {
        ts.emplace_back(milliseconds(10000), global_queue());
        ts.back().handler([] { ev(E_MARK); });
        ts.back().resume(milliseconds(10000));
    }
    global_queue().async([] { ev(E_DONE); });
    fin();
}
SCENARIO("C08", notifiers_do_not_occupy, o.bound = 1; o.bound_thorough = 2; o.about = "more waiting notifiers than threads and an operation";)
{
    std::vector<socket_notifier> ns;
    for (int i = 0; i < 3; i++) {
        sock_set(5 + i, false, false, false);
        ns.emplace_back(5 + i, notifier_type::READ, global_queue());
        ns.back().handler([](socket_t, notifier_type) { ev(E_MARK); });
        ns.back().resume();
    }
    global_queue().async([] { ev(E_DONE); });
    fin();
    XCHECK(count(E_MARK) == 0, "fired");
}
SCENARIO("C08", notify_does_not_occupy, o.bound = 1; o.bound_thorough = 2; o.about = "more pending group notifications than threads and the work they wait for";)
{
    group g;
    lightweight_barrier b;
    auto p = naive::create_parallel_queue("p", make_spawn_pool());
    g.async([&] { b.wait(); }, p);
    for (int i = 0; i < 3; i++)
        g.notify([] { ev(E_MARK); }, global_queue());
    global_queue().async([&] {
        ev(E_DONE);
        b.complete();
    });
    fin();
    XCHECK(count(E_MARK) == 3, "%d notifications", count(E_MARK));
}
SCENARIO("C08", blocking_twice, o.bound = 2; o.bound_thorough = 2; o.about = "an operation that blocks repeatedly while others arrive";)
{
    group outer;
    outer.async([] {
        for (int i = 0; i < 2; i++)
            global_queue().apply(1, [](size_t) { ev(E_MARK); });
    }, global_queue());
    outer.async([] {
        global_queue().apply(1, [](size_t) { ev(E_MARK); });
    }, global_queue());
    outer.wait();
    XCHECK(count(E_MARK) == 3, "not all ran");
    ev(E_DONE);
    fin();
}
SCENARIO("C08", timer_during_blocked, o.bound = 1; o.bound_thorough = 2; o.about = "delayed operations fire although all threads are blocked";)
{
    lightweight_barrier b;
    group outer;
    for (int i = 0; i < 2; i++)
        outer.async([&] {
            group g;
            g.async([&] { b.wait(); }, naive::create_parallel_queue("p", make_spawn_pool()));
            g.wait();
        }, global_queue());
    global_queue().after(milliseconds(10), [&] {
        ev(E_MARK);
        b.complete();
    });
    outer.wait();
    XCHECK(count(E_MARK) == 1, "not fired");
    ev(E_DONE);
    fin();
}
// occupies one of the two threads without the pool knowing about it
struct busy_thread
{
    std::shared_ptr<std::mutex> m = std::make_shared<std::mutex>();
    std::shared_ptr<std::condition_variable> c = std::make_shared<std::condition_variable>();
    std::shared_ptr<bool> over = std::make_shared<bool>(false);
    busy_thread()
    {
        auto m = this->m;
        auto c = this->c;
        auto over = this->over;
        global_queue().async([m, c, over] {
            std::unique_lock<std::mutex> l(*m);
            while (!*over)
                c->wait(l);
        });
        quiesce(1 * MS);
    }
    ~busy_thread()
    {
        std::lock_guard<std::mutex> l(*m);
        *over = true;
        c->notify_all();
    }
};
static void
descend(int level, int kind)
{
    if (level == 0) {
        ev(E_MARK);
        return;
    }
    const int k = kind == 2 ? level % 2 : kind;
    if (k == 0) {
        group g;
        g.async([=] { descend(level - 1, kind); }, global_queue());
        g.wait();
    } else
        global_queue().apply(1, [=](size_t) { descend(level - 1, kind); });
}
SCENARIO("C08", deep, o.bound = 0; o.bound_thorough = 0; o.max_steps = 200000; o.about = "any number of operations that block for one another (up to 26 on two threads), through apply(), groups and both";)
{
    const int depth = 1 + choose(26), kind = choose(3);
    std::unique_ptr<busy_thread> busy(choose(2) ? new busy_thread : nullptr);
    descend(depth, kind);
    busy.reset();
    XCHECK(count(E_MARK) == 1, "not all ran");
    ev(E_DONE);
    fin();
}
SCENARIO("C08", wide, o.bound = 0; o.bound_thorough = 0; o.max_steps = 200000; o.about = "up to 24 operations on two threads that block for work queued behind all of them";)
{
    const int n = 1 + choose(24), kind = choose(3);
    std::unique_ptr<busy_thread> busy(choose(2) ? new busy_thread : nullptr);
    group outer;
    for (int i = 0; i < n; i++)
        outer.async([=] { descend(1, kind); }, global_queue());
    outer.wait();
    busy.reset();
    XCHECK(count(E_MARK) == n, "not all ran");
    ev(E_DONE);
    fin();
}
