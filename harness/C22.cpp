// C22: a waitable queue is serial and waiting on it cannot deadlock
#include "queues.h"

// a pool that never executes anything until it is told to
struct starving_pool : public naive::ithreadpool
{
    std::mutex m;
    std::vector<operation_ptr> q;
    void execute(const operation_ptr& work, queue_priority) override
    {
        std::lock_guard<std::mutex> l(m);
        q.push_back(work);
    }
    void notify_thread_blocked() override {}
    void notify_thread_unblocked() override {}
    // late: everything on the calling thread
    void run_all()
    {
        for (;;) {
            operation_ptr w;
            {
                std::lock_guard<std::mutex> l(m);
                if (q.empty())
                    return;
                w = q.front();
                q.erase(q.begin());
            }
            run_with_threadpool(*w, this);
        }
    }
};
static queue
inner(int i)
{
    return i == 0 ? create_serial_queue("i") : global_queue();
}
static int
done_in_order(int n)
{
    check_exclusive();
    check_once(n);
    for (int i = 0; i < n; i++)
        XCHECK(i == 0 || find(E_START, i) > find(E_START, i - 1), "operation %d ran before %d", i, i - 1);
    return n;
}

SCENARIO("C22", wait_for_all, o.bound = 2; o.bound_thorough = 3; o.about = "three operations, then wait_for_all()";)
{
    waitable_queue q("w", inner(choose(2)));
    for (int i = 0; i < 3; i++)
        q.async(rec(i));
    q.wait_for_all();
    XCHECK(count(E_END) == 3, "wait_for_all() returned after %d of 3 operations", count(E_END));
    quiesce(2500 * MS);
    done_in_order(3);
}
SCENARIO("C22", wait_for_one, o.bound = 2; o.bound_thorough = 3; o.about = "the n-th wait_for_one() returns once n operations completed";)
{
    waitable_queue q("w", inner(choose(2)));
    for (int i = 0; i < 3; i++)
        q.async(rec(i));
    for (int i = 1; i <= 3; i++) {
        q.wait_for_one();
        XCHECK(count(E_END) >= i, "wait %d returned after %d operations", i, count(E_END));
    }
    q.wait_for_one(); // nothing left to wait for
    quiesce(2500 * MS);
    done_in_order(3);
}
SCENARIO("C22", wait_each, o.bound = 2; o.bound_thorough = 3; o.about = "post one, wait for one, repeated";)
{
    waitable_queue q("w", inner(choose(2)));
    q.wait_for_one();
    q.wait_for_all();
    for (int i = 0; i < 3; i++) {
        q.async(rec(i));
        q.wait_for_one();
        XCHECK(count(E_END) == i + 1, "wait_for_one() returned before its operation was done");
    }
    quiesce(2500 * MS);
    done_in_order(3);
}
SCENARIO("C22", wait_mixed, o.bound = 2; o.bound_thorough = 3; o.about = "wait_for_one() after wait_for_all() waits for an operation that was not waited for";)
{
    waitable_queue q("w", inner(choose(2)));
    q.async(rec(0));
    q.async(rec(1));
    if (choose(2))
        q.wait_for_one();
    q.wait_for_all();
    XCHECK(count(E_END) == 2, "wait_for_all() returned after %d of 2 operations", count(E_END));
    q.async(rec(2));
    q.wait_for_one();
    XCHECK(count(E_END) == 3, "wait_for_one() returned because of an operation already waited for");
    quiesce(2500 * MS);
    done_in_order(3);
}
SCENARIO("C22", two_waiters_all, o.bound = 2; o.bound_thorough = 3; o.about = "two threads post and wait for all at the same time";)
{
    waitable_queue q("w", inner(choose(2)));
    std::thread a([&] {
        q.async(rec(0));
        q.wait_for_all();
        XCHECK(count(E_END, 0) == 1, "wait_for_all() returned too early");
    });
    q.async(rec(1));
    q.wait_for_all();
    XCHECK(count(E_END, 1) == 1, "wait_for_all() returned too early");
    a.join();
    quiesce(2500 * MS);
    check_exclusive();
    check_once(2);
}
SCENARIO("C22", two_waiters_one, o.bound = 2; o.bound_thorough = 3; o.about = "two threads wait for one of two operations each";)
{
    waitable_queue q("w", inner(choose(2)));
    q.async(rec(0));
    q.async(rec(1));
    std::thread a([&] {
        q.wait_for_one();
        ev(E_WAITED);
    });
    q.wait_for_one();
    ev(E_WAITED);
    a.join();
    int done = 0, waits = 0;
    for (int i = 0; i < nevents(); i++) {
        done += events()[i].kind == E_END;
        waits += events()[i].kind == E_WAITED;
        XCHECK(waits <= done, "%d waits returned after %d operations", waits, done);
    }
    quiesce(2500 * MS);
    done_in_order(2);
}
SCENARIO("C22", one_and_all, o.bound = 2; o.bound_thorough = 3; o.about = "one thread waits for one, another for all";)
{
    waitable_queue q("w", inner(choose(2)));
    q.async(rec(0));
    q.async(rec(1));
    std::thread a([&] {
        q.wait_for_all();
        XCHECK(count(E_END) == 2, "wait_for_all() returned after %d of 2 operations", count(E_END));
    });
    q.wait_for_one();
    XCHECK(count(E_END) >= 1, "wait_for_one() returned before any operation was done");
    a.join();
    quiesce(2500 * MS);
    done_in_order(2);
}
SCENARIO("C22", posting_while_waiting, o.bound = 2; o.bound_thorough = 3; o.about = "one thread posts while another one waits";)
{
    waitable_queue q("w", inner(choose(2)));
    q.async(rec(0));
    std::thread a([&] {
        q.async(rec(1));
        q.async(rec(2));
    });
    const bool all = choose(2);
    if (all)
        q.wait_for_all();
    else
        q.wait_for_one();
    XCHECK(count(E_END, 0) == 1, "returned before the operation was done");
    a.join();
    quiesce(2500 * MS);
    done_in_order(3);
}
SCENARIO("C22", starving, o.bound = 2; o.bound_thorough = 3; o.about = "the inner queue never gets a thread: the waiting threads execute everything; the stale work runs late";)
{
    auto pool = std::make_shared<starving_pool>();
    waitable_queue q("w", choose(2) ? naive::create_parallel_queue("i", pool) : naive::create_serial_queue("i", pool));
    q.async(rec(0));
    q.async(rec(1));
    std::thread a([&] {
        q.async(rec(2));
        q.wait_for_all();
        XCHECK(count(E_END, 2) == 1, "wait_for_all() returned before its operation");
    });
    q.wait_for_one();
    XCHECK(count(E_END) >= 1, "wait_for_one() returned before any operation was done");
    q.wait_for_all();
    XCHECK(count(E_END, 0) + count(E_END, 1) == 2, "wait_for_all() returned too early");
    a.join();
    pool->run_all();
    check_once(3);
    check_exclusive();
    XCHECK(find(E_START, 0) < find(E_START, 1), "wrong order");
    q.async(rec(3));
    pool->run_all();
    check_once(4);
    check_exclusive();
}
SCENARIO("C22", no_thread_left, o.bound = 1; o.bound_thorough = 2; o.about = "all threads of the pool wait for operations that waiting threads took over, which in turn need a thread of the pool";)
{
    struct side
    {
        waitable_queue q;
        side(const char* l)
          : q(l)
        {}
        void run(int id)
        {
            const auto waiting = std::this_thread::get_id();
            q.async([id, waiting] {
                ev(E_START, id);
                if (std::this_thread::get_id() == waiting) {
                    // makes sure that the queue's own thread already waits
                    std::this_thread::sleep_for(milliseconds(20));
                    auto b = std::make_shared<barrier_operation>();
                    global_queue().async(b);
                    b->wait();
                }
                ev(E_END, id);
            });
            q.wait_for_all();
        }
    };
    side a("a"), b("b");
    // keep both threads busy until the waits have begun
    for (int i = 0; i < 2; i++)
        global_queue().async([] { std::this_thread::sleep_for(milliseconds(10)); });
    std::this_thread::sleep_for(milliseconds(5));
    std::thread t([&] { a.run(0); });
    b.run(1);
    t.join();
    check_once(2);
}
SCENARIO("C22", requeued, o.bound = 1; o.bound_thorough = 2; o.about = "an operation keeps queueing itself: wait_for_all() returns once everything queued before is done";)
{
    waitable_queue q("w", inner(choose(2)));
    struct again : public operation, std::enable_shared_from_this<again>
    {
        waitable_queue* q;
        bool stop = false;
        void operator()() override
        {
            ev(E_START);
            ev(E_END);
            if (!stop)
                q->async(shared_from_this());
        }
    };
    auto op = std::make_shared<again>();
    op->q = &q;
    q.async(op);
    q.wait_for_all();
    XCHECK(count(E_END) >= 1, "wait_for_all() returned too early");
    op->stop = true;
}
SCENARIO("C22", nested_post, o.bound = 2; o.bound_thorough = 3; o.about = "an operation posts another one while a thread waits";)
{
    waitable_queue q("w", inner(choose(2)));
    q.async([&] {
        ev(E_START, 0);
        q.async(rec(1));
        ev(E_END, 0);
    });
    q.wait_for_one();
    XCHECK(count(E_END, 0) == 1, "returned too early");
    q.wait_for_all();
    XCHECK(count(E_END, 1) == 1, "returned too early");
    check_once(2);
}
SCENARIO("C22", apply, o.bound = 2; o.bound_thorough = 3; o.about = "apply() executes every iteration once, in order, before it returns";)
{
    waitable_queue q("w", inner(choose(2)));
    q.async(rec(3));
    q.apply(3, [](size_t i) {
        ev(E_START, int(i));
        ev(E_END, int(i));
    });
    XCHECK(count(E_END) == 4, "apply() returned after %d operations", count(E_END));
    quiesce(2500 * MS);
    check_once(4);
    check_exclusive();
}
SCENARIO("C22", after, o.bound = 2; o.bound_thorough = 3; o.about = "after() executes once, when due, exclusive with the others";)
{
    waitable_queue q("w", inner(choose(2)));
    const uint64_t t0 = now();
    q.after(milliseconds(10), rec(0));
    q.async(rec(1));
    quiesce(2500 * MS);
    check_once(2);
    check_exclusive();
    XCHECK(events()[find(E_START, 0)].ns >= t0 + 10 * MS, "executed too early");
}
SCENARIO("C22", after_all_delays, o.bound = 0; o.bound_thorough = 1; o.timedev = false; o.about = "delays of any size from none to months are respected to the millisecond";)
{
    static const long long T[] = { 0, 1, 7, 15, 16, 100, 999, 1000, 4999, 5001, 65536, 3600000, 2147483648ll, 4294967296ll, 4294967306ll, 86400000ll * 200 };
    const long long d = T[choose(16)];
    waitable_queue q("w", inner(choose(2)));
    const uint64_t t0 = now();
    q.after(milliseconds(d), rec(0));
    if (d > 0) {
        quiesce((d - 1) * MS);
        XCHECK(now() - t0 >= d * MS || count(E_START) == 0, "executed early");
    }
    quiesce((d + 2000) * MS);
    check_once(1);
    const uint64_t at = events()[find(E_START, 0)].ns - t0;
    XCHECK(at >= d * MS && at < (d + 1000) * MS, "executed after %llu ns instead of %lld ms", (unsigned long long)at, d);
}
SCENARIO("C22", after_released, o.bound = 1; o.bound_thorough = 2; o.about = "after() does not leave anything behind";)
{
    waitable_queue q("w");
    std::weak_ptr<int> w;
    check_no_growth([&] {
        auto token = std::make_shared<int>(0);
        w = token;
        q.after(milliseconds(1), make_operation([token] { ev(E_START); }));
    }, 2500 * MS);
    XCHECK(w.expired(), "the operation is still alive");
}
SCENARIO("C22", waiters_occupy_no_thread, o.bound = 1; o.bound_thorough = 2; o.about = "all threads of the pool wait for an operation which a thread outside of the pool took over and which needs the pool";)
{
    waitable_queue q("w", naive::create_serial_queue("i", std::make_shared<starving_pool>()));
    const int one = choose(2);
    q.async([&q, one] {
        ev(E_START, 0);
        for (int i = 0; i < 2; i++)
            global_queue().async([&q, one, i] {
                if (one)
                    q.wait_for_one();
                else
                    q.wait_for_all();
                ev(E_WAITED, i);
            });
        auto b = std::make_shared<barrier_operation>();
        global_queue().async(b);
        XCHECK(b->wait(), "barrier failed");
        ev(E_END, 0);
    });
    q.wait_for_all();
    quiesce(2500 * MS);
    XCHECK(count(E_WAITED) == 2, "%d of 2 waits returned", count(E_WAITED));
    for (int i = 0; i < 2; i++)
        XCHECK(find(E_WAITED, i) > find(E_END, 0), "the wait returned before the operation was done");
    check_once(1);
}
SCENARIO("C22", after_in_order, o.bound = 2; o.bound_thorough = 3; o.about = "a delayed operation that became due waits its turn behind what is queued and runs before what is queued later";)
{
    waitable_queue q("w", inner(choose(2)));
    q.after(milliseconds(10), rec(1));
    q.async([] {
        ev(E_START, 0);
        std::this_thread::sleep_for(milliseconds(30));
        ev(E_END, 0);
    });
    std::this_thread::sleep_for(milliseconds(20));
    quiesce();
    q.async(rec(2));
    q.wait_for_all();
    quiesce(2500 * MS);
    check_once(3);
    check_exclusive();
}
SCENARIO("C22", apply_with_others, o.bound = 2; o.bound_thorough = 3; o.about = "apply() with none and with two iterations while another thread posts";)
{
    waitable_queue q("w", inner(choose(2)));
    q.apply(0, [](size_t) { fail("iteration of an empty apply()"); });
    std::thread t([&] { q.async(rec(2)); });
    q.apply(2, [](size_t i) {
        ev(E_START, int(i));
        ev(E_END, int(i));
    });
    XCHECK(count(E_END, 0) == 1 && count(E_END, 1) == 1, "apply() returned too early");
    XCHECK(find(E_START, 0) < find(E_START, 1), "iterations out of order");
    t.join();
    quiesce(2500 * MS);
    check_once(3);
    check_exclusive();
}
SCENARIO("C22", dropped, o.bound = 2; o.bound_thorough = 3; o.about = "the last handle is dropped with operations pending: they are executed and released";)
{
    std::weak_ptr<int> w;
    {
        auto token = std::make_shared<int>(0);
        w = token;
        waitable_queue q("w", inner(choose(2)));
        for (int i = 0; i < 2; i++)
            q.async([token, i] { ev(E_START, i); ev(E_END, i); });
        if (choose(2))
            q.wait_for_one();
    }
    quiesce(2500 * MS);
    done_in_order(2);
    XCHECK(w.expired(), "an operation is still alive");
}
SCENARIO("C22", visibility, o.bound = 2; o.bound_thorough = 3; o.races = true; o.about = "what the operations wrote is visible to each other and after the wait";)
{
    waitable_queue q("w", inner(choose(2)));
    int v = 0;
    for (int i = 0; i < 3; i++)
        q.async([&v] { v++; });
    q.wait_for_one();
    q.wait_for_all();
    XCHECK(v == 3, "%d of 3", v);
}

// every sequence of operations on a waitable queue
static void
waitable_history(int length)
{
    auto starving = std::make_shared<starving_pool>();
    const int kind = choose(3);
    waitable_queue q("w", kind < 2 ? inner(kind) : naive::create_serial_queue("i", starving));
    int n = 0, waited = 0;
    uint64_t due[32] = {};
    auto work = [&](int ms) {
        const int id = n++;
        return [id, ms] {
            ev(E_START, id);
            if (ms)
                std::this_thread::sleep_for(milliseconds(ms));
            ev(E_END, id);
        };
    };
    for (int i = 0; i < length; i++) {
        const int op = choose(8);
        if (op < 2)
            q.async(work(op * 5));
        else if (op < 4) {
            int added = 0;
            for (int id = 0; id < n; id++)
                added += due[id] <= now();
            const uint64_t t0 = now();
            if (op == 2) {
                q.wait_for_one();
                if (added > waited) {
                    waited++;
                    XCHECK(count(E_END) >= waited, "wait_for_one() returned after %d operations, %d were waited for before", count(E_END), waited - 1);
                } else
                    XCHECK(now() == t0, "wait_for_one() took time although nothing was queued");
            } else {
                q.wait_for_all();
                for (int id = 0; id < n; id++)
                    XCHECK(due[id] > t0 || count(E_END, id) == 1, "wait_for_all() returned before operation %d was done", id);
                waited = std::max(waited, added);
            }
        } else if (op == 4) {
            const int first = n;
            n += 2;
            int added = 0;
            for (int id = 0; id < n; id++)
                added += due[id] <= now();
            q.apply(2, [first](size_t i) {
                ev(E_START, first + (int)i);
                ev(E_END, first + (int)i);
            });
            XCHECK(count(E_END, first) == 1 && count(E_END, first + 1) == 1, "apply() returned too early");
            waited = std::max(waited, added);
        } else if (op == 5) {
            due[n] = now() + 7 * MS;
            q.after(milliseconds(7), work(0));
        } else
            std::this_thread::sleep_for(std::chrono::microseconds(op == 6 ? 2003 : 12011));
    }
    std::this_thread::sleep_for(std::chrono::microseconds(9001));
    q.wait_for_all();
    check_once(n);
    check_exclusive();
    int previous = -1;
    for (int id = 0; id < n; id++)
        if (due[id])
            XCHECK(events()[find(E_START, id)].ns >= due[id], "operation %d was executed early", id);
        else {
            XCHECK(find(E_START, id) > previous, "operation %d was executed out of order", id);
            previous = find(E_START, id);
        }
    starving->run_all();
    quiesce(100 * MS);
    check_once(n);
}
SCENARIO("C22", histories, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.about = "every sequence of four operations (async, waits for one and for all, apply, after, pauses) on waitable queues over parallel, serial and starving queues";)
{
    waitable_history(4);
}
SCENARIO("C22", histories_long, o.bound = -1; o.bound_thorough = 0; o.timedev = false; o.about = "... of six operations";)
{
    waitable_history(6);
}
SCENARIO("C22", many, o.bound = 0; o.bound_thorough = 0; o.max_steps = 500000; o.about = "300 operations, waited for one by one or in blocks: in order and once, nothing accumulates";)
{
    waitable_queue q("w", inner(choose(2)));
    static const int BLOCK[] = { 1, 3, 20 };
    const int block = BLOCK[choose(3)], one = choose(2);
    int live = 0, waited = 0;
    for (int i = 0; i < 300; i++) {
        q.async([i] { ev(E_START, i); ev(E_END, i); });
        if ((i + 1) % block == 0) {
            if (one)
                for (int k = 0; k < block; k++) {
                    q.wait_for_one();
                    XCHECK(count(E_END) >= ++waited, "returned too early");
                }
            else
                q.wait_for_all();
            XCHECK(count(E_END) == i + 1, "%d of %d operations were done", count(E_END), i + 1);
            quiesce();
        }
        if (i == 59)
            live = heap_live();
    }
    quiesce(1 * MS);
    check_once(300);
    check_exclusive();
    for (int i = 1; i < 300; i++)
        XCHECK(find(E_START, i) > find(E_START, i - 1), "out of order");
    XCHECK(heap_live() <= live + 10, "the heap grew by %d blocks", heap_live() - live);
}
SCENARIO("C22", wall_clock, o.timedev = false; o.bound = 1; o.bound_thorough = 2; o.about = "the clock of the system is set while waiting: no influence on delays";)
{
    waitable_queue q("w", inner(choose(2)));
    std::thread c = wall_clock_setter();
    const uint64_t t0 = now();
    q.after(milliseconds(50), rec(0));
    quiesce(1000 * MS);
    c.join();
    check_once(1);
    XCHECK(events()[find(E_START, 0)].ns == t0 + 50 * MS, "executed after %llu ns instead of 50 ms", (unsigned long long)(events()[find(E_START, 0)].ns - t0));
}
