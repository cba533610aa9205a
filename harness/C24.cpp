// C24: operations of the main queue run on the thread calling exec() only
#include "queues.h"
#include "sockets.h"
#include <thread>

static int g_main;
// an operation which records the thread it runs on
static operation_ptr
mop(int id)
{
    return make_operation([id] {
        ev(E_START, id);
        XCHECK(tid() == g_main, "operation %d runs on thread %d, exec() was called by %d", id, tid(), g_main);
        ev(E_END, id);
    });
}
// ends the scenario from another thread as soon as nothing happens anymore
template<typename F>
static void
run_exec(F check)
{
    g_main = tid();
    std::thread([check] {
        quiesce();
        check();
        finish();
    }).detach();
    ev(E_MARK, 1);
    exec();
    fail("exec() returned");
}
static void
all(int n)
{
    check_once(n);
    check_exclusive();
    check_order();
    outcome(order_hash());
}

SCENARIO("C24", before_exec, o.bound = 4; o.bound_thorough = 6; o.about = "three operations submitted before exec() by the thread calling it";)
{
    g_main = tid();
    queue q = main_queue();
    for (int i = 0; i < 3; i++)
        post(q, i, mop(i));
    XCHECK(count(E_START) == 0, "an operation was executed before exec()");
    run_exec([] { all(3); });
}
SCENARIO("C24", before_and_during, o.bound = 4; o.bound_thorough = 6; o.about = "submissions before exec() and from another thread while exec() is entered";)
{
    g_main = tid();
    queue q = main_queue();
    post(q, 0, mop(0));
    std::thread([q]() mutable {
        post(q, 1, mop(1));
        post(q, 2, mop(2));
    }).detach();
    run_exec([] { all(3); });
}
SCENARIO("C24", submitted_by_others_only, o.bound = 3; o.bound_thorough = 4; o.about = "two threads submit two operations each while exec() is entered and runs";)
{
    g_main = tid();
    for (int k = 0; k < 2; k++)
        std::thread([k] {
            queue q = main_queue();
            post(q, 2 * k, mop(2 * k));
            post(q, 2 * k + 1, mop(2 * k + 1));
        }).detach();
    run_exec([] { all(4); });
}
SCENARIO("C24", nobody_calls_exec, o.bound = 3; o.bound_thorough = 5; o.about = "nothing is executed when no thread calls exec()";)
{
    queue q = main_queue();
    q.async(mark(0));
    std::thread t([] { main_queue().async(mark(1)); });
    t.join();
    quiesce(3000 * MS);
    XCHECK(count(E_START) == 0, "an operation was executed without exec()");
}
SCENARIO("C24", other_thread_executes, o.bound = 3; o.bound_thorough = 5; o.about = "exec() called by a thread other than the one which submitted";)
{
    queue q = main_queue();
    g_main = -1;
    post(q, 0, mop(0));
    std::thread([] {
        g_main = tid();
        exec();
    }).detach();
    while (g_main < 0)
        quiesce();
    post(q, 1, mop(1));
    quiesce();
    all(2);
}
SCENARIO("C24", nested, o.bound = 4; o.bound_thorough = 6; o.about = "operations submit to the main queue while others do";)
{
    g_main = tid();
    queue q = main_queue();
    q.async(make_operation([] {
        queue q = main_queue();
        ev(E_START, 0);
        post(q, 1, mop(1));
        post(q, 2, mop(2));
        XCHECK(count(E_START, 1) == 0, "a nested operation was executed at once");
        ev(E_END, 0);
    }));
    std::thread([q]() mutable { post(q, 3, mop(3)); }).detach();
    run_exec([] { all(4); });
}
SCENARIO("C24", later_wake, o.bound = 4; o.bound_thorough = 6; o.about = "exec() is idle between the submissions";)
{
    g_main = tid();
    std::thread([] {
        queue q = main_queue();
        for (int i = 0; i < 3; i++) {
            post(q, i, mop(i));
            quiesce();
            XCHECK(count(E_END, i) == 1, "operation %d was not executed", i);
        }
        all(3);
        finish();
    }).detach();
    exec();
    fail("exec() returned");
}
SCENARIO("C24", spurious_wake, o.bound = 3; o.bound_thorough = 5; o.spurious = true; o.races = true; o.about = "exec() with spurious wake-ups of its condition variable";)
{
    g_main = tid();
    std::thread([] {
        queue q = main_queue();
        post(q, 0, mop(0));
        post(q, 1, mop(1));
    }).detach();
    run_exec([] { all(2); });
}
SCENARIO("C24", backlog, o.bound = 1; o.bound_thorough = 2; o.about = "more operations than the queue drains at once";)
{
    g_main = tid();
    queue q = main_queue();
    for (int i = 0; i < 22; i++)
        post(q, i, mop(i));
    std::thread([q]() mutable { post(q, 22, mop(22)); }).detach();
    run_exec([] { all(23); });
}
SCENARIO("C24", same_queue, o.bound = 5; o.bound_thorough = 8; o.about = "handles obtained in parallel, before anyone used the main queue";)
{
    queue* h[3] = {};
    std::thread t([&] { h[0] = new queue(main_queue()); });
    std::thread u([&] { h[1] = new queue(main_queue()); });
    h[2] = new queue(main_queue());
    t.join();
    u.join();
    for (int i = 0; i < 3; i++) {
        XCHECK(*h[0] == *h[i], "handle %d denotes another queue", i);
        XCHECK(!(*h[0] != *h[i]), "comparison of handle %d is not consistent", i);
        XCHECK(h[0]->implementation().get() == h[i]->implementation().get(), "handle %d has an implementation of its own", i);
        XCHECK(h[i]->label() == h[0]->label(), "labels differ");
    }
    XCHECK(*h[0] != queue("other"), "equals another queue");
}
SCENARIO("C24", handles_mixed, o.bound = 3; o.bound_thorough = 5; o.about = "order over several handles of the main queue, dropped in between";)
{
    g_main = tid();
    for (int i = 0; i < 3; i++) {
        queue q = main_queue();
        post(q, i, mop(i));
    }
    run_exec([] { all(3); });
}
SCENARIO("C24", apply_on_main, o.bound = 3; o.bound_thorough = 4; o.about = "apply() from another thread iterates on the main thread";)
{
    g_main = tid();
    std::thread([] {
        queue q = main_queue();
        post(q, 0, mop(0));
        ev(E_WAIT);
        q.apply(3, [](size_t i) {
            ev(E_START, 1 + (int)i);
            XCHECK(tid() == g_main, "an iteration runs on thread %d", tid());
            ev(E_END, 1 + (int)i);
        });
        ev(E_WAITED);
        for (int i = 0; i < 4; i++)
            XCHECK(find(E_END, i) >= 0 && find(E_END, i) < find(E_WAITED), "apply returned before %d was done", i);
        post(q, 4, mop(4));
        quiesce();
        all(5);
        finish();
    }).detach();
    exec();
}
SCENARIO("C24", group_on_main, o.bound = 2; o.bound_thorough = 3; o.about = "group operation and notification on the main queue, operation on the global queue";)
{
    g_main = tid();
    group g;
    queue q = main_queue();
    g.async(mop(0), q);
    g.async(mark(1), global_queue());
    g.notify(make_operation([] {
        ev(E_START, 2);
        XCHECK(tid() == g_main, "notification runs on thread %d", tid());
        XCHECK(count(E_START, 1) == 1 && count(E_END, 0) == 1, "notified too early");
        ev(E_END, 2);
    }), q);
    run_exec([] { check_once(3); });
}
SCENARIO("C24", after_on_main, o.bound = 2; o.bound_thorough = 3; o.about = "delayed operations on the main queue";)
{
    g_main = tid();
    queue q = main_queue();
    q.after(milliseconds(20), mop(1));
    q.after(milliseconds(10), mop(0));
    std::thread([] {
        quiesce(25 * MS);
        quiesce(25 * MS);
        check_once(2);
        check_exclusive();
        finish();
    }).detach();
    exec();
}
SCENARIO("C24", timer_on_main, o.bound = 2; o.bound_thorough = 3; o.about = "a timer's handler runs on the main thread";)
{
    g_main = tid();
    auto t = std::make_shared<timer>(milliseconds(10), main_queue());
    t->handler([t] {
        ev(E_START, 0);
        XCHECK(tid() == g_main, "handler runs on thread %d", tid());
        ev(E_END, 0);
        if (count(E_START) == 2) {
            check_exclusive();
            finish();
        }
    });
    t->resume(milliseconds(0));
    exec();
}
SCENARIO("C24", wait_for_global, o.bound = 2; o.bound_thorough = 4; o.about = "a main operation waits for an operation of the global queue which submits to the main queue";)
{
    g_main = tid();
    queue q = main_queue();
    q.async(make_operation([] {
        ev(E_START, 0);
        auto b = std::make_shared<barrier_operation>();
        global_queue().async(make_operation([] { queue q = main_queue(); post(q, 1, mop(1)); }));
        queue s("s");
        s.async(b);
        XCHECK(b->wait(), "barrier failed");
        ev(E_END, 0);
    }));
    run_exec([] { all(2); });
}
SCENARIO("C24", visibility, o.bound = 3; o.bound_thorough = 4; o.races = true; o.about = "plain data handed to, over and from the main queue (race detector)";)
{
    g_main = tid();
    auto* v = new int(1);
    main_queue().async(make_operation([v] { *v += 1; }));
    std::thread([v] {
        auto* w = new int(5);
        main_queue().async(make_operation([v, w] { *v += *w; }));
        lightweight_barrier b;
        main_queue().async(make_operation([v, &b] { *v += 1; b.complete(); }));
        b.wait();
        XCHECK(*v >= 8 - 1, "value is %d", *v);
        finish();
    }).detach();
    exec();
}
SCENARIO("C24", many, o.bound = 0; o.bound_thorough = 0; o.max_steps = 500000; o.about = "300 operations before exec(), while it runs or both, from one thread or two, one by one or at once";)
{
    const int before = choose(3) * 150, threads = 1 + choose(2), one_by_one = choose(2);
    g_main = tid();
    for (int i = 0; i < before; i++)
        main_queue().async(mop(i));
    for (int t = 0; t < threads; t++)
        std::thread([=] {
            for (int i = before + t; i < 300; i += threads) {
                main_queue().async(mop(i));
                if (one_by_one)
                    std::this_thread::sleep_for(milliseconds(1));
            }
        }).detach();
    run_exec([=] {
        quiesce(1000 * MS);
        check_once(300);
        check_exclusive();
        for (int i = 1; i < 300; i++)
            XCHECK(find(E_START, i) > find(E_START, i - 1) || (i >= before && threads == 2), "operation %d was overtaken", i - 1);
    });
}
