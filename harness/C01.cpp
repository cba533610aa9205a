// C01: every submitted operation is executed exactly once
#include "kinds.h"

static void
done(int n)
{
    quiesce();
    check_once(n);
    outcome(order_hash());
}

SCENARIO("C01", serial_two_submitters, o.bound = 9; o.about = "serial queue on a pool without limits, two threads submit one operation each";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    std::thread t([&] { q.async(mark(0)); });
    q.async(mark(1));
    t.join();
    done(2);
}
SCENARIO("C01", serial_three_submitters, o.bound = 2; o.bound_thorough = 4; o.about = "serial queue, three threads submit 2+2+1 operations";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    std::thread t([&] { q.async(mark(0)); q.async(mark(1)); });
    std::thread u([&] { q.async(mark(2)); });
    q.async(mark(3));
    q.async(mark(4));
    t.join();
    u.join();
    done(5);
}
SCENARIO("C01", serial_global_pool, o.bound = 2; o.bound_thorough = 4; o.about = "serial queue on the real global pool, two threads, three operations";)
{
    auto q = create_serial_queue("q");
    std::thread t([&] { q.async(mark(0)); });
    q.async(mark(1));
    q.async(mark(2));
    t.join();
    done(3);
}
SCENARIO("C01", serial_nested, o.bound = 3; o.bound_thorough = 6; o.about = "operations submitted from within a running operation and concurrently from outside";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    q.async(make_operation([&] {
        ev(E_START, 0);
        q.async(mark(1));
        q.async(mark(2));
    }));
    q.async(mark(3));
    done(4);
}
SCENARIO("C01", serial_drop_pending, o.bound = 3; o.bound_thorough = 6; o.about = "last handle of a serial queue dropped with operations pending";)
{
    {
        auto q = naive::create_serial_queue("q", make_spawn_pool());
        q.async(mark(0));
        q.async(mark(1));
    }
    done(2);
}
SCENARIO("C01", serial_drop_two_owners, o.bound = 3; o.bound_thorough = 5; o.about = "two owners submit and drop their handle concurrently";)
{
    {
        auto q = naive::create_serial_queue("q", make_spawn_pool());
        std::thread([q] { q.async(mark(0)); }).detach();
        q.async(mark(1));
    }
    done(2);
}
SCENARIO("C01", serial_drop_in_operation, o.bound = 3; o.bound_thorough = 6; o.about = "the last handle is owned by an operation which submits again before it goes away";)
{
    {
        auto q = std::make_shared<queue>(naive::create_serial_queue("q", make_spawn_pool()));
        auto q2 = q;
        q->async(make_operation([q2] {
            ev(E_START, 0);
            q2->async(mark(1));
        }));
        q->async(mark(2));
    }
    done(3);
}
SCENARIO("C01", serial_long_backlog, o.bound = 1; o.bound_thorough = 2; o.about = "23 operations pending at once: the drain yields its thread";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    q.async(make_operation([&] {
        ev(E_START, 0);
        for (int i = 1; i < 23; i++)
            q.async(mark(i));
    }));
    quiesce();
    q.async(mark(23));
    done(24);
}
SCENARIO("C01", serial_backlog_dropped, o.bound = 1; o.bound_thorough = 2; o.about = "more operations pending than a drain executes, then the handle is dropped";)
{
    std::mutex gate;
    {
        auto q = naive::create_serial_queue("q", make_spawn_pool());
        std::unique_lock<std::mutex> l(gate);
        q.async(make_operation([&] { std::lock_guard<std::mutex> l(gate); ev(E_START, 0); }));
        for (int i = 1; i < 14; i++)
            q.async(mark(i));
    }
    done(14);
}
SCENARIO("C01", serial_backlog_racing, o.bound = 2; o.bound_thorough = 3; o.about = "submission racing with the end of a full drain";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    for (int i = 0; i < 10; i++)
        q.async(mark(i));
    q.async(mark(10));
    done(11);
}
SCENARIO("C01", serial_fixed_pool, o.bound = 3; o.bound_thorough = 5; o.about = "two serial queues on a user provided pool of two threads";)
{
    auto pool = std::make_shared<fixed_pool>(2);
    auto q = naive::create_serial_queue("q", pool);
    auto p = naive::create_serial_queue("p", pool);
    q.async(mark(0));
    p.async(mark(1));
    q.async(mark(2));
    done(3);
}
SCENARIO("C01", parallel_two_submitters, o.bound = 3; o.bound_thorough = 5; o.about = "parallel queue on the global pool, two submitters, nested submission";)
{
    auto q = create_parallel_queue("q");
    std::thread t([&] { q.async(mark(0)); });
    q.async(make_operation([&] { ev(E_START, 1); q.async(mark(2)); }));
    t.join();
    done(3);
}
SCENARIO("C01", parallel_drop_pending, o.bound = 3; o.bound_thorough = 5; o.about = "parallel queue dropped with pending operations";)
{
    {
        auto q = create_parallel_queue("q");
        q.async(mark(0));
        q.async(mark(1));
    }
    done(2);
}
SCENARIO("C01", parallel_own_pool_dropped, o.bound = 3; o.bound_thorough = 5; o.about = "parallel queue is the last owner of its pool and dropped with pending operations";)
{
    {
        auto q = naive::create_parallel_queue("q", std::make_shared<fixed_pool>(1));
        q.async(mark(0));
        q.async(mark(1));
    }
    done(2);
}
SCENARIO("C01", global_queues, o.bound = 2; o.bound_thorough = 4; o.about = "global queues of two priorities, three submitters";)
{
    std::thread t([] { global_queue(queue_priority::BACKGROUND).async(mark(0)); });
    std::thread u([] { global_queue().async(mark(1)); global_queue().async(mark(3)); });
    global_queue(queue_priority::USER_INTERACTIVE).async(mark(2));
    t.join();
    u.join();
    done(4);
}
SCENARIO("C01", global_idle_then_burst, o.bound = 2; o.bound_thorough = 4; o.about = "pool threads fell asleep before a burst of submissions";)
{
    global_queue().async(mark(0));
    quiesce();
    std::thread t([] { global_queue().async(mark(1)); });
    global_queue().async(mark(2));
    t.join();
    done(3);
}
SCENARIO("C01", global_submit_at_expiry, o.bound = 4; o.bound_thorough = 6; o.about = "submission at the moment the idle pool thread expires";)
{
    global_queue().async(mark(0));
    std::this_thread::sleep_for(std::chrono::seconds(30));
    global_queue().async(mark(1));
    done(2);
}
SCENARIO("C01", global_two_at_expiry, o.bound = 2; o.bound_thorough = 4; o.about = "two submissions at the moment two idle pool threads expire";)
{
    global_queue().async(mark(0));
    global_queue().async(mark(1));
    std::this_thread::sleep_for(std::chrono::seconds(30));
    std::thread t([] { global_queue().async(mark(2)); });
    global_queue().async(mark(3));
    t.join();
    done(4);
}
SCENARIO("C01", serial_submit_at_expiry, o.bound = 3; o.bound_thorough = 5; o.about = "submission to a serial queue when the idle pool thread expires";)
{
    auto q = create_serial_queue("q");
    q.async(mark(0));
    std::this_thread::sleep_for(std::chrono::seconds(30));
    q.async(mark(1));
    done(2);
}
SCENARIO("C01", main_queue, o.bound = 4; o.bound_thorough = 7; o.about = "main queue: two submitters while the main thread runs exec()";)
{
    std::thread t([] {
        main_queue().async(mark(0));
        std::thread u([] { main_queue().async(mark(1)); });
        main_queue().async(make_operation([] {
            ev(E_START, 2);
            main_queue().async(mark(3));
        }));
        u.join();
        done(4);
        finish();
    });
    exec();
}
SCENARIO("C01", main_queue_before_exec, o.bound = 4; o.bound_thorough = 7; o.about = "main queue: operations submitted before exec()";)
{
    main_queue().async(mark(0));
    std::thread t([] {
        main_queue().async(mark(1));
        done(2);
        finish();
    });
    exec();
}
SCENARIO("C01", spurious_wakeups, o.bound = 3; o.bound_thorough = 5; o.spurious = true; o.about = "condition variables may wake up spuriously";)
{
    auto q = create_serial_queue("q");
    q.async(mark(0));
    quiesce();
    q.async(mark(1));
    done(2);
}

SCENARIO("C01", histories_parallel, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.about = "every sequence of three submissions of all kinds and pauses on parallel queues";)
{
    queue_history(choose(2) ? global_queue(queue_priority::BACKGROUND) : create_parallel_queue("q"), 3, false);
}
SCENARIO("C01", histories_parallel_long, o.bound = -1; o.bound_thorough = 0; o.timedev = false; o.about = "... of five";)
{
    queue_history(create_parallel_queue("q"), 5, false);
}
SCENARIO("C01", every_kind, o.bound = 1; o.bound_thorough = 2; o.about = "every kind of operation on every kind of queue, submitted repeatedly: once per submission";)
{
    object_with_work object;
    const int kind = choose(KINDS), times = 1 + choose(3);
    queue q = queue_of_kind(choose(QUEUES));
    use_kind(kind, 0, object, [&](const auto& f) {
        for (int i = 0; i < times; i++)
            q.async(f);
    });
    quiesce(10 * MS);
    XCHECK(count(E_START, 0) == times && count(E_END, 0) == times && count(E_START) == times, "executed %d times for %d submissions", count(E_START), times);
}
SCENARIO("C01", many, o.bound = 0; o.bound_thorough = 0; o.max_steps = 500000; o.about = "300 operations on every kind of queue, from one thread or two, at once or one after the other";)
{
    queue q = queue_of_kind(choose(QUEUES));
    const bool one_by_one = choose(2);
    const int threads = 1 + choose(2);
    auto post = [&](int first) {
        for (int i = first; i < 300; i += threads) {
            q.async(mark(i));
            if (one_by_one)
                quiesce();
        }
    };
    std::unique_ptr<std::thread> t(threads == 2 ? new std::thread([&] { post(1); }) : nullptr);
    post(0);
    if (t)
        t->join();
    quiesce(10 * MS);
    check_once(300);
}
