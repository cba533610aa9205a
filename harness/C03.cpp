// C03: serial queues execute in submission order; each operation sees what
// the ones before it wrote
#include "queues.h"
static void
done(int n)
{
    quiesce();
    check_once(n);
    check_order();
    outcome(order_hash());
}
SCENARIO("C03", one_submitter, o.bound = 5; o.bound_thorough = 8; o.about = "one thread submits three operations";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    for (int i = 0; i < 3; i++)
        post(q, i, mark(i));
    done(3);
}
SCENARIO("C03", two_submitters, o.bound = 3; o.bound_thorough = 6; o.about = "two threads submit two operations each";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    std::thread t([&] { post(q, 0, mark(0)); post(q, 1, mark(1)); });
    post(q, 2, mark(2));
    post(q, 3, mark(3));
    t.join();
    done(4);
}
SCENARIO("C03", nested_and_outside, o.bound = 3; o.bound_thorough = 5; o.about = "operations submitted by an operation and from outside";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    post(q, 0, make_operation([&] {
        ev(E_START, 0);
        post(q, 1, mark(1));
        post(q, 2, mark(2));
    }));
    post(q, 3, mark(3));
    post(q, 4, mark(4));
    done(5);
}
SCENARIO("C03", yielding_drain, o.bound = 2; o.bound_thorough = 3; o.about = "more operations than one drain executes";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    for (int i = 0; i < 22; i++)
        post(q, i, mark(i));
    done(22);
}
SCENARIO("C03", global_pool, o.bound = 2; o.bound_thorough = 4; o.about = "serial queue on the global pool";)
{
    auto q = create_serial_queue("q");
    std::thread t([&] { post(q, 0, mark(0)); post(q, 1, mark(1)); });
    post(q, 2, mark(2));
    post(q, 3, mark(3));
    t.join();
    done(4);
}
SCENARIO("C03", apply_after_async, o.bound = 2; o.bound_thorough = 4; o.about = "apply() runs behind operations that were submitted before";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    post(q, 0, mark(0));
    q.apply(2, [](size_t i) { ev(E_START, 1 + (int)i); });
    post(q, 3, mark(3));
    quiesce();
    for (int i = 0; i < 3; i++)
        XCHECK(find(E_START, i) < find(E_START, i + 1), "apply iteration or operation out of order at %d", i);
    done(4);
}
SCENARIO("C03", group_order, o.bound = 2; o.bound_thorough = 4; o.about = "group submissions keep their order with direct ones";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    group g;
    ev(E_POST, 0);
    g.async(mark(0), q);
    ev(E_POSTED, 0);
    post(q, 1, mark(1));
    ev(E_POST, 2);
    g.async(mark(2), q);
    ev(E_POSTED, 2);
    done(3);
}
SCENARIO("C03", dropped_queue, o.bound = 3; o.bound_thorough = 5; o.about = "order is kept when the handle is dropped";)
{
    {
        auto q = naive::create_serial_queue("q", make_spawn_pool());
        for (int i = 0; i < 3; i++)
            post(q, i, mark(i));
    }
    done(3);
}
SCENARIO("C03", two_handles, o.bound = 3; o.bound_thorough = 5; o.about = "order over copies of the handle, second copy taken from implementation()";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    queue r("other", q.implementation());
    XCHECK(q == r, "same implementation, different queues");
    post(q, 0, mark(0));
    post(r, 1, mark(1));
    post(q, 2, mark(2));
    done(3);
}
SCENARIO("C03", visibility, o.bound = 3; o.bound_thorough = 5; o.races = true; o.about = "plain data written by operations and submitters, no other synchronisation (race detector)";)
{
    int v = 0;
    int w = 7;
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    q.async(make_operation([&] { v += 1; }));
    std::thread t([&] {
        int mine = 5;
        auto m = std::make_shared<int>(mine);
        q.async(make_operation([&v, m] { v += *m; *m = 6; }));
    });
    w = 8;
    q.async(make_operation([&] { v += w; }));
    t.join();
    quiesce();
    lightweight_barrier b;
    q.async(make_operation([&] {
        XCHECK(v == 14, "value is %d", v);
        b.complete();
    }));
    b.wait();
    XCHECK(v == 14, "value is %d", v);
}
SCENARIO("C03", visibility_global, o.bound = 2; o.bound_thorough = 3; o.races = true; o.about = "plain data handed from operation to operation on the global pool (race detector)";)
{
    int v = 0;
    auto q = create_serial_queue("q");
    q.async(make_operation([&] { v += 1; }));
    q.async(make_operation([&] { v += 2; }));
    quiesce();
    q.async(make_operation([&] {
        XCHECK(v == 3, "value is %d", v);
        finish();
    }));
    quiesce();
    fail("last operation did not run");
}

SCENARIO("C03", histories, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.about = "every sequence of four submissions of all kinds and pauses on a serial queue";)
{
    queue_history(create_serial_queue("q"), 4, true);
}
SCENARIO("C03", histories_preempted, o.bound = -1; o.bound_thorough = 1; o.timedev = false; o.about = "every sequence of three submissions of all kinds and pauses, with preemptions";)
{
    queue_history(queue("q", queue_priority::USER_INITIATED), 3, true);
}
