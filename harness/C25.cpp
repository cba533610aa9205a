// C25: hand-offs publish memory and the library's own state is free of races
#include "sockets.h"
#include "signals.h"

#define RACE(b, bt, text) o.races = true; o.bound = b; o.bound_thorough = bt; o.about = text " (race detector)"

// ---- payloads handed in and out ------------------------------------------
SCENARIO("C25", submit_and_barrier, RACE(4, 6, "payload into an operation of a serial queue and out by a barrier_operation"))
{
    int in = 1, out = 0;
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    q.async([&] { out = in + 1; });
    auto b = std::make_shared<barrier_operation>();
    q.async(b);
    b->wait();
    XCHECK(out == 2, "out is %d", out);
}
SCENARIO("C25", barrier_polled, RACE(6, 9, "payload learned of by polling a barrier and by a timed wait"))
{
    int v = 0;
    barrier_operation b;
    const int how = choose(3);
    std::thread t([&] {
        v = 1;
        execute_operation_on_this_thread(b);
    });
    bool done = false;
    if (how == 0)
        done = b.has_passed();
    else
        done = b.wait(milliseconds(how == 1 ? 0 : 10));
    if (done)
        XCHECK(v == 1, "v is %d", v);
    t.join();
}
SCENARIO("C25", lightweight_barrier_waits, RACE(5, 7, "a lightweight_barrier and two threads waiting for it in different ways"))
{
    int v = 0;
    lightweight_barrier b;
    std::thread t([&] {
        v = 1;
        b.complete();
    });
    std::thread u([&] {
        if (b.wait(milliseconds(5)))
            XCHECK(v == 1, "v is %d", v);
    });
    b.wait();
    XCHECK(v == 1, "v is %d", v);
    t.join();
    u.join();
}
SCENARIO("C25", global_and_group, RACE(2, 3, "payload in and out of two global operations by group::wait"))
{
    int a[2] = { 1, 2 };
    group g;
    for (int i = 0; i < 2; i++)
        g.async(make_operation([&a, i] { a[i] += 10; }), global_queue());
    XCHECK(g.wait(milliseconds(-1)), "wait failed");
    XCHECK(a[0] == 11 && a[1] == 12, "%d %d", a[0], a[1]);
}
SCENARIO("C25", group_notification, RACE(2, 3, "payload out of two operations by group::notify and on to the waiting thread"))
{
    int a[2] = { 1, 2 };
    int sum = 0;
    group g;
    for (int i = 0; i < 2; i++)
        g.async(make_operation([&a, i] { a[i] += 10; }), global_queue());
    lightweight_barrier b;
    queue q("q");
    g.notify(make_operation([&] {
        sum = a[0] + a[1];
        b.complete();
    }), q);
    b.wait();
    XCHECK(sum == 23, "%d", sum);
}
SCENARIO("C25", timed_group_wait, RACE(2, 3, "payload of an operation learned of by a group wait with timeout"))
{
    auto* v = new int(0);
    group g;
    g.async(make_operation([v] { *v = 1; }), global_queue());
    if (g.wait(milliseconds(choose(2) ? 10 : 0)))
        XCHECK(*v == 1, "%d", *v);
}
SCENARIO("C25", apply_results, RACE(2, 3, "payload in and out of the iterations of apply on the global queue"))
{
    int a[3] = { 1, 2, 3 };
    global_queue().apply(3, [&](size_t i) { a[i] += 10; });
    XCHECK(a[0] + a[1] + a[2] == 36, "wrong results");
}
SCENARIO("C25", apply_two_cpus, RACE(1, 2, "apply spread over several workers"); o.cpus = 2)
{
    int a[4] = {};
    global_queue().apply(4, [&](size_t i) { a[i] = (int)i; });
    XCHECK(a[1] + a[2] + a[3] == 6, "wrong results");
}
SCENARIO("C25", after_payload, RACE(1, 2, "payload into delayed operations of a serial queue and on to the next one"))
{
    auto* v = new int(1);
    queue q("q");
    q.after(milliseconds(5), make_operation([v] { *v += 1; }));
    q.after(milliseconds(5), make_operation([v] {
        if (*v > 1)
            finish();
        *v += 1;
    }));
    quiesce(20 * MS);
}
SCENARIO("C25", waitable_for_one, RACE(2, 3, "payload out of an operation of a waitable_queue by wait_for_one"))
{
    int v = 0;
    waitable_queue q("w", naive::create_serial_queue("q", make_spawn_pool()));
    q.async([&] { v = 1; });
    q.wait_for_one();
    XCHECK(v == 1, "%d", v);
}
SCENARIO("C25", waitable_for_all, RACE(2, 3, "payload out of two operations of a waitable_queue by wait_for_all"))
{
    int a[2] = {};
    waitable_queue q("w", naive::create_parallel_queue("q", make_spawn_pool(), queue_priority::DEFAULT));
    q.async([&] { a[0] = 1; });
    q.async([&] { a[1] = 1; });
    q.wait_for_all();
    XCHECK(a[0] && a[1], "%d %d", a[0], a[1]);
}
SCENARIO("C25", disconnect_publishes, RACE(2, 3, "payload written by a handler, read after disconnect"))
{
    int v = 0;
    isig s;
    queue q = naive::create_serial_queue("q", make_spawn_pool());
    auto c = s.connect([&](int x) { v += x; }, q, SINGLE);
    s(1);
    c.disconnect();
    v += 1;
    XCHECK(v == 1 || v == 2, "%d", v);
    quiesce();
}
SCENARIO("C25", cancel_publishes, RACE(2, 3, "payload written by a timer's handler, read after cancel"))
{
    int v = 0;
    queue q = naive::create_serial_queue("q", make_spawn_pool());
    timer t(milliseconds(5), q);
    t.handler([&] { v += 1; });
    t.resume(milliseconds(0));
    quiesce();
    t.cancel();
    v += 1;
    quiesce(20 * MS);
}
SCENARIO("C25", notifier_cancel_publishes, RACE(2, 3, "payload written by a notifier's handler, read after cancel"))
{
    int v = 0;
    Sock s{ 3 };
    s.set(true, false);
    {
        queue q = naive::create_serial_queue("q", make_spawn_pool());
        socket_notifier n(3, notifier_type::READ, q);
        n.handler(socket_notifier_operation::make([&](socket_t, notifier_type) {
            v += 1;
            std::this_thread::sleep_for(milliseconds(5));
        }));
        n.resume();
        quiesce();
        n.cancel();
        v += 1;
    }
    quiesce(20 * MS);
}
SCENARIO("C25", timer_rounds, RACE(1, 2, "consecutive invocations of a timer on the global queue share memory"))
{
    auto* v = new int(0);
    timer t(milliseconds(5), global_queue());
    t.handler([v] {
        if (++*v == 3)
            finish();
    });
    t.resume(milliseconds(0));
    quiesce(20 * MS);
    quiesce(20 * MS);
}
SCENARIO("C25", emit_payload, RACE(2, 3, "payload referred to by the argument of an emit"))
{
    signal<void(std::shared_ptr<int>)> s;
    queue q = naive::create_serial_queue("q", make_spawn_pool());
    lightweight_barrier b;
    int seen = 0;
    auto c = s.connect([&](const std::shared_ptr<int>& p) {
        seen = *p;
        *p = 9;
        b.complete();
    }, q, choose(2) ? BATCH : SINGLE);
    auto p = std::make_shared<int>(0);
    *p = 7;
    s(p);
    b.wait();
    XCHECK(seen == 7 && *p == 9, "%d", seen);
}
SCENARIO("C25", signal_barrier_payload, RACE(2, 3, "payload learned of by a signal_barrier"))
{
    int v = 0;
    isig s;
    signal_barrier<void(int)> b(s);
    std::thread t([&] {
        v = 5;
        s(1);
    });
    XCHECK(b.wait(milliseconds(-1)), "wait failed");
    XCHECK(v == 5 && std::get<0>(b.values()) == 1, "%d", v);
    t.join();
}
SCENARIO("C25", serial_chain, RACE(2, 3, "operations of a serial queue spread over the pool share plain memory"); o.cpus = 2)
{
    int v = 0;
    queue q("q");
    group g;
    for (int i = 0; i < 3; i++)
        g.async(make_operation([&] { v++; }), q);
    XCHECK(g.wait(milliseconds(-1)), "wait failed");
    XCHECK(v == 3, "%d", v);
}

// ---- the library's own state ----------------------------------------------
SCENARIO("C25", queue_shared, RACE(2, 4, "two threads use the same handle, copies and the label of a serial queue"))
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    auto use = [&q](int i) {
        q.async(mark(i));
        queue c(q);
        c.async(mark(i + 2));
        XCHECK(c == q && c.label() == q.label(), "copies differ");
    };
    std::thread t([&] { use(0); });
    use(1);
    t.join();
    quiesce();
    check_once(4);
}
SCENARIO("C25", operation_shared, RACE(2, 3, "the same operation object is executed by two queues and two threads"))
{
    auto op = mark(0);
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    std::thread t([&] { global_queue().async(op); });
    q.async(op);
    q.async(op);
    t.join();
    quiesce();
    XCHECK(count(E_START, 0) == 3, "executed %d times", count(E_START, 0));
}
SCENARIO("C25", first_use, RACE(2, 4, "the global queues are used for the first time in parallel"))
{
    std::thread t([] { global_queue(queue_priority::UTILITY).async(mark(0)); });
    global_queue().async(mark(1));
    t.join();
    quiesce();
    check_once(2);
}
SCENARIO("C25", first_backend_use, RACE(2, 3, "timer, group and queue are created for the first time in parallel"))
{
    std::thread t([] { group g; g.async(mark(0), queue("t")); });
    timer x(milliseconds(5), global_queue());
    queue q("q");
    q.async(mark(1));
    t.join();
    quiesce();
    check_once(2);
}
SCENARIO("C25", pool_blocking, RACE(1, 2, "operations block and unblock on the pool while others are submitted"))
{
    auto* v = new int(0);
    global_queue().async([v] {
        group g;
        g.async(make_operation([v] { *v += 1; }), global_queue());
        g.wait(milliseconds(-1));
        *v += 1;
        ev(E_START, 0);
    });
    global_queue().async([] {
        global_queue().apply(2, [](size_t) {});
        ev(E_START, 1);
    });
    std::thread([] { global_queue().async(mark(2)); }).detach();
    quiesce();
    check_once(3);
}
SCENARIO("C25", pool_expiry, RACE(1, 2, "a worker expires while operations are submitted"); o.timedev_max_ms = 40000)
{
    global_queue().async(mark(0));
    quiesce(29000 * MS);
    std::thread t([] { std::this_thread::sleep_for(milliseconds(1000)); global_queue().async(mark(1)); });
    global_queue().async(mark(2));
    t.join();
    quiesce(40000 * MS);
    check_once(3);
}
SCENARIO("C25", group_shared, RACE(2, 3, "two threads add to, wait for and are notified by the same group"))
{
    group g;
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    auto use = [&](int i) {
        g.async(mark(i), q);
        g.notify(mark(2 + i), q);
        g.wait(milliseconds(-1));
    };
    std::thread t([&] { use(0); });
    use(1);
    t.join();
    quiesce();
    check_once(4);
}
SCENARIO("C25", signal_shared, RACE(2, 3, "two threads connect, emit and disconnect the same signal"))
{
    isig s;
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    auto use = [&](int i) {
        auto c = s.connect(on_emit(i), q, i ? BATCH : SINGLE);
        s(i);
        c.disconnect();
    };
    std::thread t([&] { use(0); });
    use(1);
    t.join();
    quiesce();
}
SCENARIO("C25", signal_emit_parallel, RACE(2, 3, "two threads emit, a third one skips"))
{
    isig s;
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    auto c = s.connect(on_emit(0), q, choose(2) ? BATCH : SINGLE);
    std::thread t([&] { s(1); });
    std::thread u([&] { s.skip_all(); });
    s(2);
    t.join();
    u.join();
    quiesce();
    c.disconnect();
}
SCENARIO("C25", batch_toggled, RACE(2, 3, "notifications are enabled and disabled while a thread emits"))
{
    isig s;
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    auto c = s.connect(on_emit(0), q, choose(2) ? BATCH : SINGLE);
    std::thread t([&] { s(1); s(2); });
    auto d = c;
    d.disconnect();
    t.join();
    quiesce();
}
SCENARIO("C25", manager_shared, RACE(2, 3, "two threads add to and clear one connection_manager while a third emits"))
{
    isig s;
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    connection_manager m;
    std::thread t([&] {
        m += s.connect(on_emit(0), q);
        m.reset_connections();
    });
    std::thread u([&] { s(1); });
    m += s.connect(on_emit(1), q);
    s(2);
    t.join();
    u.join();
    m.reset_connections();
    quiesce();
}
SCENARIO("C25", timer_shared, RACE(1, 2, "a timer's interval, handler and target change and it is suspended by other threads while it runs"))
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    timer t(milliseconds(5), q);
    t.handler(tick(0));
    t.resume(milliseconds(0));
    std::thread u([&] { t.interval(milliseconds(3)); t.handler(tick(1)); });
    t.suspend();
    t.resume(milliseconds(0));
    u.join();
    quiesce(10 * MS);
    t.cancel();
    quiesce(20 * MS);
}
SCENARIO("C25", timer_cancel_shared, RACE(2, 3, "two threads cancel and suspend one timer"))
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    timer t(milliseconds(5), q);
    t.handler(tick(0));
    t.resume(milliseconds(0));
    std::thread u([&] { t.cancel(); });
    t.suspend();
    t.cancel();
    u.join();
    quiesce(20 * MS);
}
SCENARIO("C25", notifier_shared, RACE(1, 2, "a notifier's handler changes, it is suspended and cancelled by two threads while it runs"))
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    Sock s{ 3 };
    s.set(true, false);
    socket_notifier n(3, notifier_type::READ, q);
    n.handler(on_ready(s, notifier_type::READ, 0));
    n.resume();
    std::thread u([&] { n.handler(on_ready(s, notifier_type::READ, 1)); n.suspend(); });
    n.cancel();
    u.join();
    quiesce(20 * MS);
}
SCENARIO("C25", waitable_shared, RACE(2, 2, "two threads submit to and wait for one waitable_queue"))
{
    waitable_queue q("w", naive::create_serial_queue("q", make_spawn_pool()));
    std::thread t([&] {
        q.async(mark(0));
        q.wait_for_all();
    });
    q.async(mark(1));
    q.wait_for_all();
    t.join();
    check_once(2);
}
SCENARIO("C25", main_queue_shared, RACE(3, 4, "two threads use the main queue for the first time"))
{
    for (int i = 0; i < 2; i++)
        std::thread([i] { main_queue().async(mark(i)); }).detach();
    std::thread([] {
        quiesce();
        check_once(2);
        finish();
    }).detach();
    exec();
}
