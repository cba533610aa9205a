// C17: signals and connections can be destroyed in any order
#include "signals.h"

SCENARIO("C17", orders, o.bound = 1; o.bound_thorough = 2; o.about = "signal, scoped connection, copy, manager, queue destroyed in every order with invocations queued";)
{
    auto q = std::unique_ptr<queue>(new queue(create_serial_queue("q")));
    auto hold = std::unique_ptr<Hold>(new Hold(*q));
    auto s = std::unique_ptr<isig>(new isig);
    auto used = std::make_shared<int>(0);
    std::weak_ptr<int> w = used;
    auto d = std::unique_ptr<scoped_connection>(new scoped_connection);
    connection c;
    auto m = std::unique_ptr<connection_manager>(new connection_manager);
    {
        auto f = [used](int) { visible(); (*used)++; ev(E_START); };
        *d = s->connect(f, *q);
        c = s->connect(f, *q, BATCH);
        *m += s->connect(f, *q);
    }
    (*s)(1);
    (*s)(2);
    used.reset();
    int left[] = { 0, 1, 2, 3, 4, 5 };
    int n = 6;
    bool gone = false;
    while (n) {
        const int i = choose(n);
        switch (left[i]) {
            case 0: s.reset(); gone = true; ev(E_WAITED); break;
            case 1: d.reset(); break;
            case 2: c.disconnect(); break;
            case 3: m.reset(); break;
            case 4: q.reset(); break;
            case 5: hold->release(); break;
        }
        left[i] = left[--n];
    }
    XCHECK(gone, "");
    quiesce(2500 * MS);
    XCHECK(starts_after(find(E_WAITED)) == 0, "a handler was invoked after its signal was destroyed");
    XCHECK(w.expired(), "a handler is still alive");
}
SCENARIO("C17", signal_vs_disconnect, o.bound = 2; o.bound_thorough = 3; o.about = "one thread destroys the signal, another one disconnects, with an invocation queued or running";)
{
    auto s = std::unique_ptr<isig>(new isig);
    auto q = target(choose(2));
    auto c = s->connect(on_emit(0, 1), q, choose(2) ? SINGLE : BATCH);
    const bool managed = choose(2);
    (*s)(1);
    std::thread a([&] {
        s.reset();
        ev(E_WAITED, 0);
    });
    if (managed) {
        connection_manager m;
        m += c;
    } else {
        c.disconnect();
    }
    ev(E_WAITED, 1);
    a.join();
    quiesce(2500 * MS);
    check_stopped_at(find(E_WAITED, 0));
    check_stopped_at(find(E_WAITED, 1));
}
SCENARIO("C17", signal_vs_two, o.bound = 1; o.bound_thorough = 2; o.about = "one thread destroys the signal, two disconnect its handlers, one is running";)
{
    auto s = std::unique_ptr<isig>(new isig);
    auto q = target(choose(2));
    auto c = s->connect(on_emit(0, 1), q), d = s->connect(on_emit(1), q), e = s->connect(on_emit(2), q);
    (*s)(1);
    std::thread a([&] { s.reset(); });
    std::thread b([&] {
        c.disconnect();
        e.disconnect();
    });
    d.disconnect();
    a.join();
    b.join();
    ev(E_WAITED);
    quiesce(2500 * MS);
    for (int id = 0; id < 3; id++)
        check_stopped_at(find(E_WAITED), id);
}
SCENARIO("C17", signal_vs_self_disconnect, o.bound = 2; o.bound_thorough = 3; o.about = "the handler disconnects itself or another handler while the signal is destroyed";)
{
    auto s = std::unique_ptr<isig>(new isig);
    auto q = target(choose(2));
    const bool other = choose(2);
    connection c, d;
    c = s->connect(on_emit(0, 0, [&](int) {
        connection mine = other ? d : c;
        mine.disconnect();
        ev(E_MARK);
    }), q);
    d = s->connect(on_emit(1), q);
    (*s)(1);
    s.reset();
    ev(E_WAITED);
    quiesce(2500 * MS);
    // a handler which has already disconnected itself is not the signal's any more
    if (other)
        check_stopped_at(find(E_WAITED), 0);
    XCHECK(count(E_START, 0) == count(E_MARK), "an invocation did not complete");
    check_stopped_at(find(E_WAITED), 1);
}
SCENARIO("C17", emit_in_handler, o.bound = 2; o.bound_thorough = 3; o.about = "the handler emits and connects on another signal which is chained to the one being destroyed";)
{
    isig a;
    auto b = std::unique_ptr<isig>(new isig);
    auto x = a.connect(*b);
    connection late;
    auto h = b->connect(on_emit(0, 0, [&](int v) {
        if (v == 1) {
            late = a.connect(on_emit(1), global_queue());
            a(2);
        }
    }), target(choose(2)));
    std::thread t([&] { a(1); });
    x.disconnect();
    b.reset();
    ev(E_WAITED);
    t.join();
    quiesce(2500 * MS);
    check_stopped_at(find(E_WAITED), 0);
    late.disconnect();
}
SCENARIO("C17", uses_dying_signal, o.bound = 2; o.bound_thorough = 3; o.about = "a handler that asks its dying signal about its connection and is asked to skip";)
{
    auto s = std::unique_ptr<isig>(new isig);
    auto* raw = s.get();
    connection c;
    c = s->connect(on_emit(0, 1, [&, raw](int) {
        ev(E_MARK);
        connection mine = c;
        mine.connected();
        mine.is_connected_to(*raw);
    }), target(choose(2)));
    (*s)(1);
    (*s)(2);
    s.reset();
    ev(E_WAITED);
    quiesce(2500 * MS);
    check_stopped_at(find(E_WAITED));
}
SCENARIO("C17", destroyed_by_handler, o.bound = 2; o.bound_thorough = 3; o.about = "the handler destroys its signal, its owner or its manager";)
{
    auto s = std::make_shared<std::unique_ptr<isig>>(new isig);
    auto m = std::make_shared<std::unique_ptr<connection_manager>>(new connection_manager);
    auto q = target(choose(2));
    const int what = choose(3);
    auto c = (*s)->connect([=](int) {
        ev(E_START);
        if (what == 0 || what == 2)
            m->reset();
        if (what == 1 || what == 2)
            s->reset();
        ev(E_END);
    }, q, BATCH);
    **m += c;
    (**s)(1);
    quiesce(2500 * MS);
    XCHECK(count(E_START) == 1 && count(E_END) == 1, "%d invocations, %d complete", count(E_START), count(E_END));
    XCHECK(!c.connected() && !c.disconnect(), "still connected");
}
SCENARIO("C17", manager_in_handler, o.bound = 2; o.bound_thorough = 3; o.about = "the handler adds to and resets the manager that is resetting its connection";)
{
    isig s, t;
    auto q = target(choose(2));
    connection_manager manager;
    auto* m = &manager;
    const int what = choose(3);
    auto c = t.connect(on_emit(1), q);
    *m += s.connect(on_emit(0, 0, [&](int) {
        if (what == 0)
            *m += c;
        if (what == 1)
            m->reset_connections();
        if (what == 2)
            m->reset_connections_with(s);
    }), q);
    s(1);
    if (choose(2))
        m->reset_connections();
    else
        m->reset_connections_with(s);
    ev(E_WAITED);
    quiesce(2500 * MS);
    // a handler which has already reset its own connection may just complete
    if (what == 0)
        check_stopped_at(find(E_WAITED));
    XCHECK(count(E_START) == count(E_END), "an invocation did not complete");
    s(2);
    quiesce(2500 * MS);
    XCHECK(calls(0, 2) == 0, "still connected");
}
SCENARIO("C17", managers_crossed, o.bound = 2; o.bound_thorough = 3; o.about = "two threads reset a manager while a handler runs";)
{
    isig s, t;
    auto q = target(choose(2));
    connection_manager m;
    m += s.connect(on_emit(0, 1), q);
    m += t.connect(on_emit(1), q);
    s(1);
    t(1);
    std::thread a([&] {
        m.reset_connections_with(t);
        ev(E_WAITED, 1);
    });
    m.reset_connections();
    ev(E_WAITED, 0);
    a.join();
    quiesce(2500 * MS);
    check_stopped_at(find(E_WAITED, 0), 0);
    check_stopped_at(find(E_WAITED, 0), 1);
    check_stopped_at(find(E_WAITED, 1), 1);
}
SCENARIO("C17", captured_connection, o.bound = 1; o.bound_thorough = 2; o.about = "a handler owns the connection of another handler of its signal";)
{
    auto q = target(choose(2));
    const bool emitted = choose(2);
    std::weak_ptr<scoped_connection> w;
    connection c;
    {
        isig s;
        auto d = std::make_shared<scoped_connection>(s.connect(on_emit(1), q));
        w = d;
        c = s.connect([d](int) { ev(E_START); ev(E_END); }, q);
        d.reset();
        if (emitted)
            s(1);
        if (choose(2))
            c.disconnect();
    }
    ev(E_WAITED);
    quiesce(2500 * MS);
    check_stopped_at(find(E_WAITED), 0);
    check_stopped_at(find(E_WAITED), 1);
    XCHECK(w.expired(), "the connection is still alive");
}
SCENARIO("C17", queue_gone, o.bound = 2; o.bound_thorough = 3; o.about = "the last handle of the target queue is dropped with the connection, by any thread";)
{
    isig s;
    std::weak_ptr<int> w;
    {
        auto used = std::make_shared<int>(0);
        w = used;
        auto c = s.connect([used](int) { visible(); (*used)++; }, create_serial_queue("q"), choose(2) ? SINGLE : BATCH);
        s(1);
        std::thread a([&] { s(2); });
        used.reset();
        c.disconnect();
        a.join();
    }
    s(3);
    quiesce(2500 * MS);
    XCHECK(w.expired(), "a disconnected handler is still alive");
}
SCENARIO("C17", group_gone, o.bound = 2; o.bound_thorough = 3; o.about = "a signal with a group is destroyed while its handlers run; the group completes";)
{
    group g;
    {
        isig s(g);
        auto c = s.connect(on_emit(0, 1), target(choose(2)));
        s(1);
        s(2);
    }
    ev(E_WAITED);
    XCHECK(g.wait(), "the group never gets done");
    quiesce(2500 * MS);
    check_stopped_at(find(E_WAITED));
}
SCENARIO("C17", nothing_left, o.bound = 1; o.bound_thorough = 2; o.about = "connecting, emitting and disconnecting leaves nothing behind";)
{
    auto q = target(choose(2));
    isig s;
    const int how = choose(3);
    check_no_growth([&] {
        auto c = s.connect([](int) {}, q, choose(2) ? SINGLE : BATCH);
        s(1);
        if (how == 0)
            c.disconnect();
        else if (how == 1)
            scoped_connection d(c);
        else
            s.disconnect(c);
    }, 2500 * MS, 5);
}

SCENARIO("C17", manager_used_meanwhile, o.bound = 2; o.bound_thorough = 3; o.about = "a handler, which may have disconnected itself, uses its manager while others use it";)
{
    isig s, t, u;
    auto q = target(choose(2));
    connection_manager manager;
    auto* m = &manager;
    connection self;
    const bool disconnects = choose(2);
    const int what = choose(3);
    self = s.connect(on_emit(0, 0, [&, what](int) {
        if (disconnects)
            self.disconnect();
        if (what == 0)
            *m += t.connect(on_emit(1), q);
        if (what == 1)
            m->reset_connections_with(u);
        if (what == 2)
            *m += u.connect(on_emit(2), q);
    }), q);
    manager += self;
    s(1);
    if (choose(2))
        manager += t.connect(on_emit(3), q);
    else
        manager.reset_connections_with(t);
    quiesce(2500 * MS);
    XCHECK(count(E_START, 0) == 1 && count(E_END, 0) == 1, "%d invocations, %d complete", count(E_START, 0), count(E_END, 0));
    s(2);
    quiesce(2500 * MS);
    XCHECK(calls(0, 2) == (disconnects ? 0 : 1), "wrong number of invocations");
    manager.reset_connections();
    s(3);
    t(3);
    u(3);
    quiesce(2500 * MS);
    for (int i = 0; i < 4; i++)
        XCHECK(calls(i, 3) == 0, "handler %d is still connected", i);
}
