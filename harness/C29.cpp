// C29: skip_all drops what is queued, and only that
#include "signals.h"

SCENARIO("C29", queued, o.bound = 1; o.bound_thorough = 2; o.about = "skipped while invocations are queued: none runs; later emits arrive";)
{
    auto q = create_serial_queue("q");
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0), q), d = s.connect(on_emit(1), q, BATCH);
    {
        Hold hold(q);
        s(1);
        s(2);
        s.skip_all();
        ev(E_WAITED);
        if (choose(2))
            s(3);
        hold.release();
        quiesce(2500 * MS);
        XCHECK(calls(0, 1) + calls(0, 2) == 0 && calls(1, 1) + calls(1, 2) == 0, "a skipped invocation was made");
    }
    s(4);
    quiesce(2500 * MS);
    XCHECK(calls(0, 4) == 1 && calls(1, 4) == 1, "%d and %d invocations for an emit after skip_all()", calls(0, 4), calls(1, 4));
    XCHECK(c.connected() && d.connected(), "disconnected");
}
SCENARIO("C29", batched, o.bound = 1; o.bound_thorough = 2; o.about = "emits after skip_all() reach batched handlers although skipped invocations are still queued";)
{
    auto q = create_serial_queue("q");
    ANY_ISIG(s);
    auto d = s.connect(on_emit(1), q, BATCH);
    Hold hold(q);
    s(1);
    s.skip_all();
    s(2);
    s(3);
    hold.release();
    quiesce(2500 * MS);
    XCHECK(calls(1, 1) == 0, "a skipped invocation was made");
    XCHECK(count(E_START) == 1, "%d invocations for the emits after skip_all()", count(E_START));
}
SCENARIO("C29", running, o.bound = 2; o.bound_thorough = 3; o.about = "skipped while the handler is running: completes, nothing queued runs afterwards";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0, 2), target(choose(2)), choose(2) ? SINGLE : BATCH);
    s(1);
    s(2);
    s.skip_all();
    const int pos = ev(E_WAITED);
    quiesce(2500 * MS);
    for (int i = pos; i < nevents(); i++)
        XCHECK(events()[i].kind != E_START, "a skipped invocation was made");
    XCHECK(count(E_START) == count(E_END), "an invocation did not complete");
    s(3);
    quiesce(2500 * MS);
    XCHECK(calls(0, 3) == 1, "%d invocations for an emit after skip_all()", calls(0, 3));
}
SCENARIO("C29", by_handler, o.bound = 2; o.bound_thorough = 3; o.about = "the handler itself skips everything queued";)
{
    ANY_ISIG(s);
    auto q = create_serial_queue("q");
    auto c = s.connect(on_emit(0, 0, [&](int v) {
        if (v == 1)
            s.skip_all();
    }), q);
    {
        Hold hold(q);
        s(1);
        s(2);
        s(3);
        hold.release();
    }
    quiesce(2500 * MS);
    XCHECK(count(E_START) == 1 && count(E_END) == 1 && calls(0, 1) == 1, "%d invocations", count(E_START));
    s(4);
    quiesce(2500 * MS);
    XCHECK(calls(0, 4) == 1, "%d invocations for an emit after skip_all()", calls(0, 4));
}
SCENARIO("C29", concurrent, o.bound = 2; o.bound_thorough = 3; o.about = "one thread emits, another one skips";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0), target(choose(2)), choose(2) ? SINGLE : BATCH);
    std::thread a([&] {
        emit(s, 1);
        emit(s, 2);
    });
    const int begin = ev(E_MARK);
    s.skip_all();
    ev(E_WAITED);
    a.join();
    quiesce(2500 * MS);
    const int pos = find(E_WAITED);
    for (int v = 1; v <= 2; v++) {
        XCHECK(calls(0, v) <= 1, "invoked twice for an emit");
        const int posted = find(E_POSTED, v);
        for (int i = pos; i < nevents(); i++)
            if (events()[i].kind == E_START && events()[i].b == v)
                XCHECK(posted >= begin, "a skipped invocation was made");
    }
    int last = -1;
    for (int i = 0; i < nevents(); i++)
        if (events()[i].kind == E_START)
            last = i;
    if (find(E_POST, 2) > pos)
        XCHECK(last > find(E_POST, 2), "an emit after skip_all() was missed");
    emit(s, 3);
    quiesce(2500 * MS);
    XCHECK(calls(0, 3) == 1, "%d invocations for an emit after skip_all()", calls(0, 3));
}
SCENARIO("C29", and_disconnect, o.bound = 2; o.bound_thorough = 3; o.about = "skip_all() while the handler disconnects itself or another thread does";)
{
    ANY_ISIG(s);
    connection c;
    const bool self = choose(2);
    c = s.connect(on_emit(0, 1, [&](int) {
        if (self) {
            connection mine = c;
            mine.disconnect();
        }
    }), target(choose(2)), choose(2) ? SINGLE : BATCH);
    s(1);
    s(2);
    std::thread a([&] {
        if (!self) {
            connection mine = c;
            mine.disconnect();
            ev(E_WAITED, 1);
        }
    });
    s.skip_all();
    ev(E_WAITED, 0);
    a.join();
    s(3);
    quiesce(2500 * MS);
    if (!self) {
        check_stopped_at(find(E_WAITED, 1));
        XCHECK(calls(0, 3) == 0, "invoked after the disconnect");
    }
    XCHECK(count(E_START) == count(E_END), "an invocation did not complete");
}
SCENARIO("C29", two_skip, o.bound = 2; o.bound_thorough = 3; o.about = "two threads skip while a handler runs";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0, 1), target(choose(2)));
    s(1);
    s(2);
    std::thread a([&] { s.skip_all(); ev(E_WAITED, 1); });
    s.skip_all();
    ev(E_WAITED, 0);
    a.join();
    quiesce(2500 * MS);
    const int pos = std::max(find(E_WAITED, 0), find(E_WAITED, 1));
    for (int i = pos; i < nevents(); i++)
        XCHECK(events()[i].kind != E_START, "a skipped invocation was made");
    s(3);
    quiesce(2500 * MS);
    XCHECK(calls(0, 3) == 1, "%d invocations for an emit after skip_all()", calls(0, 3));
}
SCENARIO("C29", two_handlers_skip, o.bound = 2; o.bound_thorough = 3; o.cpus = 2; o.about = "two handlers skip at the same time and never wait for each other";)
{
    ANY_ISIG(s);
    auto q = create_serial_queue("q"), p = create_serial_queue("p");
    auto f = [&](int v) {
        if (v == 1)
            s.skip_all();
    };
    auto c = s.connect(on_emit(0, 0, f), q), d = s.connect(on_emit(1, 0, f), p);
    s(1);
    s(2);
    quiesce(2500 * MS);
    XCHECK(count(E_START) == count(E_END) && count(E_START) >= 1, "an invocation did not complete");
    s(3);
    quiesce(2500 * MS);
    XCHECK(calls(0, 3) == 1 && calls(1, 3) == 1, "%d and %d invocations for an emit after skip_all()", calls(0, 3), calls(1, 3));
}
SCENARIO("C29", with_group, o.bound = 2; o.bound_thorough = 3; o.about = "the group of the signal completes although invocations are skipped";)
{
    group g;
    isig s(g);
    auto c = s.connect(on_emit(0, 1), target(choose(2)), choose(2) ? SINGLE : BATCH);
    s(1);
    s(2);
    s.skip_all();
    XCHECK(g.wait(), "the group never gets done");
    XCHECK(count(E_START) == count(E_END), "an invocation did not complete");
    s(3);
    XCHECK(g.wait(), "the group never gets done");
    XCHECK(calls(0, 3) == 1, "%d invocations for an emit after skip_all()", calls(0, 3));
}
SCENARIO("C29", synchronous, o.bound = 2; o.bound_thorough = 3; o.about = "skipped by a synchronous handler and by another thread: emits still arrive";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0, 0, [&](int v) {
        if (v == 1)
            s.skip_all();
    }), global_queue(), SYNC);
    auto d = s.connect(on_emit(1), create_serial_queue("q"));
    std::thread a([&] { s.skip_all(); });
    s(1);
    s(2);
    a.join();
    s(3);
    XCHECK(count(E_START, 0) == 3, "%d synchronous invocations for 3 emits", count(E_START, 0));
    quiesce(2500 * MS);
    XCHECK(calls(1, 3) == 1 && calls(1, 1) <= 1 && calls(1, 2) <= 1, "%d invocations for an emit after skip_all()", calls(1, 3));
}
SCENARIO("C29", torn_down, o.bound = 2; o.bound_thorough = 3; o.about = "skipped while another thread disconnects, then everything is destroyed: no handler runs or stays";)
{
    std::weak_ptr<int> w;
    {
        auto used = std::make_shared<int>(0);
        w = used;
        auto q = target(choose(2));
        auto s = std::unique_ptr<isig>(new isig);
        auto c = s->connect([used](int) { visible(); (*used)++; ev(E_START); }, q, choose(2) ? SINGLE : BATCH);
        used.reset();
        (*s)(1);
        std::thread a([&] { c.disconnect(); });
        s->skip_all();
        a.join();
        if (choose(2))
            (*s)(2);
        s.reset();
        ev(E_WAITED);
    }
    quiesce(2500 * MS);
    XCHECK(starts_after(find(E_WAITED)) == 0, "invoked after the signal was destroyed");
    XCHECK(w.expired(), "a handler is still alive");
}

SCENARIO("C29", histories, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.about = "every sequence of four operations (connects, emits, skips, disconnects, pauses) after a connect in any mode";)
{
    signal_history(5, H_SINGLE | H_BATCH | H_SYNC | H_SKIP | H_DISCONNECT, choose(3));
}
SCENARIO("C29", histories_preempted, o.bound = 1; o.bound_thorough = 2; o.timedev = false; o.about = "every sequence of two emits, skips, disconnects and pauses after a connect and before another one, with preemptions";)
{
    signal_history(4, H_SKIP | H_DISCONNECT, 0);
}
SCENARIO("C29", many_cycles, o.bound = 0; o.bound_thorough = 0; o.max_steps = 500000; o.about = "300 cycles of emits, skip_all() and emits with the queue held or not: the skipped ones never run, the others always do";)
{
    queue q = create_serial_queue("q");
    ANY_ISIG(s);
    const auto mode = choose(2) ? SINGLE : BATCH;
    const int held = choose(2), n = 1 + choose(3);
    int last = 0, calls = 0;
    auto c = s.connect([&](int v) {
        last = v;
        calls++;
    }, q, mode);
    int v = 0;
    for (int i = 0; i < 300; i++) {
        std::unique_ptr<Hold> hold(held ? new Hold(q) : nullptr);
        for (int k = 0; k < n; k++)
            s(++v);
        const int before = calls;
        for (int k = 0; k < n; k++)
            s.skip_all();
        if (held)
            hold->release();
        quiesce(1 * MS);
        XCHECK(calls == before, "a skipped invocation was made in cycle %d", i);
        s(++v);
        quiesce(1 * MS);
        XCHECK(calls == before + 1 && last == v, "the emit after skip_all() was not delivered in cycle %d", i);
    }
}
