// C12: no handler runs after disconnect returned
#include "signals.h"

// the events up to 'pos': as many ends as starts; no start behind
static void
check_gone_at(int pos, int id = 0)
{
    int running = 0;
    for (int i = 0; i < nevents(); i++) {
        auto& e = events()[i];
        if (i == pos)
            XCHECK(running == 0, "the disconnect returned while the handler is running");
        if (e.a != id)
            continue;
        if (e.kind == E_START) {
            XCHECK(i < pos, "the handler was invoked after it was disconnected");
            running++;
        }
        if (e.kind == E_END)
            running--;
    }
}

SCENARIO("C12", emit_vs_disconnect, o.bound = 2; o.bound_thorough = 3; o.about = "disconnect() while another thread emits, both modes, serial and parallel queue";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(), target(choose(2)), choose(2) ? SINGLE : BATCH);
    std::thread a([&] {
        s(1);
        s(2);
    });
    XCHECK(c.disconnect(), "nothing was disconnected");
    ev(E_WAITED);
    a.join();
    quiesce(2500 * MS);
    check_gone_at(find(E_WAITED));
}
SCENARIO("C12", disconnect_running, o.bound = 2; o.bound_thorough = 3; o.about = "two threads disconnect copies of a connection whose handler is running or about to";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0, 4), target(choose(2)), choose(2) ? SINGLE : BATCH);
    auto d = c;
    s(1);
    std::thread a([&] {
        d.disconnect();
        ev(E_WAITED, 1);
    });
    c.disconnect();
    ev(E_WAITED, 0);
    a.join();
    quiesce(2500 * MS);
    check_gone_at(find(E_WAITED, 0));
    check_gone_at(find(E_WAITED, 1));
}
SCENARIO("C12", disconnect_parallel, o.bound = 1; o.bound_thorough = 2; o.cpus = 2; o.about = "three invocations run at the same time on a parallel queue: disconnect() waits for all";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0, 4), global_queue());
    for (int i = 0; i < 3; i++)
        s(i);
    std::this_thread::sleep_for(milliseconds(choose(2)));
    c.disconnect();
    ev(E_WAITED);
    quiesce(2500 * MS);
    check_gone_at(find(E_WAITED));
}
SCENARIO("C12", self_disconnect, o.bound = 2; o.bound_thorough = 3; o.about = "the handler disconnects itself: returns at once, completes, nothing else starts";)
{
    const bool parallel = choose(2);
    ANY_ISIG(s);
    connection c;
    c = s.connect(on_emit(0, 0, [&](int) {
        connection mine = c;
        mine.disconnect();
        ev(E_MARK);
    }), target(parallel), choose(2) ? SINGLE : BATCH);
    s(1);
    s(2);
    s(3);
    quiesce(2500 * MS);
    const int pos = find(E_MARK);
    XCHECK(pos >= 0, "the handler was not invoked");
    // others may have entered at the same time on a parallel queue
    if (!parallel)
        XCHECK(starts_after(pos) == 0, "the handler was invoked after it disconnected itself");
    const int n = count(E_START);
    s(4);
    quiesce(2500 * MS);
    XCHECK(count(E_START) == n, "the handler was invoked after it disconnected itself");
    XCHECK(count(E_START) == count(E_END), "an invocation did not complete");
}
SCENARIO("C12", self_and_other, o.bound = 2; o.bound_thorough = 3; o.about = "the handler disconnects itself while another thread does";)
{
    const bool parallel = choose(2);
    ANY_ISIG(s);
    connection c;
    c = s.connect(on_emit(0, 0, [&](int) {
        connection mine = c;
        mine.disconnect();
        ev(E_MARK);
    }), target(parallel), choose(2) ? SINGLE : BATCH);
    connection d = c;
    s(1);
    s(2);
    d.disconnect();
    ev(E_WAITED);
    quiesce(2500 * MS);
    check_gone_at(find(E_WAITED));
    if (find(E_MARK) >= 0 && !parallel)
        XCHECK(starts_after(find(E_MARK)) == 0, "the handler was invoked after it disconnected itself");
}
SCENARIO("C12", two_selves, o.bound = 2; o.bound_thorough = 3; o.cpus = 2; o.about = "two concurrent invocations disconnect themselves";)
{
    ANY_ISIG(s);
    connection c;
    c = s.connect(on_emit(0, 1, [&](int) {
        connection mine = c;
        mine.disconnect();
        ev(E_MARK);
    }), global_queue());
    s(1);
    s(2);
    quiesce(2500 * MS);
    XCHECK(count(E_START) == count(E_END) && count(E_START) >= 1, "%d invocations, %d complete", count(E_START), count(E_END));
    const int n = count(E_START);
    s(3);
    quiesce(2500 * MS);
    XCHECK(count(E_START) == n, "the handler was invoked after it disconnected itself");
}
SCENARIO("C12", every_way, o.bound = 2; o.bound_thorough = 3; o.about = "explicit, by the signal, by scope exit, assignment, manager, destruction of the signal";)
{
    auto s = std::make_shared<isig>();
    auto q = target(choose(2));
    const int way = choose(9);
    auto c = s->connect(on_emit(0, 2), q);
    auto owner = s;
    std::thread a([owner, way] {
        if (way != 6)
            (*owner)(1);
    });
    if (way == 6)
        (*owner)(1);
    owner.reset();
    switch (way) {
        case 0: c.disconnect(); break;
        case 1: s->disconnect(c); break;
        case 2: { scoped_connection x(c); } break;
        case 3: { scoped_connection x(c); x = connection(); } break;
        case 4: { scoped_connection x(c); x = scoped_connection(); } break;
        case 5: { scoped_connection x(c), y(std::move(x)); } break;
        case 6: a.join(); s.reset(); break;
        case 7: { connection_manager m; m += c; } break;
        case 8: { connection_manager m; m += c; m.reset_connections_with(*s); ev(E_WAITED); } break;
    }
    ev(E_WAITED);
    if (way != 6)
        a.join();
    quiesce(2500 * MS);
    check_gone_at(find(E_WAITED));
}
SCENARIO("C12", others_stay, o.bound = 1; o.bound_thorough = 2; o.about = "disconnecting one handler leaves the others alone";)
{
    ANY_ISIG(s);
    auto q = target(choose(2));
    auto a = s.connect(on_emit(0), q), b = s.connect(on_emit(1), q), c = s.connect(on_emit(2), q);
    std::thread t([&] { s(1); });
    const int which = choose(3);
    (which == 0 ? a : which == 1 ? b : c).disconnect();
    ev(E_WAITED);
    t.join();
    s(2);
    quiesce(2500 * MS);
    check_gone_at(find(E_WAITED), which);
    for (int i = 0; i < 3; i++)
        if (i != which)
            XCHECK(calls(i, 1) == 1 && calls(i, 2) == 1, "handler %d was invoked %d and %d times", i, calls(i, 1), calls(i, 2));
}
SCENARIO("C12", queued, o.bound = 1; o.bound_thorough = 2; o.about = "disconnected while invocations are queued: what the handler uses may go away";)
{
    auto q = create_serial_queue("q");
    Hold hold(q);
    ANY_ISIG(s);
    const auto mode = choose(2) ? SINGLE : BATCH;
    {
        auto used = std::unique_ptr<int>(new int(0));
        int* raw = used.get();
        auto c = s.connect([raw](int) { visible(); (*raw)++; ev(E_START); }, q, mode);
        s(1);
        s(2);
        std::thread t([&] { hold.release(); });
        c.disconnect();
        ev(E_WAITED);
        used.reset();
        t.join();
    }
    s(3);
    quiesce(2500 * MS);
    XCHECK(starts_after(find(E_WAITED)) == 0, "the handler was invoked after it was disconnected");
}
SCENARIO("C12", in_group, o.bound = 2; o.bound_thorough = 3; o.about = "a signal with a group: the group completes although the handler is disconnected";)
{
    group g;
    isig s(g);
    auto c = s.connect(on_emit(0, 2), target(choose(2)));
    s(1);
    s(2);
    c.disconnect();
    ev(E_WAITED);
    XCHECK(g.wait(), "the group never gets done");
    quiesce(2500 * MS);
    check_gone_at(find(E_WAITED));
}
SCENARIO("C12", from_same_queue, o.bound = 2; o.bound_thorough = 3; o.about = "an operation of the same serial queue, or another handler on it, disconnects";)
{
    auto q = create_serial_queue("q");
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0, 1), q);
    const bool handler = choose(2);
    connection other;
    if (handler)
        other = s.connect([&](int) { c.disconnect(); ev(E_WAITED); }, q);
    s(1);
    if (!handler)
        q.async([&] { c.disconnect(); ev(E_WAITED); });
    s(2);
    s(3);
    quiesce(2500 * MS);
    XCHECK(find(E_WAITED) >= 0, "never disconnected");
    check_gone_at(find(E_WAITED));
}
SCENARIO("C12", synchronous, o.bound = 2; o.bound_thorough = 3; o.about = "a synchronous handler: disconnected by another thread while emits are running";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0, 1), global_queue(), SYNC);
    std::thread a([&] {
        s(1);
        s(2);
    });
    c.disconnect();
    ev(E_WAITED);
    a.join();
    s(3);
    check_gone_at(find(E_WAITED));
}
SCENARIO("C12", synchronous_self, o.bound = 2; o.bound_thorough = 3; o.about = "a synchronous handler disconnects itself";)
{
    ANY_ISIG(s);
    connection c;
    c = s.connect(on_emit(0, 0, [&](int) {
        connection mine = c;
        mine.disconnect();
        ev(E_MARK);
    }), global_queue(), SYNC);
    std::thread a([&] { s(1); });
    s(2);
    a.join();
    XCHECK(find(E_MARK) >= 0, "the handler was not invoked");
    XCHECK(starts_after(find(E_MARK)) == 0, "the handler was invoked after it disconnected itself");
}
SCENARIO("C12", chained, o.bound = 2; o.bound_thorough = 3; o.about = "a chained signal is disconnected and destroyed while the first one is emitted";)
{
    isig a;
    auto b = std::unique_ptr<isig>(new isig);
    auto c = a.connect(*b);
    auto d = b->connect(on_emit(0, 1), target(choose(2)));
    std::thread t([&] {
        a(1);
        a(2);
    });
    c.disconnect();
    b.reset();
    ev(E_WAITED);
    t.join();
    quiesce(2500 * MS);
    check_gone_at(find(E_WAITED));
}
SCENARIO("C12", visibility, o.bound = 2; o.bound_thorough = 3; o.races = true; o.about = "what the handler wrote is visible once disconnected";)
{
    ANY_ISIG(s);
    int n = 0;
    auto c = s.connect([&n](int v) { n += v; }, target(choose(2)), choose(2) ? SINGLE : BATCH);
    auto d = c;
    s(1);
    std::thread a([&] {
        d.disconnect();
        XCHECK(n == 0 || n == 1, "%d", n);
    });
    c.disconnect();
    XCHECK(n == 0 || n == 1, "%d", n);
    a.join();
}
SCENARIO("C12", handler_disconnects_other, o.bound = 2; o.bound_thorough = 3; o.cpus = 2; o.about = "a handler disconnects another one which is running or queued, of the same or another signal, synchronous or not";)
{
    isig s, other;
    const bool same = choose(2);
    auto c = (same ? s : other).connect(on_emit(0, 4), naive::create_parallel_queue("p", make_spawn_pool()));
    auto d = s.connect([c](int) {
        ev(E_START, 1);
        connection mine = c;
        mine.disconnect();
        ev(E_WAITED);
        ev(E_END, 1);
    }, target(choose(2)), choose(2) ? SYNC : SINGLE);
    other(1);
    s(1);
    quiesce(2500 * MS);
    XCHECK(count(E_WAITED) == 1 && count(E_END, 1) == 1, "the disconnecting handler did not complete");
    check_gone_at(find(E_WAITED));
}
SCENARIO("C12", operation_disconnects, o.bound = 1; o.bound_thorough = 2; o.cpus = 2; o.about = "operations, timers and group notifications disconnect a running handler";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0, 4), target(choose(2)));
    s(1);
    s(2);
    auto op = make_operation([c] {
        connection mine = c;
        mine.disconnect();
        ev(E_WAITED);
    });
    timer t(milliseconds(0), global_queue());
    group g;
    switch (choose(3)) {
        case 0: global_queue().async(op); break;
        case 1:
            t.handler(op);
            t.resume(milliseconds(choose(2) * 3));
            break;
        default: g.notify(op, global_queue()); break;
    }
    quiesce(2500 * MS);
    XCHECK(count(E_WAITED) == 1, "disconnect did not return");
    check_gone_at(find(E_WAITED));
}
SCENARIO("C12", synchronous_on_same_thread, o.bound = 2; o.bound_thorough = 3; o.about = "a synchronous handler further up the stack is disconnected while it runs, also on another thread";)
{
    isig s, inner;
    connection c;
    c = s.connect(on_emit(0, 0, [&](int v) { inner(v); }), global_queue(), SYNC);
    auto d = inner.connect([&](int) {
        ev(E_START, 1);
        connection mine = c;
        mine.disconnect(); // active on this very stack
        ev(E_MARK);
        ev(E_END, 1);
    }, global_queue(), SYNC);
    std::thread a([&] { s(1); });
    connection e = c;
    e.disconnect();
    ev(E_WAITED);
    a.join();
    s(2);
    quiesce();
    check_gone_at(find(E_WAITED));
    XCHECK(count(E_START, 0) <= 1, "%d invocations", count(E_START, 0));
}
SCENARIO("C12", many_cycles, o.bound = 0; o.bound_thorough = 0; o.max_steps = 500000; o.about = "300 cycles of connect, emit and disconnect with the invocation not started, running or done: every one is stopped and nothing accumulates";)
{
    ANY_ISIG(s);
    queue q = target(choose(2));
    const auto mode = choose(2) ? SINGLE : BATCH;
    const int pause = choose(3), others = choose(2);
    std::vector<connection> o;
    for (int i = 0; i < others; i++)
        o.push_back(s.connect([](int) {}, q, mode));
    int live = 0;
    for (int i = 0; i < 300; i++) {
        auto c = s.connect(on_emit(i, 1), q, mode);
        s(i);
        if (pause)
            std::this_thread::sleep_for(std::chrono::microseconds(pause == 1 ? 500 : 3000));
        XCHECK(c.disconnect(), "was not connected");
        const int p = ev(E_WAITED, i);
        s(-1);
        XCHECK(count(E_START, i) == count(E_END, i), "disconnect() returned while the handler was running");
        std::this_thread::sleep_for(milliseconds(3));
        for (int k = p; k < nevents(); k++)
            XCHECK(events()[k].kind != E_START, "invoked after disconnect()");
        if (pause)
            XCHECK(count(E_START, i) == 1, "invoked %d times", count(E_START, i));
        quiesce();
        if (i == 20)
            live = heap_live();
    }
    XCHECK(heap_live() <= live + 10, "the heap grew by %d blocks", heap_live() - live);
}
