// C14: batched updates coalesce but never go missing
#include "signals.h"

// after every emit began, an invocation starts
static void
none_missing()
{
    int last = -1;
    for (int i = 0; i < nevents(); i++)
        if (events()[i].kind == E_START)
            last = i;
    for (int i = 0; i < nevents(); i++)
        if (events()[i].kind == E_POST)
            XCHECK(last > i, "no invocation started after emit %d", events()[i].a);
}
// only values of emits that began before
static void
values_emitted()
{
    for (int i = 0; i < nevents(); i++)
        if (events()[i].kind == E_START) {
            const int p = find(E_POST, events()[i].b);
            XCHECK(p >= 0 && p < i, "invoked with %d, which was not emitted", events()[i].b);
        }
}

SCENARIO("C14", one_emitter, o.bound = 3; o.bound_thorough = 4; o.about = "three emits while the handler runs";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(), target(choose(2)), BATCH);
    for (int v = 1; v <= 3; v++)
        emit(s, v);
    quiesce(2500 * MS);
    none_missing();
    values_emitted();
    XCHECK(count(E_START) <= 3, "%d invocations for 3 emits", count(E_START));
}
SCENARIO("C14", two_emitters, o.bound = 2; o.bound_thorough = 3; o.about = "two threads emit while the handler runs";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(), target(choose(2)), BATCH);
    std::thread a([&] {
        emit(s, 1);
        emit(s, 2);
    });
    emit(s, 3);
    emit(s, 4);
    a.join();
    quiesce(2500 * MS);
    none_missing();
    values_emitted();
    XCHECK(count(E_START) <= 4, "%d invocations for 4 emits", count(E_START));
    // not stuck
    emit(s, 5);
    quiesce(2500 * MS);
    none_missing();
    XCHECK(calls(0, 5) == 1, "stuck");
}
SCENARIO("C14", three_emitters, o.bound = 2; o.bound_thorough = 3; o.about = "three threads emit once each";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(), create_serial_queue("q"), BATCH);
    std::thread a([&] { emit(s, 1); });
    std::thread b([&] { emit(s, 2); });
    emit(s, 3);
    a.join();
    b.join();
    quiesce(2500 * MS);
    none_missing();
    values_emitted();
}
SCENARIO("C14", coalesced, o.bound = 1; o.bound_thorough = 2; o.about = "emits while the queue is busy: exactly one invocation, again and again";)
{
    auto q = create_serial_queue("q");
    group g;
    const std::unique_ptr<isig> sig(choose(2) ? new isig(g) : new isig);
    isig& s = *sig;
    auto c = s.connect(on_emit(), q, BATCH);
    for (int round = 1; round <= 2; round++) {
        Hold hold(q);
        std::thread a([&] { emit(s, round * 10 + 1); });
        emit(s, round * 10 + 2);
        emit(s, round * 10 + 3);
        a.join();
        XCHECK(count(E_START) == round - 1, "invoked although the queue is busy");
        hold.release();
        quiesce(2500 * MS);
        XCHECK(count(E_START) == round, "%d invocations pending at the same time", count(E_START) - round + 1);
    }
    none_missing();
    values_emitted();
}
SCENARIO("C14", emitted_while_running, o.bound = 2; o.bound_thorough = 3; o.about = "an emit while the handler is running leads to another invocation";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0, 5), target(choose(2)), BATCH);
    emit(s, 1);
    quiesce(1 * MS);
    emit(s, 2);
    emit(s, 3);
    quiesce(2500 * MS);
    none_missing();
    values_emitted();
    XCHECK(count(E_START) <= 3 && count(E_START) >= 1, "%d invocations", count(E_START));
}
SCENARIO("C14", emitted_by_handler, o.bound = 2; o.bound_thorough = 3; o.about = "the handler emits its own signal";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0, 0, [&](int v) {
        if (v < 3)
            emit(s, v + 1);
    }), target(choose(2)), BATCH);
    emit(s, 1);
    quiesce(2500 * MS);
    none_missing();
    XCHECK(count(E_START) == 3, "%d invocations", count(E_START));
}
SCENARIO("C14", two_handlers, o.bound = 2; o.bound_thorough = 3; o.about = "two batched handlers on different queues and a single updates handler";)
{
    ANY_ISIG(s);
    auto q = create_serial_queue("q"), p = create_serial_queue("p");
    auto c = s.connect(on_emit(0), q, BATCH), d = s.connect(on_emit(1), p, BATCH), e = s.connect(on_emit(2), q, SINGLE);
    Hold hold(p);
    emit(s, 1);
    emit(s, 2);
    hold.release();
    quiesce(2500 * MS);
    XCHECK(count(E_START, 1) == 1, "%d invocations of a held batch", count(E_START, 1));
    XCHECK(count(E_START, 0) >= 1 && count(E_START, 0) <= 2, "%d batched invocations", count(E_START, 0));
    XCHECK(calls(2, 1) == 1 && calls(2, 2) == 1, "wrong single updates");
    values_emitted();
    emit(s, 3);
    quiesce(2500 * MS);
    for (int id = 0; id < 3; id++)
        XCHECK(calls(id, 3) == 1, "handler %d is stuck", id);
}
SCENARIO("C14", with_group, o.bound = 2; o.bound_thorough = 3; o.about = "batched handlers of a signal with a group";)
{
    group g;
    isig s(g);
    auto c = s.connect(on_emit(0, 1), target(choose(2)), BATCH);
    emit(s, 1);
    emit(s, 2);
    XCHECK(g.wait(), "not done");
    none_missing();
    XCHECK(count(E_START) == count(E_END), "the group is done while a handler is running");
    emit(s, 3);
    XCHECK(g.wait(), "not done");
    none_missing();
}
SCENARIO("C14", overlapping, o.bound = 2; o.bound_thorough = 3; o.cpus = 2; o.about = "overlapping invocations on a parallel queue never block each other for good";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0, 3), global_queue(), BATCH);
    for (int v = 1; v <= 3; v++) {
        emit(s, v);
        std::this_thread::sleep_for(milliseconds(1));
    }
    quiesce(2500 * MS);
    none_missing();
    values_emitted();
    emit(s, 4);
    quiesce(2500 * MS);
    XCHECK(calls(0, 4) == 1, "stuck");
}
SCENARIO("C14", visibility, o.bound = 2; o.bound_thorough = 3; o.about = "an invocation that starts last sees what every emitter did before its emit";)
{
    ANY_ISIG(s);
    std::atomic<int> state{ 0 };
    int seen = 0;
    auto c = s.connect([&](int) { seen = state.load(); }, create_serial_queue("q"), BATCH);
    std::thread a([&] {
        state.fetch_or(1);
        s(1);
    });
    state.fetch_or(2);
    s(2);
    a.join();
    quiesce(2500 * MS);
    XCHECK(seen == 3, "the last update was missed (saw %d)", seen);
}

SCENARIO("C14", histories, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.about = "every sequence of six operations (connects, emits, skips, disconnects, pauses) with handlers in batch mode";)
{
    signal_history(6, H_BATCH | H_SKIP | H_DISCONNECT, 1);
}
SCENARIO("C14", histories_preempted, o.bound = 1; o.bound_thorough = 2; o.timedev = false; o.about = "every sequence of three operations after a connect in batch mode, with preemptions";)
{
    signal_history(4, H_BATCH | H_SKIP | H_DISCONNECT, 1);
}
SCENARIO("C14", many_emits, o.bound = 0; o.bound_thorough = 0; o.max_steps = 500000; o.about = "300 emits, in bursts of 1, 7 or 300, with the queue held or not: an invocation after each burst, one pending at most";)
{
    queue q = create_serial_queue("q");
    ANY_ISIG(s);
    std::vector<int> got;
    auto c = s.connect([&](int v) { got.push_back(v); }, q, BATCH);
    static const int B[] = { 1, 7, 300 };
    const int burst = B[choose(3)], held = choose(2);
    int v = 0;
    while (v < 300) {
        std::unique_ptr<Hold> hold(held ? new Hold(q) : nullptr);
        const size_t before = got.size();
        for (int i = 0; i < burst && v < 300; i++)
            s(++v);
        if (held)
            hold->release();
        quiesce(5 * MS);
        XCHECK(got.size() > before, "no invocation after emit %d", v);
        XCHECK(!held || got.size() == before + 1, "%zu invocations were pending", got.size() - before);
        XCHECK(got.back() >= 1 && got.back() <= v, "invoked with %d", got.back());
    }
}
