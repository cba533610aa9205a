// C13: with single updates every emit reaches every handler exactly once
#include "signals.h"
#include <algorithm>
#include <string>

static void
each_once(int n, int id = 0)
{
    for (int v = 1; v <= n; v++)
        XCHECK(calls(id, v) == 1, "handler %d was invoked %d times for emit %d", id, calls(id, v), v);
    XCHECK(count(E_START, id) == n, "handler %d was invoked %d times for %d emits", id, count(E_START, id), n);
}
// values of handler id in the order of 1..n
static void
in_order(int n, int id = 0)
{
    int next = 1;
    for (int i = 0; i < nevents(); i++)
        if (events()[i].kind == E_START && events()[i].a == id)
            XCHECK(events()[i].b == next++, "handler %d saw emit %d instead of %d", id, events()[i].b, next - 1);
}

SCENARIO("C13", serial, o.bound = 2; o.bound_thorough = 3; o.about = "three emits to a serial queue: once each, in order, one at a time";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(), create_serial_queue("q"));
    for (int v = 1; v <= 3; v++)
        s(v);
    quiesce(2500 * MS);
    each_once(3);
    in_order(3);
    check_no_overlap();
}
SCENARIO("C13", many, o.bound = 1; o.bound_thorough = 2; o.about = "14 emits, more than a queue executes in one go";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(), create_serial_queue("q"));
    for (int v = 1; v <= 14; v++)
        s(v);
    quiesce(2500 * MS);
    each_once(14);
    in_order(14);
}
SCENARIO("C13", parallel, o.bound = 1; o.bound_thorough = 2; o.cpus = 2; o.about = "three emits to the global queue with overlapping slow handlers";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0, 1), global_queue());
    for (int v = 1; v <= 3; v++)
        s(v);
    quiesce(2500 * MS);
    each_once(3);
}
SCENARIO("C13", two_emitters, o.bound = 2; o.bound_thorough = 3; o.about = "two threads emit to two handlers";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0), create_serial_queue("q")), d = s.connect(on_emit(1), global_queue());
    std::thread a([&] {
        s(1);
        s(2);
    });
    s(3);
    a.join();
    quiesce(2500 * MS);
    each_once(3, 0);
    each_once(3, 1);
    int p1 = -1, p2 = -1;
    for (int i = 0; i < nevents(); i++)
        if (events()[i].kind == E_START && events()[i].a == 0) {
            if (events()[i].b == 1)
                p1 = i;
            if (events()[i].b == 2)
                p2 = i;
        }
    XCHECK(p1 < p2, "emits of one thread arrived in the wrong order");
}
SCENARIO("C13", connecting, o.bound = 2; o.bound_thorough = 3; o.about = "handlers connected and disconnected while another thread emits";)
{
    ANY_ISIG(s);
    auto q = target(choose(2));
    auto always = s.connect(on_emit(0), q);
    std::thread a([&] {
        emit(s, 1);
        emit(s, 2);
    });
    auto c = s.connect(on_emit(1), q);
    ev(E_MARK, 1);
    s.disconnect(always);
    ev(E_MARK, 2);
    a.join();
    emit(s, 3);
    quiesce(2500 * MS);
    for (int v = 1; v <= 3; v++) {
        XCHECK(calls(1, v) <= 1 && calls(0, v) <= 1, "invoked several times for emit %d", v);
        if (find(E_POST, v) > find(E_MARK, 1))
            XCHECK(calls(1, v) == 1, "a connected handler was not invoked");
        if (find(E_POST, v) > find(E_MARK, 2))
            XCHECK(calls(0, v) == 0, "a disconnected handler was invoked");
    }
}
SCENARIO("C13", before_connect, o.bound = 1; o.bound_thorough = 2; o.about = "emits before the connection do not reach it, others are not affected";)
{
    ANY_ISIG(s);
    auto q = target(choose(2));
    auto c = s.connect(on_emit(0), q);
    s(1);
    auto d = s.connect(on_emit(1), q);
    s(2);
    quiesce(2500 * MS);
    XCHECK(calls(0, 1) == 1 && calls(0, 2) == 1 && calls(1, 1) == 0 && calls(1, 2) == 1, "wrong invocations");
}
struct probe
{
    int v;
    bool alive = true;
    explicit probe(int i)
      : v(i)
    {}
    probe(const probe& o)
      : v(o.v)
    {
        XCHECK(o.alive, "copied from a destroyed value");
    }
    ~probe() { alive = false; }
};
SCENARIO("C13", values, o.bound = 2; o.bound_thorough = 3; o.about = "values are copied: strings, objects, shared pointers; the emitter's are gone or changed before the handlers run";)
{
    signal<void(std::string, std::shared_ptr<int>, probe)> s;
    auto q = target(choose(2));
    std::weak_ptr<int> w;
    auto check = [](int id) {
        return [id](std::string t, std::shared_ptr<int> p, probe x) {
            XCHECK(x.alive, "a destroyed value");
            XCHECK(t == "emit number " + std::to_string(*p) && x.v == *p, "wrong values: %s %d %d", t.c_str(), *p, x.v);
            ev(E_START, id, *p);
        };
    };
    auto c = s.connect(check(0), q), d = s.connect(check(1), q);
    for (int i = 1; i <= 2; i++) {
        auto p = std::make_shared<int>(i);
        w = p;
        std::string t = "emit number " + std::to_string(i);
        s(t, p, probe(i));
        t = "changed";
    }
    quiesce(2500 * MS);
    each_once(2, 0);
    each_once(2, 1);
    XCHECK(w.expired(), "the values are kept alive");
}
struct receiver
{
    void take(int v)
    {
        ev(E_START, 2, v);
        ev(E_END, 2, v);
    }
};
SCENARIO("C13", kinds_of_handlers, o.bound = 1; o.bound_thorough = 2; o.about = "lambda, std::function, member function, batched and synchronous neighbours";)
{
    ANY_ISIG(s);
    auto q = target(choose(2));
    receiver r;
    std::function<void(int)> f = on_emit(1);
    auto c0 = s.connect([](int v) { ev(E_START, 0, v); }, q);
    auto c1 = s.connect(f, q);
    auto c2 = s.connect(&r, &receiver::take, q);
    auto c3 = s.connect(on_emit(3), q, BATCH);
    auto c4 = s.connect(on_emit(4), q, SYNC);
    for (int v = 1; v <= 2; v++) {
        s(v);
        XCHECK(calls(4, v) == 1, "the synchronous handler was not called during the emit");
    }
    quiesce(2500 * MS);
    for (int id = 0; id < 3; id++)
        each_once(2, id);
    each_once(2, 4);
    c0.disconnect();
    c1.disconnect();
    c2.disconnect();
    s(3);
    quiesce(2500 * MS);
    for (int id = 0; id < 3; id++)
        each_once(2, id);
}
SCENARIO("C13", with_group, o.bound = 2; o.bound_thorough = 3; o.about = "a signal with a group: waiting for the group waits for the handlers";)
{
    group g;
    isig s(g);
    auto c = s.connect(on_emit(0, 1), target(choose(2)));
    s(1);
    s(2);
    XCHECK(g.wait(), "not done");
    XCHECK(count(E_END) == 2, "the group was done after %d of 2 handlers", count(E_END));
    each_once(2);
}
SCENARIO("C13", chained, o.bound = 2; o.bound_thorough = 3; o.about = "a chain of three signals delivers within the emit";)
{
    isig a, b, c;
    auto q = create_serial_queue("q");
    auto x = a.connect(b), y = b.connect(c);
    auto h = c.connect(on_emit(0), q), k = a.connect(on_emit(1), q), l = c.connect(on_emit(2), q, SYNC);
    std::thread t([&] {
        b(4);
        XCHECK(calls(2, 4) == 1, "the synchronous handler was not called during the emit");
    });
    for (int v = 1; v <= 2; v++) {
        a(v);
        XCHECK(calls(2, v) == 1, "the synchronous handler was not called during the emit");
    }
    t.join();
    quiesce(2500 * MS);
    for (int v = 1; v <= 2; v++)
        XCHECK(calls(0, v) == 1 && calls(1, v) == 1 && calls(2, v) == 1, "wrong invocations for emit %d", v);
    XCHECK(calls(0, 4) == 1 && calls(1, 4) == 0 && calls(2, 4) == 1, "wrong invocations for emit 4");
}
SCENARIO("C13", emitted_by_handler, o.bound = 2; o.bound_thorough = 3; o.about = "a handler emits its own signal again";)
{
    ANY_ISIG(s);
    auto c = s.connect(on_emit(0, 0, [&](int v) {
        if (v < 3)
            s(v + 1);
    }), target(choose(2)));
    s(1);
    quiesce(2500 * MS);
    each_once(3);
    in_order(3);
}
SCENARIO("C13", connected_by_handler, o.bound = 1; o.bound_thorough = 2; o.about = "a handler connects another one";)
{
    ANY_ISIG(s);
    connection d;
    auto q = target(choose(2));
    auto c = s.connect(on_emit(0, 0, [&](int v) {
        if (v == 1)
            d = s.connect(on_emit(1), q);
    }), q);
    s(1);
    quiesce(2500 * MS);
    s(2);
    quiesce(2500 * MS);
    each_once(2);
    XCHECK(calls(1, 1) == 0 && calls(1, 2) == 1, "wrong invocations");
}
SCENARIO("C13", synchronous_nested, o.bound = 2; o.bound_thorough = 3; o.about = "synchronous handlers that emit, connect and disconnect on their own signal";)
{
    ANY_ISIG(s);
    connection d;
    const int what = choose(3);
    auto other = s.connect(on_emit(2), global_queue(), SYNC);
    auto c = s.connect(on_emit(0, 0, [&](int v) {
        if (v != 1)
            return;
        if (what == 0)
            s(2);
        else if (what == 1)
            d = s.connect(on_emit(1), global_queue(), SYNC);
        else
            other.disconnect();
    }), global_queue(), SYNC);
    s(1);
    XCHECK(calls(0, 1) == 1 && calls(0, 2) == (what == 0), "wrong invocations");
    s(3);
    XCHECK(calls(0, 3) == 1 && calls(1, 3) == (what == 1) && calls(2, 3) == (what != 2), "wrong invocations");
}
SCENARIO("C13", visibility, o.bound = 2; o.bound_thorough = 3; o.races = true; o.about = "what the emitter wrote before the emit is visible in the handler";)
{
    ANY_ISIG(s);
    int v[2] = { 0, 0 };
    auto c = s.connect([&](int i) { XCHECK(v[i] == i + 1, "stale value"); ev(E_START); }, target(choose(2)));
    std::thread a([&] {
        v[1] = 2;
        s(1);
    });
    v[0] = 1;
    s(0);
    a.join();
    quiesce(2500 * MS);
    XCHECK(count(E_START) == 2, "%d invocations", count(E_START));
}

SCENARIO("C13", values_and_neighbours, o.bound = 0; o.bound_thorough = 1; o.about = "what one handler does with its values does not affect others, for every order of kinds of handlers";)
{
    typedef signal<void(std::string, std::vector<int>)> vsig;
    vsig s, chained, deep;
    const std::string text(40, 'x');
    const std::vector<int> list{ 1, 2, 3 };
    auto take = [&](int id) {
        return [&, id](std::string t, std::vector<int> l) {
            XCHECK(t == text && l == list, "handler %d received other values: '%s' and %d entries", id, t.c_str(), (int)l.size());
            ev(E_START, id, 1);
            // they are its own
            std::string moved = std::move(t);
            l.clear();
            ev(E_END, id);
        };
    };
    auto q = target(choose(2));
    auto cd = deep.connect(take(10), q), ce = deep.connect(take(11), q, SYNC);
    auto cc = chained.connect(deep), cf = chained.connect(take(12), q);
    std::vector<connection> all;
    int n = 0, used[12] = {};
    for (int i = 0; i < 3; i++) {
        const int kind = choose(4);
        if (kind == 0)
            all.push_back(s.connect(take(i), q, SINGLE));
        if (kind == 1)
            all.push_back(s.connect(take(i), q, SYNC));
        if (kind == 2)
            all.push_back(s.connect(chained)), n++;
        if (kind == 3)
            all.push_back(s.connect(take(i), q, BATCH));
        used[i] = kind != 2;
    }
    std::string t = text;
    std::vector<int> l = list;
    s(t, l);
    XCHECK(t == text && l == list, "the emitter's values were changed");
    t = "gone";
    l.clear();
    quiesce(2500 * MS);
    for (int i = 0; i < 3; i++)
        XCHECK(count(E_START, i) == used[i], "handler %d was invoked %d times", i, count(E_START, i));
    for (int i = 10; i < 13; i++)
        XCHECK(count(E_START, i) == n, "handler %d was invoked %d times for %d chains", i, count(E_START, i), n);
}
SCENARIO("C13", object_lists, o.bound = 1; o.bound_thorough = 2; o.about = "up to five handlers in one signal, some disconnected: all others are reached";)
{
    ANY_ISIG(s);
    auto q = target(0);
    std::vector<connection> c;
    const int n = 1 + choose(5);
    for (int i = 0; i < n; i++)
        c.push_back(s.connect(on_emit(i), q));
    s(1);
    const int gone = choose(n + 1);
    if (gone < n)
        c[gone].disconnect();
    const int before = gone < n ? count(E_START, gone) : 0;
    s(2);
    quiesce(2500 * MS);
    for (int i = 0; i < n; i++)
        if (i == gone)
            XCHECK(calls(i, 2) == 0 && count(E_START, i) == before, "the disconnected handler was invoked");
        else
            each_once(2, i);
}

SCENARIO("C13", histories, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.about = "every sequence of four operations (connecting handlers of all kinds, emits, disconnects, pauses) after a connect";)
{
    signal_history(5, H_SINGLE | H_BATCH | H_SYNC | H_DISCONNECT, choose(3));
}
SCENARIO("C13", histories_preempted, o.bound = -1; o.bound_thorough = 1; o.timedev = false; o.about = "... of three operations, with preemptions";)
{
    signal_history(4, H_SINGLE | H_SYNC | H_DISCONNECT, 0);
}
SCENARIO("C13", many_emits, o.bound = 0; o.bound_thorough = 0; o.max_steps = 500000; o.about = "300 emits at once or one by one to three handlers of every mode";)
{
    ANY_ISIG(s);
    const int par = choose(2);
    queue q = target(par);
    std::vector<int> got[3];
    std::mutex m;
    auto handler = [&](int h) {
        return [&, h](int v) {
            std::lock_guard<std::mutex> l(m);
            got[h].push_back(v);
        };
    };
    const bool one_by_one = choose(2), held = !par && choose(2);
    std::unique_ptr<Hold> hold(held ? new Hold(q) : nullptr);
    auto c = s.connect(handler(0), q), d = s.connect(handler(1), q), e = s.connect(handler(2), q, SYNC);
    for (int i = 0; i < 300; i++) {
        s(i);
        XCHECK((int)got[2].size() == i + 1, "the synchronous handler was not invoked");
        if (one_by_one)
            std::this_thread::sleep_for(std::chrono::microseconds(100));
    }
    if (held)
        hold->release();
    quiesce(10 * MS);
    for (int h = 0; h < 3; h++) {
        XCHECK(got[h].size() == 300, "%zu of 300 emits reached handler %d", got[h].size(), h);
        if (par && h < 2)
            std::sort(got[h].begin(), got[h].end());
        for (int i = 0; i < 300; i++)
            XCHECK(got[h][i] == i, "handler %d received %d instead of %d", h, got[h][i], i);
    }
}
