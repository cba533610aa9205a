// C15: connection handles report and own their connection faithfully
#include "signals.h"

// all sequences of operations on three handles of two handlers of one or two
// signals, compared with a model; invocations may be pending while they happen
static const int NONE = -1;
struct World
{
    isig s[2];
    queue q = create_serial_queue("q");
    connection c[2];
    std::unique_ptr<scoped_connection> d[2];
    connection_manager m;
    // model
    std::vector<int> parent; // handler -> signal, NONE once disconnected
    int mc[2] = { NONE, NONE }, md[2] = { NONE, NONE };
    std::vector<int> mm;
    // an explicit disconnect() makes the handle forget its connection
    bool attached(int h) const { return h != NONE && parent[h] != NONE; }
    void drop(int h)
    {
        if (h != NONE)
            parent[h] = NONE;
    }
    World()
    {
        d[0].reset(new scoped_connection);
        d[1].reset(new scoped_connection);
    }
    int connect(int sig, connection& out)
    {
        const int h = int(parent.size());
        out = s[sig].connect(on_emit(h), q);
        parent.push_back(sig);
        return h;
    }
    void check(const connection& x, int h, const char* what) const
    {
        XCHECK(x.connected() == attached(h), "%s: connected() is %d, the handler is %sattached", what, x.connected(), attached(h) ? "" : "not ");
        for (int i = 0; i < 2; i++)
            if (attached(h))
                XCHECK(x.is_connected_to(s[i]) == (parent[h] == i), "%s: is_connected_to(%d) is %d", what, i, x.is_connected_to(s[i]));
            else if (h != NONE || !x.connected())
                XCHECK(!(x.connected() && x.is_connected_to(s[i])), "%s: connected to a signal it is not connected to", what);
    }
    void check_all() const
    {
        check(c[0], mc[0], "c0");
        check(c[1], mc[1], "c1");
        check(*d[0], md[0], "d0");
        check(*d[1], md[1], "d1");
        const connection* x[] = { &c[0], &c[1], d[0].get(), d[1].get() };
        const int h[] = { mc[0], mc[1], md[0], md[1] };
        for (int i = 0; i < 4; i++)
            for (int j = 0; j < 4; j++)
                if (attached(h[i]) && attached(h[j])) {
                    XCHECK((*x[i] == *x[j]) == (h[i] == h[j]), "equality of handles %d and %d", i, j);
                    XCHECK((*x[i] != *x[j]) == (h[i] != h[j]), "inequality of handles %d and %d", i, j);
                } else if (attached(h[i])) {
                    XCHECK(*x[i] != *x[j] && !(*x[i] == *x[j]), "a disconnected handle %d equals a connected one", j);
                }
    }
    // true if this step is something new for the model
    void step(int op)
    {
        switch (op) {
            case 0: // connect
                mc[0] = connect(0, c[0]);
                break;
            case 1: { // disconnect c0
                const bool was = attached(mc[0]);
                XCHECK(c[0].disconnect() == was, "disconnect() returned %d", !was);
                drop(mc[0]);
                mc[0] = NONE;
                break;
            }
            case 2: // copy
                c[1] = c[0];
                mc[1] = mc[0];
                break;
            case 3: { // disconnect the copy through the signal
                if (mc[1] != NONE && parent[mc[1]] == 1)
                    break; // wrong signal
                const bool was = attached(mc[1]);
                XCHECK(s[0].disconnect(c[1]) == was, "signal::disconnect() returned %d", !was);
                drop(mc[1]);
                mc[1] = NONE;
                break;
            }
            case 4: // manage in a scope; assigning what it owns disconnects it
                *d[0] = c[0];
                if (md[0] != NONE)
                    drop(md[0]);
                md[0] = mc[0];
                break;
            case 5: // take
                c[1] = d[0]->take();
                mc[1] = md[0];
                md[0] = NONE;
                break;
            case 6: // move between scopes
                *d[1] = std::move(*d[0]);
                drop(md[1]);
                md[1] = md[0];
                md[0] = NONE;
                break;
            case 7: // end of a scope
                d[0].reset(new scoped_connection);
                drop(md[0]);
                md[0] = NONE;
                break;
            case 8: // move construction
            {
                std::unique_ptr<scoped_connection> n(new scoped_connection(std::move(*d[0])));
                d[0] = std::move(n);
                break;
            }
            case 9:
                m += c[0];
                mm.push_back(mc[0]);
                break;
            case 10:
                m.reset_connections();
                for (int h : mm)
                    drop(h);
                mm.clear();
                break;
            case 11: // another signal
                mc[0] = connect(1, c[0]);
                break;
            case 12: {
                m.reset_connections_with(s[0]);
                std::vector<int> keep;
                for (int h : mm) {
                    if (h != NONE && parent[h] == 0)
                        drop(h);
                    else
                        keep.push_back(h);
                }
                mm = keep;
                break;
            }
        }
    }
    // who is invoked by an emit
    void emit_all()
    {
        for (int i = 0; i < 2; i++)
            s[i](i);
        quiesce(2500 * MS);
        for (size_t h = 0; h < parent.size(); h++) {
            XCHECK(calls(int(h), 0) == (parent[h] == 0), "handler %d was invoked %d times by signal 0", int(h), calls(int(h), 0));
            XCHECK(calls(int(h), 1) == (parent[h] == 1), "handler %d was invoked %d times by signal 1", int(h), calls(int(h), 1));
        }
    }
};
static void
sequences(int depth, bool pending, int first = -1)
{
    World w;
    std::unique_ptr<Hold> hold;
    if (pending)
        hold.reset(new Hold(w.q));
    w.mc[0] = w.connect(0, w.c[0]);
    if (pending) {
        w.s[0](7);
        w.s[1](7);
    }
    for (int i = 0; i < depth; i++) {
        const int op = i == 0 && first >= 0 ? first : choose(13);
        w.step(op);
        if (pending && (op == 0 || op == 11)) {
            // the new connection has an invocation pending as well
            w.s[0](7);
            w.s[1](7);
        }
        w.check_all();
    }
    if (hold)
        hold->release();
    w.emit_all();
    w.check_all();
}
SCENARIO("C15", sequences3, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.about = "all sequences of 3 operations on 2 handlers, 2 signals, 4 handles and a manager";)
{
    sequences(3, false);
}
SCENARIO("C15", sequences3_pending, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.about = "... while invocations are pending";)
{
    sequences(3, true);
}
SCENARIO("C15", sequences_copied, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.about = "4 operations after a copy was made, with and without pending invocations";)
{
    sequences(4, choose(2), 2);
}
SCENARIO("C15", sequences_scoped, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.about = "4 operations after the connection got an owner, with and without pending invocations";)
{
    sequences(4, choose(2), choose(2) ? 4 : 9);
}
SCENARIO("C15", emptied, o.bound = 1; o.bound_thorough = 2; o.about = "default constructed and disconnected handles are equal, not connected and cannot be disconnected";)
{
    isig s;
    connection e;
    scoped_connection se;
    XCHECK(!e.connected() && !se.connected() && !e.is_connected_to(s) && e == se && !(e != se), "an empty handle");
    XCHECK(!e.disconnect() && !se.disconnect() && !s.disconnect(e), "an empty handle was disconnected");
    auto c = s.connect(on_emit(), target(choose(2)));
    XCHECK(c.connected() && c.is_connected_to(s) && c != e, "a connected handle");
    s(1);
    XCHECK(c.disconnect(), "not disconnected");
    XCHECK(!c.connected() && !c.is_connected_to(s) && c == e && !c.disconnect(), "a disconnected handle");
}
SCENARIO("C15", one_disconnects, o.bound = 2; o.bound_thorough = 3; o.about = "copies disconnected by two threads at the same time: exactly one did it";)
{
    isig s;
    auto c = s.connect(on_emit(0, 1), target(choose(2)));
    auto d = c;
    s(1);
    bool r[2];
    std::thread a([&] {
        r[1] = d.disconnect();
        XCHECK(!d.connected(), "still connected");
    });
    r[0] = choose(2) ? c.disconnect() : s.disconnect(c);
    XCHECK(!c.connected(), "still connected");
    a.join();
    XCHECK(r[0] != r[1], "disconnect() returned %d and %d", r[0], r[1]);
}
SCENARIO("C15", copies_agree, o.bound = 2; o.bound_thorough = 3; o.about = "all copies notice that one of them was disconnected, also with an invocation pending or running";)
{
    isig s;
    auto c = s.connect(on_emit(0, 2), target(choose(2)));
    auto d = c;
    std::thread a([&] { s(1); });
    XCHECK(c.connected() && d.connected() && c == d && d.is_connected_to(s), "not connected");
    c.disconnect();
    XCHECK(!d.connected(), "a copy is still connected");
    XCHECK(!d.is_connected_to(s), "a copy is still connected to the signal");
    XCHECK(!d.disconnect(), "disconnected twice");
    a.join();
}
SCENARIO("C15", signal_gone, o.bound = 2; o.bound_thorough = 3; o.about = "handles notice that the signal is gone, with invocations pending or running";)
{
    auto s = std::unique_ptr<isig>(new isig);
    auto q = target(choose(2));
    auto c = s->connect(on_emit(0, 2), q);
    scoped_connection d(s->connect(on_emit(1, 2), q));
    if (choose(2))
        (*s)(1);
    s.reset();
    XCHECK(!c.connected() && !d.connected(), "connected to a signal that is gone");
    if (choose(2))
        XCHECK(!c.disconnect() && !d.disconnect(), "disconnected from a signal that is gone");
}
SCENARIO("C15", manager_threads, o.bound = 2; o.bound_thorough = 3; o.about = "two threads use a manager: everything added is disconnected with it";)
{
    isig s, t;
    auto q = create_serial_queue("q");
    auto a = s.connect(on_emit(0), q), b = s.connect(on_emit(1), q), c = t.connect(on_emit(2), q);
    {
        connection_manager m;
        m += a;
        std::thread x([&] {
            m += b;
            m += c;
        });
        const int what = choose(3);
        if (what == 1)
            m.reset_connections();
        if (what == 2)
            m.reset_connections_with(s);
        x.join();
        XCHECK(c.connected() || what == 1, "the wrong connection was disconnected");
    }
    XCHECK(!a.connected() && !b.connected() && !c.connected(), "a connection outlived its manager");
    s(1);
    t(1);
    quiesce(2500 * MS);
    XCHECK(count(E_START) == 0, "a handler outlived its manager");
}
SCENARIO("C15", unrelated, o.bound = 2; o.bound_thorough = 3; o.about = "two connections of the same function: one is disconnected while the other receives";)
{
    isig s;
    auto q = target(choose(2));
    auto f = on_emit(0);
    auto c = s.connect(f, q), d = s.connect(f, q);
    XCHECK(c != d, "two connections are equal");
    std::thread a([&] { s(1); });
    c.disconnect();
    XCHECK(d.connected() && d.is_connected_to(s), "the wrong connection was disconnected");
    a.join();
    s(2);
    quiesce(2500 * MS);
    XCHECK(calls(0, 2) == 1 && calls(0, 1) >= 1 && calls(0, 1) <= 2, "%d and %d invocations", calls(0, 1), calls(0, 2));
}
SCENARIO("C15", many_connections, o.bound = 0; o.bound_thorough = 0; o.max_steps = 500000; o.about = "300 connections of one signal, disconnected in several orders: each handle is about its own handler only";)
{
    isig s, other;
    std::vector<int> got(300);
    std::vector<connection> c;
    for (int i = 0; i < 300; i++)
        c.push_back(s.connect([&got, i](int) { got[i]++; }, global_queue(), SYNC));
    static const int STEP[] = { 1, 7, 299, 257 };
    const int step = STEP[choose(4)], copies = choose(2);
    std::vector<int> expected(300);
    std::vector<bool> gone(300);
    int at = 0;
    for (int k = 0; k < 300; k++) {
        at = (at + step) % 300;
        while (gone[at])
            at = (at + 1) % 300;
        connection copy = c[at];
        XCHECK(copy == c[at] && c[at].is_connected_to(s) && !c[at].is_connected_to(other), "wrong identity");
        XCHECK(!(c[at] == c[(at + 1) % 300]) || gone[(at + 1) % 300], "two connections are equal");
        XCHECK((copies ? copy : c[at]).disconnect(), "connection %d was not connected", at);
        XCHECK(!c[at].connected() && !copy.connected() && !c[at].disconnect(), "connection %d is still connected", at);
        gone[at] = true;
        if (k % 16 == 0) {
            s(k);
            for (int i = 0; i < 300; i++) {
                expected[i] += !gone[i];
                XCHECK(got[i] == expected[i] && c[i].connected() == !gone[i], "handler %d was invoked %d times instead of %d", i, got[i], expected[i]);
            }
        }
    }
}
SCENARIO("C15", stale_handles, o.bound = 0; o.bound_thorough = 0; o.max_steps = 500000; o.about = "300 connects and disconnects: a handle of a closed connection never refers to a later one";)
{
    isig s;
    std::vector<connection> old;
    const int keep = choose(2);
    connection first = s.connect([](int) {}, global_queue(), SYNC);
    connection copy = first;
    if (!keep)
        first.disconnect();
    int calls = 0;
    for (int i = 0; i < 300; i++) {
        connection c = s.connect([&](int) { calls++; }, global_queue(), SYNC);
        old.push_back(c);
        for (auto& o : old)
            XCHECK(o.connected() == (&o == &old.back()), "a closed connection is reported as connected");
        XCHECK(copy.connected() == !!keep, "connected() is wrong");
        XCHECK(!old[i / 2].connected() || i < 1, "connected() is wrong");
        if (i)
            XCHECK(!old[i - 1].disconnect(), "a closed connection was disconnected again");
        s(i);
        XCHECK(calls == i + 1, "%d invocations", calls - i);
        XCHECK(c.disconnect(), "was not connected");
    }
    XCHECK(copy.disconnect() == !!keep, "disconnect() is wrong");
}
