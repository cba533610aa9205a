// C20: a resumed notifier reports readiness, and only readiness
#include "sockets.h"
#include "kinds.h"

static notifier_type
dir(int d)
{
    return d ? notifier_type::WRITE : notifier_type::READ;
}
static queue
target(int i)
{
    return i ? global_queue() : create_serial_queue("q");
}

SCENARIO("C20", becomes_ready, o.bound = 1; o.bound_thorough = 2; o.about = "the socket becomes ready in one direction before, while or after resume()";)
{
    const int d = choose(2);
    Sock s{ 5 };
    s.set(false, false);
    socket_notifier n(5, dir(d), target(choose(2)));
    XCHECK(n.socket() == 5 && n.type() == dir(d), "wrong attributes");
    n.handler(on_ready(s, dir(d)));
    std::thread a([&] { ev(E_MARK); s.set(d == 0, d == 1); });
    n.resume();
    a.join();
    for (int i = 0; i < 3; i++)
        quiesce(15 * MS);
    XCHECK(count(E_START) >= 2, "%d invocations in 45 ms while the socket is ready", count(E_START));
    XCHECK(find(E_MARK) < find(E_START), "called before the socket was ready");
    check_no_overlap();
    n.cancel();
}
SCENARIO("C20", not_ready, o.bound = 2; o.bound_thorough = 3; o.about = "a socket ready for the other direction or not at all, over several time outs";)
{
    const int d = choose(2), other = choose(2);
    Sock s{ 5 };
    s.set(d && other, !d && other);
    socket_notifier n(5, dir(d), target(choose(2)));
    n.handler(on_ready(s, dir(d)));
    n.resume();
    quiesce(18000 * MS);
    XCHECK(count(E_START) == 0, "called although the socket is not ready");
    n.cancel();
}
SCENARIO("C20", after_timeouts, o.bound = 1; o.bound_thorough = 2; o.about = "becomes ready only after the wait timed out several times";)
{
    const int d = choose(2);
    Sock s{ 5 };
    s.set(false, false);
    socket_notifier n(5, dir(d), target(choose(2)));
    n.handler(on_ready(s, dir(d)));
    n.resume();
    for (int i = 0; i < 3; i++) {
        quiesce(6000 * MS);
        XCHECK(count(E_START) == 0, "called although the socket is not ready");
    }
    s.set(d == 0, d == 1);
    for (int i = 0; i < 3; i++)
        quiesce(15 * MS);
    XCHECK(count(E_START) >= 2, "%d invocations in 45 ms while the socket is ready", count(E_START));
    n.cancel();
}
SCENARIO("C20", handler_drains, o.bound = 2; o.bound_thorough = 3; o.about = "the handler consumes what made the socket ready: one invocation per arrival";)
{
    Sock s{ 5 };
    s.set(false, false);
    socket_notifier n(5, notifier_type::READ, target(choose(2)));
    n.handler(on_ready(s, notifier_type::READ, 0, 1, [&] {
        XCHECK(s.r, "called although nothing is to be read");
        s.set(false, false);
    }));
    n.resume();
    for (int i = 1; i <= 2; i++) {
        s.set(true, false);
        quiesce(2500 * MS);
        XCHECK(count(E_START) == i && count(E_END) == i, "%d invocations for %d arrivals", count(E_START), i);
    }
    n.cancel();
}
SCENARIO("C20", arrives_while_handled, o.bound = 2; o.bound_thorough = 3; o.about = "data arrives while the handler is running: it is called again";)
{
    Sock s{ 5 };
    s.set(true, false);
    int pending = 1;
    socket_notifier n(5, notifier_type::READ, target(choose(2)));
    n.handler(on_ready(s, notifier_type::READ, 0, 1, [&] {
        XCHECK(pending > 0, "called although nothing is to be read");
        s.add(pending, -1);
    }));
    n.resume();
    s.add(pending, 1);
    quiesce(2500 * MS);
    XCHECK(count(E_START) == 2 && pending == 0, "%d invocations for 2 arrivals", count(E_START));
    n.cancel();
}
SCENARIO("C20", slow_handler, o.bound = 2; o.bound_thorough = 3; o.cpus = 2; o.about = "a handler slower than the socket on the parallel global queue: never twice at a time";)
{
    Sock s{ 5 };
    s.set(true, true);
    const int d = choose(2);
    socket_notifier n(5, dir(d), global_queue());
    n.handler(on_ready(s, dir(d), 0, 20));
    n.resume();
    quiesce(70 * MS);
    check_no_overlap();
    XCHECK(count(E_START) >= 2, "%d invocations in 70 ms", count(E_START));
    n.cancel();
}
SCENARIO("C20", on_target_queue, o.bound = 1; o.bound_thorough = 2; o.about = "invocations are exclusive with the operations of a serial target queue";)
{
    Sock s{ 5 };
    s.set(true, false);
    auto q = create_serial_queue("q");
    socket_notifier n(5, notifier_type::READ, q);
    XCHECK(n.target_queue() == q, "wrong target queue");
    n.handler(on_ready(s, notifier_type::READ, 0, 2));
    n.resume();
    for (int i = 1; i < 3; i++) {
        q.async(tick(i, 3));
        std::this_thread::sleep_for(milliseconds(7));
    }
    quiesce(20 * MS);
    check_exclusive();
    XCHECK(count(E_START, 0) >= 2, "%d invocations", count(E_START, 0));
    n.cancel();
}
SCENARIO("C20", two_notifiers, o.bound = 1; o.bound_thorough = 2; o.about = "a reader and a writer of one socket and one of another";)
{
    Sock s{ 5 }, u{ 6 };
    s.set(true, false);
    u.set(false, false);
    auto q = create_serial_queue("q");
    socket_notifier n(5, notifier_type::READ, q), m(5, notifier_type::WRITE, q), k(6, notifier_type::READ, q);
    n.handler(on_ready(s, notifier_type::READ, 0));
    m.handler(on_ready(s, notifier_type::WRITE, 1));
    k.handler(on_ready(u, notifier_type::READ, 2));
    m.resume();
    n.resume();
    k.resume();
    quiesce(20 * MS);
    XCHECK(count(E_START, 0) >= 1 && count(E_START, 1) == 0 && count(E_START, 2) == 0, "%d, %d and %d invocations", count(E_START, 0), count(E_START, 1), count(E_START, 2));
    s.set(false, true);
    u.set(true, false);
    quiesce(20 * MS);
    const int was = count(E_START, 0);
    quiesce(20 * MS);
    XCHECK(count(E_START, 0) == was && count(E_START, 1) >= 1 && count(E_START, 2) >= 1, "%d (was %d), %d and %d invocations", count(E_START, 0), was, count(E_START, 1), count(E_START, 2));
    check_exclusive();
    n.cancel();
    m.cancel();
    k.cancel();
}
SCENARIO("C20", cycle_overlap, o.bound = 1; o.bound_thorough = 2; o.cpus = 2; o.about = "suspended and resumed while the handler is running on a parallel queue: never twice at a time, never when drained";)
{
    Sock s{ 5 };
    s.set(true, false);
    socket_notifier n(5, notifier_type::READ, global_queue());
    const bool drain = choose(2);
    n.handler(on_ready(s, notifier_type::READ, 0, 5, [&] {
        XCHECK(s.r, "called although nothing is to be read");
        if (drain)
            s.set(false, false);
    }));
    n.resume();
    std::this_thread::sleep_for(milliseconds(2));
    n.suspend();
    n.resume();
    for (int i = 0; i < 2; i++)
        quiesce(10 * MS);
    check_no_overlap();
    if (drain)
        XCHECK(count(E_START) == 1, "%d invocations", count(E_START));
    else
        XCHECK(count(E_START) >= 2, "%d invocations in 20 ms", count(E_START));
    n.cancel();
}
SCENARIO("C20", cycle_drained_late, o.bound = 2; o.bound_thorough = 3; o.cpus = 2; o.about = "suspended and resumed while the handler is running, which consumes what made the socket ready at its end";)
{
    Sock s{ 5 };
    s.set(true, false);
    socket_notifier n(5, notifier_type::READ, target(choose(2)));
    n.handler(on_ready(s, notifier_type::READ, 0, 0, [&] {
        XCHECK(s.r, "called although nothing is to be read");
        std::this_thread::sleep_for(milliseconds(2));
        s.set(false, false);
    }));
    n.resume();
    std::this_thread::sleep_for(milliseconds(1));
    n.suspend();
    n.resume();
    quiesce(2500 * MS);
    check_no_overlap();
    XCHECK(count(E_START) == 1, "%d invocations", count(E_START));
    n.cancel();
}
SCENARIO("C20", handler_changed, o.bound = 1; o.bound_thorough = 2; o.races = true; o.about = "the handler changes while the notifier is active";)
{
    Sock s{ 5 };
    s.set(true, false);
    auto q = create_serial_queue("q");
    socket_notifier n(5, notifier_type::READ, q);
    n.handler(on_ready(s, notifier_type::READ, 0, 2));
    n.resume();
    std::this_thread::sleep_for(milliseconds(3));
    n.handler(on_ready(s, notifier_type::READ, 1, 2));
    ev(E_MARK);
    quiesce(20 * MS);
    XCHECK(starts_after(find(E_MARK), 0) <= 1, "the old handler is still used");
    XCHECK(count(E_START, 1) >= 2, "the new handler is not used");
    n.cancel();
}
SCENARIO("C20", faults, o.bound = 2; o.bound_thorough = 3; o.about = "waits interrupted by signals (EINTR) do not stop the notifier";)
{
    const int d = choose(2);
    sock_faults(1);
    Sock s{ 5 };
    s.set(false, false);
    socket_notifier n(5, dir(d), target(choose(2)));
    n.handler(on_ready(s, dir(d)));
    n.resume();
    quiesce(5500 * MS);
    XCHECK(count(E_START) == 0, "called although the socket is not ready");
    s.set(d == 0, d == 1);
    for (int i = 0; i < 2; i++)
        quiesce(10 * MS);
    XCHECK(count(E_START) >= 1, "%d invocations in 20 ms while the socket is ready", count(E_START));
    check_no_overlap();
    n.cancel();
}

// every sequence of operations on a notifier and changes of its socket
static void
notifier_history(int length)
{
    struct span
    {
        uint64_t from, to;
    };
    std::vector<span> active, ready;
    std::vector<std::pair<uint64_t, int>> handlers{ { 0, 0 } };
    Sock s{ 5 };
    const auto type = dir(choose(2));
    bool is_ready = false, other = false, cancelled = false;
    int running = 0, h = 0;
    queue q = choose(2) ? global_queue() : create_serial_queue("q");
    auto apply = [&] {
        if (type == notifier_type::READ)
            s.set(is_ready, other);
        else
            s.set(other, is_ready);
    };
    socket_notifier n(5, type, q);
    n.handler(on_ready(s, type, 0, 4));
    auto open = [&](std::vector<span>& v) { v.push_back({ now(), ~0ull }); };
    auto close = [&](std::vector<span>& v) {
        if (!v.empty() && v.back().to == ~0ull)
            v.back().to = now();
    };
    for (int i = 0; i < length; i++) {
        const int op = choose(9);
        if (op == 0) {
            if (++running == 1 && !cancelled)
                open(active);
            n.resume();
        } else if (op == 1) {
            if (running == 0 || cancelled)
                finish(); // not balanced
            n.suspend();
            if (--running == 0)
                close(active);
        } else if (op == 2) {
            n.cancel();
            cancelled = true;
            close(active);
            for (int i = 0, runs = 0; i < nevents(); i++) {
                runs += events()[i].kind == E_START ? 1 : events()[i].kind == E_END ? -1 : 0;
                XCHECK(i + 1 < nevents() || runs == 0, "cancel() returned while the handler is running");
            }
        } else if (op == 3) {
            is_ready = !is_ready;
            if (is_ready)
                open(ready);
            else
                close(ready);
            apply();
        } else if (op == 4) {
            other = !other;
            apply();
        } else if (op == 5) {
            n.handler(on_ready(s, type, ++h, 4));
            handlers.push_back({ now(), h });
        } else if (op == 6)
            std::this_thread::sleep_for(std::chrono::microseconds(2003));
        else if (op == 7)
            std::this_thread::sleep_for(std::chrono::microseconds(13007));
        else {
            if (is_ready)
                finish(); // takes too many rounds
            std::this_thread::sleep_for(std::chrono::microseconds(6000011));
        }
    }
    std::this_thread::sleep_for(std::chrono::microseconds(15001));
    n.cancel();
    close(active);
    close(ready);
    auto within = [](const std::vector<span>& v, uint64_t t) {
        for (auto& s : v)
            if (t >= s.from && t <= s.to)
                return true;
        return false;
    };
    int runs = 0;
    for (int i = 0; i < nevents(); i++) {
        auto& e = events()[i];
        if (e.kind == E_END)
            runs--;
        if (e.kind != E_START)
            continue;
        XCHECK(runs++ == 0, "two invocations at a time");
        XCHECK(within(active, e.ns), "invoked while suspended or cancelled");
        XCHECK(within(ready, e.ns), "invoked while the socket is not ready");
        bool known = false;
        for (size_t k = 0; k < handlers.size(); k++)
            known |= handlers[k].second == e.a && handlers[k].first <= e.ns && (k + 1 == handlers.size() || handlers[k + 1].first >= e.ns);
        XCHECK(known, "handler %d was invoked after it was replaced", e.a);
    }
    for (auto& a : active)
        for (auto& r : ready) {
            const uint64_t from = std::max(a.from, r.from), to = std::min(a.to, r.to);
            if (to < from)
                continue;
            int rounds = 0;
            for (int i = 0; i < nevents(); i++)
                rounds += events()[i].kind == E_START && events()[i].ns >= from && events()[i].ns <= to;
            // one may still be running from before
            const int least = (int)((to - from) / (4 * MS)) - 1;
            XCHECK(rounds >= least, "invoked %d times within %llu ns while the socket is ready", rounds, (unsigned long long)(to - from));
        }
}
SCENARIO("C20", histories, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.about = "every sequence of four operations (resume, suspend, cancel, readiness of both directions, handler, pauses) on a notifier";)
{
    notifier_history(4);
}
SCENARIO("C20", histories_long, o.bound = -1; o.bound_thorough = 0; o.timedev = false; o.about = "... of six operations";)
{
    notifier_history(6);
}
SCENARIO("C20", every_kind, o.bound = 0; o.bound_thorough = 1; o.timedev = false; o.about = "handlers of every kind on every kind of queue, small and large sockets";)
{
    struct object
    {
        int got = 0;
        void ready(socket_t s, notifier_type t) { got++; ev(E_START, s, (int)t); }
    } object;
    static const int FD[] = { 0, 3, 63, 64, 500, 1023, 1024, 1100, 5000, 70000 };
    const int fd = FD[choose(10)], d = choose(2), kind = choose(4);
    sock_set(fd, d == 0, d == 1, false);
    socket_notifier n(fd, dir(d), queue_of_kind(choose(QUEUES)));
    if (kind == 0)
        n.handler([&](socket_t s, notifier_type t) { object.ready(s, t); std::this_thread::sleep_for(milliseconds(5)); });
    else if (kind == 1)
        n.handler(std::function<void(socket_t, notifier_type)>([&](socket_t s, notifier_type t) { object.ready(s, t); std::this_thread::sleep_for(milliseconds(5)); }));
    else if (kind == 2)
        n.handler(socket_notifier_operation::make([&](socket_t s, notifier_type t) { object.ready(s, t); std::this_thread::sleep_for(milliseconds(5)); }));
    else {
        // does not take any time: ready once only
        struct once : object_with_work
        {
            int fd;
            std::vector<int> got;
            void ready(socket_t s, notifier_type t)
            {
                got.push_back(s * 2 + (t == notifier_type::WRITE));
                sock_set(fd, false, false, false);
            }
        } o;
        o.fd = fd;
        n.handler(socket_notifier_operation::make<once>(&o, &once::ready));
        n.resume();
        std::this_thread::sleep_for(milliseconds(12));
        n.cancel();
        XCHECK(o.got.size() == 1 && o.got[0] == fd * 2 + d, "wrong invocations");
        return;
    }
    n.resume();
    std::this_thread::sleep_for(milliseconds(12));
    n.cancel();
    XCHECK(object.got == 3, "%d invocations", object.got);
    for (int i = 0; i < nevents(); i++)
        if (events()[i].kind == E_START)
            XCHECK(events()[i].a == fd && events()[i].b == (int)dir(d), "wrong socket or direction");
}
SCENARIO("C20", many_rounds, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.max_steps = 500000; o.about = "300 times ready and not ready anymore: one invocation each";)
{
    queue q = target(choose(2));
    const int d = choose(2);
    const int idle = choose(3); // shorter, about as long as and longer than the polling interval
    Sock s{ 5 };
    int calls = 0;
    socket_notifier n(5, dir(d), q);
    n.handler([&](socket_t, notifier_type) {
        calls++;
        s.set(false, false);
    });
    n.resume();
    for (int i = 0; i < 300; i++) {
        s.set(d == 0, d == 1);
        quiesce(1 * MS);
        XCHECK(calls == i + 1, "%d invocations although ready %d times", calls, i + 1);
        std::this_thread::sleep_for(milliseconds(idle == 0 ? 1 : idle == 1 ? 5000 : 12000));
    }
    n.cancel();
}
SCENARIO("C20", wall_clock, o.timedev = false; o.bound = 1; o.bound_thorough = 2; o.about = "the clock of the system is set while waiting: no influence on readiness";)
{
    const int at = choose(2) ? 20 : 5500;
    Sock s{ 5 };
    socket_notifier n(5, notifier_type::READ, target(choose(2)));
    n.handler(on_ready(s, notifier_type::READ));
    std::thread c = wall_clock_setter();
    n.resume();
    quiesce(at * MS);
    XCHECK(count(E_START) == 0, "called although the socket is not ready");
    s.set(true, false);
    quiesce(16 * MS);
    XCHECK(count(E_START) >= 2, "%d invocations while the socket is ready", count(E_START));
    n.cancel();
    c.join();
}
