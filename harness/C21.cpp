// C21: suspended or failing sockets neither fire nor spin
#include "sockets.h"

static queue
target(int i)
{
    return i ? global_queue() : create_serial_queue("q");
}
// at most 'most' waits are started within a time in which nothing happens
static void
check_calm(int most, uint64_t time)
{
    const int c = select_calls();
    quiesce(time);
    XCHECK(select_calls() - c <= most, "%d waits within %llu s", select_calls() - c, (unsigned long long)(time / (1000 * MS)));
}

SCENARIO("C21", suspend, o.bound = 2; o.bound_thorough = 3; o.about = "suspend() of a ready notifier: at most the round in flight fires, monitoring ends";)
{
    Sock s{ 5 };
    s.set(true, false);
    socket_notifier n(5, notifier_type::READ, target(choose(2)));
    n.handler(on_ready(s, notifier_type::READ));
    n.resume();
    std::this_thread::sleep_for(milliseconds(choose(2) * 5));
    n.suspend();
    ev(E_WAITED);
    quiesce(2500 * MS);
    XCHECK(starts_after(find(E_WAITED)) <= 1, "%d rounds after suspend()", starts_after(find(E_WAITED)));
    check_calm(0, 20000 * MS);
    check_no_overlap();
}
SCENARIO("C21", suspend_idle, o.bound = 2; o.bound_thorough = 3; o.about = "suspend() while waiting; the socket becomes ready afterwards";)
{
    Sock s{ 5 };
    s.set(false, false);
    socket_notifier n(5, notifier_type::READ, target(choose(2)));
    n.handler(on_ready(s, notifier_type::READ));
    n.resume();
    if (choose(2))
        quiesce(1 * MS);
    n.suspend();
    s.set(true, false);
    quiesce(6000 * MS);
    XCHECK(count(E_START) == 0, "fired %d times after suspend()", count(E_START));
    check_calm(0, 20000 * MS);
}
SCENARIO("C21", cycles_one_monitor, o.bound = 1; o.bound_thorough = 2; o.about = "suspended and resumed several times: one monitor remains";)
{
    Sock s{ 5 };
    s.set(false, false);
    socket_notifier n(5, notifier_type::READ, target(choose(2)));
    n.handler(on_ready(s, notifier_type::READ));
    const int cycles = 1 + choose(3);
    const bool gap = choose(2);
    for (int i = 0; i < cycles; i++) {
        n.resume();
        if (gap)
            std::this_thread::sleep_for(milliseconds(1));
        n.suspend();
        if (choose(2))
            std::this_thread::sleep_for(milliseconds(1));
    }
    n.resume();
    quiesce(6000 * MS);
    check_calm(3, 10000 * MS);
    s.set(true, false);
    quiesce(30 * MS);
    check_no_overlap();
    XCHECK(count(E_START) >= 2, "%d invocations in 30 ms", count(E_START));
    n.cancel();
}
SCENARIO("C21", nested, o.bound = 1; o.bound_thorough = 2; o.about = "two resumes need two suspends, one monitor in between";)
{
    Sock s{ 5 };
    s.set(false, false);
    socket_notifier n(5, notifier_type::READ, target(choose(2)));
    n.handler(on_ready(s, notifier_type::READ));
    n.resume();
    n.resume();
    quiesce(1000 * MS);
    check_calm(3, 10000 * MS);
    n.suspend();
    s.set(true, false);
    quiesce(30 * MS);
    XCHECK(count(E_START) >= 2, "%d invocations in 30 ms although one resume is left", count(E_START));
    check_no_overlap();
    n.suspend();
    ev(E_WAITED);
    quiesce(2500 * MS);
    XCHECK(starts_after(find(E_WAITED)) <= 1, "%d rounds after suspend()", starts_after(find(E_WAITED)));
    check_calm(0, 20000 * MS);
}
SCENARIO("C21", concurrent_cycles, o.bound = 2; o.bound_thorough = 3; o.about = "two threads resume and suspend";)
{
    Sock s{ 5 };
    s.set(false, false);
    socket_notifier n(5, notifier_type::READ, global_queue());
    n.handler(on_ready(s, notifier_type::READ));
    std::thread a([&] {
        n.resume();
        n.suspend();
    });
    n.resume();
    a.join();
    quiesce(6000 * MS);
    check_calm(3, 10000 * MS);
    s.set(true, false);
    quiesce(30 * MS);
    check_no_overlap();
    XCHECK(count(E_START) >= 2, "%d invocations in 30 ms", count(E_START));
    n.cancel();
}
SCENARIO("C21", suspended_by_handler, o.bound = 2; o.bound_thorough = 3; o.about = "the handler suspends its notifier (a one shot notifier), then it is resumed";)
{
    Sock s{ 5 };
    s.set(true, false);
    socket_notifier n(5, notifier_type::READ, target(choose(2)));
    n.handler(on_ready(s, notifier_type::READ, 0, 0, [&] { n.suspend(); }));
    for (int i = 1; i <= 2; i++) {
        n.resume();
        quiesce(2500 * MS);
        XCHECK(count(E_START) == i && count(E_END) == i, "%d invocations", count(E_START));
    }
    check_calm(0, 20000 * MS);
}
SCENARIO("C21", dropped_when_suspended, o.bound = 2; o.bound_thorough = 3; o.about = "the last handle of a suspended notifier is dropped: it goes away";)
{
    std::weak_ptr<int> w;
    Sock s{ 5 };
    s.set(choose(2), false);
    {
        auto token = std::make_shared<int>(0);
        w = token;
        socket_notifier n(5, notifier_type::READ, target(choose(2)));
        n.handler(on_ready(s, notifier_type::READ, 0, 5, [token] {}));
        if (choose(2)) {
            n.resume();
            std::this_thread::sleep_for(milliseconds(1));
            n.suspend();
        }
    }
    quiesce(20000 * MS);
    XCHECK(w.expired(), "the notifier is still alive");
    check_calm(0, 20000 * MS);
}
SCENARIO("C21", closed, o.bound = 2; o.bound_thorough = 3; o.about = "the socket is closed before, when or after it is monitored: monitoring ends";)
{
    Sock s{ 5 };
    s.set(choose(2), false);
    socket_notifier n(5, notifier_type::READ, target(choose(2)));
    n.handler(on_ready(s, notifier_type::READ));
    std::thread a([&] { s.set(false, false, true); });
    n.resume();
    a.join();
    quiesce(8000 * MS);
    check_calm(0, 30000 * MS);
    const int was = count(E_START);
    quiesce(30000 * MS);
    XCHECK(count(E_START) == was, "fired for a closed socket");
    n.cancel();
}
SCENARIO("C21", closed_released, o.bound = 2; o.bound_thorough = 3; o.about = "a notifier whose socket was closed is released with its last handle, without suspend()";)
{
    std::weak_ptr<int> w;
    Sock s{ 5 };
    s.set(false, false, choose(2));
    {
        auto token = std::make_shared<int>(0);
        w = token;
        socket_notifier n(5, notifier_type::READ, target(choose(2)));
        n.handler(on_ready(s, notifier_type::READ, 0, 5, [token] {}));
        n.resume();
    }
    s.set(false, false, true);
    quiesce(20000 * MS);
    XCHECK(w.expired(), "the notifier is still alive");
}
SCENARIO("C21", interrupted, o.bound = 1; o.bound_thorough = 2; o.about = "waits fail with EINTR while the notifier is suspended, resumed, cancelled";)
{
    sock_faults(1);
    Sock s{ 5 };
    s.set(choose(2), false);
    socket_notifier n(5, notifier_type::READ, global_queue());
    n.handler(on_ready(s, notifier_type::READ));
    n.resume();
    std::this_thread::sleep_for(milliseconds(1));
    n.suspend();
    n.resume();
    if (s.r)
        quiesce(20 * MS);
    s.set(false, false);
    quiesce(6000 * MS);
    s.set(true, false);
    const int was = count(E_START);
    quiesce(30 * MS);
    XCHECK(count(E_START) >= was + 2, "%d invocations in 30 ms", count(E_START) - was);
    check_no_overlap();
    n.suspend();
    ev(E_WAITED);
    quiesce(2500 * MS);
    XCHECK(starts_after(find(E_WAITED)) <= 1, "%d rounds after suspend()", starts_after(find(E_WAITED)));
    check_calm(0, 20000 * MS);
}
SCENARIO("C21", interrupted_then_closed, o.bound = 2; o.bound_thorough = 3; o.about = "a closed socket ends monitoring, an interrupted wait does not";)
{
    sock_faults(1);
    Sock s{ 5 };
    s.set(false, false);
    socket_notifier n(5, notifier_type::READ, global_queue());
    n.handler(on_ready(s, notifier_type::READ));
    n.resume();
    quiesce(6000 * MS);
    s.set(true, false);
    quiesce(20 * MS);
    XCHECK(count(E_START) >= 1, "no invocation in 20 ms");
    s.set(false, false, true);
    quiesce(8000 * MS);
    check_calm(0, 30000 * MS);
    n.cancel();
}
SCENARIO("C21", many_cycles, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.max_steps = 500000; o.about = "300 cycles of resume and suspend in quick succession or with pauses: one monitor in the end, and none once suspended";)
{
    queue q = target(choose(2));
    const int pause = choose(2);
    Sock s{ 5 };
    socket_notifier n(5, notifier_type::READ, q);
    n.handler(on_ready(s, notifier_type::READ));
    for (int i = 0; i < 300; i++) {
        n.resume();
        if (pause || i % 8 == 0)
            std::this_thread::sleep_for(std::chrono::microseconds(100));
        n.suspend();
        if (pause || i % 8 == 4)
            quiesce(6000 * MS);
    }
    quiesce(12000 * MS);
    check_calm(0, 20000 * MS);
    n.resume();
    quiesce(12000 * MS);
    check_calm(6, 20000 * MS);
    s.set(true, false);
    std::this_thread::sleep_for(milliseconds(13));
    XCHECK(count(E_START) == 3, "%d invocations in 13 ms", count(E_START));
    check_no_overlap();
    n.suspend();
    quiesce(6000 * MS);
    const int c = count(E_START);
    check_calm(0, 20000 * MS);
    XCHECK(c <= 4 && count(E_START) == c, "fired after suspend()");
}
