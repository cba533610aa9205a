// C19: cancelling a timer or notifier stops its handler for good
#include "timers.h"

static socket_notifier_operation_ptr
ready(int id = 0, int ms = 0)
{
    return socket_notifier_operation::make([id, ms](socket_t, notifier_type) {
        ev(E_START, id);
        if (ms)
            std::this_thread::sleep_for(milliseconds(ms));
        ev(E_END, id);
    });
}
static queue
target(int k)
{
    switch (k) {
        case 0: return create_serial_queue("q");
        case 1: return global_queue();
        default: return naive::create_parallel_queue("p", make_spawn_pool());
    }
}

SCENARIO("C19", timer_cancel, o.bound = 2; o.bound_thorough = 3; o.about = "cancel() around the time a round is due, serial and parallel target";)
{
    timer t(milliseconds(10), target(choose(2)));
    t.handler(tick());
    t.resume(milliseconds(5));
    std::this_thread::sleep_for(milliseconds(5 * choose(4)));
    t.cancel();
    check_stopped_at(ev(E_WAITED));
    quiesce(2500 * MS);
    check_stopped_at(last(E_WAITED));
}
SCENARIO("C19", timer_cancel_running, o.bound = 2; o.bound_thorough = 3; o.about = "cancel() while the handler is running";)
{
    timer t(milliseconds(10), target(choose(2)));
    t.handler(tick(0, 10));
    t.resume();
    std::this_thread::sleep_for(milliseconds(5));
    t.cancel();
    ev(E_WAITED);
    quiesce(2500 * MS);
    check_stopped_at(last(E_WAITED));
}
SCENARIO("C19", timer_cancel_twice, o.bound = 2; o.bound_thorough = 3; o.about = "two threads cancel at the same time while the handler is running or due";)
{
    timer t(milliseconds(10), target(choose(2)));
    t.handler(tick(0, 4));
    t.resume();
    std::this_thread::sleep_for(milliseconds(choose(2)));
    std::thread a([&] {
        t.cancel();
        ev(E_WAITED, 1);
        check_stopped_at(last(E_WAITED, 1));
    });
    t.cancel();
    ev(E_WAITED, 0);
    a.join();
    quiesce(2500 * MS);
    check_stopped_at(last(E_WAITED, 0));
    check_stopped_at(last(E_WAITED, 1));
}
SCENARIO("C19", timer_cancel_queued, o.bound = 2; o.bound_thorough = 3; o.about = "cancel() while a round is queued behind a busy operation";)
{
    auto q = create_serial_queue("q");
    q.async([] { std::this_thread::sleep_for(milliseconds(10)); });
    timer t(milliseconds(1), q);
    t.handler(tick());
    t.resume();
    std::this_thread::sleep_for(milliseconds(5));
    t.cancel();
    ev(E_WAITED);
    quiesce(2500 * MS);
    check_stopped_at(last(E_WAITED));
}
SCENARIO("C19", timer_cancel_in_handler, o.bound = 2; o.bound_thorough = 3; o.about = "the handler cancels its timer, drops it, and its call completes";)
{
    auto t = std::make_shared<std::unique_ptr<timer>>(new timer(milliseconds(10), target(choose(2))));
    {
        timer copy = **t;
        copy.handler(make_operation([t] {
            ev(E_START);
            (*t)->cancel();
            t->reset();
            ev(E_END);
        }));
        t.reset();
        copy.resume();
    }
    quiesce(2500 * MS);
    XCHECK(count(E_START) == 1 && count(E_END) == 1, "%d invocations, %d complete", count(E_START), count(E_END));
}
SCENARIO("C19", timer_cancel_in_handler_and_outside, o.bound = 2; o.bound_thorough = 3; o.about = "cancelled by the handler and by another thread at the same time";)
{
    timer t(milliseconds(10), target(choose(2)));
    t.handler(make_operation([&] {
        ev(E_START);
        t.cancel();
        ev(E_END);
    }));
    t.resume();
    std::this_thread::sleep_for(milliseconds(choose(2)));
    t.cancel();
    ev(E_WAITED);
    quiesce(2500 * MS);
    check_stopped_at(last(E_WAITED));
    XCHECK(count(E_START) <= 1, "%d invocations", count(E_START));
}
SCENARIO("C19", timer_resumed_after_cancel, o.bound = 1; o.bound_thorough = 2; o.about = "a cancelled timer is resumed, and suspended and resumed again";)
{
    std::weak_ptr<int> w;
    {
        auto token = std::make_shared<int>(0);
        w = token;
        timer t(milliseconds(10), target(choose(2)));
        t.handler([token] { ev(E_START); ev(E_END); });
        if (choose(2))
            t.resume(milliseconds(5));
        t.cancel();
        ev(E_WAITED);
        t.resume();
        quiesce(100 * MS);
        t.suspend();
        t.resume(milliseconds(3));
        quiesce(100 * MS);
        check_stopped_at(last(E_WAITED));
    }
    quiesce(20000 * MS);
    check_stopped_at(last(E_WAITED));
    XCHECK(w.expired(), "a cancelled timer is still alive");
}
SCENARIO("C19", timer_dropped_after_cancel, o.bound = 2; o.bound_thorough = 3; o.about = "timer and queue are dropped right after cancel()";)
{
    std::weak_ptr<int> w;
    {
        auto token = std::make_shared<int>(0);
        w = token;
        timer t(milliseconds(1), create_serial_queue("q"));
        t.handler([token] { ev(E_START); ev(E_END); });
        t.resume();
        std::this_thread::sleep_for(milliseconds(choose(2)));
        t.cancel();
        ev(E_WAITED);
    }
    quiesce(2500 * MS);
    check_stopped_at(last(E_WAITED));
    XCHECK(w.expired(), "a cancelled timer is still alive");
}
SCENARIO("C19", timer_cancel_from_queue, o.bound = 2; o.bound_thorough = 3; o.about = "cancelled by another operation of the target queue";)
{
    auto q = create_serial_queue("q");
    timer t(milliseconds(1), q);
    t.handler(tick());
    t.resume();
    std::this_thread::sleep_for(milliseconds(choose(3)));
    lightweight_barrier b;
    q.async([&] {
        t.cancel();
        ev(E_WAITED);
        b.complete();
    });
    b.wait();
    quiesce(2500 * MS);
    check_stopped_at(last(E_WAITED));
}
SCENARIO("C19", timer_visibility, o.bound = 2; o.bound_thorough = 3; o.races = true; o.about = "what the handler wrote is visible after cancel()";)
{
    timer t(milliseconds(1), target(choose(2)));
    int v = 0;
    t.handler([&] { v++; });
    t.resume();
    std::this_thread::sleep_for(milliseconds(1));
    std::thread a([&] { t.cancel(); XCHECK(v >= 0, ""); });
    t.cancel();
    XCHECK(v >= 0, "");
    a.join();
}

SCENARIO("C19", notifier_cancel, o.bound = 2; o.bound_thorough = 3; o.about = "cancel() of a notifier before, when and after its socket is ready";)
{
    sock_set(5, false, false, false);
    socket_notifier n(5, notifier_type::READ, target(choose(2)));
    n.handler(ready());
    n.resume();
    std::thread s([] { sock_set(5, true, false, false); });
    n.cancel();
    ev(E_WAITED);
    s.join();
    quiesce(2500 * MS);
    check_stopped_at(last(E_WAITED));
}
SCENARIO("C19", notifier_cancel_running, o.bound = 2; o.bound_thorough = 3; o.about = "two threads cancel a notifier whose handler is running";)
{
    sock_set(5, true, true, false);
    socket_notifier n(5, choose(2) ? notifier_type::READ : notifier_type::WRITE, target(choose(2)));
    n.handler(ready(0, 4));
    n.resume();
    std::this_thread::sleep_for(milliseconds(1));
    std::thread a([&] {
        n.cancel();
        ev(E_WAITED, 1);
    });
    n.cancel();
    ev(E_WAITED, 0);
    a.join();
    quiesce(2500 * MS);
    check_stopped_at(last(E_WAITED, 0));
    check_stopped_at(last(E_WAITED, 1));
}
SCENARIO("C19", notifier_cancel_in_handler, o.bound = 2; o.bound_thorough = 3; o.about = "the handler cancels its notifier and drops it";)
{
    sock_set(5, true, false, false);
    auto n = std::make_shared<std::unique_ptr<socket_notifier>>(new socket_notifier(5, notifier_type::READ, target(choose(2))));
    {
        socket_notifier copy = **n;
        copy.handler([n](socket_t, notifier_type) {
            ev(E_START);
            (*n)->cancel();
            n->reset();
            ev(E_END);
        });
        n.reset();
        copy.resume();
    }
    quiesce(2500 * MS);
    XCHECK(count(E_START) == 1 && count(E_END) == 1, "%d invocations, %d complete", count(E_START), count(E_END));
}
SCENARIO("C19", notifier_resumed_after_cancel, o.bound = 1; o.bound_thorough = 2; o.about = "a cancelled notifier is resumed again";)
{
    std::weak_ptr<int> w;
    sock_set(5, true, false, false);
    {
        auto token = std::make_shared<int>(0);
        w = token;
        socket_notifier n(5, notifier_type::READ, target(choose(2)));
        n.handler(socket_notifier_operation::make([token](socket_t, notifier_type) { ev(E_START); ev(E_END); }));
        if (choose(2))
            n.resume();
        n.cancel();
        ev(E_WAITED);
        n.resume();
        quiesce(10 * MS);
        n.suspend();
        n.resume();
        quiesce(10 * MS);
    }
    quiesce(20000 * MS);
    check_stopped_at(last(E_WAITED));
    XCHECK(w.expired(), "a cancelled notifier is still alive");
}
SCENARIO("C19", notifier_cancel_queued, o.bound = 2; o.bound_thorough = 3; o.about = "cancel() while the notification is queued behind a busy operation";)
{
    auto q = create_serial_queue("q");
    q.async([] { std::this_thread::sleep_for(milliseconds(10)); });
    sock_set(5, true, false, false);
    {
        socket_notifier n(5, notifier_type::READ, q);
        n.handler(ready(0, 4));
        n.resume();
        std::this_thread::sleep_for(milliseconds(5));
        n.cancel();
        ev(E_WAITED);
    }
    quiesce(20000 * MS);
    check_stopped_at(last(E_WAITED));
}
SCENARIO("C19", cancelled_by_another_handler, o.bound = 1; o.bound_thorough = 2; o.cpus = 2; o.about = "the handler of a timer or an operation cancels another timer or notifier whose handler is running or due";)
{
    timer t(milliseconds(10), target(choose(3)));
    t.handler(tick(0, 5));
    t.resume();
    auto op = make_operation([&] {
        t.cancel();
        ev(E_WAITED);
    });
    timer u(milliseconds(0), global_queue());
    if (choose(2)) {
        u.handler(op);
        u.resume(milliseconds(2));
    } else {
        std::this_thread::sleep_for(milliseconds(choose(2) * 2));
        global_queue().async(op);
    }
    quiesce(2500 * MS);
    XCHECK(count(E_WAITED) == 1, "cancel() did not return");
    check_stopped_at(last(E_WAITED));
}
SCENARIO("C19", notifier_cancelled_by_another_handler, o.bound = 1; o.bound_thorough = 2; o.cpus = 2; o.about = "the handler of a timer or of another notifier cancels a notifier whose handler is running or due";)
{
    sock_set(5, true, false, false);
    sock_set(6, true, false, false);
    socket_notifier n(5, notifier_type::READ, target(choose(2)));
    n.handler(ready(0, 5));
    timer u(milliseconds(0), global_queue());
    socket_notifier m(6, notifier_type::READ, global_queue());
    auto op = make_operation([&] {
        n.cancel();
        ev(E_WAITED);
    });
    n.resume();
    if (choose(2)) {
        u.handler(op);
        u.resume(milliseconds(2));
    } else {
        m.handler([&, op](socket_t, notifier_type) {
            execute_operation_on_this_thread(*op);
            m.suspend();
        });
        m.resume();
    }
    quiesce(6000 * MS);
    XCHECK(count(E_WAITED) >= 1, "cancel() did not return");
    check_stopped_at(find(E_WAITED));
    n.cancel();
    m.cancel();
}
SCENARIO("C19", many_cycles, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.max_steps = 500000; o.about = "300 timers or notifiers resumed and cancelled one after the other before, while or after their handler runs, resumed again: none fires again, nothing accumulates";)
{
    const int kind = choose(2), when = choose(3);
    queue q = choose(2) ? global_queue() : create_serial_queue("q");
    sock_set(5, true, false, false);
    int live = 0;
    for (int i = 0; i < 300; i++) {
        auto work = [i] {
            ev(E_START, i);
            std::this_thread::sleep_for(milliseconds(4));
            ev(E_END, i);
        };
        std::unique_ptr<timer> t;
        std::unique_ptr<socket_notifier> n;
        if (kind == 0) {
            t.reset(new timer(milliseconds(10), q));
            t->handler(work);
            t->resume(milliseconds(2));
        } else {
            n.reset(new socket_notifier(5, notifier_type::READ, q));
            n->handler([work](socket_t, notifier_type) { work(); });
            n->resume();
        }
        std::this_thread::sleep_for(milliseconds(when == 0 ? 0 : when == 1 ? 3 : 7));
        for (int k = 0; k < 2; k++) {
            if (t)
                t->cancel();
            else
                n->cancel();
            const int c = count(E_START, i);
            XCHECK(count(E_END, i) == c, "cancel() returned while the handler was running");
            XCHECK(when == 0 || c >= 1, "never fired");
            if (t)
                t->resume();
            else
                n->resume();
            std::this_thread::sleep_for(milliseconds(15));
            XCHECK(count(E_START, i) == c, "fired after cancel()");
        }
        t.reset();
        n.reset();
        quiesce(6000 * MS);
        if (i == 20)
            live = heap_live();
    }
    XCHECK(heap_live() <= live + 10, "the heap grew by %d blocks", heap_live() - live);
}
