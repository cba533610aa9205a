// C27: mixing backends is rejected, matching backends work
#include "qt.h"
#include "sockets.h"
#include <xdispatch/impl/itimer_impl.h>
#include <xdispatch/impl/isocket_notifier_impl.h>
#include <xdispatch/impl/igroup_impl.h>

static const backend_type foreign = static_cast<backend_type>(static_cast<int>(backend_type::naive) + 10);
static const backend_type types[] = { backend_type::naive, backend_type::qt5, foreign };
static const int ntypes = 3;

// backends whose implementations count every call
struct counts
{
    int calls = 0;
    int alive = 0;
};
struct my_queue : public iqueue_impl
{
    backend_type t;
    counts* c;
    my_queue(backend_type t, counts* c) : t(t), c(c) { c->alive++; }
    ~my_queue() override { c->alive--; }
    void async(const operation_ptr& op) override { c->calls++; execute_operation_on_this_thread(*op); }
    void apply(size_t n, const iteration_operation_ptr& op) override
    {
        c->calls++;
        for (size_t i = 0; i < n; i++)
            execute_operation_on_this_thread(*op, i);
    }
    void after(milliseconds, const operation_ptr& op) override { c->calls++; execute_operation_on_this_thread(*op); }
    backend_type backend() override { return t; }
};
struct my_timer : public itimer_impl
{
    backend_type t;
    counts* c;
    my_timer(backend_type t, counts* c) : t(t), c(c) { c->alive++; }
    ~my_timer() override { c->alive--; }
    void interval(milliseconds) override { c->calls++; }
    void latency(timer_precision) override { c->calls++; }
    void handler(const operation_ptr&) override { c->calls++; }
    void target_queue(const iqueue_impl_ptr&) override { c->calls++; }
    void resume(milliseconds) override { c->calls++; }
    void suspend() override { c->calls++; }
    void cancel() override { c->calls++; }
    backend_type backend() override { return t; }
};
struct my_notifier : public isocket_notifier_impl
{
    backend_type t;
    counts* c;
    my_notifier(backend_type t, counts* c) : t(t), c(c) { c->alive++; }
    ~my_notifier() override { c->alive--; }
    void handler(const socket_notifier_operation_ptr&) override { c->calls++; }
    void target_queue(const iqueue_impl_ptr&) override { c->calls++; }
    void resume() override { c->calls++; }
    void suspend() override { c->calls++; }
    void cancel() override { c->calls++; }
    socket_t socket() const override { c->calls++; return 42; }
    notifier_type type() const override { c->calls++; return notifier_type::WRITE; }
    backend_type backend() override { return t; }
};
struct my_group : public igroup_impl
{
    backend_type t;
    counts* c;
    my_group(backend_type t, counts* c) : t(t), c(c) { c->alive++; }
    ~my_group() override { c->alive--; }
    void async(const operation_ptr&, const iqueue_impl_ptr&) override { c->calls++; }
    bool wait(milliseconds) override { c->calls++; return true; }
    void notify(const operation_ptr&, const iqueue_impl_ptr&) override { c->calls++; }
    backend_type backend() override { return t; }
};

// 0: accepted, 1: rejected with logic_error
template<typename F>
static int
attempt(F f)
{
    try {
        f();
    } catch (const std::logic_error&) {
        return 1;
    } catch (...) {
        xmc::fail("rejected with the wrong type of exception");
    }
    return 0;
}

SCENARIO("C27", timer_pairs, o.bound = 1; o.about = "timer(impl, queue) for every pair of backends";)
{
    const int a = xmc::choose(ntypes), b = xmc::choose(ntypes);
    counts ct, cq;
    {
        queue q("q", std::make_shared<my_queue>(types[b], &cq));
        auto impl = std::make_shared<my_timer>(types[a], &ct);
        std::unique_ptr<timer> t;
        const int r = attempt([&] { t.reset(new timer(impl, q)); });
        XCHECK(r == (a != b), "backends %d and %d: %s", a, b, r ? "rejected" : "accepted");
        XCHECK(cq.calls == 0, "constructing a timer used the queue");
        if (t) {
            t->interval(milliseconds(3));
            t->latency(timer_precision::DEFAULT);
            t->handler(mark(0));
            t->resume();
            t->suspend();
            t->cancel();
            XCHECK(ct.calls == 6, "%d of 6 calls reached the timer", ct.calls);
            XCHECK(t->target_queue() == q, "wrong target queue");
        } else {
            XCHECK(ct.calls == 0, "rejected timer was used");
            XCHECK(impl.use_count() == 1, "rejected timer is kept");
        }
    }
    XCHECK(ct.alive == 0 && cq.alive == 0, "timer or queue leaked");
    xmc::outcome(a * ntypes + b);
}
SCENARIO("C27", notifier_pairs, o.bound = 1; o.about = "socket_notifier(impl, queue) for every pair of backends";)
{
    const int a = xmc::choose(ntypes), b = xmc::choose(ntypes);
    counts ct, cq;
    {
        queue q("q", std::make_shared<my_queue>(types[b], &cq));
        auto impl = std::make_shared<my_notifier>(types[a], &ct);
        std::unique_ptr<socket_notifier> t;
        const int r = attempt([&] { t.reset(new socket_notifier(impl, q)); });
        XCHECK(r == (a != b), "backends %d and %d: %s", a, b, r ? "rejected" : "accepted");
        XCHECK(cq.calls == 0, "constructing a notifier used the queue");
        if (t) {
            t->handler([](socket_t, notifier_type) {});
            t->resume();
            t->suspend();
            t->cancel();
            XCHECK(t->socket() == 42 && t->type() == notifier_type::WRITE, "wrong socket or type");
            XCHECK(ct.calls == 6, "%d of 6 calls reached the notifier", ct.calls);
            XCHECK(t->target_queue() == q, "wrong target queue");
        } else {
            XCHECK(ct.calls == 0, "rejected notifier was used");
            XCHECK(impl.use_count() == 1, "rejected notifier is kept");
        }
    }
    XCHECK(ct.alive == 0 && cq.alive == 0, "notifier or queue leaked");
    xmc::outcome(a * ntypes + b);
}
SCENARIO("C27", group_pairs, o.bound = 1; o.about = "every sequence of three async() and notify() calls of a group over queues of every backend";)
{
    const int a = xmc::choose(ntypes);
    counts cg, cq;
    int accepted = 0;
    {
        group g(std::make_shared<my_group>(types[a], &cg));
        for (int i = 0; i < 3; i++) {
            const int b = xmc::choose(ntypes);
            const int notify = xmc::choose(2);
            queue q("q", std::make_shared<my_queue>(types[b], &cq));
            auto op = mark(i);
            const int r = attempt([&] {
                if (notify)
                    g.notify(op, q);
                else
                    g.async(op, q);
            });
            // groups of the naive backend work with any queue
            const bool ok = a == b || types[a] == backend_type::naive;
            XCHECK(r == !ok, "group of backend %d and queue of backend %d: %s", a, b, r ? "rejected" : "accepted");
            accepted += ok;
            XCHECK(cg.calls == accepted, "the group got %d operations instead of %d", cg.calls, accepted);
            XCHECK(op.use_count() == 1, "the operation is kept");
        }
        XCHECK(cq.calls == 0 && xmc::count(E_START) == 0, "an operation was run");
        XCHECK(g.wait(milliseconds(0)) && cg.calls == accepted + 1, "wait did not reach the group");
    }
    XCHECK(cg.alive == 0 && cq.alive == 0, "group or queue leaked");
}
SCENARIO("C27", unknown_backend, o.bound = 2; o.about = "timers and notifiers for a queue of a backend the library does not know are rejected, again and again";)
{
    counts cq;
    const int kind = xmc::choose(2);
    auto impl = std::make_shared<my_queue>(foreign, &cq);
    {
        queue q("q", impl);
        check_no_growth([&] {
            const int r = attempt([&] {
                if (kind == 0)
                    timer t(milliseconds(1), q);
                else
                    socket_notifier n(5, notifier_type::READ, q);
            });
            XCHECK(r, "accepted");
        });
    }
    XCHECK(cq.calls == 0 && impl.use_count() == 1, "a rejected object left something behind");
    impl.reset();
    XCHECK(xmc::threads_alive() <= 2, "%d threads", xmc::threads_alive());
}
SCENARIO("C27", rejected_then_used, o.bound = 2; o.bound_thorough = 3; o.about = "the parts of a rejected combination keep working with matching parts";)
{
    auto& nb = backend_for_type(backend_type::naive);
    auto* th = new QThread;
    th->start();
    queue qn("n", nb.create_serial_queue("n", queue_priority::DEFAULT));
    auto qq = qt5::create_serial_queue("q", th);
    auto impl = nb.create_timer(qn.implementation());
    XCHECK(attempt([&] { timer t(impl, qq); }), "naive timer accepted a qt5 queue");
    impl->interval(milliseconds(0));
    timer t(impl, qn);
    t.handler(mark(1));
    t.resume();
    post(qq, 2, on_thread(th, 2));
    XCHECK(attempt([&] { timer u(backend_for_type(backend_type::qt5).create_timer(qq.implementation()), qn); }), "qt5 timer accepted a naive queue");
    quiesce(10 * xmc::MS);
    XCHECK(xmc::count(E_START, 1) == 1, "the timer fired %d times", xmc::count(E_START, 1));
    XCHECK(xmc::count(E_START, 2) == 1, "the qt5 queue is broken");
}

// ---- the library's own objects ---------------------------------------------
static queue
make(int kind, QThread* t, QThreadPool* p)
{
    auto& nb = backend_for_type(backend_type::naive);
    switch (kind) {
        case 0:
            return queue("a", nb.create_serial_queue("a", queue_priority::DEFAULT));
        case 1:
            return queue("b", nb.create_parallel_queue("b", queue_priority::DEFAULT));
        case 2:
            return naive::create_parallel_queue("c", make_spawn_pool());
        case 3:
            return naive::create_serial_queue("d", make_spawn_pool());
        case 4:
            return qt5::create_serial_queue("e", t);
        case 5:
            return qt5::create_parallel_queue("f", p);
        case 6:
            return queue("g"); // of the platform
        case 7:
            return global_queue(queue_priority::UTILITY);
        case 8:
            return waitable_queue("h", qt5::create_serial_queue("e", t));
        case 9:
            return waitable_queue("i", queue("a", nb.create_serial_queue("a", queue_priority::DEFAULT)));
        default:
            return waitable_queue("j");
    }
}
static const int nkinds = 11;
static backend_type
expected(int kind)
{
    return kind == 4 || kind == 5 || kind == 8 ? backend_type::qt5 : backend_type::naive;
}

SCENARIO("C27", reported, o.bound = 1; o.about = "every kind of queue reports its backend, also when used through copies";)
{
    auto* t = new QThread;
    QThreadPool p;
    for (int k = 0; k < nkinds; k++) {
        auto q = make(k, t, &p);
        queue c = q;
        XCHECK(q.implementation()->backend() == expected(k), "queue of kind %d reports backend %d", k, static_cast<int>(q.implementation()->backend()));
        XCHECK(c.implementation()->backend() == expected(k), "the copy of a queue of kind %d reports another backend", k);
    }
    for (auto x : { backend_type::naive, backend_type::qt5 })
        XCHECK(backend_for_type(x).type() == x, "backend_for_type(%d) has type %d", static_cast<int>(x), static_cast<int>(backend_for_type(x).type()));
    {
        QCoreApplication* app = make_app();
        XCHECK(main_queue().implementation()->backend() == backend_type::qt5, "the main queue of an application is not a qt5 one");
        (void)app;
    }
}
SCENARIO("C27", reported_naive_main, o.bound = 1; o.about = "without an application the main queue is a naive one";)
{
    XCHECK(main_queue().implementation()->backend() == backend_type::naive, "wrong backend");
}
SCENARIO("C27", created_pairs, o.bound = 0; o.bound_thorough = 1; o.about = "timer and notifier implementations created for a queue of any kind, combined with a queue of any kind";)
{
    auto* t = new QThread;
    auto* p = new QThreadPool;
    const int a = xmc::choose(nkinds), b = xmc::choose(nkinds), what = xmc::choose(2), same = xmc::choose(2);
    if (same && a != b)
        return;
    auto qa = make(a, t, p);
    auto qb = same ? qa : make(b, t, p);
    auto& be = backend_for_type(qa.implementation()->backend());
    const int r = attempt([&] {
        if (what == 0)
            timer x(be.create_timer(qa.implementation()), qb);
        else
            socket_notifier x(be.create_socket_notifier(qa.implementation(), 5, notifier_type::READ), qb);
    });
    XCHECK(r == (expected(a) != expected(b)), "%s for a queue of kind %d and queue of kind %d: %s", what ? "notifier" : "timer", a, b, r ? "rejected" : "accepted");
}
SCENARIO("C27", works_for_own_kind, o.bound = 0; o.bound_thorough = 1; o.timedev = false; o.about = "timer, notifier and group created for a queue of any kind are accepted and deliver to it";)
{
    auto* t = new QThread;
    t->start();
    auto* p = new QThreadPool;
    const int k = xmc::choose(nkinds), what = xmc::choose(3);
    auto q = make(k, t, p);
    Sock s{ 5 };
    auto op = k == 4 || k == 8 ? on_thread(t, 0) : rec(0);
    if (what == 0) {
        timer x(milliseconds(0), q);
        x.handler(op);
        x.resume();
        quiesce(10 * xmc::MS);
        x.cancel();
    } else if (what == 1) {
        socket_notifier x(s.fd, notifier_type::READ, q);
        x.handler(on_ready(s, notifier_type::READ, 0, 5, [&] { s.set(false, false); }));
        x.resume();
        s.set(true, false);
        quiesce(300 * xmc::MS);
        x.cancel();
    } else {
        group g;
        g.async(op, q);
        XCHECK(g.wait(milliseconds(1000)), "wait timed out");
        g.notify(mark(1), q);
        quiesce(10 * xmc::MS);
        XCHECK(count(E_START, 1) == 1, "no notification");
    }
    XCHECK(count(E_START, 0) == 1 && count(E_END, 0) == 1, "the handler ran %d times for a queue of kind %d", count(E_START, 0), k);
}
SCENARIO("C27", group_over_many, o.bound = 1; o.bound_thorough = 2; o.about = "one group of the platform over a naive and a qt5 queue";)
{
    auto* t = new QThread;
    t->start();
    auto* p = new QThreadPool;
    auto qa = qt5::create_serial_queue("q", t), qb = qt5::create_parallel_queue("p", p);
    queue qc("c");
    group g;
    g.async(rec(0), qa);
    g.async(rec(1), qb);
    g.async(rec(2), qc);
    g.notify(mark(3), qa);
    XCHECK(g.wait(milliseconds(10000)), "wait timed out");
    XCHECK(count(E_END) == 3, "wait returned too early");
    quiesce();
    check_once(4);
}
