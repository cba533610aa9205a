// C28: the qt5 adaptors keep the guarantees of the queues
#include "qt.h"

static void
all(int n)
{
    quiesce();
    check_once(n);
    check_exclusive();
    check_order();
    outcome(order_hash());
}

// ---- serial queues on a QThread ---------------------------------------------
SCENARIO("C28", serial_two_submitters, o.bound = 3; o.bound_thorough = 4; o.about = "serial queue on a QThread, two submitters: on that thread, once, in order";)
{
    auto* t = new QThread;
    t->start();
    auto q = qt5::create_serial_queue("q", t);
    std::thread u([&] { post(q, 0, on_thread(t, 0)); post(q, 1, on_thread(t, 1)); });
    post(q, 2, on_thread(t, 2));
    u.join();
    all(3);
}
SCENARIO("C28", serial_before_start, o.bound = 4; o.bound_thorough = 6; o.about = "operations submitted before the QThread is started";)
{
    auto* t = new QThread;
    auto q = qt5::create_serial_queue("q", t);
    post(q, 0, on_thread(t, 0));
    std::thread u([&] { post(q, 1, on_thread(t, 1)); });
    t->start();
    u.join();
    all(2);
}
SCENARIO("C28", serial_nested, o.bound = 3; o.bound_thorough = 4; o.about = "operations submit to their own queue";)
{
    auto* t = new QThread;
    t->start();
    auto q = qt5::create_serial_queue("q", t);
    q.async(span(0, [&] {
        post(q, 1, on_thread(t, 1));
        post(q, 2, on_thread(t, 2));
    }));
    post(q, 3, on_thread(t, 3));
    all(4);
}
SCENARIO("C28", serial_backlog, o.bound = 1; o.bound_thorough = 2; o.about = "more operations than are drained at once";)
{
    auto* t = new QThread;
    t->start();
    auto q = qt5::create_serial_queue("q", t);
    for (int i = 0; i < 22; i++)
        post(q, i, on_thread(t, i));
    all(22);
}
SCENARIO("C28", two_queues_one_thread, o.bound = 2; o.bound_thorough = 3; o.about = "two serial queues share a QThread and exclude each other";)
{
    auto* t = new QThread;
    t->start();
    auto q = qt5::create_serial_queue("q", t), r = qt5::create_serial_queue("r", t);
    std::thread u([&] { post(q, 0, on_thread(t, 0)); });
    r.async(on_thread(t, 1));
    r.async(on_thread(t, 2));
    u.join();
    quiesce();
    check_once(3);
    check_exclusive();
    XCHECK(find(E_START, 1) < find(E_START, 2), "order of the second queue");
}
SCENARIO("C28", serial_dropped, o.bound = 3; o.bound_thorough = 4; o.about = "a serial queue is dropped with operations pending";)
{
    auto* t = new QThread;
    t->start();
    {
        auto q = qt5::create_serial_queue("q", t);
        post(q, 0, on_thread(t, 0));
        post(q, 1, on_thread(t, 1));
    }
    all(2);
}
SCENARIO("C28", serial_dropped_by_operation, o.bound = 3; o.bound_thorough = 4; o.about = "the last handle of a serial queue is owned by its own last operation";)
{
    auto* t = new QThread;
    t->start();
    {
        auto q = std::make_shared<queue>(qt5::create_serial_queue("q", t));
        auto p = q;
        q->async(span(0, [p] { p->async(mark(1)); }));
    }
    quiesce();
    check_once(2);
}
SCENARIO("C28", serial_dropped_then_thread, o.bound = 2; o.bound_thorough = 3; o.about = "queue, then its QThread are gone while operations are pending";)
{
    auto* t = new QThread;
    t->start();
    {
        auto q = qt5::create_serial_queue("q", t);
        q.async(mark(0));
        q.apply(1, [](size_t) { ev(E_START, 1); });
    }
    quiesce();
    check_once(2);
    t->quit();
    t->wait();
    delete t;
    quiesce(3000 * MS);
}
SCENARIO("C28", serial_no_growth, o.bound = 0; o.about = "queues on a QThread do not accumulate memory";)
{
    auto* t = new QThread;
    t->start();
    check_no_growth([&] {
        auto q = qt5::create_serial_queue("q", t);
        q.async(mark(0));
        quiesce();
    }, 100 * MS);
}
SCENARIO("C28", serial_group_and_after, o.bound = 1; o.bound_thorough = 2; o.about = "group, notification, delayed operation and timer on a QThread";)
{
    auto* t = new QThread;
    t->start();
    auto q = qt5::create_serial_queue("q", t);
    group g(backend_for_type(backend_type::qt5).create_group());
    timer x(milliseconds(5), q);
    x.handler(span(3, [&] { XCHECK(QThread::currentThread() == t, "timer on another thread"); x.suspend(); }));
    x.resume(milliseconds(20));
    q.after(milliseconds(5), on_thread(t, 0));
    group h;
    h.async(on_thread(t, 1), global_queue().implementation() ? q : q);
    h.notify(on_thread(t, 2), q);
    XCHECK(h.wait(milliseconds(-1)) && count(E_END, 1) == 1, "group wait");
    quiesce(40 * MS);
    quiesce(40 * MS);
    check_once(4);
    check_exclusive();
}
SCENARIO("C28", serial_visibility, o.bound = 2; o.bound_thorough = 3; o.races = true; o.about = "memory handed in and out of operations on a QThread (race detector)";)
{
    auto* t = new QThread;
    t->start();
    auto q = qt5::create_serial_queue("q", t);
    int v = 1;
    q.async([&] { v += 1; });
    auto b = std::make_shared<barrier_operation>();
    q.async([&] { v += 1; });
    q.async(b);
    b->wait();
    XCHECK(v == 3, "value is %d", v);
}

// ---- the main queue ----------------------------------------------------------
SCENARIO("C28", main_queue, o.bound = 3; o.bound_thorough = 4; o.about = "the main queue runs within the application's event loop, on its thread";)
{
    make_app();
    QThread* t = QThread::currentThread();
    post(const_cast<queue&>(static_cast<const queue&>(main_queue())), 0, on_thread(t, 0));
    std::thread([t] {
        auto q = main_queue();
        post(q, 1, on_thread(t, 1));
        post(q, 2, on_thread(t, 2));
    }).detach();
    std::thread([] {
        all(3);
        finish();
    }).detach();
    if (choose(2))
        exec();
    else
        QCoreApplication::exec();
    fail("the event loop ended");
}
SCENARIO("C28", main_queue_elsewhere, o.bound = 3; o.bound_thorough = 5; o.about = "the main queue is used by another thread first";)
{
    make_app();
    QThread* t = QThread::currentThread();
    std::thread([t] { main_queue().async(on_thread(t, 0)); all(1); finish(); }).detach();
    exec();
    fail("the event loop ended");
}
SCENARIO("C28", main_queue_without_app, o.bound = 3; o.bound_thorough = 5; o.about = "without an application the main queue falls back to exec()";)
{
    const int me = tid();
    std::thread([me] {
        auto q = main_queue();
        q.async([me] { ev(E_START, 0); XCHECK(tid() == me, "on another thread"); });
        quiesce();
        check_once(1);
        finish();
    }).detach();
    exec();
    fail("exec returned");
}

// ---- parallel queues on a QThreadPool -----------------------------------------
struct Pool
{
    QThreadPool* p = new QThreadPool;
    explicit Pool(int n) { p->setMaxThreadCount(n); }
    queue q(queue_priority prio = queue_priority::DEFAULT) { return qt5::create_parallel_queue("q", p, prio); }
};
SCENARIO("C28", parallel_once, o.bound = 2; o.bound_thorough = 3; o.about = "parallel queue on a pool of two threads, two submitters";)
{
    Pool p(2);
    auto q = p.q();
    std::thread u([&] { q.async(mark(0)); q.async(mark(1)); });
    q.async(mark(2));
    u.join();
    quiesce();
    check_once(3);
}
SCENARIO("C28", parallel_priorities, o.bound = 1; o.bound_thorough = 2; o.about = "waiting operations start by priority, for all orders of submission of two priorities";)
{
    const queue_priority prio[] = { queue_priority::USER_INTERACTIVE, queue_priority::USER_INITIATED, queue_priority::DEFAULT, queue_priority::UTILITY, queue_priority::BACKGROUND };
    const int rank[] = { 3, 2, 1, 1, 0 };
    Pool p(1);
    auto b = std::make_shared<lightweight_barrier>();
    p.q().async([b] { b->wait(); });
    const int i = choose(5), j = choose(5);
    p.q(prio[i]).async(mark(0));
    p.q(prio[j]).async(mark(1));
    b->complete();
    quiesce();
    check_once(2);
    const bool first = find(E_START, 0) < find(E_START, 1);
    XCHECK(first == (rank[i] >= rank[j]), "priority %d was submitted before %d, started %s", i, j, first ? "first" : "last");
}
SCENARIO("C28", parallel_blocked_apply, o.bound = 2; o.bound_thorough = 3; o.about = "apply within an operation proceeds on a pool of one thread, also repeatedly and nested";)
{
    Pool p(1);
    auto q = p.q();
    q.async(span(0, [&] {
        q.apply(2, [&](size_t i) { ev(E_MARK, (int)i); });
        q.apply(1, [&](size_t i) { ev(E_MARK, 2 + (int)i); });
    }));
    quiesce();
    XCHECK(count(E_END, 0) == 1, "the operation is stuck");
    for (int i = 0; i < 3; i++)
        XCHECK(count(E_MARK, i) == 1, "iteration %d executed %d times", i, count(E_MARK, i));
    XCHECK(p.p->activeThreadCount() == 0, "%d threads are considered active", p.p->activeThreadCount());
}
SCENARIO("C28", parallel_blocked_group, o.bound = 2; o.bound_thorough = 3; o.about = "operations waiting for a group on the same pool proceed; afterwards as many threads are available as before";)
{
    Pool p(1);
    auto q = p.q();
    q.async(span(0, [&] {
        group g;
        g.async(mark(1), global_queue());
        auto c = q;
        g.async(mark(2), c);
        XCHECK(g.wait(milliseconds(-1)), "wait failed");
        XCHECK(count(E_START, 1) == 1 && count(E_START, 2) == 1, "returned too early");
    }));
    quiesce();
    check_once(3);
    XCHECK(p.p->activeThreadCount() == 0, "%d threads are considered active", p.p->activeThreadCount());
    // one at a time again
    q.async(span(3));
    q.async(span(4));
    quiesce();
    check_once(5);
}
SCENARIO("C28", parallel_dropped, o.bound = 2; o.bound_thorough = 3; o.about = "a parallel queue is dropped with operations pending and by its own last operation";)
{
    Pool p(1);
    const int k = choose(2);
    {
        auto q = std::make_shared<queue>(p.q());
        auto h = k ? q : nullptr;
        q->async(span(0, [h] {
            if (h)
                h->async(mark(1));
        }));
        if (!k)
            q->async(mark(1));
    }
    quiesce(100 * MS);
    check_once(2);
}
SCENARIO("C28", parallel_then_pool, o.bound = 2; o.bound_thorough = 3; o.about = "the queue is dropped and its QThreadPool deleted with operations pending";)
{
    auto* p = new QThreadPool;
    {
        auto q = qt5::create_parallel_queue("q", p);
        q.async(mark(0));
        q.async(mark(1));
    }
    delete p;
    XCHECK(count(E_START) == 2, "the pool was deleted before its work was done");
    quiesce(100 * MS);
    check_once(2);
}
SCENARIO("C28", pool_then_queue, o.bound = 2; o.bound_thorough = 3; o.about = "the QThreadPool is deleted before the last handle of the queue";)
{
    auto* p = new QThreadPool;
    auto* q = new queue(qt5::create_parallel_queue("q", p));
    q->async(mark(0));
    delete p;
    delete q;
    quiesce(100 * MS);
    check_once(1);
}
SCENARIO("C28", parallel_visibility, o.bound = 2; o.bound_thorough = 3; o.races = true; o.about = "memory handed in and out of operations on a QThreadPool (race detector)";)
{
    Pool p(2);
    auto q = p.q();
    int a[3] = { 1, 2, 3 };
    q.apply(3, [&](size_t i) { a[i] += 1; });
    XCHECK(a[0] + a[1] + a[2] == 9, "wrong values");
}
SCENARIO("C28", parallel_no_growth, o.bound = 0; o.about = "queues on a QThreadPool do not accumulate memory";)
{
    Pool p(2);
    check_no_growth([&] {
        auto q = p.q();
        q.apply(2, [](size_t) {});
    }, 100 * MS);
}

// ---- connections of a QObject ---------------------------------------------------
struct Receiver : public QObject
{
    int id;
    explicit Receiver(int i) : id(i) {}
    void slot(int v) { ev(E_START, id, v); }
};
SCENARIO("C28", object_deleted, o.bound = 2; o.bound_thorough = 3; o.about = "nothing is delivered once the receiver is deleted, while another thread emits";)
{
    isig s;
    auto q = create_serial_queue("q");
    auto* r = new Receiver(0);
    auto* r2 = new Receiver(1);
    // the receiver is deleted on the thread that runs its slots, as in Qt
    qt5::connect(s, r, [](const int& v) { ev(E_START, 0, v); }, q, choose(2) ? BATCH : SINGLE);
    qt5::connect(s, r2, &Receiver::slot, q);
    std::thread t([&] { s(1); });
    s(2);
    delete r;
    const int gone = ev(E_MARK);
    s(3);
    t.join();
    quiesce(2500 * MS);
    for (int i = gone; i < nevents(); i++)
        XCHECK(!(events()[i].kind == E_START && events()[i].a == 0), "invoked after the object was deleted");
    for (int v = 1; v <= 3; v++)
        XCHECK(calls(1, v) == 1, "the other receiver was invoked %d times for %d", calls(1, v), v);
    XCHECK(calls(0, 2) <= 1 && calls(0, 3) == 0, "wrong invocations");
}
SCENARIO("C28", object_disconnected, o.bound = 2; o.bound_thorough = 3; o.about = "disconnect() closes the connections of one signal and one receiver only";)
{
    isig s, u;
    auto q = create_serial_queue("q");
    auto* r = new Receiver(0);
    auto* r2 = new Receiver(1);
    qt5::connect(s, r, &Receiver::slot, q);
    qt5::connect(s, r, &Receiver::slot, q);
    qt5::connect(u, r, &Receiver::slot, q);
    qt5::connect(s, r2, &Receiver::slot, q);
    std::thread t([&] { s(1); });
    qt5::disconnect(s, r);
    const int gone = ev(E_MARK);
    s(2);
    u(3);
    t.join();
    quiesce(2500 * MS);
    for (int i = gone; i < nevents(); i++)
        XCHECK(!(events()[i].kind == E_START && events()[i].a == 0 && events()[i].b != 3), "invoked after disconnect()");
    XCHECK(calls(0, 2) == 0 && calls(0, 1) <= 2 && calls(0, 3) == 1, "wrong invocations of the receiver");
    XCHECK(calls(1, 1) == 1 && calls(1, 2) == 1, "wrong invocations of the other receiver");
    qt5::disconnect(s, r);
    delete r;
    delete r2;
    s(4);
    u(4);
    quiesce(2500 * MS);
    XCHECK(calls(0, 4) == 0 && calls(1, 4) == 0, "invoked after the object was deleted");
}
SCENARIO("C28", signal_gone_first, o.bound = 2; o.bound_thorough = 3; o.about = "the signal is destroyed before the receiver, concurrently with an emit's invocation";)
{
    auto q = create_serial_queue("q");
    auto* r = new Receiver(0);
    {
        isig s;
        qt5::connect(s, r, &Receiver::slot, q);
        qt5::connect(s, r, &Receiver::slot, q, BATCH);
        s(1);
    }
    const int gone = ev(E_MARK);
    delete r;
    quiesce(2500 * MS);
    for (int i = gone; i < nevents(); i++)
        XCHECK(events()[i].kind != E_START, "invoked after the signal was destroyed");
}
SCENARIO("C28", same_thread_receiver, o.bound = 2; o.bound_thorough = 3; o.about = "a receiver living on a QThread is deleted there while others emit";)
{
    auto* t = new QThread;
    t->start();
    auto q = qt5::create_serial_queue("q", t);
    static Receiver* r;
    isig s;
    auto b = std::make_shared<barrier_operation>();
    q.async([&] {
        r = new Receiver(0);
        qt5::connect(s, r, &Receiver::slot, q);
    });
    q.async(b);
    b->wait();
    std::thread u([&] { s(1); });
    q.async([&] {
        delete r;
        ev(E_MARK);
    });
    s(2);
    u.join();
    quiesce();
    for (int i = find(E_MARK); i < nevents(); i++)
        XCHECK(events()[i].kind != E_START, "invoked after the object was deleted");
    XCHECK(calls(0, 1) <= 1 && calls(0, 2) <= 1, "invoked twice");
}
SCENARIO("C28", fair_thread, o.bound = 0; o.bound_thorough = 1; o.timedev = false; o.max_steps = 100000; o.about = "a serial queue that never runs out of operations leaves the QThread to another queue and to other events after a limited number of them";)
{
    struct hog
    {
        queue q;
        int n = 0;
    };
    auto* t = new QThread;
    t->start();
    auto h = std::make_shared<hog>(hog{ qt5::create_serial_queue("q", t) });
    static std::function<void()> again;
    const int batch = 1 + choose(3);
    again = [h, batch] {
        std::this_thread::sleep_for(milliseconds(1));
        if (h->n++ < 400)
            for (int i = 0; i < batch && (i == 0 || h->n % 50 == 0); i++)
                h->q.async(again);
    };
    h->q.async(again);
    std::this_thread::sleep_for(milliseconds(20));
    const int from = h->n, how = choose(3);
    auto r = qt5::create_serial_queue("r", t);
    auto at = std::make_shared<int>(-1);
    if (how == 0)
        r.async([=] { *at = h->n; });
    else if (how == 1)
        r.after(milliseconds(3), [=] { *at = h->n; });
    else {
        group g;
        g.notify([=] { *at = h->n; }, r);
    }
    quiesce(5000 * MS);
    again = nullptr;
    XCHECK(*at >= 0 && *at - from < 200, "started after %d further operations", *at - from);
}
