// C36: an exception leaving an operation reaches whoever runs the operation and
// costs nothing but that operation
#include "uses.h"
#include <iostream>
#include <stdexcept>

struct my_error : public std::runtime_error
{
    const int id;
    explicit my_error(int i)
      : std::runtime_error("my error")
      , id(i)
    {}
};
// an operation which is executed and throws
static operation_ptr
bad(int id)
{
    return make_operation([id] {
        record(id);
        throw my_error(id);
    });
}
// catches what f throws, the event is its id
template<typename F>
static bool
caught(F f)
{
    try {
        f();
        return false;
    } catch (const my_error& e) {
        ev(E_MARK, e.id);
        return true;
    }
}
static void
check_caught(int id, int times = 1)
{
    XCHECK(count(E_MARK, id) == times, "the exception of operation %d was caught %d times", id, count(E_MARK, id));
}
static void
quiet()
{
    // the library has something to say about exceptions
    std::cerr.setstate(std::ios::failbit);
}
// a pool whose threads survive exceptions
struct tolerant_pool : public naive::ithreadpool
{
    struct state
    {
        std::mutex m;
        std::condition_variable c;
        std::vector<operation_ptr> q;
        bool stop = false;
    };
    std::shared_ptr<state> s = std::make_shared<state>();
    explicit tolerant_pool(int n)
    {
        for (int i = 0; i < n; i++) {
            auto st = s;
            auto* self = this;
            std::thread([st, self] {
                for (;;) {
                    operation_ptr w;
                    {
                        std::unique_lock<std::mutex> l(st->m);
                        st->c.wait(l, [&] { return st->stop || !st->q.empty(); });
                        if (st->q.empty())
                            return;
                        w = std::move(st->q.front());
                        st->q.erase(st->q.begin());
                    }
                    XCHECK(current() == nullptr, "on a pool before");
                    caught([&] { run_with_threadpool(*w, self); });
                    XCHECK(current() == nullptr, "still on the pool after an operation");
                }
            }).detach();
        }
    }
    ~tolerant_pool() override
    {
        std::lock_guard<std::mutex> l(s->m);
        s->stop = true;
        s->c.notify_all();
    }
    void execute(const operation_ptr& work, queue_priority) override
    {
        std::lock_guard<std::mutex> l(s->m);
        s->q.push_back(work);
        s->c.notify_one();
    }
    void notify_thread_blocked() override {}
    void notify_thread_unblocked() override {}
};
static queue
tolerant_queue(bool parallel, int threads)
{
    quiet();
    auto pool = std::make_shared<tolerant_pool>(threads);
    return parallel ? naive::create_parallel_queue("p", pool) : naive::create_serial_queue("q", pool);
}
// calls exec() again and again, while exceptions leave it
template<typename F>
static void
run_main(F check)
{
    quiet();
    std::thread([check] {
        quiesce(2500 * MS);
        check();
        finish();
    }).detach();
    while (caught([] { exec(); }))
        ;
    fail("exec() returned");
}
static void
all(int n, int thrown)
{
    check_once(n);
    for (int i = 0; i < n; i++)
        check_caught(i, (thrown >> i) & 1);
}

SCENARIO("C36", queues, o.bound = 2; o.bound_thorough = 3; o.about = "any of four operations on a serial or parallel queue of a user pool throws, two threads submit";)
{
    const bool parallel = choose(2);
    const int thrown = choose(16);
    auto q = tolerant_queue(parallel, 1 + choose(2));
    auto op = [thrown](int id) { return (thrown >> id) & 1 ? bad(id) : rec(id); };
    std::thread t([&] {
        post(q, 2, op(2));
        post(q, 3, op(3));
    });
    post(q, 0, op(0));
    post(q, 1, op(1));
    t.join();
    if (choose(2))
        q = global_queue();
    quiesce();
    all(4, thrown);
    if (!parallel) {
        check_exclusive();
        check_order();
    }
}
SCENARIO("C36", queue_history_throws, o.bound = 0; o.bound_thorough = 1; o.about = "every sequence of up to three submissions of all kinds, any of them throws";)
{
    const bool parallel = choose(2);
    auto q = tolerant_queue(parallel, 2);
    group g;
    int n = 0, thrown = 0;
    for (int i = 0; i < 3; i++) {
        const bool throws = choose(2);
        auto op = throws ? bad(n) : rec(n);
        const int id = n++;
        if (throws)
            thrown |= 1 << id;
        switch (choose(6)) {
            case 0: q.async(op); break;
            case 1:
                q.apply(1, [=](size_t) {
                    record(id);
                    if (throws)
                        throw my_error(id);
                });
                XCHECK(count(E_END, id) == 1, "apply() returned early");
                break;
            case 2: q.after(milliseconds(1), op); break;
            case 3: g.async(op, q); break;
            case 4:
                g.async(op, q);
                XCHECK(g.wait(milliseconds(-1)), "wait failed");
                XCHECK(count(E_END, id) == 1, "wait() returned early");
                break;
            case 5: g.notify(op, q); break;
        }
    }
    XCHECK(g.wait(milliseconds(-1)), "wait failed");
    quiesce(2500 * MS);
    all(n, thrown);
}
SCENARIO("C36", apply_throws, o.bound = 1; o.bound_thorough = 2; o.about = "iterations of apply() throw, it returns when all of them were executed";)
{
    const bool parallel = choose(2);
    const int thrown = choose(8);
    auto q = tolerant_queue(parallel, 2);
    q.apply(3, [thrown](size_t i) {
        record((int)i);
        if ((thrown >> i) & 1)
            throw my_error((int)i);
    });
    check_once(3);
    q.apply(1, [](size_t) { record(3); });
    XCHECK(count(E_END, 3) == 1, "apply() returned early");
    quiesce();
    all(4, thrown);
}
SCENARIO("C36", groups, o.bound = 1; o.bound_thorough = 2; o.about = "operations of a group throw, waits end and the notification follows";)
{
    const bool parallel = choose(2);
    const int thrown = choose(8);
    auto q = tolerant_queue(parallel, 2);
    group g;
    for (int i = 0; i < 2; i++)
        g.async((thrown >> i) & 1 ? bad(i) : rec(i), q);
    g.notify((thrown >> 2) & 1 ? bad(2) : rec(2), q);
    XCHECK(g.wait(milliseconds(-1)), "wait failed");
    XCHECK(count(E_END, 0) + count(E_END, 1) == 2, "wait() returned early");
    g.async(rec(3), q);
    XCHECK(g.wait(milliseconds(-1)), "wait failed");
    quiesce();
    XCHECK(find(E_START, 2) > find(E_END, 0) && find(E_START, 2) > find(E_END, 1), "notified early");
    all(4, thrown);
}
SCENARIO("C36", timers, o.bound = 1; o.bound_thorough = 2; o.timedev = false; o.about = "the handler of a timer throws in some rounds, the timer goes on; also when it is cancelled from there";)
{
    const int thrown = choose(8);
    const bool parallel = choose(2), cancels = choose(2);
    auto q = tolerant_queue(parallel, 1);
    timer t(milliseconds(2), q);
    auto n = std::make_shared<int>(0);
    t.handler([n, thrown, cancels, &t] {
        const int id = (*n)++;
        record(id);
        if (id == 2 && cancels)
            t.cancel();
        if (id < 3 && (thrown >> id) & 1)
            throw my_error(id);
    });
    t.resume();
    std::this_thread::sleep_for(milliseconds(20));
    t.cancel();
    const int rounds = count(E_END);
    XCHECK(cancels ? rounds == 3 : rounds >= 4, "%d rounds", rounds);
    q.async(rec(62));
    quiesce(100 * MS);
    XCHECK(count(E_END, 62) == 1, "the queue is stuck");
    XCHECK(count(E_END) == rounds + 1, "fired after cancel()");
    for (int i = 0; i < 3; i++)
        check_caught(i, (thrown >> i) & 1);
}
SCENARIO("C36", notifiers, o.bound = 1; o.bound_thorough = 2; o.timedev = false; o.about = "the handler of a notifier throws in some rounds, the notifier goes on; also when it is cancelled from there";)
{
    const int thrown = choose(8);
    const bool parallel = choose(2), cancels = choose(2);
    auto q = tolerant_queue(parallel, 1);
    sock_set(5, true, false, false);
    socket_notifier s(5, notifier_type::READ, q);
    auto n = std::make_shared<int>(0);
    s.handler([n, thrown, cancels, &s](socket_t, notifier_type) {
        const int id = (*n)++;
        record(id);
        std::this_thread::sleep_for(milliseconds(2));
        if (id == 2 && cancels)
            s.cancel();
        if (id < 3 && (thrown >> id) & 1)
            throw my_error(id);
    });
    s.resume();
    std::this_thread::sleep_for(milliseconds(20));
    s.cancel();
    const int rounds = count(E_END);
    XCHECK(cancels ? rounds == 3 : rounds >= 4, "%d rounds", rounds);
    q.async(rec(62));
    quiesce(100 * MS);
    XCHECK(count(E_END, 62) == 1, "the queue is stuck");
    XCHECK(count(E_END) == rounds + 1, "fired after cancel()");
    for (int i = 0; i < 3; i++)
        check_caught(i, (thrown >> i) & 1);
}
SCENARIO("C36", waitable, o.bound = 2; o.bound_thorough = 3; o.about = "operations of a waitable queue throw, in the queue or in one of two threads waiting";)
{
    const int thrown = choose(8);
    waitable_queue w("w", tolerant_queue(choose(2), 1));
    for (int i = 0; i < 3; i++)
        post(w, i, (thrown >> i) & 1 ? bad(i) : rec(i));
    auto wait = [&] {
        while (caught([&] { w.wait_for_all(); }))
            ;
        check_once(3);
    };
    std::thread t([&] { caught([&] { w.wait_for_one(); }); });
    wait();
    t.join();
    quiesce();
    all(3, thrown);
    check_exclusive();
    check_order();
    w.async(rec(3));
    w.wait_for_all();
    XCHECK(count(E_END, 3) == 1, "the queue is stuck");
}
SCENARIO("C36", waitable_apply, o.bound = 2; o.bound_thorough = 3; o.about = "iterations throw in apply() of a waitable queue or beside it, it does not end before all of them were executed";)
{
    const int thrown = choose(8);
    waitable_queue w("w", tolerant_queue(choose(2), 1));
    // an exception may have been caught by the pool or leave apply(), only one does
    bool left = caught([&] {
        w.apply(3, [thrown](size_t i) {
            record((int)i);
            if ((thrown >> i) & 1)
                throw my_error((int)i);
        });
    });
    check_once(3);
    XCHECK(!left || thrown, "exception out of nowhere");
    quiesce();
    int total = 0;
    for (int i = 0; i < 3; i++) {
        const int c = count(E_MARK, i);
        XCHECK(c <= ((thrown >> i) & 1), "exception %d was caught %d times", i, c);
        total += c;
    }
    XCHECK(!thrown || total > 0, "all exceptions vanished");
    w.async(rec(3));
    w.wait_for_all();
    XCHECK(count(E_END, 3) == 1, "the queue is stuck");
    check_exclusive();
}
SCENARIO("C36", exec_throws, o.bound = 2; o.bound_thorough = 3; o.about = "operations of the main queue throw: the exception leaves exec(), called again it goes on with the others";)
{
    const int thrown = choose(16), from = choose(3);
    auto q = main_queue();
    auto op = [thrown](int id) { return (thrown >> id) & 1 ? bad(id) : rec(id); };
    for (int i = 0; i < from; i++)
        post(q, i, op(i));
    std::thread([=] {
        auto m = q;
        for (int i = from; i < 4; i++)
            post(m, i, op(i));
    }).detach();
    run_main([thrown] {
        all(4, thrown);
        check_exclusive();
        check_order();
    });
}
SCENARIO("C36", exec_mixed, o.bound = 1; o.bound_thorough = 2; o.about = "exec() is left by an exception of a delayed operation, of a group, a timer or of a signal while others are pending";)
{
    const int way = choose(5);
    const bool first = choose(2);
    auto q = main_queue();
    group g;
    if (first)
        q.async(rec(1));
    std::unique_ptr<timer> t;
    signal<void()> s;
    connection c;
    switch (way) {
        case 0: q.async(bad(0)); break;
        case 1: q.after(milliseconds(1), bad(0)); break;
        case 2: g.async(bad(0), q); break;
        case 3:
            t.reset(new timer(milliseconds(0), q));
            t->handler(bad(0));
            t->resume();
            break;
        case 4:
            c = s.connect(
              [] {
                  record(0);
                  throw my_error(0);
              },
              q);
            s();
            break;
    }
    if (!first)
        q.async(rec(1));
    g.async(rec(2), q);
    g.notify(rec(3), q);
    run_main([] { all(4, 1); });
}
SCENARIO("C36", signals, o.bound = 1; o.bound_thorough = 2; o.about = "synchronous handlers throw: the exception reaches the emitter, the signal remains usable by all threads";)
{
    signal<void(int)> s, chained;
    const int thrown = choose(4);
    const bool disconnects = choose(2);
    auto self = std::make_shared<connection>();
    auto c = s.connect(
      [thrown, self, disconnects](int i) {
          record(i);
          if (disconnects)
              self->disconnect();
          if ((thrown >> i) & 1)
              throw my_error(i);
      },
      global_queue(),
      notification_mode::_synchronous_update);
    *self = c;
    auto d = chained.connect(s);
    std::thread t([&] { caught([&] { chained(1); }); });
    caught([&] { s(0); });
    t.join();
    const int calls = count(E_END);
    XCHECK(disconnects ? calls >= 1 && calls <= 2 : calls == 2, "%d calls", calls);
    for (int i = 0; i < 2; i++)
        check_caught(i, ((thrown >> i) & 1) * count(E_END, i));
    XCHECK(c.connected() == !disconnects && d.connected(), "connected");
    // from another thread
    group g;
    g.async([&] { s(2); }, global_queue());
    XCHECK(g.wait(milliseconds(-1)), "wait failed");
    XCHECK(count(E_END, 2) == !disconnects, "called %d times", count(E_END, 2));
    XCHECK(c.disconnect() == !disconnects, "disconnect");
    d.disconnect();
}
SCENARIO("C36", signals_on_queues, o.bound = 1; o.bound_thorough = 2; o.about = "handlers throw on their queue, further emits are delivered and disconnecting does not block";)
{
    const auto mode = (notification_mode)choose(2);
    auto q = tolerant_queue(choose(2), 1);
    signal<void(int)> s;
    const int thrown = choose(2);
    auto c = s.connect(
      [thrown](int i) {
          record(i);
          if (i == 0 && thrown)
              throw my_error(i);
      },
      q,
      mode);
    s(0);
    if (choose(2))
        quiesce();
    s(1);
    quiesce();
    if (mode == notification_mode::single_updates)
        check_once(2);
    s(2);
    quiesce();
    XCHECK(count(E_END, 2) == 1, "called %d times", count(E_END, 2));
    check_caught(0, thrown * count(E_END, 0));
    XCHECK(c.disconnect(), "disconnect");
}
SCENARIO("C36", direct, o.bound = 0; o.bound_thorough = 1; o.about = "exceptions leave execute_operation_on_this_thread() and run_with_threadpool() unchanged, of any type";)
{
    struct pool : public naive::ithreadpool
    {
        void execute(const operation_ptr&, queue_priority) override {}
        void notify_thread_blocked() override {}
        void notify_thread_unblocked() override {}
        static void run(operation& op, ithreadpool* p) { run_with_threadpool(op, p); }
    } p, other;
    const bool on_pool = choose(2), nested = choose(2);
    int thrown = 0;
    auto op = make_operation([&] {
        XCHECK(naive::ithreadpool::current() == (on_pool ? &p : nested ? &other : nullptr), "current()");
        if (choose(2))
            throw 5;
        throw my_error(1);
    });
    auto outer = make_operation([&] {
        auto* const before = naive::ithreadpool::current();
        try {
            if (on_pool)
                pool::run(*op, &p);
            else
                execute_operation_on_this_thread(*op);
        } catch (int) {
            thrown++;
        } catch (const my_error& e) {
            XCHECK(e.id == 1, "id");
            thrown++;
        }
        XCHECK(naive::ithreadpool::current() == before, "current() after");
    });
    if (nested)
        pool::run(*outer, &other);
    else
        execute_operation_on_this_thread(*outer);
    XCHECK(thrown == 1, "the exception vanished");
    XCHECK(naive::ithreadpool::current() == nullptr, "current() in the end");
}
SCENARIO("C36", never_swallowed, o.bound = 0; o.bound_thorough = 1; o.about = "an exception nobody can catch ends the process, on all queues and ways to submit";)
{
    quiet();
    const int kind = choose(4), way = choose(8);
    auto q = kind == 0 ? create_serial_queue("q") : kind == 1 ? global_queue() : kind == 2 ? create_parallel_queue("p") : waitable_queue("w");
    const bool standard = choose(2);
    auto op = make_operation([standard] {
        allow_terminate(true);
        if (standard)
            throw my_error(0);
        throw 7;
    });
    group g;
    timer t(milliseconds(0), q);
    signal<void()> s;
    connection c;
    sock_set(5, true, false, false);
    socket_notifier n(5, notifier_type::READ, q);
    switch (way) {
        case 0: q.async(op); break;
        case 1: q.after(milliseconds(1), op); break;
        case 2: g.async(op, q); break;
        case 3: g.notify(op, q); break;
        case 4:
            t.handler(op);
            t.resume();
            break;
        case 5:
            c = s.connect([=] { execute_operation_on_this_thread(*op); }, q);
            s();
            break;
        case 6:
            if (kind == 3)
                finish();
            q.apply(1, [=](size_t) { execute_operation_on_this_thread(*op); });
            break;
        case 7:
            n.handler([=](socket_t, notifier_type) { execute_operation_on_this_thread(*op); });
            n.resume();
            break;
    }
    quiesce(2500 * MS);
    fail("the exception vanished");
}
SCENARIO("C36", destroyed_by_exception, o.bound = 1; o.bound_thorough = 2; o.about = "what a throwing operation captured submits to its queue when it is destroyed, others are pending";)
{
    struct last
    {
        std::function<void()> f;
        ~last() { f(); }
    };
    const int kind = choose(5);
    auto q = kind < 2 ? tolerant_queue(kind, 1) : kind == 2 ? queue(waitable_queue("w", tolerant_queue(false, 1))) : kind == 3 ? queue(waitable_queue("w", tolerant_queue(true, 2))) : main_queue();
    group g;
    {
        auto l = std::make_shared<last>();
        l->f = [q, g] {
            auto p = q;
            auto h = g;
            h.async(rec(1), p);
        };
        const int way = choose(3);
        auto f = [l] {
            record(0);
            throw my_error(0);
        };
        switch (way) {
            case 0: q.async(f); break;
            case 1: q.after(milliseconds(1), f); break;
            case 2: g.async(f, q); break;
        }
    }
    q.async(rec(2));
    if (kind == 4)
        run_main([] { all(3, 1); });
    quiesce(2500 * MS);
    all(3, 1);
}
SCENARIO("C36", released, o.bound = 2; o.bound_thorough = 3; o.about = "a queue is dropped before or after an operation of it throws: it and its pool are released, as are those of others";)
{
    quiet();
    static int alive;
    alive = 0;
    struct counted_pool : public tolerant_pool
    {
        counted_pool()
          : tolerant_pool(1)
        {
            alive++;
        }
        ~counted_pool() override { alive--; }
    };
    const int first = choose(3), second = choose(2), when = choose(2);
    auto make = [](bool parallel) {
        auto pool = std::make_shared<counted_pool>();
        return parallel ? naive::create_parallel_queue("p", pool) : naive::create_serial_queue("q", pool);
    };
    {
        auto q = make(first == 1);
        if (first == 2)
            q = waitable_queue("w", q);
        q.async(bad(0));
        if (when)
            quiesce();
    }
    {
        auto q = make(second);
        q.async(rec(1));
    }
    quiesce(2500 * MS);
    all(2, 1);
    XCHECK(alive == 0, "%d pools are still alive", alive);
}
