// C35: operations, handlers and what they captured are destroyed without any
// lock being held, i.e. their destructors may use the library
#include "uses.h"

// an object captured by an operation or handler, calls f when being destroyed
struct Last
{
    std::function<void()> f;
    Last() = default;
    ~Last()
    {
        if (f)
            f();
    }
};
using Last_ptr = std::shared_ptr<Last>;
static Last_ptr
last(std::function<void()> f)
{
    auto l = std::make_shared<Last>();
    l->f = [f] {
        f();
        ev(E_DONE);
    };
    return l;
}
static std::function<void()>
work(int id)
{
    return [id] { record(id); };
}
// uses of a queue which never block
constexpr int QUEUE_USES = 6;
static void
use_queue(int how, queue q, int id)
{
    switch (how) {
        case 0: q.async(work(id)); break;
        case 1: q.after(milliseconds(1), work(id)); break;
        case 2: group().async(work(id), q); break;
        case 3: group().notify(work(id), q); break;
        case 4: {
            timer t(milliseconds(0), q);
            t.handler(work(id));
            t.resume(milliseconds(0));
            break; // keeps running
        }
        case 5: {
            signal<void()> s;
            auto c = s.connect(work(id), q);
            q.async([] {});
            c.disconnect();
            record(id);
            break;
        }
    }
}
static void
settled(int operations, int destroyed = 1)
{
    quiesce(3000 * MS);
    XCHECK(count(E_DONE) == destroyed, "%d of %d destructors returned", count(E_DONE), destroyed);
    for (int i = 0; i < operations; i++)
        XCHECK(count(E_END, i) == 1, "operation %d was executed %d times", i, count(E_END, i));
}

SCENARIO("C35", operations, o.bound = 1; o.bound_thorough = 2; o.about = "every kind of queue and of submission, the object captured by the operation uses the queue when it is destroyed";)
{
    const int kind = choose(4), how = choose(QUEUE_USES);
    auto q = kind == 0 ? create_serial_queue("q") : kind == 1 ? global_queue() : kind == 2 ? create_parallel_queue("p") : waitable_queue("w");
    group g;
    {
        auto l = last([=] { use_queue(how, q, 1); });
        switch (choose(5)) {
            case 0: q.async([l] { record(0); }); break;
            case 1: q.after(milliseconds(1), [l] { record(0); }); break;
            case 2: g.async([l] { record(0); }, q); break;
            case 3: g.notify([l] { record(0); }, q); break;
            case 4: q.apply(1, [l](size_t) { record(0); }); break;
        }
    }
    settled(2);
}
SCENARIO("C35", operations_block, o.bound = 1; o.bound_thorough = 2; o.about = "the object captured by an operation waits for others when it is destroyed";)
{
    auto q = choose(2) ? global_queue() : create_parallel_queue("p");
    group g;
    {
        const int how = choose(4);
        auto l = last([=] {
            group h(g);
            switch (how) {
                case 0: q.apply(1, [](size_t) { record(1); }); break;
                case 1:
                    h.async(work(1), q);
                    XCHECK(h.wait(milliseconds(-1)), "wait failed");
                    XCHECK(count(E_END, 1) == 1, "wait too short");
                    break;
                case 2: {
                    waitable_queue w("w", q);
                    w.async(work(1));
                    w.wait_for_all();
                    break;
                }
                case 3: {
                    auto b = std::make_shared<barrier_operation>();
                    q.async(work(1));
                    q.async(b);
                    b->wait();
                    break;
                }
            }
        });
        switch (choose(4)) {
            case 0: q.async([l] { record(0); }); break;
            case 1: q.after(milliseconds(1), [l] { record(0); }); break;
            case 2: g.async([l] { record(0); }, q); break;
            case 3: g.notify([l] { record(0); }, q); break;
        }
    }
    settled(2);
}
SCENARIO("C35", waitable, o.bound = 2; o.bound_thorough = 3; o.about = "operations of a waitable queue destroyed by the queue or by whoever waits";)
{
    auto inner = choose(2) ? create_serial_queue("q") : global_queue();
    const int how = choose(QUEUE_USES), wait = choose(3);
    waitable_queue q("w", inner);
    {
        auto l = last([=] { use_queue(how, q, 1); });
        q.async([l] { record(0); });
    }
    if (wait == 0)
        q.wait_for_one();
    else if (wait == 1)
        q.wait_for_all();
    else
        q.apply(1, [](size_t) { record(2); });
    settled(2);
}
SCENARIO("C35", waitable_gone, o.bound = 2; o.bound_thorough = 3; o.about = "an operation of a waitable queue owns the last handle of it";)
{
    auto inner = choose(2) ? create_serial_queue("q") : global_queue();
    const int n = choose(2);
    {
        auto q = std::make_shared<waitable_queue>("w", inner);
        auto l = last([] {});
        q->async([q, l] { record(0); });
        if (n)
            inner.async(work(1));
        if (choose(2))
            q->wait_for_one();
    }
    settled(1 + n);
}

// uses of a timer or notifier
template<typename T>
static void
use_source(int how, T& t, const queue& q)
{
    switch (how) {
        case 0: t.suspend(); break;
        case 1: t.resume(); break;
        case 2:
            t.suspend();
            t.resume();
            break;
        case 3: t.cancel(); break;
        case 4: XCHECK(t.target_queue() == q, "target queue"); break;
        default: break;
    }
}
constexpr int SOURCE_USES = 5;
SCENARIO("C35", timer_handlers, o.bound = 1; o.bound_thorough = 2; o.timedev = false; o.about = "the handler of a timer is replaced before it ran, between two runs and from within; what it captured uses the timer";)
{
    auto q = choose(2) ? global_queue() : create_serial_queue("q");
    timer t(milliseconds(2), q);
    const int how = choose(SOURCE_USES + 1), when = choose(4);
    auto second = [&t] {
        ev(E_MARK, 1);
        t.cancel();
    };
    {
        auto l = last([&t, how, second, q] {
            if (how == SOURCE_USES)
                t.handler(second);
            else
                use_source(how, t, q);
        });
        t.handler([l, when, &t, second] {
            ev(E_MARK, 0);
            if (when == 2)
                t.handler(second);
            if (when == 3)
                std::this_thread::sleep_for(milliseconds(5));
        });
    }
    if (when == 0)
        t.handler(second);
    t.resume();
    if (when == 1 || when == 3) {
        std::this_thread::sleep_for(milliseconds(when == 1 ? 1 : 3));
        t.handler(second);
    }
    settled(0);
    // suspended or cancelled by the destructor
    if (how == 0 || how == 3)
        XCHECK(when == 0 || count(E_MARK, 0) >= 1, "the first handler never ran");
    else
        XCHECK(count(E_MARK, 1) == 1, "the second handler ran %d times", count(E_MARK, 1));
    t.cancel();
}
SCENARIO("C35", timer_gone, o.bound = 2; o.bound_thorough = 3; o.timedev = false; o.about = "a timer is dropped by main or by its handler; what the handler captured uses the queue of the timer";)
{
    auto q = choose(2) ? global_queue() : create_serial_queue("q");
    const int how = choose(QUEUE_USES), state = choose(4);
    {
        auto t = std::make_shared<std::unique_ptr<timer>>(new timer(milliseconds(2), q));
        {
            auto l = last([=] { use_queue(how, q, 0); });
            t->get()->handler([l, t, state] {
                if (state == 3 && *t) {
                    (*t)->cancel();
                    t->reset();
                }
            });
        }
        if (state)
            (*t)->resume();
        if (state == 3) {
            t.reset();
            quiesce(10 * MS);
        } else {
            if (state == 2)
                std::this_thread::sleep_for(milliseconds(3));
            (*t)->cancel();
            t->reset();
        }
    }
    settled(1);
}
SCENARIO("C35", notifier_handlers, o.bound = 1; o.bound_thorough = 2; o.timedev = false; o.about = "the handler of a notifier is replaced before it ran, between two runs, during and from within one; what it captured uses the notifier";)
{
    auto q = choose(2) ? global_queue() : create_serial_queue("q");
    sock_set(5, true, false, false);
    socket_notifier n(5, notifier_type::READ, q);
    const int how = choose(SOURCE_USES + 1), when = choose(4);
    auto second = [&n](socket_t, notifier_type) {
        ev(E_MARK, 1);
        n.cancel();
    };
    {
        auto l = last([&n, how, second, q] {
            if (how == SOURCE_USES)
                n.handler(second);
            else
                use_source(how, n, q);
        });
        n.handler([l, when, &n, second](socket_t, notifier_type) {
            ev(E_MARK, 0);
            if (when == 2)
                n.handler(second);
            std::this_thread::sleep_for(milliseconds(5));
        });
    }
    if (when == 0)
        n.handler(second);
    n.resume();
    if (when == 1 || when == 3) {
        std::this_thread::sleep_for(milliseconds(when == 1 ? 5 : 3));
        n.handler(second);
    }
    settled(0);
    if (how == 0 || how == 3)
        XCHECK(when == 0 || count(E_MARK, 0) >= 1, "the first handler never ran");
    else
        XCHECK(count(E_MARK, 1) == 1, "the second handler ran %d times", count(E_MARK, 1));
    n.cancel();
}
SCENARIO("C35", notifier_gone, o.bound = 2; o.bound_thorough = 3; o.timedev = false; o.about = "a notifier is dropped by main; what its handler captured uses the queue of the notifier";)
{
    auto q = choose(2) ? global_queue() : create_serial_queue("q");
    const int how = choose(QUEUE_USES), state = choose(3);
    sock_set(5, true, false, false);
    {
        socket_notifier n(5, notifier_type::READ, q);
        {
            auto l = last([=] { use_queue(how, q, 0); });
            n.handler([l](socket_t, notifier_type) { std::this_thread::sleep_for(milliseconds(5)); });
        }
        if (state)
            n.resume();
        if (state == 2)
            std::this_thread::sleep_for(milliseconds(3));
        n.cancel();
    }
    // the worker may still be blocked in select() for five seconds
    quiesce(6000 * MS);
    settled(1);
}
SCENARIO("C35", signal_handlers, o.bound = 1; o.bound_thorough = 2; o.about = "a handler is disconnected in every way; what it captured uses the signal";)
{
    auto q = choose(2) ? global_queue() : create_serial_queue("q");
    const auto mode = (notification_mode)choose(3);
    const int how = choose(6), way = choose(6);
    auto s = std::make_shared<signal<void(int)>>();
    auto m = std::make_shared<connection_manager>();
    // not s itself when the signal gets destroyed
    const bool destroy = way == 4;
    connection other, c;
    {
        auto weak = std::weak_ptr<signal<void(int)>>(s);
        auto l = last([=, &other] {
            auto sp = weak.lock();
            if (!sp) {
                q.async(work(0));
                return;
            }
            switch (how) {
                case 0: (*sp)(7); break;
                case 1: other = sp->connect([](int) {}, q); break;
                case 2: other.disconnect(); break;
                case 3: sp->skip_all(); break;
                case 4: m->reset_connections(); break;
                case 5: m->reset_connections_with(*sp); break;
            }
            q.async(work(0));
        });
        auto self = std::make_shared<connection>();
        c = s->connect(
          [l, self, way](int i) {
              if (way == 5 && i == 1)
                  self->disconnect();
          },
          q,
          mode);
        *self = c;
        if (way == 5)
            c = connection();
    }
    other = s->connect([](int) { visible(); }, q);
    (*s)(1);
    switch (way) {
        case 0: c.disconnect(); break;
        case 1: s->disconnect(c); break;
        case 2: { scoped_connection sc(c); break; }
        case 3:
            *m += c;
            m->reset_connections();
            break;
        case 4: s.reset(); break;
        case 5: break;
    }
    quiesce();
    if (destroy)
        XCHECK(count(E_DONE) == 1, "destroying the signal");
    settled(1);
}
SCENARIO("C35", signal_waits, o.bound = 2; o.bound_thorough = 3; o.about = "a handler disconnected while its signal is being emitted; what it captured waits for an operation using the signal or the manager";)
{
    signal<void(int)> s;
    connection_manager m;
    const int how = choose(5), mode = choose(3);
    auto self = std::make_shared<connection>();
    {
        auto l = last([&s, &m, how] {
            group g;
            g.async(
              [&s, &m, how] {
                  switch (how) {
                      case 0: s(2); break;
                      case 1: m += s.connect([](int) {}, global_queue()); break;
                      case 2: s.skip_all(); break;
                      case 3: m.reset_connections(); break;
                      case 4: m.reset_connections_with(s); break;
                  }
                  record(0);
              },
              global_queue());
            XCHECK(g.wait(milliseconds(-1)), "wait failed");
        });
        *self = s.connect([l, self](int) { self->disconnect(); }, global_queue(), (notification_mode)mode);
    }
    m += *self;
    std::thread t([&m] {
        visible();
        m.reset_connections();
    });
    s(1);
    *self = connection();
    t.join();
    settled(1);
    m.reset_connections();
}
SCENARIO("C35", manager, o.bound = 2; o.bound_thorough = 3; o.about = "a handler is disconnected while its manager resets all or some connections; what it captured uses the manager";)
{
    signal<void(int)> s, other;
    connection_manager m;
    const int how = choose(4), reset = choose(3);
    connection c;
    {
        auto l = last([&s, &m, how] {
            switch (how) {
                case 0: m += s.connect([](int) {}, global_queue()); break;
                case 1: m.reset_connections(); break;
                case 2: m.reset_connections_with(s); break;
                case 3: m += connection(); break;
            }
            record(0);
        });
        c = s.connect([l](int) {}, global_queue());
    }
    m += c;
    m += other.connect([](int) {}, global_queue());
    std::thread t([&c] { c.disconnect(); });
    if (reset == 0)
        m.reset_connections();
    else
        m.reset_connections_with(reset == 1 ? s : other);
    t.join();
    settled(1);
    m.reset_connections();
}
SCENARIO("C35", main_queue_operations, o.bound = 1; o.bound_thorough = 2; o.about = "objects captured by operations of the main queue use it when they are destroyed";)
{
    auto q = main_queue();
    const int how = choose(QUEUE_USES - 1), way = choose(3);
    group g;
    {
        auto l = last([=] { use_queue(how, q, 1); });
        switch (way) {
            case 0: q.async([l] { record(0); }); break;
            case 1: q.after(milliseconds(1), [l] { record(0); }); break;
            case 2: g.async([l] { record(0); }, q); break;
        }
    }
    std::thread([] {
        settled(2);
        finish();
    }).detach();
    exec();
}
// whatever is done to a timer or notifier, its handler is released without a lock
template<typename T, typename Set>
static void
source_stopped(T& t, const queue& q, Set set)
{
    const int how = choose(SOURCE_USES + 1), state = choose(4), stop = choose(3);
    bool armed = true;
    {
        auto l = last([&t, how, q, set] {
            if (how == SOURCE_USES)
                set([] { std::this_thread::sleep_for(milliseconds(3)); });
            else
                use_source(how, t, q);
        });
        set([l, state, &t, &armed] {
            std::this_thread::sleep_for(milliseconds(3));
            if (state == 3 && armed) {
                armed = false;
                t.cancel();
            }
        });
    }
    if (state)
        t.resume();
    if (state > 1)
        std::this_thread::sleep_for(milliseconds(state == 2 ? 3 : 9));
    switch (stop) {
        case 0: t.cancel(); break;
        case 1: t.suspend(); break;
        case 2: break;
    }
    std::this_thread::sleep_for(milliseconds(1));
    set([] { std::this_thread::sleep_for(milliseconds(3)); });
    std::this_thread::sleep_for(milliseconds(10));
    t.cancel();
    // a worker may still be blocked in select() for five seconds
    quiesce(6000 * MS);
    settled(0);
}
SCENARIO("C35", timer_stopped, o.bound = 1; o.bound_thorough = 2; o.timedev = false; o.about = "a timer is cancelled or suspended in any state, then its handler is replaced; what it captured uses the timer";)
{
    auto q = choose(2) ? global_queue() : create_serial_queue("q");
    timer t(milliseconds(2), q);
    source_stopped(t, q, [&t](std::function<void()> f) { t.handler(f); });
}
SCENARIO("C35", notifier_stopped, o.bound = 1; o.bound_thorough = 2; o.timedev = false; o.about = "a notifier is cancelled or suspended in any state, then its handler is replaced; what it captured uses the notifier";)
{
    auto q = choose(2) ? global_queue() : create_serial_queue("q");
    sock_set(5, true, false, false);
    socket_notifier n(5, notifier_type::READ, q);
    source_stopped(n, q, [&n](std::function<void()> f) { n.handler([f](socket_t, notifier_type) { f(); }); });
}
