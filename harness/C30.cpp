// C30: work that never ceases does not keep other work from starting
#include "common.h"
#include "queues.h"
#include "sockets.h"
#include "timers.h"

namespace {

// operations that submit themselves again, each taking a millisecond
struct hog
{
    explicit hog(int total)
      : m_total(total)
      , m_n(0)
    {}
    int started() const { return m_n; }
    void feed(queue q, std::shared_ptr<hog> self)
    {
        q.async([self, q] { self->step(q, self); });
    }
    void step(const queue& q, const std::shared_ptr<hog>& self)
    {
        if (m_n >= m_total)
            return;
        ++m_n;
        std::this_thread::sleep_for(milliseconds(1));
        feed(q, self);
    }
    int m_total;
    int m_n; // only looked at while scheduling points are not
};

// the number of operations of the hog that start between the submission and
// the start of another one
struct victim
{
    int from = -1, at = -1, runs = 0;
    std::shared_ptr<hog> h;
    explicit victim(std::shared_ptr<hog> hg)
      : h(hg)
    {}
    void submitted() { from = h->started(); }
    void run()
    {
        ++runs;
        at = h->started();
    }
    void check(int limit, const char* what)
    {
        XCHECK(runs == 1 && at >= from && at - from <= limit, "%s: started %d times after %d of %d further operations", what, runs, at - from, h->started() - from);
    }
};

void
submit(int kind, queue q, std::shared_ptr<victim> v)
{
    v->submitted();
    switch (kind) {
        case 0:
            q.async([v] { v->run(); });
            break;
        case 1: {
            group g;
            g.async([v] { v->run(); }, q);
            break;
        }
        case 2:
            q.after(milliseconds(2), [v] { v->run(); });
            break;
        case 3: {
            group g;
            g.notify([v] { v->run(); }, q);
            break;
        }
    }
}

} // namespace

#define LONG(...) o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.max_steps = 900000; o.about = __VA_ARGS__

// The pool makes sure each of the threads that submitted work gets its turn,
// at the latest after some hundred operations for each of them.
static void
pool(int n_hogs, bool serial_hogs, int nvict, bool parallel_victim)
{
    auto h = std::make_shared<hog>(4200);
    int prio = choose(2);
    auto p = prio ? queue_priority::BACKGROUND : queue_priority::DEFAULT;
    auto mk = [&](bool serial, queue_priority pr) {
        return serial ? queue("q", pr) : create_parallel_queue("q", pr);
    };
    for (int i = 0; i < n_hogs; i++)
        h->feed(mk(serial_hogs, p), h);
    int kind = choose(nvict);
    std::this_thread::sleep_for(milliseconds(20));
    // of the same or a higher priority
    auto v = std::make_shared<victim>(h);
    auto q = mk(!parallel_victim, choose(2) ? queue_priority::USER_INTERACTIVE : p);
    submit(kind, q, v);
    quiesce(10000 * MS);
    XCHECK(h->started() == 4200, "hog ran %d times", h->started());
    v->check(2000, "operation sharing the pool");
}
SCENARIO("C30", pool_serial, o.cpus = 1; LONG("as many serial queues as the pool has threads submit to themselves without end; another queue of the same or a higher priority gets its turn"))
{
    pool(2, true, 4, false);
}
SCENARIO("C30", pool_serial_more, o.cpus = 1; LONG("more endless serial queues than the pool has threads; a parallel queue gets its turn"))
{
    pool(3, true, 1, true);
}
SCENARIO("C30", pool_parallel, o.cpus = 1; LONG("endless operations of parallel queues; a serial queue gets its turn"))
{
    pool(3, false, 3, false);
}

// a thread that does nothing but submit, faster than the pool can follow
SCENARIO("C30", pool_flooded, o.cpus = 1; LONG("a thread submits faster than the pool can follow; the operation of another one gets its turn"))
{
    auto h = std::make_shared<hog>(0);
    queue a = create_parallel_queue("a"), b = create_parallel_queue("b");
    std::thread t([=] {
        for (int i = 0; i < 1500; i++) {
            for (auto q : { a, a, b, b })
                q.async([h] {
                    h->m_n++;
                    std::this_thread::sleep_for(milliseconds(1));
                });
            std::this_thread::sleep_for(milliseconds(1));
        }
    });
    std::this_thread::sleep_for(milliseconds(100));
    auto v = std::make_shared<victim>(h);
    queue q = choose(2) ? create_parallel_queue("c") : create_serial_queue("c");
    submit(choose(3), q, v);
    t.join();
    quiesce(10000 * MS);
    XCHECK(h->started() == 6000, "flood ran %d times", h->started());
    v->check(2000, "operation sharing the pool");
}

// ---- queues sharing one thread: each turn takes a limited number of operations
SCENARIO("C30", shared_thread, LONG("serial queues share a thread, one or two of them submit to themselves without end, one or several operations at a time"))
{
    auto t = std::make_shared<fixed_pool>(1);
    auto h = std::make_shared<hog>(1200);
    int hogs = 1 + choose(2), pending = choose(2) ? 15 : 1;
    for (int i = 0; i < hogs; i++) {
        auto q = naive::create_serial_queue("h", t);
        for (int k = 0; k < pending; k++)
            h->feed(q, h);
    }
    auto q = naive::create_serial_queue("q", t);
    auto v = std::make_shared<victim>(h);
    int kind = choose(4);
    std::this_thread::sleep_for(milliseconds(choose(2) ? 20 : 0));
    submit(kind, q, v);
    quiesce(10000 * MS);
    XCHECK(h->started() == 1200, "hog ran %d times", h->started());
    v->check(200, "operation sharing a thread");
    t->s.reset();
    finish();
}
SCENARIO("C30", manual_thread, LONG("as before on the thread that executes the main queue"))
{
    auto h = std::make_shared<hog>(1200);
    int pending = choose(2) ? 15 : 1;
    auto v = std::make_shared<victim>(h);
    for (int k = 0; k < pending; k++)
        h->feed(main_queue(), h);
    int kind = choose(4);
    std::thread u([=] {
        std::this_thread::sleep_for(milliseconds(20));
        submit(kind, main_queue(), v);
    });
    std::thread w([=] {
        quiesce(10000 * MS);
        XCHECK(h->started() == 1200, "hog ran %d times", h->started());
        v->check(200, "operation of the main queue");
        finish();
    });
    exec();
}

// ---- sources of events that never run dry ----------------------------------
SCENARIO("C30", busy_timer, LONG("a timer whose handler takes longer than its interval does not keep its queue's or thread's other operations from starting"))
{
    auto t = std::make_shared<fixed_pool>(1);
    auto q = naive::create_serial_queue("q", t), r = naive::create_serial_queue("r", t);
    auto h = std::make_shared<hog>(0);
    timer tm(milliseconds(choose(2) ? 1 : 3), q);
    tm.handler([h] {
        h->m_n++;
        std::this_thread::sleep_for(milliseconds(3));
    });
    tm.resume();
    auto v = std::make_shared<victim>(h);
    auto on = choose(2) ? q : r;
    int kind = choose(4);
    std::this_thread::sleep_for(milliseconds(50));
    submit(kind, on, v);
    std::this_thread::sleep_for(milliseconds(500));
    v->check(100, "operation sharing a queue with a timer");
    XCHECK(h->started() >= 50, "the timer's handler ran %d times", h->started());
    finish();
}
SCENARIO("C30", busy_socket, LONG("a socket that stays ready does not keep its queue's or thread's other operations, nor another notifier's, from starting"))
{
    static Sock s(3), s2(4);
    s.set(true, true);
    auto t = std::make_shared<fixed_pool>(1);
    auto q = naive::create_serial_queue("q", t), r = naive::create_serial_queue("r", t);
    auto h = std::make_shared<hog>(0);
    auto type = choose(2) ? notifier_type::READ : notifier_type::WRITE;
    socket_notifier n(3, type, q);
    n.handler(socket_notifier_operation::make([h](socket_t, notifier_type) {
        h->m_n++;
        std::this_thread::sleep_for(milliseconds(3));
    }));
    n.resume();
    auto v = std::make_shared<victim>(h);
    auto on = choose(2) ? q : r;
    int kind = choose(5);
    std::this_thread::sleep_for(milliseconds(50));
    std::unique_ptr<socket_notifier> n2;
    if (kind < 4)
        submit(kind, on, v);
    else {
        n2.reset(new socket_notifier(4, notifier_type::READ, on));
        n2->handler(socket_notifier_operation::make([v](socket_t, notifier_type) {
            v->run();
            s2.set(false, false);
        }));
        n2->resume();
        v->submitted();
        s2.set(true, false);
    }
    std::this_thread::sleep_for(milliseconds(500));
    v->check(100, "operation sharing a queue with a notifier");
    XCHECK(h->started() >= 50, "the notifier's handler ran %d times", h->started());
    finish();
}
