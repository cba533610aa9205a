// C23: operations, queues and pools are released exactly when unused
#include "sockets.h"
#include <deque>

// a pool of n threads which are joined by the destructor; this completes
// everything queued and cannot be done on one of those threads
struct owned_pool : public naive::ithreadpool
{
    std::mutex m;
    std::condition_variable c;
    std::deque<operation_ptr> q;
    std::vector<std::thread> threads;
    bool stop = false;
    const int id;
    explicit owned_pool(int n, int i = 0)
      : id(i)
    {
        for (int t = 0; t < n; t++)
            threads.emplace_back([this] { work(); });
    }
    void work()
    {
        for (;;) {
            operation_ptr op;
            {
                std::unique_lock<std::mutex> l(m);
                c.wait(l, [&] { return stop || !q.empty(); });
                if (q.empty())
                    return;
                op = q.front();
                q.pop_front();
            }
            run_with_threadpool(*op, this);
        }
    }
    ~owned_pool() override
    {
        for (auto& t : threads)
            XCHECK(t.get_id() != std::this_thread::get_id(), "a pool is destroyed on one of its own threads");
        {
            std::lock_guard<std::mutex> l(m);
            stop = true;
            c.notify_all();
        }
        for (auto& t : threads)
            t.join();
        ev(E_DONE, -1 - id);
    }
    void execute(const operation_ptr& work, queue_priority) override
    {
        std::lock_guard<std::mutex> l(m);
        XCHECK(!stop, "used while it is destroyed");
        q.push_back(work);
        c.notify_one();
    }
    void notify_thread_blocked() override {}
    void notify_thread_unblocked() override {}
};
static std::shared_ptr<naive::ithreadpool>
pool(int n, int id = 0)
{
    return std::make_shared<owned_pool>(n, id);
}
static queue
queue_on(const std::shared_ptr<naive::ithreadpool>& p, bool parallel)
{
    return parallel ? naive::create_parallel_queue("p", p) : naive::create_serial_queue("s", p);
}

// E_START/E_END around the execution, E_DONE on destruction
struct Op : public operation
{
    const int id;
    std::function<void()> body;
    explicit Op(int i, std::function<void()> b = {})
      : id(i)
      , body(std::move(b))
    {
    }
    ~Op() override { ev(E_DONE, id); }
    void operator()() override
    {
        ev(E_START, id);
        if (body)
            body();
        ev(E_END, id);
    }
};
static operation_ptr
op(int id, std::function<void()> body = {})
{
    return std::make_shared<Op>(id, std::move(body));
}
// n operations were executed and destroyed afterwards, once each
static void
check_released(int n)
{
    for (int i = 0; i < n; i++) {
        XCHECK(count(E_START, i) == 1 && count(E_END, i) == 1, "operation %d was executed %d times", i, count(E_START, i));
        XCHECK(count(E_DONE, i) == 1, "operation %d was %s", i, count(E_DONE, i) ? "destroyed several times" : "not destroyed");
        XCHECK(find(E_DONE, i) > find(E_END, i), "operation %d was destroyed before it was done", i);
    }
}
static void
check_pool(int id = 0)
{
    XCHECK(count(E_DONE, -1 - id) == 1, "the pool is still alive");
}
// the only handle of a queue, given up by whoever takes it
using Box = std::shared_ptr<std::unique_ptr<queue>>;
static Box
box(const queue& q)
{
    return std::make_shared<std::unique_ptr<queue>>(new queue(q));
}

SCENARIO("C23", own_pool, o.bound = 2; o.bound_thorough = 3; o.about = "queue on a pool whose last handle is the queue's: dropped by main, its own operation, with its operation, by a thread";)
{
    const bool parallel = choose(2);
    const int threads = 1 + choose(2);
    const int where = choose(5);
    Box b;
    {
        auto p = pool(threads);
        b = box(queue_on(p, parallel));
    }
    (*b)->async(op(0));
    if (where == 1)
        (*b)->async(op(1, [b] { b->reset(); }));
    else if (where == 2)
        // the operation is the last one to own the queue
        (*b)->async(op(1, [b] { visible(); }));
    else
        (*b)->async(op(1));
    if (where == 3) {
        std::thread t([b] { b->reset(); });
        t.join();
    }
    if (where == 0)
        b->reset();
    if (where == 4) {
        quiesce(0);
        b->reset();
    }
    b.reset();
    quiesce(2500 * MS);
    check_released(2);
    check_pool();
}
SCENARIO("C23", two_queues, o.bound = 2; o.bound_thorough = 3; o.about = "two queues on a pool: the last handles dropped by an operation of the other one, by main, by a thread";)
{
    const int kinds = choose(3);
    const int where = choose(4);
    Box a, b;
    {
        auto p = pool(1);
        a = box(queue_on(p, kinds != 0));
        b = box(queue_on(p, kinds == 1));
    }
    switch (where) {
        case 0: (*b)->async(op(1)); (*a)->async(op(0, [a, b] { a->reset(); b->reset(); })); break;
        case 1: {
            // either main or the operations drop the last handles
            queue c(**a), d(**b);
            c.async(op(0, [b] { b->reset(); }));
            d.async(op(1, [a] { a->reset(); }));
            break;
        }
        case 2: (*a)->async(op(0)); (*b)->async(op(1, [a, b] { a->reset(); b->reset(); })); break;
        case 3: {
            (*a)->async(op(1));
            (*a)->async(op(0, [b] { b->reset(); }));
            std::thread t([a] { a->reset(); });
            t.join();
            break;
        }
    }
    a.reset();
    b.reset();
    quiesce(2500 * MS);
    check_released(2);
    check_pool();
}
SCENARIO("C23", first_of_two, o.bound = 2; o.bound_thorough = 3; o.about = "one of two queues of a pool is gone for long when an operation drops the other one";)
{
    const int kinds = choose(4);
    auto p = pool(1);
    auto a = box(queue_on(p, kinds & 1)), b = box(queue_on(p, kinds & 2));
    p.reset();
    (*a)->async(op(0));
    a->reset();
    quiesce(2500 * MS);
    XCHECK(count(E_DONE, -1) == 0, "the pool was destroyed before its last queue");
    if (choose(2))
        (*b)->async(op(1, [b] { b->reset(); }));
    else
        (*b)->async(op(1, [b] { visible(); }));
    b.reset();
    quiesce(2500 * MS);
    check_released(2);
    check_pool();
}
SCENARIO("C23", first_of_many, o.bound = 1; o.bound_thorough = 2; o.about = "queues of two pools are created in turns, one is gone for long when an operation drops the last one of its pool";)
{
    const int kinds = choose(2), first = choose(2);
    auto p = pool(1), r = pool(1, 1);
    auto a = box(queue_on(p, true)), x = box(queue_on(r, kinds)), b = box(queue_on(p, true)), y = box(queue_on(r, kinds));
    p.reset();
    r.reset();
    auto& gone = first ? b : a;
    auto& last = first ? a : b;
    (*gone)->async(op(0));
    gone->reset();
    quiesce(100 * MS);
    XCHECK(count(E_DONE, -1) == 0, "the pool was destroyed before its last queue");
    (*last)->async(op(1, [last] { last->reset(); }));
    last.reset();
    quiesce(2500 * MS);
    check_pool(0);
    XCHECK(count(E_DONE, -2) == 0, "the other pool was destroyed");
    (*y)->async(op(2));
    (*x)->async(op(3, [x] { x->reset(); }));
    y->reset();
    x.reset();
    quiesce(2500 * MS);
    check_released(4);
    check_pool(1);
}
SCENARIO("C23", two_pools, o.bound = 1; o.bound_thorough = 2; o.about = "an operation of one pool drops the queue of another one, and the other way round";)
{
    const int kinds = choose(4);
    Box a, b;
    {
        auto p = pool(1, 0), q = pool(1, 1);
        a = box(queue_on(p, kinds & 1));
        b = box(queue_on(q, kinds & 2));
    }
    {
        queue c(**a), d(**b);
        c.async(op(0, [b] { b->reset(); }));
        d.async(op(1, [a] { a->reset(); }));
    }
    a.reset();
    b.reset();
    quiesce(2500 * MS);
    check_released(2);
    check_pool(0);
    check_pool(1);
}
SCENARIO("C23", user_keeps_pool, o.bound = 1; o.bound_thorough = 2; o.about = "queues come and go on a pool which the user keeps and finally destroys";)
{
    const bool parallel = choose(2);
    auto p = pool(1 + choose(2));
    std::weak_ptr<naive::ithreadpool> w = p;
    for (int i = 0; i < 2; i++) {
        auto q = queue_on(p, parallel);
        q.async(op(i));
    }
    quiesce(2500 * MS);
    check_released(2);
    XCHECK(w.use_count() == 1, "the pool is still in use");
    p.reset();
    check_pool();
}
SCENARIO("C23", executed_then_released, o.bound = 2; o.bound_thorough = 3; o.about = "operations of every way to submit are destroyed after their execution, once, and nothing idle keeps them";)
{
    group g;
    auto q = choose(2) ? global_queue() : create_serial_queue("q");
    const int way = choose(7);
    std::weak_ptr<operation> w;
    {
        auto o = op(0);
        w = o;
        switch (way) {
            case 0: q.async(o); break;
            case 1: q.after(milliseconds(3), o); break;
            case 2: g.async(o, q); break;
            case 3: g.notify(o, q); break;
            case 4: g.async(op(1), q); g.notify(o, q); break;
            case 5: {
                waitable_queue wq("w", q);
                wq.async(o);
                wq.wait_for_all();
                break;
            }
            case 6: q.async(o); q.async(op(1)); break;
        }
    }
    quiesce(1000 * MS);
    quiesce(1000 * MS);
    check_released(way == 4 || way == 6 ? 2 : 1);
    XCHECK(w.expired(), "the operation is still alive");
}
SCENARIO("C23", held_by_user, o.bound = 2; o.bound_thorough = 3; o.about = "an operation the user keeps and submits twice is not destroyed; what others keep is released in time";)
{
    auto q = create_serial_queue("q");
    {
        auto o = op(0);
        q.async(o);
        q.async(o);
        quiesce(2500 * MS);
        XCHECK(count(E_START, 0) == 2 && count(E_DONE, 0) == 0 && o.use_count() == 1, "executed %d times, %ld owners", count(E_START, 0), o.use_count());
    }
    XCHECK(count(E_DONE, 0) == 1, "destroyed %d times", count(E_DONE, 0));
}
SCENARIO("C23", destructor_submits, o.bound = 2; o.bound_thorough = 3; o.about = "the destructor of an operation submits another one, on the same queue or group";)
{
    struct Last
    {
        std::function<void()> f;
        ~Last() { f(); }
    };
    group g;
    auto q = choose(2) ? global_queue() : create_serial_queue("q");
    const int way = choose(3);
    {
        auto last = std::make_shared<Last>();
        last->f = [&, way] {
            if (way == 1)
                g.async(op(1), q);
            else
                q.async(op(1));
        };
        if (way == 0)
            q.async(op(0, [last] { visible(); }));
        else if (way == 1)
            g.async(op(0, [last] { visible(); }), q);
        else
            q.after(milliseconds(1), op(0, [last] { visible(); }));
    }
    quiesce(2500 * MS);
    check_released(2);
}
SCENARIO("C23", group_gone, o.bound = 2; o.bound_thorough = 3; o.about = "a group dropped with operations and notifications pending, also by its own operation";)
{
    auto q = choose(2) ? global_queue() : create_serial_queue("q");
    const int where = choose(3);
    auto g = std::make_shared<std::unique_ptr<group>>(new group);
    {
        group h(**g);
        h.async(where == 1 ? op(0, [g] { g->reset(); }) : op(0), q);
        h.notify(op(1), q);
        if (where == 2)
            h.async(op(2, [g] { visible(); }), q);
    }
    if (where == 0)
        g->reset();
    g.reset();
    quiesce(2500 * MS);
    check_released(where == 2 ? 3 : 2);
}
SCENARIO("C23", queue_and_group_gone, o.bound = 2; o.bound_thorough = 3; o.about = "queue and group on a user pool are dropped while the group is not done";)
{
    const bool parallel = choose(2);
    const int where = choose(3);
    {
        Box b;
        {
            auto p = pool(1);
            b = box(queue_on(p, parallel));
        }
        group g;
        g.async(op(0), **b);
        if (where)
            g.notify(op(1), **b);
        else
            (*b)->async(op(1));
        if (where == 2)
            g.async(op(2, [b] { b->reset(); }), **b);
        else
            (*b)->async(op(2));
    }
    quiesce(2500 * MS);
    check_released(3);
    check_pool();
}
SCENARIO("C23", after_gone, o.bound = 1; o.bound_thorough = 2; o.about = "a queue dropped with a delayed operation pending, which is executed and then releases everything";)
{
    const bool parallel = choose(2);
    {
        auto p = pool(1);
        auto q = queue_on(p, parallel);
        p.reset();
        q.after(milliseconds(2), op(0));
        if (choose(2))
            q.after(milliseconds(3), op(1));
        else
            q.async(op(1));
    }
    quiesce(1000 * MS);
    quiesce(1000 * MS);
    check_released(2);
    check_pool();
}
SCENARIO("C23", timer_gone, o.bound = 2; o.bound_thorough = 3; o.about = "a suspended, cancelled or single shot timer is dropped by main or its handler";)
{
    const bool parallel = choose(2);
    const int how = choose(4);
    {
        auto p = pool(1);
        auto q = queue_on(p, parallel);
        p.reset();
        auto t = std::make_shared<std::unique_ptr<timer>>(new timer(milliseconds(how == 2 ? 0 : 2), q));
        if (how == 3) {
            // never started
            (*t)->handler(op(0));
        } else {
            auto* raw = t->get();
            (*t)->handler(op(0, [how, raw] {
                if (how == 0)
                    raw->cancel();
                if (how == 1)
                    raw->suspend();
            }));
            (*t)->resume();
            quiesce(3 * MS);
        }
        t->reset();
    }
    quiesce(1000 * MS);
    quiesce(1000 * MS);
    if (how != 3)
        check_released(1);
    XCHECK(count(E_DONE, 0) == 1, "the handler is still alive");
    check_pool();
}
SCENARIO("C23", timer_gone_in_handler, o.bound = 2; o.bound_thorough = 3; o.about = "the handler cancels or suspends its timer and drops the last handle of it";)
{
    const bool parallel = choose(2);
    const bool cancel = choose(2);
    std::unique_ptr<timer> t;
    {
        auto p = pool(1);
        auto q = queue_on(p, parallel);
        p.reset();
        t.reset(new timer(milliseconds(2), q));
        auto* box = &t;
        t->handler(op(0, [cancel, box] {
            if (cancel)
                (*box)->cancel();
            else
                (*box)->suspend();
            box->reset();
        }));
        t->resume();
    }
    quiesce(1000 * MS);
    quiesce(1000 * MS);
    check_released(1);
    check_pool();
}
SCENARIO("C23", waitable_gone, o.bound = 2; o.bound_thorough = 3; o.about = "a waitable queue dropped with operations pending, by main, by its own operation or after waiting";)
{
    const bool parallel = choose(2);
    const int where = choose(3);
    {
        auto p = pool(1);
        auto q = queue_on(p, parallel);
        p.reset();
        auto w = std::make_shared<std::unique_ptr<waitable_queue>>(new waitable_queue("w", q));
        (*w)->async(op(0));
        if (where == 1)
            (*w)->async(op(1, [w] { w->reset(); }));
        else
            (*w)->async(op(1));
        if (where == 2)
            (*w)->wait_for_one();
        if (where != 1)
            w->reset();
    }
    quiesce(2500 * MS);
    check_released(2);
    check_pool();
}
SCENARIO("C23", notifier_gone, o.bound = 1; o.bound_thorough = 2; o.about = "a suspended, cancelled or never started notifier is dropped";)
{
    const bool parallel = choose(2);
    const int how = choose(3);
    Sock s{ 5 };
    s.set(how != 2, false);
    {
        auto p = pool(1);
        auto q = queue_on(p, parallel);
        p.reset();
        auto used = op(7);
        socket_notifier n(s.fd, notifier_type::READ, q);
        n.handler(on_ready(s, notifier_type::READ, 0, 1, [used] { visible(); }));
        if (how != 2) {
            n.resume();
            quiesce(1 * MS);
            if (how == 0)
                n.cancel();
            else
                n.suspend();
            s.set(false, false);
        }
    }
    // the notifier looks every 5 seconds
    quiesce(6000 * MS);
    quiesce(6000 * MS);
    XCHECK(count(E_DONE, 7) == 1, "the handler is still alive");
    check_pool();
}
SCENARIO("C23", queue_in_handles, o.bound = 2; o.bound_thorough = 3; o.about = "copies of a queue handle dropped by two threads and an operation at the same time";)
{
    const bool parallel = choose(2);
    {
        auto p = pool(1);
        auto q = queue_on(p, parallel);
        p.reset();
        auto c = q;
        auto d = box(q);
        std::thread t([c, d]() mutable {
            c.async(op(0));
            c = global_queue();
        });
        q.async(op(1, [d] { d->reset(); }));
        d.reset();
        q = global_queue();
        t.join();
    }
    quiesce(2500 * MS);
    check_released(2);
    check_pool();
}
SCENARIO("C23", own_pool_many, o.bound = 1; o.bound_thorough = 2; o.about = "a serial queue dropped with more operations pending than it executes in one go";)
{
    const int where = choose(3);
    {
        Box b;
        {
            auto p = pool(1);
            b = box(queue_on(p, false));
        }
        queue c(**b);
        for (int i = 0; i < 12; i++)
            c.async(where && i == (where == 1 ? 0 : 10) ? op(i, [b] { b->reset(); }) : op(i));
    }
    quiesce(2500 * MS);
    check_released(12);
    check_pool();
}
SCENARIO("C23", pool_threads_released, o.bound = 0; o.bound_thorough = 1; o.about = "nothing is left behind by queues, groups, timers and their operations";)
{
    const int what = choose(5);
    check_no_growth([&] {
        switch (what) {
            case 0: create_serial_queue("q").async(op(0)); break;
            case 1: create_parallel_queue("q").async(op(0)); break;
            case 2: { group g; g.async(op(0), global_queue()); g.notify(op(1), global_queue()); } break;
            case 3: create_serial_queue("q").after(milliseconds(1), op(0)); break;
            case 4: { timer t(milliseconds(1), create_serial_queue("q")); t.handler(op(0)); t.resume(); quiesce(2 * MS); t.cancel(); } break;
        }
    }, 2500 * MS, 6);
}
