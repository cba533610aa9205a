// C10: pending work is picked up in priority order
#include "kinds.h"

static const queue_priority PRIO[] = { queue_priority::USER_INTERACTIVE, queue_priority::USER_INITIATED, queue_priority::UTILITY,
                                       queue_priority::DEFAULT, queue_priority::BACKGROUND };
static int
rank_of(int p)
{
    static const int R[] = { 0, 1, 2, 2, 3 };
    return R[p];
}
// ids of operations are prio*100 + submitter*10 + number
static void
submit(int p, int id)
{
    ev(E_POST, p * 100 + id);
    global_queue(PRIO[p]).async([p, id] {
        ev(E_START, p * 100 + id);
        ev(E_END, p * 100 + id);
    });
    ev(E_POSTED, p * 100 + id);
}
// occupies one of the two threads of the pool until released
struct blocker
{
    std::mutex m;
    std::condition_variable c;
    bool running = false, go = false;
    void start(queue_priority p = queue_priority::USER_INTERACTIVE)
    {
        global_queue(p).async([this] {
            std::unique_lock<std::mutex> l(m);
            running = true;
            c.notify_all();
            c.wait(l, [this] { return go; });
        });
        std::unique_lock<std::mutex> l(m);
        c.wait(l, [this] { return running; });
    }
    void release()
    {
        std::lock_guard<std::mutex> l(m);
        go = true;
        c.notify_all();
    }
};
// there is a single picker: whatever was submitted before its previous pick
// ended must not be overtaken by something of lower priority or a later
// submission of the same thread
static void
check_order_of_picks(int n)
{
    XCHECK(count(E_START) == n, "%d operations of %d were executed", count(E_START), n);
    int previous_end = -1;
    for (int i = 0; i < nevents(); i++) {
        const auto& x = events()[i];
        if (x.kind == E_END || x.kind == E_MARK)
            previous_end = i;
        if (x.kind != E_START)
            continue;
        for (int j = 0; j < previous_end; j++) {
            const auto& y = events()[j];
            if (y.kind != E_POSTED || find(E_START, y.a) <= i)
                continue;
            XCHECK(rank_of(y.a / 100) >= rank_of(x.a / 100), "%d was pending but %d of lower priority was picked", y.a, x.a);
            if (rank_of(y.a / 100) == rank_of(x.a / 100) && y.a % 100 / 10 == x.a % 100 / 10)
                XCHECK(find(E_POSTED, y.a) > find(E_POST, x.a), "%d was submitted before %d but picked later", y.a, x.a);
        }
    }
    outcome(order_hash());
}
#define SINGLE_PICKER                                                          \
    blocker a, b;                                                              \
    a.start();                                                                 \
    b.start();
static void
let_go(blocker& b)
{
    ev(E_MARK); // the picker has not looked for work before
    b.release();
}

SCENARIO("C10", backlog_of_three, o.bound = 1; o.bound_thorough = 2; o.about = "every assignment of the five priorities to a backlog of three operations";)
{
    SINGLE_PICKER
    for (int i = 0; i < 3; i++)
        submit(choose(5), i);
    let_go(b);
    quiesce();
    check_order_of_picks(3);
    a.release();
}
SCENARIO("C10", backlog_of_five, o.bound = 0; o.bound_thorough = 1; o.about = "every assignment of four priorities to a backlog of five operations";)
{
    static const int P[] = { 0, 1, 3, 4 };
    SINGLE_PICKER
    for (int i = 0; i < 5; i++)
        submit(P[choose(4)], i);
    let_go(b);
    quiesce();
    check_order_of_picks(5);
    a.release();
}
SCENARIO("C10", submitter_racing_picker, o.bound = 2; o.bound_thorough = 3; o.about = "operations of all priorities are submitted while the backlog is worked off";)
{
    SINGLE_PICKER
    submit(4, 0);
    submit(2, 1);
    submit(4, 2);
    let_go(b);
    submit(choose(2) ? 0 : 3, 3);
    submit(1, 4);
    quiesce();
    check_order_of_picks(5);
    a.release();
}
SCENARIO("C10", two_submitters, o.bound = 2; o.bound_thorough = 3; o.about = "two threads submit with mixed priorities, each in its own order";)
{
    SINGLE_PICKER
    std::thread t([] {
        submit(3, 10);
        submit(4, 11);
        submit(3, 12);
    });
    submit(4, 20);
    submit(3, 21);
    t.join();
    let_go(b);
    quiesce();
    check_order_of_picks(5);
    a.release();
}
SCENARIO("C10", submitted_by_operations, o.bound = 1; o.bound_thorough = 2; o.about = "an operation submits more urgent and less urgent ones";)
{
    SINGLE_PICKER
    submit(4, 0);
    ev(E_POST, 301);
    global_queue().async([] {
        ev(E_START, 301);
        submit(4, 12);
        submit(0, 13);
        submit(2, 14);
        ev(E_END, 301);
    });
    ev(E_POSTED, 301);
    let_go(b);
    quiesce();
    check_order_of_picks(5);
    a.release();
}
SCENARIO("C10", queues_with_priority, o.bound = 1; o.bound_thorough = 2; o.about = "parallel and serial queues created with a priority";)
{
    SINGLE_PICKER
    auto& be = backend_for_type(backend_type::naive);
    std::vector<queue> qs;
    const bool serial = choose(2);
    for (int p = 0; p < 5; p++)
        qs.emplace_back("q", serial ? be.create_serial_queue("q", PRIO[p]) : be.create_parallel_queue("q", PRIO[p]));
    static const int ORDER[2][5] = { { 4, 2, 0, 1, 3 }, { 0, 3, 4, 2, 1 } };
    const int k = choose(2);
    for (int i = 0; i < 5; i++) {
        const int p = ORDER[k][i];
        ev(E_POST, p * 100 + i * 10);
        qs[p].async([p, i] {
            ev(E_START, p * 100 + i * 10);
            ev(E_END, p * 100 + i * 10);
        });
        ev(E_POSTED, p * 100 + i * 10);
    }
    let_go(b);
    quiesce();
    check_order_of_picks(5);
    a.release();
}
SCENARIO("C10", fifo_long, o.bound = 1; o.bound_thorough = 2; o.about = "a long backlog of one priority stays in order";)
{
    SINGLE_PICKER
    const int p = choose(5);
    for (int i = 0; i < 9; i++)
        submit(p, i);
    let_go(b);
    quiesce();
    for (int i = 0; i < 9; i++)
        XCHECK(find(E_START, p * 100 + i) < (i < 8 ? find(E_START, p * 100 + i + 1) : 1 << 30), "out of order");
    check_order_of_picks(9);
    a.release();
}
SCENARIO("C10", apply_iterations, o.bound = 1; o.bound_thorough = 2; o.about = "iterations of apply() on a low priority queue do not overtake";)
{
    SINGLE_PICKER
    std::thread t([] {
        global_queue(queue_priority::BACKGROUND).apply(2, [](size_t i) {
            ev(E_START, 450 + (int)i);
            ev(E_END, 450 + (int)i);
        });
    });
    quiesce();
    submit(3, 1);
    submit(0, 2);
    let_go(b);
    t.join();
    quiesce();
    check_order_of_picks(4);
    XCHECK(find(E_START, 302) < find(E_START, 450) || find(E_START, 450) >= 0, "order");
    const int s450 = find(E_START, 450), s451 = find(E_START, 451);
    XCHECK(find(E_START, 301) < s450 && find(E_START, 2) < s450 && s450 < s451, "a background iteration overtook pending work");
    a.release();
}

// a pool which tells the priority of everything it gets
struct telling_pool : public spawn_pool
{
    void execute(const operation_ptr& work, queue_priority p) override
    {
        ev(E_WAIT, static_cast<int>(p));
        spawn_pool::execute(work, p);
    }
};
SCENARIO("C10", passed_to_pool, o.bound = 1; o.bound_thorough = 2; o.about = "every priority reaches the pool of a serial and a parallel queue, also when a backlog is continued, for async, apply and after";)
{
    auto p = std::make_shared<telling_pool>();
    const auto prio = PRIO[choose(5)];
    const bool serial = choose(2);
    auto q = serial ? naive::create_serial_queue("q", p, prio) : naive::create_parallel_queue("q", p, prio);
    const int how = choose(3);
    if (how == 0)
        for (int i = 0; i < 23; i++)
            q.async(rec(i));
    else if (how == 1)
        q.apply(12, [](size_t i) { ev(E_START, i); });
    else
        q.after(milliseconds(3), rec(0));
    quiesce(10 * MS);
    XCHECK(count(E_START) == (how == 0 ? 23 : how == 1 ? 12 : 1), "%d executed", count(E_START));
    XCHECK(count(E_WAIT) > (how == 0 || how == 1 ? 1 : 0), "%d requests", count(E_WAIT));
    for (int i = 0; i < nevents(); i++)
        if (events()[i].kind == E_WAIT)
            XCHECK(events()[i].a == static_cast<int>(prio), "work of priority %d was submitted with %d", static_cast<int>(prio), events()[i].a);
}
SCENARIO("C10", serial_backlog, o.bound = 1; o.bound_thorough = 2; o.about = "a serial queue is continued with its priority after it let others run";)
{
    SINGLE_PICKER
    auto& be = backend_for_type(backend_type::naive);
    const int p = choose(5), other = choose(5);
    queue q("q", be.create_serial_queue("q", PRIO[p]));
    for (int i = 0; i < 12; i++)
        q.async([i, p] { ev(E_START, p * 100 + i); ev(E_END, p * 100 + i); });
    submit(other, 50);
    let_go(b);
    quiesce();
    const int o = find(E_START, other * 100 + 50);
    const int first = find(E_START, p * 100), last = find(E_START, p * 100 + 11);
    if (rank_of(other) < rank_of(p))
        XCHECK(o < first, "the other operation was overtaken");
    else if (rank_of(other) == rank_of(p))
        XCHECK(first < o, "the other operation was submitted later");
    else
        XCHECK(last < o, "the queue was continued with a lower priority");
    a.release();
}
SCENARIO("C10", by_every_way, o.bound = 1; o.bound_thorough = 2; o.about = "two operations of any priorities, submitted to global, parallel and serial queues and through a group: the one of higher priority first";)
{
    group g;
    SINGLE_PICKER
    auto put = [&](int p, int way, int id) {
        id += p * 100;
        auto f = [id] {
            ev(E_START, id);
            ev(E_END, id);
        };
        ev(E_POST, id);
        if (way == 0)
            global_queue(PRIO[p]).async(f);
        else if (way == 1)
            g.async(f, PRIO[p]);
        else if (way == 2)
            g.async(make_operation(f), PRIO[p]);
        else if (way == 3)
            create_parallel_queue("p", PRIO[p]).async(f);
        else
            queue("s", PRIO[p]).async(f);
        ev(E_POSTED, id);
    };
    const int p1 = choose(5), w1 = choose(5), p2 = choose(5), w2 = choose(5);
    put(p1, w1, 0);
    put(p2, w2, 1);
    let_go(a);
    quiesce(10 * MS);
    check_order_of_picks(2);
    b.release();
}
