// C26: the queue of the pool's pending work neither loses nor duplicates
#include "queues.h"
#include "xdispatch_internal.h"
#include "naive/naive_concurrentqueue.h"

#define MC(b, bt, text) o.mcpoints = true; o.races = true; o.bound = b; o.bound_thorough = bt; o.about = text

// an element that knows whether it may be touched
struct elem
{
    static int live;
    int v = -1;
    std::unique_ptr<int> p;
    elem() { }
    explicit elem(int i) : v(i), p(new int(i)) { }
    elem(elem&& o) : v(o.v), p(std::move(o.p)) { o.v = -2; }
    elem& operator=(elem&& o)
    {
        XCHECK(o.p && *o.p == o.v, "an element was read that is not there (%d)", o.v);
        v = o.v;
        p = std::move(o.p);
        o.v = -2;
        return *this;
    }
};
struct small_traits : public moodycamel::ConcurrentQueueDefaultTraits
{
    static const size_t BLOCK_SIZE = 2;
    static const size_t EXPLICIT_BLOCK_EMPTY_COUNTER_THRESHOLD = 2;
    static const size_t IMPLICIT_INITIAL_INDEX_SIZE = 2;
    static const size_t INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = 4;
};
using small_queue = moodycamel::ConcurrentQueue<elem, small_traits>;
using pool_queue = naive::concurrentqueue<operation_ptr>;

// E_POST/E_POSTED around enqueue, E_START(v) when an element arrived
template<typename Q>
static void
put(Q& q, int v)
{
    ev(E_POST, v);
    XCHECK(q.enqueue(elem(v)), "enqueue failed");
    ev(E_POSTED, v);
}
template<typename Q>
static int
get(Q& q)
{
    elem e;
    if (!q.try_dequeue(e))
        return -1;
    XCHECK(e.p && *e.p == e.v, "element %d is damaged", e.v);
    ev(E_START, e.v, tid());
    return e.v;
}
// takes what is left, then everything has to have arrived once; elements
// [base, base + n) of every producer are in order if there is one consumer only
template<typename Q>
static void
finish_queue(Q& q, int n)
{
    while (get(q) >= 0)
        ;
    check_once(n);
    XCHECK(q.size_approx() == 0, "%d elements left in an empty queue", (int)q.size_approx());
    outcome(order_hash());
}
// whatever one consumer received from one producer (10 elements each) is in order
static void
check_producer_order()
{
    for (int i = 0; i < nevents(); i++)
        for (int j = i + 1; j < nevents(); j++) {
            auto &a = events()[i], &b = events()[j];
            if (a.kind == E_START && b.kind == E_START && a.b == b.b && a.a / 10 == b.a / 10)
                XCHECK(a.a < b.a, "element %d arrived before %d", a.a, b.a);
        }
}
static void
check_ids(std::vector<int> ids)
{
    for (int id : ids)
        XCHECK(count(E_START, id) == 1, "element %d arrived %d times", id, count(E_START, id));
    XCHECK(count(E_START) == (int)ids.size(), "unknown elements arrived");
}

SCENARIO("C26", one_producer_one_consumer, MC(4, 6, "three elements, dequeued while they are enqueued, blocks of two"))
{
    small_queue q(2);
    std::thread t([&] {
        for (int i = 0; i < 3; i++)
            put(q, i);
    });
    get(q);
    get(q);
    t.join();
    finish_queue(q, 3);
    check_producer_order();
}
SCENARIO("C26", two_producers, MC(3, 4, "two producers, one consumer, producers are added while dequeuing"))
{
    small_queue q(2);
    std::thread t([&] { put(q, 0); put(q, 1); });
    std::thread u([&] { put(q, 10); put(q, 11); });
    get(q);
    get(q);
    t.join();
    u.join();
    while (get(q) >= 0)
        ;
    check_ids({ 0, 1, 10, 11 });
    check_producer_order();
}
SCENARIO("C26", two_consumers, MC(4, 5, "three elements fully enqueued, two consumers: enough for everyone who asks"))
{
    small_queue q(2);
    for (int i = 0; i < 3; i++)
        put(q, i);
    std::thread t([&] { XCHECK(get(q) >= 0, "a dequeue failed although there are enough elements"); });
    XCHECK(get(q) >= 0, "a dequeue failed although there are enough elements");
    t.join();
    XCHECK(get(q) >= 0, "the last element is gone");
    XCHECK(get(q) < 0, "an element too much");
    check_once(3);
    check_producer_order();
}
SCENARIO("C26", last_element_contended, MC(4, 6, "three consumers compete for two elements of one producer"))
{
    small_queue q(2);
    put(q, 0);
    put(q, 1);
    int n[3] = {};
    std::thread t([&] { n[0] = get(q) >= 0; });
    std::thread u([&] { n[1] = get(q) >= 0; });
    n[2] = get(q) >= 0;
    t.join();
    u.join();
    finish_queue(q, 2);
    outcome(n[0] + n[1] + n[2]);
}
SCENARIO("C26", producer_and_two_consumers, MC(3, 4, "two consumers while a producer crosses a block boundary"))
{
    small_queue q(2);
    std::thread t([&] {
        for (int i = 0; i < 4; i++)
            put(q, i);
    });
    std::thread u([&] { get(q); get(q); });
    get(q);
    get(q);
    t.join();
    u.join();
    finish_queue(q, 4);
    check_producer_order();
}
SCENARIO("C26", blocks_recycled, MC(3, 4, "emptied blocks are taken up again by two producers"))
{
    small_queue q(2);
    for (int i = 0; i < 4; i++)
        put(q, i);
    std::thread t([&] {
        for (int i = 0; i < 4; i++)
            get(q);
    });
    std::thread u([&] { put(q, 10); put(q, 11); });
    put(q, 4);
    put(q, 5);
    t.join();
    u.join();
    while (get(q) >= 0)
        ;
    check_ids({ 0, 1, 2, 3, 4, 5, 10, 11 });
    check_producer_order();
}
SCENARIO("C26", free_list_contended, MC(3, 4, "two producers take recycled blocks while one of them returns some: no block is handed out twice"))
{
    small_queue q(2);
    {
        Quiet quiet;
        for (int i = 0; i < 8; i++)
            put(q, i);
        for (int i = 0; i < 8; i++)
            get(q);
    }
    std::thread t([&] { put(q, 40); });
    for (int i = 10; i < 14; i++)
        put(q, i);
    get(q);
    get(q);
    put(q, 14);
    put(q, 15);
    t.join();
    put(q, 16);
    put(q, 17);
    while (get(q) >= 0)
        ;
    check_ids({ 0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15, 16, 17, 40 });
    check_producer_order();
}
SCENARIO("C26", many_producers, MC(2, 3, "more producing threads than the initial producer hash has room for"))
{
    small_queue q(2);
    std::vector<std::thread> ts;
    // one after the other, the hash grows once
    for (int i = 0; i < 2; i++)
        std::thread([&, i] { put(q, 10 * i); }).join();
    for (int i = 2; i < 4; i++)
        ts.emplace_back([&, i] { put(q, 10 * i); put(q, 10 * i + 1); });
    get(q);
    for (auto& t : ts)
        t.join();
    while (get(q) >= 0)
        ;
    check_ids({ 0, 10, 20, 21, 30, 31 });
    check_producer_order();
}
SCENARIO("C26", index_grows, MC(2, 3, "the block index of a producer grows while a consumer takes elements"))
{
    small_queue q(2);
    for (int i = 0; i < 3; i++)
        put(q, i);
    std::thread t([&] {
        for (int i = 0; i < 5; i++)
            get(q);
    });
    for (int i = 3; i < 9; i++)
        put(q, i);
    t.join();
    finish_queue(q, 9);
    check_producer_order();
}
SCENARIO("C26", ring_wraps, MC(2, 3, "the block index wraps around several times"))
{
    small_queue q(2);
    int next = 0;
    for (int r = 0; r < 4; r++) {
        for (int i = 0; i < 3; i++)
            put(q, next++);
        for (int i = 0; i < 3; i++)
            XCHECK(get(q) >= 0, "element missing in round %d", r);
    }
    std::thread t([&] { get(q); get(q); });
    put(q, next++);
    put(q, next++);
    put(q, next++);
    t.join();
    finish_queue(q, next);
}
SCENARIO("C26", found_after_enqueue, MC(4, 6, "an element whose enqueue completed is found, whatever the other producer does"))
{
    small_queue q(2);
    std::thread t([&] { put(q, 10); });
    put(q, 0);
    XCHECK(get(q) >= 0, "nothing found although an enqueue completed");
    t.join();
    XCHECK(get(q) >= 0, "nothing found although an enqueue completed");
    XCHECK(get(q) < 0, "an element too much");
    check_ids({ 0, 10 });
}
SCENARIO("C26", destroyed_with_elements, MC(2, 3, "the elements left are destroyed with the queue"))
{
    auto p = std::make_shared<int>(1);
    {
        moodycamel::ConcurrentQueue<std::shared_ptr<int>, small_traits> q(2);
        std::thread t([&] { q.enqueue(p); q.enqueue(p); });
        std::shared_ptr<int> e;
        q.try_dequeue(e);
        q.enqueue(p);
        t.join();
    }
    XCHECK(p.use_count() == 1, "%d references left", (int)p.use_count());
}

// ---- consumers with a token take turns between the producers
struct turn_traits : public small_traits
{
    static const std::uint32_t EXPLICIT_CONSUMER_CONSUMPTION_QUOTA_BEFORE_ROTATE = 2;
};
struct turn_queue : public moodycamel::ConcurrentQueue<elem, turn_traits>
{
    using base = moodycamel::ConcurrentQueue<elem, turn_traits>;
    using base::base;
};
struct token_view
{
    turn_queue& q;
    moodycamel::ConsumerToken t;
    explicit token_view(turn_queue& qu)
      : q(qu)
      , t(qu)
    {}
    bool try_dequeue(elem& e) { return q.try_dequeue(t, e); }
    size_t size_approx() const { return q.size_approx(); }
};
SCENARIO("C26", token_two_producers, MC(3, 4, "two producers, one consumer with a token, producers are added while dequeuing"))
{
    turn_queue q(2);
    token_view v(q);
    std::thread t([&] { put(q, 0); put(q, 1); });
    std::thread u([&] { put(q, 10); put(q, 11); });
    get(v);
    get(v);
    t.join();
    u.join();
    while (get(v) >= 0)
        ;
    check_ids({ 0, 1, 10, 11 });
    check_producer_order();
}
SCENARIO("C26", token_two_consumers, MC(3, 4, "two consumers with tokens turn to another producer while one is added: enough for everyone who asks"))
{
    turn_queue q(2);
    for (int i = 0; i < 3; i++)
        put(q, i);
    std::thread t([&] { token_view v(q); XCHECK(get(v) >= 0 && get(v) >= 0, "a dequeue failed although there are enough elements"); });
    std::thread u([&] { put(q, 10); put(q, 11); });
    token_view v(q);
    XCHECK(get(v) >= 0, "a dequeue failed although there are enough elements");
    u.join();
    XCHECK(get(v) >= 0, "a dequeue failed although there are enough elements");
    t.join();
    while (get(v) >= 0)
        ;
    check_ids({ 0, 1, 2, 10, 11 });
    check_producer_order();
}
SCENARIO("C26", token_found_after_enqueue, MC(4, 6, "an element whose enqueue completed is found with a token, whatever the other producer does"))
{
    turn_queue q(2);
    token_view v(q);
    std::thread t([&] { put(q, 10); });
    put(q, 0);
    XCHECK(get(v) >= 0, "nothing found although an enqueue completed");
    t.join();
    XCHECK(get(v) >= 0, "nothing found although an enqueue completed");
    XCHECK(get(v) < 0, "an element too much");
    check_ids({ 0, 10 });
}
SCENARIO("C26", token_turns, MC(2, 3, "a producer that is always ahead does not keep the elements of another one from being found"))
{
    turn_queue q(2);
    token_view v(q), w(q);
    for (int i = 0; i < 4; i++)
        put(q, i);
    std::thread t([&] { put(q, 20); });
    t.join();
    int other = choose(2);
    for (int i = 4; i < 10; i++) {
        put(q, i);
        XCHECK(get(other && i % 2 ? w : v) >= 0, "nothing found");
    }
    XCHECK(count(E_START, 20) == 1, "six elements of one producer are taken, none of the other");
    while (get(v) >= 0)
        ;
    XCHECK(count(E_START) == 11, "%d elements arrived", count(E_START));
}

// ---- as used by the pool ----------------------------------------------------
struct counted : public operation
{
    int id;
    explicit counted(int i) : id(i) { }
    void operator()() override { ev(E_START, id); }
};
static bool
run_one(pool_queue& q)
{
    operation_ptr op;
    if (!q.try_dequeue(op))
        return false;
    execute_operation_on_this_thread(*op);
    // taken out of the queue for good
    XCHECK(op.use_count() == 1, "the queue keeps a reference to an element that was taken");
    return true;
}
SCENARIO("C26", pool_elements, MC(3, 4, "operations of the type and block size used by the pool"))
{
    pool_queue q;
    std::thread t([&] { q.enqueue(std::make_shared<counted>(0)); q.enqueue(std::make_shared<counted>(1)); });
    std::thread u([&] { run_one(q); });
    q.enqueue(std::make_shared<counted>(2));
    run_one(q);
    t.join();
    u.join();
    while (run_one(q))
        ;
    check_once(3);
}
SCENARIO("C26", pool_block_boundary, MC(2, 3, "crossing the boundary of a block as used by the pool while consuming"))
{
    pool_queue q;
    for (int i = 0; i < 31; i++)
        q.enqueue(std::make_shared<counted>(i));
    {
        Quiet quiet;
        for (int i = 0; i < 29; i++)
            run_one(q);
    }
    std::thread t([&] { run_one(q); run_one(q); });
    for (int i = 31; i < 34; i++)
        q.enqueue(std::make_shared<counted>(i));
    run_one(q);
    t.join();
    while (run_one(q))
        ;
    check_once(34);
}
SCENARIO("C26", pool_enqueue_dequeue_same_thread, MC(2, 3, "workers that submit: both threads enqueue and dequeue"))
{
    pool_queue q;
    auto work = [&](int base) {
        for (int i = 0; i < 2; i++) {
            q.enqueue(std::make_shared<counted>(base + i));
            run_one(q);
        }
    };
    std::thread t([&] { work(0); });
    work(2);
    t.join();
    while (run_one(q))
        ;
    check_once(4);
}
SCENARIO("C26", pool_tokens, MC(2, 3, "operations of the pool taken by two consumers with tokens, as the pool does it"))
{
    pool_queue q;
    auto take = [&](moodycamel::ConsumerToken& t) {
        operation_ptr op;
        if (!q.try_dequeue(t, op))
            return false;
        execute_operation_on_this_thread(*op);
        XCHECK(op.use_count() == 1, "the queue keeps a reference to an element that was taken");
        return true;
    };
    for (int i = 0; i < 3; i++)
        q.enqueue(std::make_shared<counted>(i));
    std::thread t([&] {
        moodycamel::ConsumerToken k(q);
        take(k);
        q.enqueue(std::make_shared<counted>(3));
        XCHECK(take(k), "nothing found although there are enough elements");
    });
    moodycamel::ConsumerToken k(q);
    XCHECK(take(k), "nothing found although there are enough elements");
    q.enqueue(std::make_shared<counted>(4));
    t.join();
    while (take(k))
        ;
    check_once(5);
}
SCENARIO("C26", pool_backlog, MC(2, 3, "a backlog of more than a thousand operations, as the pool would get it, of which some are taken while it grows"); o.max_steps = 200000;)
{
    pool_queue q;
    const int n = 1000 + 24 * choose(2); // 32 blocks of 32
    {
        Quiet quiet;
        for (int i = 0; i < n; i++)
            q.enqueue(std::make_shared<counted>(i));
    }
    std::thread t([&] {
        for (int i = 0; i < 3; i++)
            XCHECK(run_one(q), "nothing found in a backlog");
    });
    {
        for (int i = n; i < n + 2; i++)
            q.enqueue(std::make_shared<counted>(i));
        Quiet quiet;
        for (int i = n + 2; i < n + 60; i++)
            q.enqueue(std::make_shared<counted>(i));
    }
    t.join();
    Quiet quiet;
    while (run_one(q))
        ;
    check_once(n + 60);
}
SCENARIO("C26", pool_many_producers, MC(2, 2, "as many producing threads as make the pool's table of producers grow, one of them while others are found"); o.max_steps = 200000;)
{
    pool_queue q;
    // grows when half of 32 are in use
    for (int i = 0; i < 15; i++)
        std::thread([&, i] { Quiet quiet; q.enqueue(std::make_shared<counted>(i)); }).join();
    std::thread t([&] { q.enqueue(std::make_shared<counted>(15)); q.enqueue(std::make_shared<counted>(16)); });
    std::thread u([&] { q.enqueue(std::make_shared<counted>(17)); q.enqueue(std::make_shared<counted>(18)); });
    run_one(q);
    q.enqueue(std::make_shared<counted>(19));
    t.join();
    u.join();
    Quiet quiet;
    while (run_one(q))
        ;
    check_once(20);
}
