// C04: apply() runs every index exactly once and returns afterwards
#include "kinds.h"

// runs q.apply(n) and checks what it did; ids are tag*100+index
static void
checked_apply(const queue& q, int n, int tag)
{
    q.apply(n, [tag](size_t i) {
        ev(E_START, tag * 100 + (int)i);
        ev(E_END, tag * 100 + (int)i);
    });
    int all = 0;
    for (int i = 0; i < nevents(); i++)
        if (events()[i].a / 100 == tag && events()[i].kind == E_START)
            all++;
    for (int i = 0; i < n; i++) {
        XCHECK(count(E_START, tag * 100 + i) == 1, "index %d was invoked %d times when apply() returned", i, count(E_START, tag * 100 + i));
        XCHECK(count(E_END, tag * 100 + i) == 1, "apply() returned before index %d finished", i);
    }
    XCHECK(all == n, "%d invocations instead of %d", all, n);
}
static void
settled(int n)
{
    quiesce();
    XCHECK(count(E_START) == n, "%d invocations instead of %d after all", count(E_START), n);
    outcome(order_hash());
}

SCENARIO("C04", parallel_sizes, o.bound = 3; o.bound_thorough = 4; o.about = "apply with 0..3 iterations on a parallel queue, a thread per iteration";)
{
    auto q = naive::create_parallel_queue("q", make_spawn_pool());
    const int n = choose(4);
    checked_apply(q, n, 0);
    settled(n);
}
SCENARIO("C04", parallel_sizes_inline, o.bound = 2; o.bound_thorough = 3; o.about = "apply with up to 6 iterations on one or two pool threads";)
{
    auto q = naive::create_parallel_queue("q", std::make_shared<fixed_pool>(1 + choose(2)));
    const int n = choose(7);
    checked_apply(q, n, 0);
    settled(n);
}
SCENARIO("C04", serial_sizes, o.bound = 3; o.bound_thorough = 6; o.about = "apply with 0..4 iterations on a serial queue";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    const int n = choose(5);
    checked_apply(q, n, 0);
    settled(n);
}
SCENARIO("C04", serial_many, o.bound = 1; o.bound_thorough = 2; o.about = "more iterations than a serial queue executes in one go";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    const int n = 9 + choose(4);
    checked_apply(q, n, 0);
    for (int i = 0; i < n; i++)
        XCHECK(find(E_START, i) == 2 * i, "serial iterations out of order");
    settled(n);
}
SCENARIO("C04", global_parallel, o.bound = 2; o.bound_thorough = 3; o.about = "apply on the global queue with the real pool";)
{
    const int n = 1 + choose(3);
    checked_apply(global_queue(), n, 0);
    settled(n);
}
SCENARIO("C04", global_serial, o.bound = 2; o.bound_thorough = 4; o.about = "apply on a serial queue with the real pool";)
{
    auto q = create_serial_queue("q");
    const int n = choose(3);
    checked_apply(q, n, 0);
    settled(n);
}
SCENARIO("C04", concurrent_callers, o.bound = 2; o.bound_thorough = 3; o.about = "two threads apply on the same parallel queue";)
{
    auto q = naive::create_parallel_queue("q", make_spawn_pool());
    std::thread t([&] { checked_apply(q, 2, 1); });
    checked_apply(q, 2, 2);
    t.join();
    settled(4);
}
SCENARIO("C04", concurrent_callers_serial, o.bound = 2; o.bound_thorough = 4; o.about = "two threads apply on the same serial queue";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    std::thread t([&] { checked_apply(q, 2, 1); });
    checked_apply(q, 2, 2);
    t.join();
    settled(4);
}
SCENARIO("C04", with_async, o.bound = 2; o.bound_thorough = 3; o.about = "apply while others submit to the same serial queue";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    q.async([] { ev(E_START, 900); });
    std::thread t([&] { q.async([] { ev(E_START, 901); }); });
    checked_apply(q, 3, 1);
    t.join();
    settled(5);
}
SCENARIO("C04", nested_in_operation, o.bound = 2; o.bound_thorough = 3; o.about = "apply called from operations of the global pool, more callers than threads";)
{
    group g;
    for (int k = 1; k <= 2; k++)
        g.async([k] { checked_apply(global_queue(), 2, k); }, global_queue());
    XCHECK(g.wait(milliseconds(-1)), "wait failed");
    settled(4);
}
SCENARIO("C04", nested_in_apply, o.bound = 2; o.bound_thorough = 3; o.about = "apply inside of the iterations of an apply";)
{
    global_queue().apply(2, [](size_t k) { checked_apply(global_queue(), 2, (int)k + 1); });
    settled(4);
}
SCENARIO("C04", serial_from_other_queue, o.bound = 2; o.bound_thorough = 4; o.about = "apply on one serial queue from an operation of another";)
{
    auto q = create_serial_queue("q");
    auto p = create_serial_queue("p");
    lightweight_barrier b;
    p.async([&] {
        checked_apply(q, 2, 1);
        b.complete();
    });
    b.wait();
    settled(2);
}
SCENARIO("C04", shared_iteration_object, o.bound = 2; o.bound_thorough = 3; o.about = "one iteration operation object used for two applies, destroyed afterwards";)
{
    auto q = naive::create_parallel_queue("q", make_spawn_pool());
    std::weak_ptr<int> w;
    {
        auto token = std::make_shared<int>(0);
        w = token;
        auto op = make_iteration_operation([token](size_t i) { ev(E_START, 100 + (int)i); });
        token.reset();
        q.apply(2, op);
        XCHECK(count(E_START, 100) == 1 && count(E_START, 101) == 1, "not all ran");
        q.apply(2, op);
        XCHECK(count(E_START, 100) == 2 && count(E_START, 101) == 2, "not all ran");
    }
    quiesce();
    XCHECK(w.expired(), "the iteration operation is kept alive");
}
SCENARIO("C04", visibility, o.bound = 2; o.bound_thorough = 3; o.races = true; o.about = "everything the iterations wrote is visible to the caller";)
{
    auto q = naive::create_parallel_queue("q", make_spawn_pool());
    int v[3] = { 0, 0, 0 };
    int in = 7;
    q.apply(3, [&](size_t i) { v[i] = in + (int)i; });
    for (int i = 0; i < 3; i++)
        XCHECK(v[i] == 7 + i, "value %d", v[i]);
}
SCENARIO("C04", queue_released_in_iteration, o.bound = 2; o.bound_thorough = 3; o.about = "the caller's handle is dropped while iterations run";)
{
    auto q = std::make_shared<queue>(naive::create_parallel_queue("q", make_spawn_pool()));
    std::thread t([q] { checked_apply(*q, 2, 1); });
    q.reset();
    t.join();
    settled(2);
}

// every size up to more than what any implementation may process at a time
static void
counted_apply(const queue& q, int n)
{
    std::vector<std::atomic<int>> calls(n + 8);
    int outside = 0;
    q.apply(n, [&](size_t i) {
        if (i < (size_t)n)
            calls[i]++;
        else
            outside++;
    });
    XCHECK(outside == 0, "an index beyond the %d iterations was invoked", n);
    for (int i = 0; i < n; i++)
        XCHECK(calls[i] == 1, "apply(%d): index %d was invoked %d times", n, i, calls[i].load());
}
static const int large[] = { 150, 199, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097 };
SCENARIO("C04", all_sizes, o.bound = 0; o.bound_thorough = 0; o.max_steps = 200000; o.about = "every number of iterations from 0 to 130 and selected larger ones, on parallel and serial queues";)
{
    queue q = global_queue();
    if (choose(2))
        q = create_serial_queue("q");
    const int c = choose(131 + (int)(sizeof(large) / sizeof(large[0])));
    counted_apply(q, c < 131 ? c : large[c - 131]);
}
SCENARIO("C04", block_sizes, o.bound = 1; o.bound_thorough = 1; o.timedev = false; o.about = "sizes around those an implementation may process in one go, preempted anywhere";)
{
    static const int n[] = { 11, 17, 33 };
    auto q = naive::create_parallel_queue("q", std::make_shared<fixed_pool>(2));
    counted_apply(q, n[choose(3)]);
}
SCENARIO("C04", every_kind, o.bound = 1; o.bound_thorough = 2; o.about = "every kind of operation on every kind of queue, applied repeatedly";)
{
    object_with_work object;
    const int kind = choose(KINDS), n = choose(4), times = 1 + choose(2);
    queue q = queue_of_kind(choose(QUEUES));
    use_iteration_kind(kind, object, [&](const auto& f) {
        for (int k = 1; k <= times; k++) {
            q.apply(n, f);
            for (int i = 0; i < n; i++)
                XCHECK(count(E_END, i) == k, "index %d was executed %d times", i, count(E_END, i) - (k - 1));
        }
    });
    quiesce(10 * MS);
    XCHECK(count(E_START) == n * times, "%d invocations instead of %d", count(E_START), n * times);
}
