// C11: barriers release every waiter exactly when completed
#include "queues.h"
#include <xdispatch/impl/lightweight_barrier.h>

template<typename B>
static void
wait_checked(B& b, int ms)
{
    const uint64_t t0 = now();
    const bool ok = ms < 0 ? b.wait() : b.wait(milliseconds(ms));
    if (ok) {
        XCHECK(count(E_MARK) > 0, "wait returned true without completion");
    } else {
        XCHECK(ms >= 0, "unlimited wait returned false");
        XCHECK(now() >= t0 + ms * MS, "wait(%d) returned false after %d ms", ms, (int)((now() - t0) / MS));
    }
}
SCENARIO("C11", one_waiter, o.bound = 12; o.about = "complete() against one unlimited wait()";)
{
    lightweight_barrier b;
    std::thread t([&] {
        ev(E_MARK);
        b.complete();
    });
    wait_checked(b, -1);
    XCHECK(b.was_completed(), "completion not reported");
    wait_checked(b, 0);
    t.join();
}
SCENARIO("C11", two_waiters, o.bound = 5; o.bound_thorough = 9; o.about = "two waiters and one completion";)
{
    lightweight_barrier b;
    std::thread t([&] { wait_checked(b, -1); });
    std::thread u([&] {
        ev(E_MARK);
        b.complete();
    });
    wait_checked(b, -1);
    t.join();
    u.join();
    XCHECK(b.was_completed(), "completion not reported");
}
SCENARIO("C11", three_waiters, o.bound = 3; o.bound_thorough = 6; o.spurious = true; o.about = "three waiters, spurious wake-ups";)
{
    lightweight_barrier b;
    std::thread t([&] { wait_checked(b, -1); });
    std::thread v([&] { wait_checked(b, 10); });
    std::thread u([&] {
        ev(E_MARK);
        b.complete();
    });
    wait_checked(b, -1);
    t.join();
    u.join();
    v.join();
    XCHECK(b.was_completed(), "completion not reported");
}
SCENARIO("C11", timed_waiters, o.bound = 5; o.bound_thorough = 8; o.about = "waits with timeouts around the time of the completion";)
{
    lightweight_barrier b;
    std::thread t([&] { wait_checked(b, 10); });
    std::thread u([&] {
        std::this_thread::sleep_for(milliseconds(10));
        ev(E_MARK);
        b.complete();
    });
    wait_checked(b, 9);
    wait_checked(b, 20);
    t.join();
    u.join();
}
SCENARIO("C11", zero_timeout, o.bound = 8; o.about = "polling with a zero timeout and was_completed()";)
{
    lightweight_barrier b;
    std::thread u([&] {
        ev(E_MARK);
        b.complete();
        ev(E_DONE);
    });
    bool before = false;
    for (int i = 0; i < 3; i++) {
        const bool done = count(E_DONE) > 0;
        const bool c = b.was_completed();
        XCHECK(!c || count(E_MARK) > 0, "reported completion early");
        XCHECK(c || !done, "completion not reported");
        XCHECK(c || !before, "completion reverted");
        before = c;
        wait_checked(b, 0);
    }
    u.join();
}
SCENARIO("C11", complete_twice, o.bound = 6; o.bound_thorough = 10; o.about = "concurrent completions and a waiter";)
{
    lightweight_barrier b;
    auto c = [&] {
        ev(E_MARK);
        b.complete();
        XCHECK(b.was_completed(), "completed barrier does not report it");
    };
    std::thread t(c), u(c);
    wait_checked(b, -1);
    t.join();
    u.join();
}
SCENARIO("C11", destroyed_by_waiter, o.bound = 12; o.about = "the waiter destroys the barrier as soon as wait() returned";)
{
    auto* b = new lightweight_barrier;
    std::thread t([b] {
        ev(E_MARK);
        b->complete();
    });
    wait_checked(*b, -1);
    delete b;
    t.join();
}
SCENARIO("C11", reused_address_stack, o.bound = 4; o.bound_thorough = 7; o.about = "barriers on the stack, completed by pool operations";)
{
    auto q = naive::create_parallel_queue("q", make_spawn_pool());
    for (int i = 0; i < 2; i++) {
        lightweight_barrier b;
        q.async(make_operation([&] {
            ev(E_MARK);
            b.complete();
        }));
        wait_checked(b, -1);
    }
    XCHECK(count(E_MARK) == 2, "left a wait early");
}
SCENARIO("C11", operation, o.bound = 4; o.bound_thorough = 7; o.about = "barrier_operation on a queue with two waiters";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    auto op = std::make_shared<barrier_operation>();
    XCHECK(!op->has_passed(), "passed before it was queued");
    q.async(make_operation([] { ev(E_MARK); }));
    q.async(op);
    std::thread t([&] { wait_checked(*op, -1); });
    wait_checked(*op, -1);
    XCHECK(op->has_passed(), "not passed after wait");
    t.join();
}
SCENARIO("C11", operation_timeout, o.bound = 4; o.bound_thorough = 7; o.about = "barrier_operation behind an operation that takes longer than the timeout";)
{
    auto q = naive::create_serial_queue("q", make_spawn_pool());
    auto op = std::make_shared<barrier_operation>();
    q.async(make_operation([] {
        std::this_thread::sleep_for(milliseconds(20));
        ev(E_MARK);
    }));
    q.async(op);
    wait_checked(*op, 10);
    wait_checked(*op, 5);
    wait_checked(*op, -1);
    XCHECK(op->has_passed(), "not passed after wait");
}
SCENARIO("C11", long_timeouts, o.bound = 1; o.about = "wait() with every order of magnitude of timeouts up to the largest value";)
{
    static const long long T[] = { 1, 1000, 86400000ll, 31536000000ll, 9223372036854ll, 9223372036855ll,
                                   1ll << 53, milliseconds::max().count() - 1, milliseconds::max().count() };
    const auto t = milliseconds(T[choose(9)]);
    lightweight_barrier b;
    std::thread u([&] {
        std::this_thread::sleep_for(std::chrono::microseconds(500));
        ev(E_MARK);
        b.complete();
    });
    const uint64_t t0 = now();
    if (!b.wait(t))
        XCHECK((now() - t0) / MS >= (uint64_t)t.count(), "wait(%lld ms) returned false early", (long long)t.count());
    u.join();
}
SCENARIO("C11", visibility, o.bound = 6; o.races = true; o.about = "what was written before complete() is visible after wait() and was_completed()";)
{
    lightweight_barrier b;
    int v = 0;
    std::thread u([&] {
        v = 1;
        b.complete();
    });
    std::thread t([&] {
        if (b.was_completed())
            XCHECK(v == 1, "value %d", v);
        else if (b.wait(milliseconds(1)))
            XCHECK(v == 1, "value %d", v);
    });
    b.wait();
    XCHECK(v == 1, "value %d", v);
    u.join();
    t.join();
}
SCENARIO("C11", many_waiters, o.bound = 0; o.bound_thorough = 1; o.quick_cap_s = 20; o.about = "up to 24 waiters of one barrier, some with timeouts, released by one completion";)
{
    auto b = std::make_shared<barrier_operation>();
    const int n = 1 + choose(24), limited = choose(3);
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++)
        ts.emplace_back([b, i, limited] {
            XCHECK(b->wait(milliseconds(limited == 2 || (limited == 1 && i % 2) ? 100 : -1)), "wait() failed");
            XCHECK(find(E_DONE) >= 0, "released too early");
            ev(E_WAITED, i);
        });
    if (choose(2))
        quiesce(1 * MS);
    ev(E_DONE);
    execute_operation_on_this_thread(*b);
    for (auto& t : ts)
        t.join();
    XCHECK(count(E_WAITED) == n, "%d of %d waiters were released", count(E_WAITED), n);
}
SCENARIO("C11", exact_times, o.timedev = false; o.bound = 1; o.bound_thorough = 2; o.about = "two waits with every pair of timeouts and every time of completion: each ends at its timeout or the completion, neither before nor after";)
{
    static const long long T[] = { 0, 1, 7, 999, 1000, 1500, 3600000, 2147483649ll, 4294967300ll, 86400000ll * 3000, -1 };
    auto b = std::make_shared<barrier_operation>();
    static const long long C[] = { 0, 1, 5, 7, 998, 1200, 3599000, 2147483648ll, 4294967299ll, 86400000ll * 2999 };
    const long long c = C[choose(10)], t[] = { T[choose(11)], T[choose(11)] };
    const uint64_t done = now() + c * MS;
    std::thread a([b, c] {
        std::this_thread::sleep_for(milliseconds(c));
        execute_operation_on_this_thread(*b);
    });
    for (int i = 0; i < 2; i++) {
        const uint64_t t0 = now(), completed = std::max(done, t0), limit = t0 + t[i] * MS;
        const bool r = b->wait(milliseconds(t[i]));
        if (t[i] < 0 || limit > done) {
            XCHECK(r, "wait(%lld ms) returned false", t[i]);
            XCHECK(now() == completed, "wait(%lld ms) took until %lld ms", t[i], (long long)(now() / MS));
        } else {
            XCHECK(now() == (r ? completed : limit), "wait(%lld ms) took %lld ms", t[i], (long long)((now() - t0) / MS));
            XCHECK(!r || now() >= done, "wait() returned true too early");
        }
        XCHECK(!r || b->has_passed(), "has_passed() is false");
    }
    a.join();
}
SCENARIO("C11", wall_clock, o.timedev = false; o.bound = 1; o.bound_thorough = 2; o.about = "the clock of the system is set while waiting: no influence on timeouts";)
{
    auto b = std::make_shared<barrier_operation>();
    const int done = choose(2) ? 30 : 200;
    std::thread c = wall_clock_setter();
    const uint64_t t0 = now();
    std::thread a([b, done] {
        std::this_thread::sleep_for(milliseconds(done));
        execute_operation_on_this_thread(*b);
    });
    const bool r = b->wait(milliseconds(50));
    XCHECK(r == (done == 30) && now() == t0 + (r ? 30 : 50) * MS, "wait(50 ms) for a barrier completed after %d ms returned %d after %lld ms", done, r, (long long)((now() - t0) / MS));
    XCHECK(b->wait(milliseconds(-1)), "wait failed");
    a.join();
    c.join();
}
