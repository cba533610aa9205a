// C16: a signal barrier delivers the values of the first raise
#include "signals.h"

using psig = signal<void(int, int)>;
using pbar = signal_barrier<void(int, int)>;
struct nodefault
{
    int v;
    explicit nodefault(int i)
      : v(i)
    {}
    nodefault(const nodefault& o) = default;
    nodefault(nodefault&& o)
      : v(o.v)
    {
        o.v = -1;
    }
    nodefault& operator=(const nodefault& o) = default;
    nodefault& operator=(nodefault&& o)
    {
        v = o.v;
        o.v = -1;
        return *this;
    }
};
using nsig = signal<void(nodefault, int)>;

// raises x; E_POST before, E_POSTED after
static void
raise(psig& s, int x)
{
    ev(E_POST, x);
    s(x, x * 10);
    ev(E_POSTED, x);
}
// the values are those of one raise that began after the construction
static int
read_values(const pbar& b, int constructed)
{
    auto v = b.values();
    XCHECK(std::get<1>(v) == std::get<0>(v) * 10, "values %d and %d are not of the same raise", std::get<0>(v), std::get<1>(v));
    XCHECK(b.value<0>() == std::get<0>(v) && b.value<1>() == std::get<1>(v), "values changed");
    const int p = find(E_POST, std::get<0>(v));
    XCHECK(p >= 0, "values %d that nobody raised", std::get<0>(v));
    XCHECK(find(E_POSTED, std::get<0>(v)) < 0 || find(E_POSTED, std::get<0>(v)) > constructed, "values of a raise before the construction");
    return std::get<0>(v);
}
static bool
throws(const pbar& b)
{
    try {
        b.values();
    } catch (const std::runtime_error&) {
        return true;
    }
    return false;
}

SCENARIO("C16", raised_by_other, o.bound = 2; o.bound_thorough = 3; o.about = "raised by another thread before, while or after the barrier is constructed and waited for";)
{
    psig s;
    std::thread a([&] {
        raise(s, 1);
        raise(s, 2);
    });
    {
        const int constructed = ev(E_MARK);
        pbar b(s);
        if (b.wait(milliseconds(100))) {
            const int v = read_values(b, constructed - 1);
            quiesce(1 * MS);
            XCHECK(read_values(b, constructed - 1) == v, "the values changed");
        }
    }
    a.join();
}
SCENARIO("C16", raised_before, o.bound = 1; o.bound_thorough = 2; o.about = "raises before the construction do not count";)
{
    psig s;
    raise(s, 1);
    pbar b(s);
    const int constructed = ev(E_MARK);
    XCHECK(!b.wait(milliseconds(choose(2) * 10)), "passed although nothing was raised");
    XCHECK(throws(b), "values() did not throw");
    std::thread a([&] { raise(s, 2); });
    XCHECK(b.wait(), "not passed");
    XCHECK(read_values(b, constructed) == 2, "wrong values");
    a.join();
    XCHECK(b.wait() && b.wait(milliseconds(0)) && b.wait(milliseconds(5)), "not passed anymore");
}
SCENARIO("C16", raised_before_wait, o.bound = 2; o.bound_thorough = 3; o.about = "raised several times before wait(): the first raise counts, nothing changes later";)
{
    psig s;
    pbar b(s);
    const int constructed = ev(E_MARK);
    raise(s, 1);
    raise(s, 2);
    XCHECK(b.wait(), "not passed");
    const int v = read_values(b, constructed);
    raise(s, 3);
    quiesce(2500 * MS);
    XCHECK(read_values(b, constructed) == v, "the values changed from %d to %d", v, read_values(b, constructed));
}
SCENARIO("C16", raised_parallel, o.bound = 2; o.bound_thorough = 3; o.cpus = 2; o.races = true; o.about = "two threads raise at the same time: values of one raise, never changed";)
{
    psig s;
    pbar b(s);
    const int constructed = ev(E_MARK);
    std::thread a([&] { raise(s, 1); });
    raise(s, 2);
    XCHECK(b.wait(), "not passed");
    const int v = read_values(b, constructed);
    a.join();
    quiesce(2500 * MS);
    XCHECK(read_values(b, constructed) == v, "the values changed from %d to %d", v, read_values(b, constructed));
}
SCENARIO("C16", timeouts, o.bound = 2; o.bound_thorough = 3; o.about = "raised around the time the wait times out";)
{
    psig s;
    pbar b(s);
    const int constructed = ev(E_MARK);
    std::thread a([&] {
        std::this_thread::sleep_for(milliseconds(10));
        raise(s, 1);
    });
    const uint64_t t = now();
    const bool r = b.wait(milliseconds(10));
    if (r) {
        XCHECK(read_values(b, constructed) == 1, "wrong values");
    } else {
        XCHECK(now() >= t + 10 * MS, "timed out too early");
        XCHECK(b.wait(), "never passed");
        XCHECK(read_values(b, constructed) == 1, "wrong values");
    }
    a.join();
}
SCENARIO("C16", destroyed_untouched, o.bound = 2; o.bound_thorough = 3; o.cpus = 2; o.about = "destroyed while raises are queued, running or about to come";)
{
    psig s;
    std::thread a([&] {
        raise(s, 1);
        raise(s, 2);
    });
    {
        pbar b(s);
        if (choose(2))
            b.wait(milliseconds(0));
    }
    a.join();
    raise(s, 3);
    quiesce(2500 * MS);
}
SCENARIO("C16", destroyed_passed, o.bound = 2; o.bound_thorough = 3; o.cpus = 2; o.about = "destroyed as soon as it passed, with another raise under way";)
{
    psig s;
    {
        pbar b(s);
        const int constructed = ev(E_MARK);
        raise(s, 1);
        raise(s, 2);
        b.wait();
        read_values(b, constructed);
    }
    quiesce(2500 * MS);
}
SCENARIO("C16", constructed_while_raised, o.bound = 2; o.bound_thorough = 3; o.cpus = 2; o.races = true; o.about = "constructed while another thread keeps raising";)
{
    psig s;
    std::thread a([&] {
        raise(s, 1);
        raise(s, 2);
    });
    {
        auto b = std::unique_ptr<pbar>(new pbar(s));
        a.join();
        if (b->wait(milliseconds(5)))
            read_values(*b, -1);
        else
            XCHECK(throws(*b), "values() did not throw");
    }
}
SCENARIO("C16", two_barriers, o.bound = 2; o.bound_thorough = 3; o.about = "two barriers and a handler of one signal";)
{
    psig s;
    pbar b(s), d(s);
    const int constructed = ev(E_MARK);
    auto c = s.connect([](int x, int) { ev(E_START, x); });
    std::thread a([&] { raise(s, 1); });
    XCHECK(d.wait() && read_values(d, constructed) == 1, "wrong values");
    XCHECK(b.wait() && read_values(b, constructed) == 1, "wrong values");
    a.join();
    raise(s, 2);
    quiesce(2500 * MS);
    XCHECK(read_values(b, constructed) == 1 && read_values(d, constructed) == 1, "the values changed");
    XCHECK(count(E_START, 1) == 1 && count(E_START, 2) == 1, "another handler missed a raise");
}
SCENARIO("C16", two_waiters, o.bound = 2; o.bound_thorough = 3; o.about = "two threads wait for one barrier";)
{
    psig s;
    pbar b(s);
    const int constructed = ev(E_MARK);
    std::thread a([&] { XCHECK(b.wait() && read_values(b, constructed) == 1, "wrong values"); });
    std::thread c([&] { raise(s, 1); });
    XCHECK(b.wait() && read_values(b, constructed) == 1, "wrong values");
    a.join();
    c.join();
}
SCENARIO("C16", no_default, o.bound = 2; o.bound_thorough = 3; o.cpus = 2; o.races = true; o.about = "values that cannot be default constructed";)
{
    nsig s;
    signal_barrier<void(nodefault, int)> b(s);
    std::thread a([&] { s(nodefault(1), 1); });
    s(nodefault(2), 2);
    XCHECK(b.wait(), "not passed");
    const int v = b.value<1>();
    XCHECK(std::get<0>(b.values()).v == v && (v == 1 || v == 2), "wrong values");
    a.join();
    quiesce(2500 * MS);
    for (int i = 0; i < 2; i++)
        XCHECK(b.value<1>() == v && b.value<0>().v == v && std::get<0>(b.values()).v == v, "the values changed");
}
SCENARIO("C16", no_values, o.bound = 2; o.bound_thorough = 3; o.about = "a signal without values";)
{
    vsig s;
    signal_barrier<void()> b(s);
    XCHECK(!b.wait(milliseconds(0)), "passed although nothing was raised");
    std::thread a([&] { ev(E_POST); s(); });
    XCHECK(b.wait(), "not passed");
    XCHECK(find(E_POST) >= 0, "passed although nothing was raised");
    a.join();
}
SCENARIO("C16", signal_destroyed, o.bound = 2; o.bound_thorough = 3; o.about = "the signal goes away before the barrier, with a raise pending or running";)
{
    auto s = std::unique_ptr<psig>(new psig);
    pbar b(*s);
    const int constructed = ev(E_MARK);
    if (choose(2))
        raise(*s, 1);
    s.reset();
    if (b.wait(milliseconds(5)))
        XCHECK(read_values(b, constructed) == 1, "wrong values");
    else
        XCHECK(throws(b), "values() did not throw");
}
SCENARIO("C16", in_operation, o.bound = 2; o.bound_thorough = 3; o.about = "waiting in an operation of the global queue, on which the raise is handled";)
{
    psig s;
    pbar b(s);
    global_queue().async([&] {
        ev(E_START);
        XCHECK(b.wait(), "not passed");
        ev(E_END);
    });
    raise(s, 1);
    XCHECK(b.wait(), "not passed");
    quiesce(2500 * MS);
    XCHECK(count(E_END) == 1, "the operation is stuck");
}
SCENARIO("C16", many_barriers, o.bound = 0; o.bound_thorough = 0; o.max_steps = 500000; o.about = "300 barriers of one signal one after the other and many raises each: the first counts, nothing accumulates";)
{
    psig s;
    const int raises = 1 + choose(3), alone = choose(2);
    int live = 0;
    for (int i = 0; i < 300; i++) {
        {
            pbar b(s);
            XCHECK(!b.wait(milliseconds(0)), "passed although nothing was raised");
            for (int r = 0; r < raises; r++) {
                s(i * 10 + r, -i);
                if (alone)
                    quiesce();
            }
            XCHECK(b.wait(), "not passed");
            if (alone)
                XCHECK(std::get<0>(b.values()) == i * 10, "not the values of the first raise");
            XCHECK(std::get<0>(b.values()) / 10 == i && std::get<1>(b.values()) == -i, "wrong values");
        }
        quiesce(1 * MS);
        if (i == 20)
            live = heap_live();
    }
    XCHECK(heap_live() <= live + 10, "the heap grew by %d blocks", heap_live() - live);
}
SCENARIO("C16", exact_times, o.timedev = false; o.bound = 1; o.bound_thorough = 2; o.about = "waits with every pair of timeouts and every time of the raise: each ends at its timeout or the raise";)
{
    static const long long T[] = { 0, 7, 999, 1500, 2147483649ll, 4294967300ll, 86400000ll * 3000, -1 };
    psig s;
    pbar b(s);
    static const long long C[] = { 1, 5, 998, 1200, 60000, 2147483648ll, 4294967299ll, 86400000ll * 2999 };
    const long long c = C[choose(8)], t[] = { T[choose(8)], T[choose(8)] };
    const uint64_t done = now() + c * MS;
    std::thread a([&] {
        std::this_thread::sleep_for(milliseconds(c));
        raise(s, 1);
    });
    for (int i = 0; i < 2; i++) {
        const uint64_t t0 = now(), completed = std::max(done, t0), limit = t0 + t[i] * MS;
        const bool r = b.wait(milliseconds(t[i]));
        if (t[i] < 0 || limit > done) {
            XCHECK(r, "wait(%lld ms) returned false", t[i]);
            XCHECK(now() == completed, "wait(%lld ms) took until %lld ms", t[i], (long long)(now() / MS));
        } else {
            XCHECK(now() == (r ? completed : limit), "wait(%lld ms) took %lld ms", t[i], (long long)((now() - t0) / MS));
            XCHECK(!r || now() >= done, "wait() returned true too early");
        }
    }
    a.join();
}
SCENARIO("C16", wall_clock, o.timedev = false; o.bound = 1; o.bound_thorough = 2; o.about = "the clock of the system is set while waiting: no influence on timeouts";)
{
    psig s;
    pbar b(s);
    const int done = choose(2) ? 30 : 200;
    std::thread c = wall_clock_setter();
    const uint64_t t0 = now();
    std::thread a([&s, done] {
        std::this_thread::sleep_for(milliseconds(done));
        raise(s, 1);
    });
    const bool r = b.wait(milliseconds(50));
    XCHECK(r == (done == 30) && now() == t0 + (r ? 30 : 50) * MS, "wait(50 ms) for a signal raised after %d ms returned %d after %lld ms", done, r, (long long)((now() - t0) / MS));
    XCHECK(b.wait(milliseconds(-1)), "wait failed");
    a.join();
    c.join();
}
