// C18: timers fire at their interval, never early and never doubled
#include "timers.h"
#include "kinds.h"

SCENARIO("C18", periodic_serial, o.bound = 2; o.bound_thorough = 3; o.about = "delay 0..20, interval 10 on a serial queue: at least every interval, never early";)
{
    auto q = create_serial_queue("q");
    timer t(milliseconds(10), q);
    t.handler(tick());
    const int delay = 10 * choose(3);
    const uint64_t t0 = now();
    t.resume(milliseconds(delay));
    quiesce(50 * MS);
    check_spacing(t0 + delay * MS, 10);
    check_no_overlap();
    XCHECK(count(E_START) >= 2, "the timer stopped firing after %d rounds", count(E_START));
    t.cancel();
}
SCENARIO("C18", periodic_parallel, o.bound = 2; o.bound_thorough = 3; o.about = "a handler that takes longer than the interval on the global queue";)
{
    timer t(milliseconds(10), global_queue());
    t.handler(tick(0, 15));
    const uint64_t t0 = now();
    t.resume(milliseconds(5));
    quiesce(100 * MS);
    check_spacing(t0 + 5 * MS, 10);
    check_no_overlap();
    XCHECK(count(E_START) >= 2, "the timer stopped firing after %d rounds", count(E_START));
    t.cancel();
}
SCENARIO("C18", single_shot, o.bound = 2; o.bound_thorough = 3; o.about = "interval 0: exactly once per resume";)
{
    auto q = create_serial_queue("q");
    timer t(milliseconds(0), q);
    t.handler(tick());
    const int delay = 10 * choose(2);
    uint64_t t0 = now();
    t.resume(milliseconds(delay));
    quiesce(2500 * MS);
    XCHECK(count(E_START) == 1, "fired %d times", count(E_START));
    check_spacing(t0 + delay * MS, 0);
    t.suspend();
    quiesce(2500 * MS);
    XCHECK(count(E_START) == 1, "fired %d times", count(E_START));
    t.resume(milliseconds(delay));
    quiesce(2500 * MS);
    XCHECK(count(E_START) == 2, "fired %d times", count(E_START));
}
SCENARIO("C18", all_intervals, o.bound = 0; o.bound_thorough = 1; o.timedev = false; o.about = "intervals and delays of any size from none to months are respected to the millisecond";)
{
    static const long long T[] = { 1, 7, 15, 100, 999, 1000, 4999, 5000, 5001, 30000, 65536, 3600000, 2147483648ll, 4294967296ll, 4294967306ll, 86400000ll * 200 };
    static const long long D[] = { 0, 3, 5001, 2147483648ll, 4294967306ll };
    const long long i = T[choose(16)], d = D[choose(5)];
    timer t(milliseconds(choose(2) ? i : 50), choose(2) ? create_serial_queue("q") : global_queue());
    t.interval(milliseconds(i));
    t.handler(tick());
    const uint64_t t0 = now();
    t.resume(milliseconds(d));
    // three rounds
    quiesce((d + 2 * i) * MS + MS / 2);
    int n = 0;
    for (int k = 0; k < nevents(); k++)
        if (events()[k].kind == E_START) {
            XCHECK(events()[k].ns == t0 + (d + n * i) * MS, "round %d of %lld ms after %lld ms started after %llu ns", n, i, d, (unsigned long long)(events()[k].ns - t0));
            n++;
        }
    XCHECK(n == 3, "invoked %d times", n);
    t.cancel();
    quiesce((2 * i + 10) * MS);
    XCHECK(count(E_START) == 3, "invoked after it was cancelled");
}
SCENARIO("C18", single_shot_suspended, o.bound = 2; o.bound_thorough = 3; o.about = "interval 0, suspended and resumed around the time it is due";)
{
    auto q = create_serial_queue("q");
    timer t(milliseconds(0), q);
    t.handler(tick());
    t.resume(milliseconds(5));
    std::this_thread::sleep_for(milliseconds(5));
    t.suspend();
    const int before = count(E_START);
    t.resume(milliseconds(5));
    quiesce(2500 * MS);
    XCHECK(count(E_START) <= 2 && count(E_START) >= 1 && count(E_START) >= before, "fired %d times with two resumes", count(E_START));
}
SCENARIO("C18", converted_to_periodic, o.bound = 1; o.bound_thorough = 2; o.about = "interval() turns a single shot timer into a periodic one";)
{
    auto q = create_serial_queue("q");
    timer t(milliseconds(0), q);
    t.handler(tick());
    t.interval(milliseconds(10));
    const uint64_t t0 = now();
    t.resume(milliseconds(10));
    quiesce(60 * MS);
    check_spacing(t0 + 10 * MS, 10);
    XCHECK(count(E_START) >= 3, "fired %d times", count(E_START));
    t.cancel();
}
SCENARIO("C18", interval_changed, o.bound = 1; o.bound_thorough = 2; o.about = "the interval changes while the timer runs";)
{
    auto q = create_serial_queue("q");
    timer t(milliseconds(10), q);
    t.handler(tick());
    t.resume();
    quiesce(35 * MS);
    t.interval(milliseconds(100));
    const uint64_t t1 = now();
    quiesce(400 * MS);
    check_spacing(0, 10);
    const int n = starts(t1, now());
    XCHECK(n >= 2 && n <= 6, "%d rounds in 400 ms with an interval of 100 ms", n);
    t.cancel();
}
SCENARIO("C18", suspended_stays_quiet, o.bound = 2; o.bound_thorough = 3; o.about = "after suspend() at most the round in flight fires";)
{
    auto q = create_serial_queue("q");
    timer t(milliseconds(10), q);
    t.handler(tick());
    t.resume(milliseconds(10));
    std::this_thread::sleep_for(milliseconds(20));
    t.suspend();
    ev(E_WAITED);
    quiesce(500 * MS);
    XCHECK(starts_after(last(E_WAITED)) <= 1, "%d rounds after suspend()", starts_after(last(E_WAITED)));
    check_no_overlap();
}
// suspends and resumes within an interval, then counts the rounds
static void
cycles(const queue& q, int n, int pause, int gap, bool slow = false)
{
    timer t(milliseconds(10), q);
    t.handler(tick(0, slow ? 4 : 0));
    t.resume();
    for (int i = 0; i < n; i++) {
        if (pause)
            std::this_thread::sleep_for(milliseconds(pause));
        t.suspend();
        if (gap)
            std::this_thread::sleep_for(milliseconds(gap));
        t.resume(milliseconds(0));
    }
    const uint64_t t0 = now();
    quiesce(60 * MS);
    const uint64_t t1 = now();
    const int f = starts(t0, t1), most = int((t1 - t0) / (10 * MS)) + 1 + n;
    XCHECK(f <= most, "%d rounds within %llu ms after %d cycles of suspend and resume", f, (unsigned long long)((t1 - t0) / MS), n);
    XCHECK(f >= 3, "only %d rounds after %d cycles of suspend and resume", f, n);
    check_no_overlap();
    t.cancel();
}
SCENARIO("C18", cycle_at_once, o.bound = 2; o.bound_thorough = 3; o.about = "suspend() and resume() back to back: one schedule remains";)
{
    cycles(create_serial_queue("q"), 1, 0, 0);
}
SCENARIO("C18", cycle_between_rounds, o.bound = 1; o.bound_thorough = 2; o.about = "suspend() and resume() between two rounds: one schedule remains";)
{
    cycles(create_serial_queue("q"), 1, 5, 1 + choose(2) * 7);
}
SCENARIO("C18", cycles_parallel, o.bound = 1; o.bound_thorough = 2; o.about = "two cycles on the global queue with a slow handler";)
{
    cycles(global_queue(), 2, 2, choose(2), true);
}
SCENARIO("C18", cycle_when_due, o.bound = 1; o.bound_thorough = 2; o.about = "suspend() and resume() when a round is due";)
{
    cycles(create_serial_queue("q"), 1, 10, 0);
}
SCENARIO("C18", balanced_nesting, o.bound = 1; o.bound_thorough = 2; o.about = "two resumes need two suspends, one schedule in between";)
{
    auto q = create_serial_queue("q");
    timer t(milliseconds(10), q);
    t.handler(tick());
    const uint64_t t0 = now();
    t.resume();
    t.resume();
    quiesce(55 * MS);
    check_spacing(t0, 10);
    t.suspend();
    const int n = count(E_START);
    quiesce(55 * MS);
    check_spacing(t0, 10);
    XCHECK(count(E_START) >= n + 2, "stopped although one resume is left");
    t.suspend();
    ev(E_WAITED);
    quiesce(500 * MS);
    XCHECK(starts_after(last(E_WAITED)) <= 1, "%d rounds after suspend()", starts_after(last(E_WAITED)));
}
SCENARIO("C18", concurrent_cycles, o.bound = 1; o.bound_thorough = 2; o.about = "two threads resume and suspend the timer";)
{
    auto q = create_serial_queue("q");
    timer t(milliseconds(10), q);
    t.handler(tick());
    std::thread a([&] {
        t.resume();
        t.suspend();
    });
    t.resume();
    a.join();
    const uint64_t t0 = now();
    quiesce(150 * MS);
    const uint64_t t1 = now();
    const int f = starts(t0, t1), most = int((t1 - t0) / (10 * MS)) + 3;
    XCHECK(f <= most, "%d rounds within %llu ms", f, (unsigned long long)((t1 - t0) / MS));
    XCHECK(f >= 4, "only %d rounds", f);
    t.cancel();
}
SCENARIO("C18", suspended_by_handler, o.bound = 2; o.bound_thorough = 3; o.about = "the handler suspends its timer";)
{
    auto q = create_serial_queue("q");
    timer t(milliseconds(10), q);
    t.handler(make_operation([&] {
        ev(E_START);
        t.suspend();
        ev(E_END);
    }));
    t.resume(milliseconds(5));
    quiesce(500 * MS);
    XCHECK(count(E_START) == 1, "%d rounds", count(E_START));
}
SCENARIO("C18", target_queue_kept, o.bound = 1; o.bound_thorough = 2; o.about = "rounds are exclusive with the other operations of the target queue";)
{
    auto q = create_serial_queue("q");
    timer t(milliseconds(10), q);
    t.handler(tick(0, 2));
    t.resume();
    for (int i = 1; i < 4; i++) {
        q.async(tick(i, 3));
        std::this_thread::sleep_for(milliseconds(8));
    }
    quiesce(50 * MS);
    check_exclusive();
    XCHECK(t.target_queue() == q, "wrong target queue");
    t.cancel();
}
SCENARIO("C18", two_timers, o.bound = 1; o.bound_thorough = 2; o.about = "two timers of different interval on one queue";)
{
    auto q = create_serial_queue("q");
    timer t(milliseconds(10), q), u(milliseconds(15), q);
    t.handler(tick(0));
    u.handler(tick(1));
    const uint64_t t0 = now();
    t.resume();
    u.resume(milliseconds(5));
    quiesce(60 * MS);
    check_spacing(t0, 10, 0);
    check_spacing(t0 + 5 * MS, 15, 1);
    check_exclusive();
    XCHECK(count(E_START, 0) >= 3 && count(E_START, 1) >= 2, "stopped");
    t.cancel();
    u.cancel();
}
SCENARIO("C18", handler_replaced, o.bound = 1; o.bound_thorough = 2; o.races = true; o.about = "the handler is replaced while the timer runs";)
{
    auto q = create_serial_queue("q");
    timer t(milliseconds(10), q);
    t.handler(tick(0));
    t.resume();
    std::this_thread::sleep_for(milliseconds(10));
    t.handler(tick(1));
    ev(E_MARK);
    quiesce(100 * MS);
    XCHECK(starts_after(last(E_MARK), 0) <= 1, "the old handler is still used");
    XCHECK(count(E_START, 1) >= 3, "the new handler is not used");
    t.cancel();
}
SCENARIO("C18", released_when_suspended, o.bound = 2; o.bound_thorough = 3; o.about = "a suspended timer whose last handle is dropped goes away";)
{
    std::weak_ptr<int> w;
    auto q = create_serial_queue("q");
    {
        auto token = std::make_shared<int>(0);
        w = token;
        timer t(milliseconds(10), q);
        t.handler([token] { ev(E_START); });
        t.resume();
        std::this_thread::sleep_for(milliseconds(10));
        t.suspend();
    }
    quiesce(500 * MS);
    XCHECK(w.expired(), "the timer is still alive");
}

// every sequence of operations on a timer; none of them coincides with a round
// except for those at the very moment of a resume()
static void
timer_history(int length)
{
    struct span
    {
        uint64_t from, due, to;
        int interval;
        bool changed, open;
    };
    std::vector<span> spans;
    std::vector<std::pair<uint64_t, int>> handlers{ { 0, 0 } };
    queue q = choose(2) ? global_queue() : create_serial_queue("q");
    int interval = choose(2) * 10, running = 0, h = 0;
    bool cancelled = false;
    timer t(milliseconds(interval), q);
    t.handler(tick(0));
    auto close = [&] {
        if (!spans.empty() && spans.back().open) {
            spans.back().to = now();
            spans.back().open = false;
        }
    };
    for (int i = 0; i < length; i++) {
        const int op = choose(8);
        if (op < 2) {
            if (++running == 1 && !cancelled)
                spans.push_back({ now(), now() + op * 10 * MS, ~0ull, interval, false, true });
            t.resume(milliseconds(op * 10));
        } else if (op == 2) {
            if (running == 0 || cancelled)
                finish(); // not balanced
            t.suspend();
            if (--running == 0)
                close();
        } else if (op == 3) {
            t.cancel();
            cancelled = true;
            close();
        } else if (op == 4) {
            t.interval(milliseconds(interval = 10 - interval));
            if (!spans.empty() && spans.back().open)
                spans.back().changed = true;
        } else if (op == 5) {
            t.handler(tick(++h));
            handlers.push_back({ now(), h });
        } else
            std::this_thread::sleep_for(std::chrono::microseconds(op == 6 ? 3007 : 24013));
    }
    std::this_thread::sleep_for(std::chrono::microseconds(41003));
    if (!cancelled && choose(2)) {
        while (running-- > 0)
            t.suspend();
        close();
        std::this_thread::sleep_for(std::chrono::microseconds(41003));
    } else {
        close();
        t.cancel();
    }
    std::vector<int> rounds(spans.size());
    const Event* previous = nullptr;
    int previous_span = -1;
    for (int i = 0; i < nevents(); i++) {
        auto& e = events()[i];
        if (e.kind != E_START)
            continue;
        int s = (int)spans.size() - 1;
        while (s >= 0 && spans[s].from > e.ns)
            s--;
        // at the same moment it may also be due to an earlier resume()
        while (s > 0 && (e.ns < spans[s].due || (previous_span == s && e.ns == spans[s].from)) && spans[s - 1].to == e.ns)
            s--;
        XCHECK(s >= 0 && e.ns <= spans[s].to, "invoked while suspended or cancelled");
        XCHECK(e.ns >= spans[s].due, "invoked before the delay elapsed");
        if (previous && previous_span == s) {
            XCHECK(spans[s].interval || spans[s].changed, "a single shot timer was invoked again");
            XCHECK(e.ns >= previous->ns + 10 * MS, "invoked %llu ns after the previous round", (unsigned long long)(e.ns - previous->ns));
        }
        bool known = false;
        for (size_t k = 0; k < handlers.size(); k++)
            known |= handlers[k].second == e.a && handlers[k].first <= e.ns && (k + 1 == handlers.size() || handlers[k + 1].first >= e.ns);
        XCHECK(known, "handler %d was invoked after it was replaced", e.a);
        rounds[s]++;
        previous = &e;
        previous_span = s;
    }
    for (size_t s = 0; s < spans.size(); s++) {
        auto& p = spans[s];
        if (p.to <= p.due)
            continue;
        XCHECK(rounds[s] >= 1, "not invoked within %llu ns after it was due", (unsigned long long)(p.to - p.due));
        if (!p.changed && p.interval)
            XCHECK(rounds[s] >= (int)((p.to - p.due) / (10 * MS)), "invoked only %d times within %llu ns", rounds[s], (unsigned long long)(p.to - p.due));
    }
}
SCENARIO("C18", histories, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.about = "every sequence of four operations (resume with and without delay, suspend, cancel, interval, handler, pauses) on single shot and periodic timers";)
{
    timer_history(4);
}
SCENARIO("C18", histories_long, o.bound = -1; o.bound_thorough = 0; o.timedev = false; o.about = "... of six operations";)
{
    timer_history(6);
}
SCENARIO("C18", histories_preempted, o.bound = 1; o.bound_thorough = 2; o.timedev = false; o.about = "... of two operations after a resume, with preemptions";)
{
    timer_history(2);
}
SCENARIO("C18", every_kind, o.bound = 0; o.bound_thorough = 1; o.timedev = false; o.about = "every kind of operation as handler on every kind of queue";)
{
    object_with_work object;
    const int kind = choose(KINDS);
    timer t(milliseconds(10), queue_of_kind(choose(QUEUES)));
    use_kind(kind, 0, object, [&](const auto& f) { t.handler(f); });
    t.resume(milliseconds(5));
    quiesce(27 * MS);
    t.cancel();
    XCHECK(count(E_START, 0) == 3 && count(E_START) == 3, "fired %d times in 27 ms", count(E_START));
    for (int i = 0, n = 0; i < nevents(); i++)
        if (events()[i].kind == E_START)
            XCHECK(events()[i].ns >= (5 + 10 * n++) * MS, "fired too early");
}
SCENARIO("C18", many, o.bound = 0; o.bound_thorough = 0; o.timedev = false; o.max_steps = 500000; o.about = "300 cycles of resume and suspend, each shorter, as long as or longer than the delay: none is remembered";)
{
    timer t(milliseconds(10), queue_of_kind(choose(2)));
    t.handler([] { ev(E_START); });
    const int length = choose(3) * 2;
    for (int i = 0; i < 300; i++) {
        const int before = count(E_START);
        t.resume(milliseconds(2));
        if (length)
            std::this_thread::sleep_for(std::chrono::microseconds(length * 1000 - 500));
        t.suspend();
        std::this_thread::sleep_for(milliseconds(length ? 20 : 1));
        const int fired = count(E_START) - before;
        XCHECK(fired == (length == 4), "cycle %d of %d ms fired %d times", i, length, fired);
    }
    std::this_thread::sleep_for(milliseconds(20));
    const int before = count(E_START);
    t.resume(milliseconds(2));
    std::this_thread::sleep_for(milliseconds(25));
    XCHECK(count(E_START) == before + 3, "fired %d times after many cycles", count(E_START) - before);
    t.cancel();
}
SCENARIO("C18", wall_clock, o.timedev = false; o.bound = 1; o.bound_thorough = 2; o.about = "the clock of the system is set while waiting: no influence on timers";)
{
    const int i = choose(2) ? 25 : 60;
    timer t(milliseconds(i), choose(2) ? create_serial_queue("q") : global_queue());
    t.handler(tick());
    std::thread c = wall_clock_setter();
    const uint64_t t0 = now();
    t.resume(milliseconds(10));
    quiesce((10 + 3 * i) * MS + MS / 2);
    c.join();
    int n = 0;
    for (int k = 0; k < nevents(); k++)
        if (events()[k].kind == E_START) {
            XCHECK(events()[k].ns == t0 + (10 + n * i) * MS, "round %d of %d ms started after %llu ns", n, i, (unsigned long long)(events()[k].ns - t0));
            n++;
        }
    XCHECK(n >= 3, "invoked %d times", n);
    t.cancel();
}
