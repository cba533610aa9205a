// checks shared by the queue properties
#pragma once
#include "common.h"
using namespace xmc;
using namespace xdispatch;

inline operation_ptr
rec(int id)
{
    return make_operation([id] {
        ev(E_START, id);
        ev(E_END, id);
    });
}
// an operation made of one visible step only
inline operation_ptr
mark(int id)
{
    return make_operation([id] { ev(E_START, id); });
}
// every id in [0, n) executed exactly once
inline void
check_once(int n)
{
    for (int i = 0; i < n; i++)
        XCHECK(count(E_START, i) == 1, "operation %d was executed %d times", i, count(E_START, i));
    int others = count(E_START) - n;
    XCHECK(others == 0, "%d unknown operations", others);
}
inline void
check_exclusive()
{
    int running = -1;
    for (int i = 0; i < nevents(); i++) {
        auto& e = events()[i];
        if (e.kind == E_START) {
            XCHECK(running < 0, "operation %d started while %d was running", e.a, running);
            running = e.a;
        } else if (e.kind == E_END) {
            XCHECK(running == e.a, "operation %d ended while %d was running", e.a, running);
            running = -1;
        }
    }
}
// submissions are bracketed by E_POST/E_POSTED events: if one ended before the
// other began, the first has to start earlier
inline void
check_order()
{
    for (int i = 0; i < nevents(); i++) {
        if (events()[i].kind != E_POSTED)
            continue;
        const int a = events()[i].a;
        for (int j = i + 1; j < nevents(); j++) {
            if (events()[j].kind != E_POST)
                continue;
            const int b = events()[j].a;
            int sa = find(E_START, a), sb = find(E_START, b);
            if (sb < 0)
                continue;
            XCHECK(sa >= 0 && sa < sb, "operation %d was submitted before %d but started later", a, b);
        }
    }
}
template<typename Q>
void
post(Q& q, int id, const operation_ptr& op)
{
    ev(E_POST, id);
    q.async(op);
    ev(E_POSTED, id);
}
inline uint64_t
order_hash()
{
    uint64_t h = 0;
    for (int i = 0; i < nevents(); i++)
        if (events()[i].kind == E_START)
            h = h * 31 + events()[i].a + 1;
    return h;
}

// every sequence of 'length' submissions of all kinds and pauses on a queue,
// checked to run once each; and in order and exclusive when it is serial
inline void
queue_history(queue q, int length, bool serial)
{
    group g;
    int n = 0, apart[64] = {}; // delayed or submitted by others: no position of their own
    auto work = [](int id, int ms) {
        return make_operation([id, ms] {
            ev(E_START, id);
            if (ms)
                std::this_thread::sleep_for(std::chrono::milliseconds(ms));
            ev(E_END, id);
        });
    };
    uint64_t due[64] = {};
    for (int i = 0; i < length; i++) {
        switch (choose(10)) {
            case 0:
                post(q, n, work(n, 0));
                n++;
                break;
            case 1:
                post(q, n, work(n, 5));
                n++;
                break;
            case 2: { // submits another one
                const int a = n++, b = n++;
                ev(E_POST, a);
                q.async([q, a, b, work]() {
                    ev(E_START, a);
                    auto c = q;
                    post(c, b, work(b, 1));
                    ev(E_END, a);
                });
                ev(E_POSTED, a);
                break;
            }
            case 3:
            case 4: {
                const int times = 1 + choose(2), first = n;
                n += times;
                for (int k = 0; k < times; k++)
                    ev(E_POST, first + k);
                q.apply(times, [first](size_t k) {
                    ev(E_START, first + (int)k);
                    ev(E_END, first + (int)k);
                });
                for (int k = 0; k < times; k++) {
                    XCHECK(count(E_END, first + k) == 1, "apply() returned before iteration %d was done", k);
                    ev(E_POSTED, first + k);
                }
                break;
            }
            case 5: {
                const int d = choose(2) * 7;
                due[n] = now() + d * MS;
                q.after(std::chrono::milliseconds(d), work(n, 1));
                apart[n++] = 1;
                break;
            }
            case 6:
                ev(E_POST, n);
                g.async(work(n, 2), q);
                ev(E_POSTED, n);
                n++;
                break;
            case 7:
                std::this_thread::sleep_for(std::chrono::microseconds(2003));
                break;
            case 8:
                std::this_thread::sleep_for(std::chrono::microseconds(12007));
                break;
            case 9: // another handle of it
                q = queue(q.label(), q.implementation());
                break;
        }
    }
    q = global_queue();
    quiesce(200 * MS);
    check_once(n);
    for (int i = 0; i < n; i++)
        if (due[i])
            XCHECK(events()[find(E_START, i)].ns >= due[i], "delayed operation %d was executed early", i);
    (void)apart;
    if (serial) {
        check_exclusive();
        check_order();
    }
    XCHECK(g.wait(std::chrono::milliseconds(0)), "the group is not done");
}
