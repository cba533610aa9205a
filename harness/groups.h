// every sequence of operations on a group
#pragma once
#include "queues.h"

// works are 0, 1, ..., notifications E_DONE(k) / E_MARK(k)
inline void
group_history(int length, bool own_pool)
{
    using std::chrono::milliseconds;
    queue p = own_pool ? naive::create_parallel_queue("p", make_spawn_pool()) : global_queue(), s = create_serial_queue("s");
    auto g = std::make_unique<group>();
    int n = 0, k = 0, needed[32] = {};
    auto work = [&](const queue& q, int ms) {
        const int id = n++;
        g->async([id, ms] {
            ev(E_START, id);
            if (ms)
                std::this_thread::sleep_for(milliseconds(ms));
            ev(E_END, id);
        }, q);
    };
    auto ended = [](int n) {
        for (int i = 0; i < n; i++)
            if (count(E_END, i) != 1)
                return false;
        return true;
    };
    for (int i = 0; i < length; i++) {
        const int op = choose(10);
        switch (op) {
            case 0:
                work(p, 0);
                break;
            case 1:
                work(p, 5);
                break;
            case 2:
                work(s, 5);
                break;
            case 3:
            case 4: {
                const int id = k++, all = n;
                needed[id] = all;
                g->notify([id, all, ended] {
                    ev(E_DONE, id);
                    XCHECK(ended(all), "notification %d was executed before the %d operations were done", id, all);
                    ev(E_MARK, id);
                }, op == 3 ? p : s);
                break;
            }
            case 5:
            case 6:
            case 7: {
                const int timeout = op == 5 ? 0 : op == 6 ? 3 : -1;
                const bool done = ended(n);
                const uint64_t t0 = now();
                const bool result = g->wait(milliseconds(timeout));
                XCHECK(timeout < 0 || now() - t0 <= timeout * MS, "wait(%d ms) took %d ms", timeout, int((now() - t0) / MS));
                if (result) {
                    XCHECK(ended(n), "wait() returned true before all operations were done");
                    uint64_t last = t0;
                    for (int i = 0; i < nevents(); i++)
                        if (events()[i].kind == E_END)
                            last = std::max(last, events()[i].ns);
                    XCHECK(now() == last, "wait() took %d ms although everything was done", int((now() - last) / MS));
                } else {
                    XCHECK(timeout >= 0, "unlimited wait() returned false");
                    XCHECK(!done, "wait() returned false although everything was done");
                    XCHECK(now() - t0 >= timeout * MS, "wait() returned false too early");
                }
                break;
            }
            case 8:
                std::this_thread::sleep_for(std::chrono::microseconds(6003));
                break;
            case 9: { // another handle of it
                auto h = std::make_unique<group>(*g);
                g = std::move(h);
                break;
            }
        }
    }
    if (choose(2)) {
        XCHECK(g->wait() && ended(n), "the final wait() returned too early");
    }
    g.reset();
    quiesce(200 * MS);
    check_once(n);
    for (int i = 0; i < k; i++)
        XCHECK(count(E_DONE, i) == 1 && count(E_MARK, i) == 1, "notification %d was executed %d times", i, count(E_DONE, i));
    (void)needed;
}
