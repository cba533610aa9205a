// checks shared by the timer and notifier properties
#pragma once
#include "queues.h"

// E_START/E_END of handler invocations (a = timer), E_MARK(a) a resume,
// E_WAIT(a) / E_WAITED(a) around suspend or cancel
inline operation_ptr
tick(int id = 0, int ms = 0)
{
    return make_operation([id, ms] {
        ev(E_START, id);
        if (ms)
            std::this_thread::sleep_for(milliseconds(ms));
        ev(E_END, id);
    });
}
// invocations of one timer never overlap
inline void
check_no_overlap(int id = 0)
{
    int running = 0;
    for (int i = 0; i < nevents(); i++) {
        auto& e = events()[i];
        if (e.a != id)
            continue;
        if (e.kind == E_START)
            XCHECK(running++ == 0, "the handler is invoked while it is running");
        if (e.kind == E_END)
            running--;
    }
}
// consecutive starts are at least ms apart, the first one not before 'from'
inline void
check_spacing(uint64_t from, int ms, int id = 0)
{
    uint64_t next = from;
    for (int i = 0; i < nevents(); i++) {
        auto& e = events()[i];
        if (e.a != id || e.kind != E_START)
            continue;
        XCHECK(e.ns >= next, "the handler was invoked at %llu ns, not due before %llu ns", (unsigned long long)e.ns, (unsigned long long)next);
        next = e.ns + ms * MS;
    }
}
// number of invocations that started within [from, to]
inline int
starts(uint64_t from, uint64_t to, int id = 0)
{
    int n = 0;
    for (int i = 0; i < nevents(); i++)
        if (events()[i].kind == E_START && events()[i].a == id && events()[i].ns >= from && events()[i].ns <= to)
            n++;
    return n;
}
// position of the last event of that kind
inline int
last(int kind, int a = 0)
{
    for (int i = nevents() - 1; i >= 0; i--)
        if (events()[i].kind == kind && events()[i].a == a)
            return i;
    return -1;
}
inline int
starts_after(int pos, int id = 0)
{
    int n = 0;
    for (int i = pos + 1; i < nevents(); i++)
        if (events()[i].kind == E_START && events()[i].a == id)
            n++;
    return n;
}
// nothing ran at 'pos' and nothing was invoked afterwards
inline void
check_stopped_at(int pos, int id = 0)
{
    int running = 0;
    for (int i = 0; i < nevents(); i++) {
        auto& e = events()[i];
        if (i == pos)
            XCHECK(running == 0, "cancel() returned while the handler is running");
        if (e.a != id)
            continue;
        if (e.kind == E_START) {
            XCHECK(i < pos, "the handler was invoked after cancel() returned");
            running++;
        }
        if (e.kind == E_END)
            running--;
    }
}
