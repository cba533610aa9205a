// helpers shared by the signal properties
#pragma once
#include "timers.h"

using vsig = signal<void()>;
using isig = signal<void(int)>;
// a signal with or without a group
inline isig*
any_isig()
{
    return choose(2) ? new isig(group()) : new isig;
}
#define ANY_ISIG(s)                                                            \
    const std::unique_ptr<isig> s##_ptr(any_isig());                           \
    isig& s = *s##_ptr

constexpr auto SINGLE = notification_mode::single_updates;
constexpr auto BATCH = notification_mode::batch_updates;
constexpr auto SYNC = notification_mode::_synchronous_update;

// E_START(id, v) / E_END(id, v) of handler invocations
inline std::function<void(int)>
on_emit(int id = 0, int ms = 0, std::function<void(int)> more = {})
{
    return [id, ms, more](int v) {
        ev(E_START, id, v);
        if (ms)
            std::this_thread::sleep_for(milliseconds(ms));
        if (more)
            more(v);
        ev(E_END, id, v);
    };
}
inline queue
target(int i)
{
    return i ? global_queue() : create_serial_queue("q");
}
// E_POST(v) / E_POSTED(v) around an emit of v
inline void
emit(isig& s, int v)
{
    ev(E_POST, v);
    s(v);
    ev(E_POSTED, v);
}
// the queue does not proceed while this is alive
struct Hold
{
    std::shared_ptr<barrier_operation> go = std::make_shared<barrier_operation>();
    explicit Hold(const queue& q)
    {
        auto b = go;
        q.async([b] { b->wait(); });
    }
    void release() { (*go)(); }
};
// number of invocations of id with value v
inline int
calls(int id, int v)
{
    int n = 0;
    for (int i = 0; i < nevents(); i++)
        n += events()[i].kind == E_START && events()[i].a == id && events()[i].b == v;
    return n;
}

// every sequence of operations on a signal. E_POST(v)/E_POSTED(v) around
// emits, E_MARK/E_DONE around skip_all(), E_WAIT(k)/E_WAITED(k) around disconnects
enum SignalOps { H_SINGLE = 1, H_BATCH = 2, H_SYNC = 4, H_SKIP = 8, H_DISCONNECT = 16 };
inline void
signal_history(int length, int allowed, int first = -1)
{
    struct handler
    {
        notification_mode mode;
        connection c;
        int since; // position of the connect
    };
    queue q = target(choose(2));
    ANY_ISIG(s);
    std::vector<handler> handlers;
    int emits = 0;
    auto add = [&](notification_mode m) {
        const int id = (int)handlers.size();
        handlers.push_back({ m, s.connect(on_emit(id, m == SYNC ? 0 : 5), q, m), nevents() });
    };
    int kinds[8], nk = 0;
    if (allowed & H_SINGLE)
        kinds[nk++] = 0;
    if (allowed & H_BATCH)
        kinds[nk++] = 1;
    if (allowed & H_SYNC)
        kinds[nk++] = 2;
    kinds[nk++] = 3;
    if (allowed & H_SKIP)
        kinds[nk++] = 4;
    if (allowed & H_DISCONNECT)
        kinds[nk++] = 5;
    kinds[nk++] = 6;
    kinds[nk++] = 7;
    for (int i = 0; i < length; i++) {
        const int op = i == 0 && first >= 0 ? first : kinds[choose(nk)];
        if (op == 0)
            add(SINGLE);
        if (op == 1)
            add(BATCH);
        if (op == 2)
            add(SYNC);
        if (op == 3) {
            emit(s, ++emits);
            for (size_t k = 0; k < handlers.size(); k++)
                if (handlers[k].mode == SYNC && handlers[k].c.connected())
                    XCHECK(calls((int)k, emits) == 1, "the synchronous handler was not invoked during the emit");
        }
        if (op == 4) {
            ev(E_MARK);
            s.skip_all();
            ev(E_DONE);
        }
        if (op == 5) {
            int k = 0;
            while (k < (int)handlers.size() && !handlers[k].c.connected())
                k++;
            if (k == (int)handlers.size())
                finish();
            ev(E_WAIT, k);
            XCHECK(handlers[k].c.disconnect(), "was not connected");
            check_stopped_at(ev(E_WAITED, k), k);
        }
        if (op == 6)
            std::this_thread::sleep_for(std::chrono::microseconds(2003));
        if (op == 7)
            std::this_thread::sleep_for(std::chrono::microseconds(12007));
    }
    quiesce(200 * MS);
    for (size_t k = 0; k < handlers.size(); k++) {
        const int id = (int)k;
        const int stop_begin = find(E_WAIT, id), stopped = find(E_WAITED, id);
        int total = 0, expected = 0;
        for (int i = 0; i < nevents(); i++) {
            auto& e = events()[i];
            if (e.kind == E_START && e.a == id) {
                total++;
                XCHECK(stopped < 0 || i < stopped, "handler %d was invoked after it was disconnected", id);
                XCHECK(find(E_POST, e.b) >= handlers[k].since && find(E_POST, e.b) < i, "handler %d was invoked for emit %d", id, e.b);
            }
        }
        for (int v = 1; v <= emits; v++) {
            const int begin = find(E_POST, v), end = find(E_POSTED, v);
            if (begin < handlers[k].since || (stopped >= 0 && begin > stopped)) {
                XCHECK(calls(id, v) == 0, "handler %d was invoked for emit %d", id, v);
                continue;
            }
            expected++;
            // is there anything which may have prevented the invocation?
            int skip = -1;
            for (int i = end; i < nevents(); i++)
                if (events()[i].kind == E_MARK && skip < 0)
                    skip = i;
            const bool must = skip < 0 && stop_begin < 0;
            int start = -1;
            for (int i = 0; i < nevents(); i++) {
                auto& e = events()[i];
                if (e.kind == E_START && e.a == id && (handlers[k].mode == BATCH ? i > begin : e.b == v) && start < 0)
                    start = i;
            }
            if (handlers[k].mode == SYNC)
                XCHECK(calls(id, v) == 1 && start > begin && start < end, "the synchronous handler was not invoked during the emit");
            else if (handlers[k].mode == SINGLE) {
                XCHECK(calls(id, v) <= 1, "handler %d was invoked %d times for emit %d", id, calls(id, v), v);
                if (must)
                    XCHECK(start >= 0, "handler %d was never invoked for emit %d", id, v);
                if (skip >= 0 && start >= 0) {
                    int done = skip;
                    while (events()[done].kind != E_DONE)
                        done++;
                    XCHECK(start < done, "emit %d was delivered to handler %d although it was skipped", v, id);
                }
            } else {
                if (must)
                    XCHECK(start >= 0, "handler %d was never invoked after emit %d", id, v);
            }
        }
        if (handlers[k].mode == BATCH)
            XCHECK(total <= expected, "handler %d was invoked %d times for %d emits", id, total, expected);
        int running = 0;
        for (int i = 0; i < nevents(); i++)
            running += events()[i].a != id ? 0 : events()[i].kind == E_START ? 1 : events()[i].kind == E_END ? -1 : 0;
        XCHECK(running == 0, "an invocation did not complete");
    }
}
