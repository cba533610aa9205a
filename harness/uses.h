// every part of the library in use
#pragma once
#include "kinds.h"
#include "sockets.h"
#include <xdispatch/waitable_queue.h>
#include <xdispatch/signals.h>

// uses the library in one of many ways
enum { USES = 12 };
inline void
use_library(int how, int id, bool may_block)
{
    const auto op = [id] { ev(E_START, id); ev(E_END, id); };
    switch (how) {
        case 0: global_queue().async(op); break;
        case 1: global_queue(queue_priority::USER_INTERACTIVE).async(op); break;
        case 2: create_serial_queue("s").async(op); break;
        case 3: create_parallel_queue("p").async(op); break;
        case 4: main_queue().async(op); break;
        case 5: {
            group g;
            g.async(op, global_queue(queue_priority::BACKGROUND));
            g.notify(op, global_queue());
            if (may_block)
                XCHECK(g.wait(milliseconds(-1)), "wait failed");
            break;
        }
        case 6: {
            timer t(milliseconds(0), global_queue());
            t.handler(op);
            t.resume(milliseconds(0));
            std::this_thread::sleep_for(milliseconds(1));
            t.cancel();
            break;
        }
        case 7: {
            waitable_queue q("w");
            q.async(op);
            if (may_block)
                q.wait_for_all();
            break;
        }
        case 8: {
            signal<void(int)> s;
            auto c = s.connect([op](int) { op(); }, global_queue());
            s(1);
            c.disconnect();
            break;
        }
        case 9:
            if (may_block)
                global_queue(queue_priority::USER_INITIATED).apply(2, [op](size_t) { op(); });
            else
                global_queue(queue_priority::USER_INITIATED).async(op);
            break;
        case 10: global_queue().after(milliseconds(1), op); break;
        case 11: {
            sock_set(5, true, false, false);
            socket_notifier n(5, notifier_type::READ, global_queue());
            n.handler([op](socket_t, notifier_type) {
                op();
                std::this_thread::sleep_for(milliseconds(5));
            });
            n.resume();
            std::this_thread::sleep_for(milliseconds(1));
            n.cancel();
            break;
        }
    }
}
