// C32: the library stays usable until the process has ended
#include "uses.h"

struct at_exit
{
    std::function<void()> f;
    ~at_exit()
    {
        if (f)
            f();
    }
};

SCENARIO("C32", operations_go_on, o.bound = 2; o.bound_thorough = 3; o.about = "operations of the pool use the library while the process exits";)
{
    const int how = choose(USES);
    global_queue().async([how] {
        ev(E_MARK);
        use_library(how, 1, true);
        use_library(how, 2, true);
    });
    if (choose(2))
        std::this_thread::sleep_for(milliseconds(1));
    exit_process();
}
SCENARIO("C32", first_use_at_exit, o.bound = 2; o.bound_thorough = 3; o.about = "operations use parts of the library for the first time while the process exits";)
{
    const int how = choose(USES);
    create_serial_queue("q").async([how] {
        ev(E_MARK);
        use_library(how, 1, true);
    });
    exit_process();
}
SCENARIO("C32", destructors, o.bound = 2; o.bound_thorough = 3; o.about = "destructors of static objects use the library, whether they were constructed before it was used or not";)
{
    const int how = choose(USES), order = choose(3);
    if (order == 1)
        use_library(how, 0, true);
    else if (order == 2)
        use_library(0, 0, true);
    static at_exit a;
    a.f = [how] {
        const int n = count(E_END, 1);
        use_library(how, 1, true);
        if (how != 4) {
            quiesce(10000000);
            XCHECK(how == 6 || how == 8 || how == 11 || count(E_END, 1) > n, "not executed at exit");
        }
    };
    if (order == 0)
        use_library(how, 0, true);
    exit_process();
}
// static objects of the program made of those of the library
struct owner
{
    queue s{ "s" };
    waitable_queue w{ "w" };
    group g;
    timer t{ milliseconds(2), global_queue() };
    signal<void(int)> sig;
    scoped_connection c;
    std::unique_ptr<socket_notifier> n;
};
SCENARIO("C32", static_objects, o.bound = 2; o.bound_thorough = 3; o.about = "static queues, groups, timers, notifiers and signals with work pending or running";)
{
    const bool before = choose(2);
    const int what = choose(6);
    if (!before)
        use_library(0, 0, true);
    static owner o;
    if (before)
        use_library(0, 0, true);
    const auto work = [](int id) {
        return [id] {
            ev(E_START, id);
            std::this_thread::sleep_for(milliseconds(2));
            ev(E_END, id);
        };
    };
    switch (what) {
        case 0:
            for (int i = 1; i < 4; i++)
                o.s.async(work(i));
            break;
        case 1:
            for (int i = 1; i < 3; i++)
                o.w.async(work(i));
            break;
        case 2:
            o.g.async(work(1), o.s);
            o.g.notify(work(2), global_queue());
            break;
        case 3:
            o.t.handler(work(1));
            o.t.resume(milliseconds(0));
            break;
        case 4:
            o.c = o.sig.connect([=](int) { work(1)(); }, o.s);
            o.sig(1);
            o.sig(2);
            break;
        case 5:
            sock_set(5, true, false, false);
            o.n.reset(new socket_notifier(5, notifier_type::READ, global_queue()));
            o.n->handler([=](socket_t, notifier_type) { work(1)(); });
            o.n->resume();
            break;
    }
    if (choose(2))
        std::this_thread::sleep_for(milliseconds(3));
    exit_process();
}
SCENARIO("C32", main_loop, o.bound = 2; o.bound_thorough = 3; o.about = "an operation of the main queue ends the process while others submit to it";)
{
    const int how = choose(USES);
    std::thread([how] {
        main_queue().async([how] { use_library(how, 2, false); });
        for (int i = 0; i < 2; i++)
            main_queue().async([] { ev(E_MARK); });
    }).detach();
    global_queue().async([how] { use_library(how, 1, true); });
    main_queue().async([] { exit_process(); });
    exec();
}

// the process is ended by a handler of one of the static objects
SCENARIO("C32", ends_in_handler, o.bound = 1; o.bound_thorough = 2; o.about = "the handler of a static timer, notifier, signal, group or queue ends the process, its objects are cancelled and destroyed meanwhile";)
{
    const int what = choose(7), on_main = choose(2), then = choose(3);
    const int how = then == 2 ? choose(USES) : 0;
    struct objects
    {
        std::unique_ptr<queue> s{ new queue("s") };
        std::unique_ptr<group> g;
        std::unique_ptr<timer> t;
        std::shared_ptr<signal<void(int)>> sig;
        connection c;
        std::unique_ptr<socket_notifier> n;
        int then = 0, how = 0;
        ~objects()
        {
            if (then == 1) {
                if (t)
                    t->cancel();
                if (n)
                    n->cancel();
                c.disconnect();
            }
            if (then == 2)
                use_library(how, 4, true);
            ev(E_DONE);
        }
    };
    static objects o;
    o.then = then;
    o.how = how;
    const queue q = on_main ? main_queue() : *o.s;
    const auto end = [] {
        ev(E_MARK);
        exit_process();
    };
    // the handler may destroy the objects while they are still being used here,
    // so that needs handles of their own
    group g;
    timer tm(milliseconds(1), q);
    std::shared_ptr<signal<void(int)>> emitted;
    switch (what) {
        case 0: q.async(end); break;
        case 1:
            o.g.reset(new group(g));
            g.async(end, q);
            break;
        case 2:
            o.g.reset(new group(g));
            g.async([] { ev(E_START, 1); ev(E_END, 1); }, global_queue());
            g.notify(end, q);
            break;
        case 3:
            o.t.reset(new timer(tm));
            tm.handler(end);
            tm.resume(milliseconds(0));
            break;
        case 4:
            o.sig.reset(new signal<void(int)>);
            o.c = o.sig->connect([=](int) { end(); }, q);
            emitted = o.sig;
            (*emitted)(1);
            break;
        case 5:
            o.sig.reset(new signal<void(int)>);
            o.c = o.sig->connect([=](int) { end(); }, q);
            o.sig->connect([=](int) { ev(E_START, 1); ev(E_END, 1); }, global_queue());
            emitted = o.sig;
            (*emitted)(1);
            (*emitted)(2);
            break;
        case 6: {
            sock_set(5, true, false, false);
            socket_notifier n(5, notifier_type::READ, q);
            o.n.reset(new socket_notifier(n));
            n.handler([=](socket_t, notifier_type) { end(); });
            n.resume();
            break;
        }
    }
    if (on_main)
        exec();
    std::this_thread::sleep_for(std::chrono::seconds(20));
    XCHECK(false, "the process did not end: %d handlers, %d destroyed", count(E_MARK), count(E_DONE));
}

SCENARIO("C32", thread_locals, o.bound = 1; o.bound_thorough = 2; o.about = "destructors of thread local objects use the library as a thread of the pool expires, as another thread ends and as the process exits";)
{
    const int how = choose(USES), where = choose(3);
    const auto op = [how] {
        static thread_local at_exit a;
        a.f = [how] {
            ev(E_MARK);
            use_library(how, 1, true);
        };
    };
    switch (where) {
        case 0:
            global_queue().async(op);
            std::this_thread::sleep_for(std::chrono::seconds(31));
            break;
        case 1: {
            std::thread t(op);
            t.join();
            break;
        }
        case 2:
            op();
            exit_process();
    }
    quiesce(20000000);
    XCHECK(where == 0 || count(E_MARK) == 1, "not destroyed");
    XCHECK(count(E_MARK) == 0 || how == 4 || how == 6 || how == 8 || how == 11 || count(E_END, 1) > 0, "not executed");
}
