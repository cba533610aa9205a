// C33: queues, groups, timers and notifiers are handles with the semantics of
// values: every copy refers to the same object
#include "kinds.h"
#include "timers.h"
#include "sockets.h"
#include <xdispatch/waitable_queue.h>

// A history of copies, moves and assignments over three handles, compared with
// a model in which a handle is the number of an object (or none). 'make' creates
// a handle of a new object, 'use' does something with the object by a handle.
constexpr int SLOTS = 3, OBJECTS = 8;
template<typename H, typename Make, typename Use, typename Check>
static void
history(int depth, Make make, Use use, Check check)
{
    std::unique_ptr<H> h[SLOTS];
    int model[SLOTS] = { -1, -1, -1 }, objects = 0;
    // start with two handles of one object and one of another
    h[0].reset(new H(make(objects)));
    model[0] = objects++;
    h[1].reset(new H(*h[0]));
    model[1] = 0;
    h[2].reset(new H(make(objects)));
    model[2] = objects++;
    for (int step = 0; step < depth; step++) {
        const int a = choose(SLOTS);
        const int what = choose(8);
        const int b = what < 4 ? choose(SLOTS) : a;
        switch (what) {
            case 0: // copy construction
                if (model[a] < 0 || a == b)
                    finish();
                h[b].reset(new H(*h[a]));
                model[b] = model[a];
                break;
            case 1: // copy assignment, also to itself
                if (model[a] < 0 || !h[b])
                    finish();
                {
                    H& to = *h[b];
                    to = *h[a];
                }
                model[b] = model[a];
                break;
            case 2: // move construction
                if (model[a] < 0 || a == b)
                    finish();
                h[b].reset(new H(std::move(*h[a])));
                model[b] = model[a];
                model[a] = -1;
                break;
            case 3: // move assignment
                if (model[a] < 0 || a == b || !h[b])
                    finish();
                *h[b] = std::move(*h[a]);
                model[b] = model[a];
                model[a] = -1;
                break;
            case 4: // a handle of a new object
                h[a].reset(new H(make(objects)));
                model[a] = objects++;
                break;
            case 5:
                if (!h[a])
                    finish();
                h[a].reset();
                model[a] = -1;
                break;
            case 6:
            case 7:
                if (model[a] < 0)
                    finish();
                use(*h[a], model[a], what == 6);
                break;
        }
    }
    for (int i = 0; i < SLOTS; i++)
        if (model[i] >= 0)
            check(*h[i], model[i]);
    for (int i = 0; i < SLOTS; i++)
        for (int j = 0; j < SLOTS; j++)
            if (model[i] >= 0 && model[j] >= 0)
                check(*h[i], *h[j], model[i] == model[j]);
    // what was submitted outlives its handles
    for (int i = 0; i < SLOTS; i++)
        h[i].reset();
}

struct queue_handles
{
    int submitted = 0;
    const bool same_labels; // the label does not tell which queue it is
    std::string label(int object) const { return same_labels ? "queue" : "queue" + std::to_string(object); }
    std::vector<int> by_object[OBJECTS];
    void use(const queue& q, int object, bool delayed)
    {
        const int id = submitted++;
        if (delayed)
            q.after(milliseconds(1), [id] { record(id); });
        else {
            by_object[object].push_back(id);
            q.async([id] { record(id); });
        }
    }
    void check(const queue& q, int object)
    {
        XCHECK(q.label() == label(object), "handle of queue %d has the label '%s'", object, q.label().c_str());
    }
    void check(const queue& a, const queue& b, bool same)
    {
        XCHECK((a == b) == same && (a != b) == !same, "handles of %s queue compare %s", same ? "the same" : "another", a == b ? "equal" : "different");
        XCHECK((a.implementation() == b.implementation()) == same, "implementations");
    }
    void finally()
    {
        quiesce(10 * MS);
        for (int i = 0; i < submitted; i++)
            XCHECK(count(E_END, i) == 1, "operation %d was executed %d times", i, count(E_END, i));
        for (auto& ids : by_object) {
            int previous = -1;
            for (int id : ids) {
                int at = 0;
                while (events()[at].kind != E_START || events()[at].a != id)
                    at++;
                XCHECK(at > previous, "operation %d was executed too early", id);
                previous = at;
            }
        }
    }
};
template<typename Make>
static void
queues(int depth, Make make)
{
    queue_handles x{ 0, choose(2) > 0, {} };
    history<queue>(
      depth,
      [&](int object) { return make(x.label(object)); },
      [&](const queue& q, int object, bool delayed) { x.use(q, object, delayed); },
      [&](auto&&... args) { x.check(args...); });
    x.finally();
}
SCENARIO("C33", serial_queues, o.bound = 0; o.bound_thorough = 1; o.timedev = false; o.about = "histories of three handles of serial queues: identity, labels, operations submitted by any of them stay in order and outlive them";)
{
    queues(3, [](const std::string& label) { return queue(label); });
}
SCENARIO("C33", serial_queues_deeper, o.bound = -1; o.bound_thorough = 0; o.timedev = false; o.about = "longer histories";)
{
    queues(4, [](const std::string& label) { return queue(label); });
}
SCENARIO("C33", waitable_queues, o.bound = 0; o.bound_thorough = 1; o.timedev = false; o.about = "the same for waitable queues";)
{
    queues(2, [](const std::string& label) { return waitable_queue(label); });
}
struct group_history
{
    int pending[OBJECTS] = {}, notified = 0;
    void use(const group& g, int object, bool notify)
    {
        if (notify) {
            g.notify([] { ev(E_DONE); }, create_serial_queue("n"));
            notified++;
        } else {
            g.async(
              [] {
                  std::this_thread::sleep_for(std::chrono::seconds(1));
                  ev(E_END);
              },
              create_serial_queue("q"));
            pending[object]++;
        }
    }
    void check(const group& g, int object)
    {
        const bool done = g.wait(milliseconds(0));
        XCHECK(done == !pending[object], "a group with %d operations pending is %s", pending[object], done ? "complete" : "not complete");
    }
    void check(const group&, const group&, bool) {}
    void finally()
    {
        int total = 0;
        for (int n : pending)
            total += n;
        quiesce(3000 * MS);
        XCHECK(count(E_END) == total, "%d of %d operations executed", count(E_END), total);
        XCHECK(count(E_DONE) == notified, "%d of %d notifications executed", count(E_DONE), notified);
    }
};
SCENARIO("C33", groups, o.bound = 0; o.bound_thorough = 1; o.timedev = false; o.about = "histories of three handles of groups: work submitted by any of them is waited for by all of the same group and by no others";)
{
    group_history x;
    history<group>(
      3, [](int) { return group(); }, [&](auto&&... a) { x.use(a...); }, [&](auto&&... a) { x.check(a...); });
    x.finally();
}

// timers and notifiers: resumed and suspended by any of their handles
template<typename H>
struct source_history
{
    int resumed[OBJECTS] = {};
    H* handles[OBJECTS][SLOTS] = {};
    std::vector<queue> targets;
    void use(H& h, int object, bool suspend)
    {
        if (!suspend) {
            h.resume();
            resumed[object]++;
        } else if (resumed[object]) {
            h.suspend();
            resumed[object]--;
        } else
            finish();
    }
    void check(H& h, int object)
    {
        XCHECK(h.target_queue() == targets[object] && h.target_queue().label() == "queue" + std::to_string(object), "target queue");
        for (auto& x : handles[object])
            if (!x) {
                x = &h;
                return;
            }
    }
    void check(H& a, H& b, bool same)
    {
        XCHECK((a.target_queue() == b.target_queue()) == same, "target queues");
        if (&a == &b)
            finally();
    }
    int running = 0;
    // the handles are still there
    void finally()
    {
        if (running++)
            return;
        auto from = now() + 1;
        std::this_thread::sleep_for(milliseconds(20));
        for (int i = 0; i < OBJECTS; i++)
            if (handles[i][0]) {
                const int n = starts(from, now(), i);
                XCHECK((n > 0) == (resumed[i] > 0), "object %d was resumed %d times and fired %d times", i, resumed[i], n);
                // cancel it by the last one and try to use it by the first
                for (int j = SLOTS - 1; j >= 0; j--)
                    if (handles[i][j]) {
                        handles[i][j]->cancel();
                        break;
                    }
                handles[i][0]->resume();
            }
        from = now() + 1;
        std::this_thread::sleep_for(milliseconds(20));
        for (int i = 0; i < OBJECTS; i++)
            if (handles[i][0])
                XCHECK(starts(from, now(), i) == 0, "object %d fires although it was cancelled by a copy", i);
    }
};
SCENARIO("C33", timers, o.bound = 0; o.bound_thorough = 1; o.timedev = false; o.about = "histories of three handles of timers: all of the same timer resume, suspend and cancel it";)
{
    source_history<timer> x;
    history<timer>(
      3,
      [&](int object) {
          x.targets.push_back(queue("queue" + std::to_string(object)));
          timer t(milliseconds(2), x.targets.back());
          t.handler(tick(object));
          return t;
      },
      [&](auto&&... a) { x.use(a...); }, [&](auto&&... a) { x.check(a...); });
}
SCENARIO("C33", notifiers, o.bound = 0; o.bound_thorough = 1; o.timedev = false; o.about = "the same for notifiers, which also keep their socket and type";)
{
    struct notifiers : source_history<socket_notifier>
    {
        using base = source_history<socket_notifier>;
        void check(socket_notifier& n, int object)
        {
            XCHECK(n.socket() == 5 + object, "socket %d", (int)n.socket());
            XCHECK(n.type() == (object % 2 ? notifier_type::WRITE : notifier_type::READ), "type");
            base::check(n, object);
        }
        void check(socket_notifier& a, socket_notifier& b, bool same)
        {
            XCHECK((a.socket() == b.socket()) == same, "sockets");
            base::check(a, b, same);
        }
    } x;
    history<socket_notifier>(
      3,
      [&](int object) {
          x.targets.push_back(queue("queue" + std::to_string(object)));
          sock_set(5 + object, true, true, false);
          socket_notifier n(5 + object, object % 2 ? notifier_type::WRITE : notifier_type::READ, x.targets.back());
          n.handler([object](socket_t s, notifier_type type) {
              XCHECK(s == 5 + object && type == (object % 2 ? notifier_type::WRITE : notifier_type::READ), "wrong socket or type");
              ev(E_START, object);
              std::this_thread::sleep_for(milliseconds(3));
              ev(E_END, object);
          });
          return n;
      },
      [&](auto&&... a) { x.use(a...); }, [&](auto&&... a) { x.check(a...); });
}

// ---- the queues every process has -------------------------------------------
static const queue_priority s_priorities[] = { queue_priority::USER_INTERACTIVE, queue_priority::USER_INITIATED, queue_priority::UTILITY, queue_priority::DEFAULT, queue_priority::BACKGROUND };
SCENARIO("C33", global_queues, o.bound = 2; o.bound_thorough = 3; o.about = "threads which are the first to ask for a global queue or the main queue get the same one, and distinct ones for each priority";)
{
    const int a = choose(6), b = choose(6);
    const auto get = [](int i) { return i == 5 ? main_queue() : global_queue(s_priorities[i]); };
    std::unique_ptr<queue> q[2];
    std::thread t([&] {
        q[0].reset(new queue(get(a)));
        q[0]->async([] { record(0); });
    });
    q[1].reset(new queue(get(b)));
    q[1]->async([] { record(1); });
    t.join();
    const auto same = [](int a, int b) { return a == b || (a >= 2 && a <= 3 && b >= 2 && b <= 3); };
    XCHECK((*q[0] == *q[1]) == same(a, b), "queues %d and %d are %s", a, b, *q[0] == *q[1] ? "the same" : "different");
    XCHECK(*q[0] == get(a) && *q[1] == get(b), "another queue than before");
    for (int i = 0; i < 6; i++)
        XCHECK((get(i) == *q[0]) == same(i, a) && (get(i).label() == q[0]->label()) == same(i, a), "queues %d and %d", i, a);
    XCHECK(global_queue() == global_queue(queue_priority::DEFAULT), "default priority");
    quiesce();
    for (int i = 0; i < 2; i++)
        XCHECK(count(E_END, i) == ((i ? b : a) == 5 ? 0 : 1), "operation %d was executed %d times", i, count(E_END, i));
}
