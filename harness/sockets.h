// checks shared by the socket notifier properties
#pragma once
#include "timers.h"

// events: E_START(id, ready?) E_END(id); the handler takes 'ms'
struct Sock
{
    int fd;
    bool r = false, w = false, closed = false;
    // open from the beginning, select() fails for sockets nobody declared
    Sock(int f)
      : fd(f)
    {
        set(false, false);
    }
    void set(bool rd, bool wr, bool cl = false)
    {
        r = rd;
        w = wr;
        closed = cl;
        sock_set(fd, r, w, closed);
    }
    // the socket is readable for as long as 'pending' is positive, which is changed with it
    void add(int& pending, int delta)
    {
        struct arg
        {
            Sock* s;
            int& pending;
            int delta;
        } a{ this, pending, delta };
        sock_update(
          fd,
          [](void* p) {
              auto& a = *(arg*)p;
              a.pending += a.delta;
              return a.s->r = a.pending > 0;
          },
          &a);
    }
};
inline socket_notifier_operation_ptr
on_ready(const Sock& s, notifier_type t, int id = 0, int ms = 5, std::function<void()> more = {})
{
    const Sock* p = &s;
    return socket_notifier_operation::make([=](socket_t fd, notifier_type type) {
        ev(E_START, id);
        XCHECK(fd == p->fd, "called for socket %d instead of %d", fd, p->fd);
        XCHECK(type == t, "called for the wrong direction");
        if (more)
            more();
        if (ms)
            std::this_thread::sleep_for(milliseconds(ms));
        ev(E_END, id);
    });
}
