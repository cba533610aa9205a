// every way to hand an operation to the library
#pragma once
#include "queues.h"

// the kinds of operations; all of them record E_START(id) and E_END(id)
enum
{
    K_LAMBDA,   // a function object
    K_FUNCTION, // a std::function
    K_POINTER,  // a pointer to a function (id 0 only)
    K_DERIVED,  // a class derived from operation
    K_MEMBER,   // a member function of an object
    K_SHARED,   // an operation which is submitted again and again
    KINDS
};
inline void
record(int id)
{
    ev(E_START, id);
    ev(E_END, id);
}
struct derived_work : public operation
{
    const int id;
    explicit derived_work(int i)
      : id(i)
    {}
    void operator()() override { record(id); }
};
struct object_with_work
{
    int id;
    int payload[4] = { 1, 2, 3, 4 };
    virtual ~object_with_work() = default;
    void work() { record(payload[3] == 4 ? id : -1); }
    void iteration(size_t i) { record(payload[3] == 4 ? id + (int)i : -1); }
};
inline void
work_function()
{
    record(0);
}
inline void
iteration_function(size_t i)
{
    record((int)i);
}
struct derived_iteration : public iteration_operation
{
    void operator()(size_t i) override { record((int)i); }
};

// submits one operation of the given kind by use(something accepted by the
// overloads)
template<typename Use>
inline void
use_kind(int kind, int id, object_with_work& object, Use use)
{
    object.id = id;
    switch (kind) {
        case K_LAMBDA:
            use([id] { record(id); });
            break;
        case K_FUNCTION:
            use(std::function<void()>([id] { record(id); }));
            break;
        case K_POINTER:
            use(&work_function);
            break;
        case K_DERIVED:
            use(std::make_shared<derived_work>(id));
            break;
        case K_MEMBER:
            use(make_operation(&object, &object_with_work::work));
            break;
        case K_SHARED:
            use(rec(id));
            break;
    }
}
template<typename Use>
inline void
use_iteration_kind(int kind, object_with_work& object, Use use)
{
    object.id = 0;
    switch (kind) {
        case K_LAMBDA:
            use([](size_t i) { record((int)i); });
            break;
        case K_FUNCTION:
            use(std::function<void(size_t)>([](size_t i) { record((int)i); }));
            break;
        case K_POINTER:
            use(&iteration_function);
            break;
        case K_DERIVED:
            use(std::make_shared<derived_iteration>());
            break;
        case K_MEMBER:
            use(make_iteration_operation(&object, &object_with_work::iteration));
            break;
        case K_SHARED:
            use(make_iteration_operation([](size_t i) { record((int)i); }));
            break;
    }
}
// a queue of every kind
inline queue
queue_of_kind(int kind)
{
    switch (kind) {
        case 0:
            return create_serial_queue("q");
        case 1:
            return global_queue();
        case 2:
            return create_parallel_queue("p");
        case 3:
            return global_queue(queue_priority::BACKGROUND);
        case 4:
            return queue("q", queue_priority::USER_INTERACTIVE);
        default:
            return waitable_queue("w");
    }
}
constexpr int QUEUES = 6;
