// helpers for the qt5 backend, compiled against the model of QtCore in qtstub
#pragma once
#include "signals.h"
#include <QtCore/QCoreApplication>
#include <QtCore/QThread>
#include <QtCore/QThreadPool>
#include <QtCore/QObject>
#include <xdispatch/backend_qt.h>

// an operation which records that it ran on the given QThread
inline operation_ptr
on_thread(QThread* t, int id)
{
    return make_operation([t, id] {
        ev(E_START, id);
        XCHECK(QThread::currentThread() == t, "operation %d runs on another thread", id);
        ev(E_END, id);
    });
}
inline operation_ptr
span(int id, std::function<void()> more = {})
{
    return make_operation([id, more] {
        ev(E_START, id);
        if (more)
            more();
        ev(E_END, id);
    });
}
inline QCoreApplication*
make_app()
{
    static int argc = 0;
    return new QCoreApplication(argc, nullptr);
}
