// A model of the parts of QtCore that are used by the qt5 backend. Compiled
// together with the backend instead of Qt, whose own synchronisation cannot be
// put under the control of the model checker. tools/qt_conformance.sh runs the
// same program against this model and the real QtCore.
#pragma once
#include <atomic>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#define Q_OBJECT
#define Q_DECL_OVERRIDE override

namespace Qt {
enum FindChildOption
{
    FindDirectChildrenOnly = 0,
    FindChildrenRecursively = 1
};
}

class QString
{
public:
    QString() = default;
    static QString fromStdString(const std::string& s)
    {
        QString q;
        q.m_s = s;
        return q;
    }
    std::string toStdString() const { return m_s; }
    bool isEmpty() const { return m_s.empty(); }

private:
    std::string m_s;
};

class QMutex
{
public:
    void lock() { m_m.lock(); }
    void unlock() { m_m.unlock(); }

private:
    std::mutex m_m;
};
class QMutexLocker
{
public:
    explicit QMutexLocker(QMutex* m) : m_m(m) { m_m->lock(); }
    ~QMutexLocker() { m_m->unlock(); }

private:
    QMutex* m_m;
};

class QEvent
{
public:
    enum Type
    {
        None = 0,
        User = 1000,
        MaxUser = 65535
    };
    explicit QEvent(Type t) : m_type(t) {}
    virtual ~QEvent() = default;
    Type type() const { return m_type; }
    static int registerEventType(int hint = -1);

private:
    Type m_type;
};

class QObject;
class QThread;

namespace qtstub {
// what Qt calls QThreadData
struct ThreadData
{
    std::mutex m;
    std::condition_variable c;
    std::deque<std::pair<QObject*, QEvent*>> events;
    bool quit = false;
    QThread* thread = nullptr;
};
using ThreadDataPtr = std::shared_ptr<ThreadData>;
ThreadDataPtr current_data();
int loop(const ThreadDataPtr&);
}

class QObject
{
public:
    explicit QObject(QObject* parent = nullptr);
    virtual ~QObject();
    QObject(const QObject&) = delete;
    virtual bool event(QEvent* e);
    QThread* thread() const;
    void moveToThread(QThread*);
    void setParent(QObject*);
    QObject* parent() const { return m_parent; }
    void setObjectName(const QString& n) { m_name = n; }
    QString objectName() const { return m_name; }
    template<typename T>
    T findChild(const QString& name = QString(), int = Qt::FindChildrenRecursively) const
    {
        for (QObject* c : m_children)
            if (T t = dynamic_cast<T>(c))
                if (name.isEmpty() || c->m_name.toStdString() == name.toStdString())
                    return t;
        return nullptr;
    }

protected:
    virtual void customEvent(QEvent*) {}

private:
    friend class QCoreApplication;
    template<typename>
    friend class QPointer;
    friend int qtstub::loop(const qtstub::ThreadDataPtr&);
    qtstub::ThreadDataPtr m_data;
    QObject* m_parent = nullptr;
    std::vector<QObject*> m_children;
    QString m_name;
    int m_posted = 0; // guarded by the mutex of m_data
    std::shared_ptr<std::atomic<QObject*>> m_guard;
};

template<typename T>
class QPointer
{
public:
    QPointer(T* t = nullptr)
    {
        if (t)
            m_guard = static_cast<QObject*>(t)->m_guard;
    }
    T* data() const { return m_guard ? static_cast<T*>(m_guard->load()) : nullptr; }
    T* operator->() const { return data(); }
    operator T*() const { return data(); }

private:
    std::shared_ptr<std::atomic<QObject*>> m_guard;
};

class QThread : public QObject
{
public:
    explicit QThread(QObject* parent = nullptr);
    ~QThread() override;
    void start();
    void quit();
    bool wait();
    bool isRunning() const;
    static QThread* currentThread();

protected:
    virtual void run();
    int exec();

private:
    friend class QObject;
    friend class QCoreApplication;
    friend qtstub::ThreadDataPtr qtstub::current_data();
    explicit QThread(const qtstub::ThreadDataPtr& adopted);
    qtstub::ThreadDataPtr m_own;
    mutable std::mutex m_m;
    std::condition_variable m_c;
    bool m_running = false, m_finished = false;
};

class QCoreApplication : public QObject
{
public:
    QCoreApplication(int& argc, char** argv);
    ~QCoreApplication() override;
    static QCoreApplication* instance();
    static void postEvent(QObject* receiver, QEvent* e);
    static bool sendEvent(QObject* receiver, QEvent* e) { return receiver->event(e); }
    static void removePostedEvents(QObject* receiver);
    static int exec();
    static void quit();
};

class QRunnable
{
public:
    virtual ~QRunnable() = default;
    virtual void run() = 0;
    bool autoDelete() const { return m_auto; }
    void setAutoDelete(bool a) { m_auto = a; }

private:
    bool m_auto = true;
};

class QThreadPool : public QObject
{
public:
    explicit QThreadPool(QObject* parent = nullptr);
    ~QThreadPool() override;
    void start(QRunnable* r, int priority = 0);
    void setMaxThreadCount(int n);
    int maxThreadCount() const;
    int activeThreadCount() const;
    void setExpiryTimeout(int ms);
    void reserveThread();
    void releaseThread();
    bool waitForDone(int ms = -1);

private:
    struct Impl;
    std::shared_ptr<Impl> d;
};
