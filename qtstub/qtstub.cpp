#include "qtstub.h"

using namespace qtstub;

namespace qtstub {
static thread_local ThreadDataPtr* t_current;

static void
set_current(const ThreadDataPtr& d)
{
    delete t_current;
    t_current = d ? new ThreadDataPtr(d) : nullptr;
}
// Qt adopts the threads it did not create
ThreadDataPtr
current_data()
{
    if (!t_current) {
        auto d = std::make_shared<ThreadData>();
        set_current(d);
    }
    return *t_current;
}

int
loop(const ThreadDataPtr& d)
{
    for (;;) {
        QObject* r;
        QEvent* e;
        {
            std::unique_lock<std::mutex> l(d->m);
            while (d->events.empty() && !d->quit)
                d->c.wait(l);
            if (d->events.empty())
                break;
            r = d->events.front().first;
            e = d->events.front().second;
            d->events.pop_front();
            r->m_posted--;
        }
        // deleted without holding the mutex, also when delivering throws
        std::unique_ptr<QEvent> del(e);
        r->event(e);
    }
    return 0;
}
}

int
QEvent::registerEventType(int)
{
    static std::atomic<int> s_next(MaxUser);
    return s_next--;
}

QObject::QObject(QObject* parent)
  : m_data(current_data())
  , m_guard(std::make_shared<std::atomic<QObject*>>(this))
{
    if (parent)
        setParent(parent);
}
QObject::~QObject()
{
    m_guard->store(nullptr);
    auto children = m_children;
    m_children.clear();
    for (QObject* c : children) {
        c->m_parent = nullptr;
        delete c;
    }
    QCoreApplication::removePostedEvents(this);
    if (m_parent)
        setParent(nullptr);
}
bool
QObject::event(QEvent* e)
{
    if (e->type() >= QEvent::User)
        customEvent(e);
    return e->type() >= QEvent::User;
}
QThread*
QObject::thread() const
{
    return m_data->thread;
}
void
QObject::moveToThread(QThread* t)
{
    if (m_data == t->m_own)
        return;
    if (m_parent || m_data != current_data())
        return; // refused with a warning
    auto to = t->m_own;
    // only objects without events are moved by the backend
    std::lock_guard<std::mutex> l(m_data->m);
    if (m_posted)
        std::terminate();
    m_data = to;
}
void
QObject::setParent(QObject* p)
{
    if (m_parent) {
        auto& c = m_parent->m_children;
        for (size_t i = 0; i < c.size(); i++)
            if (c[i] == this) {
                c.erase(c.begin() + i);
                break;
            }
    }
    m_parent = nullptr;
    if (p && p->m_data == m_data) { // otherwise refused with a warning
        m_parent = p;
        p->m_children.push_back(this);
    }
}

QThread::QThread(QObject* parent)
  : QObject(parent)
  , m_own(std::make_shared<ThreadData>())
{
    m_own->thread = this;
}
QThread::QThread(const ThreadDataPtr& adopted)
  : m_own(adopted)
  , m_running(true)
{
    m_own->thread = this;
}
QThread::~QThread()
{
    std::unique_lock<std::mutex> l(m_m);
    if (m_running && !m_finished)
        std::terminate(); // destroyed while thread is still running
    m_own->thread = nullptr;
}
void
QThread::start()
{
    {
        std::lock_guard<std::mutex> l(m_m);
        if (m_running)
            return;
        m_running = true;
        m_finished = false;
    }
    std::thread([this] {
        set_current(m_own);
        run();
        set_current(nullptr);
        std::lock_guard<std::mutex> l(m_m);
        m_running = false;
        m_finished = true;
        m_c.notify_all();
    }).detach();
}
void
QThread::run()
{
    exec();
}
int
QThread::exec()
{
    return loop(current_data());
}
void
QThread::quit()
{
    std::lock_guard<std::mutex> l(m_own->m);
    m_own->quit = true;
    m_own->c.notify_all();
}
bool
QThread::wait()
{
    std::unique_lock<std::mutex> l(m_m);
    while (m_running)
        m_c.wait(l);
    return true;
}
bool
QThread::isRunning() const
{
    std::lock_guard<std::mutex> l(m_m);
    return m_running;
}
QThread*
QThread::currentThread()
{
    auto d = current_data();
    if (!d->thread)
        new QThread(d);
    return d->thread;
}

static QCoreApplication* s_app;
QCoreApplication::QCoreApplication(int&, char**)
{
    QThread::currentThread(); // adopts this thread
    s_app = this;
}
QCoreApplication::~QCoreApplication()
{
    s_app = nullptr;
}
QCoreApplication*
QCoreApplication::instance()
{
    return s_app;
}
void
QCoreApplication::postEvent(QObject* r, QEvent* e)
{
    const auto d = r->m_data;
    std::lock_guard<std::mutex> l(d->m);
    d->events.emplace_back(r, e);
    r->m_posted++;
    d->c.notify_all();
}
void
QCoreApplication::removePostedEvents(QObject* r)
{
    std::vector<std::unique_ptr<QEvent>> removed;
    const auto d = r->m_data;
    std::unique_lock<std::mutex> l(d->m);
    if (!r->m_posted)
        return;
    for (auto it = d->events.begin(); it != d->events.end();) {
        if (it->first == r) {
            removed.emplace_back(it->second);
            it = d->events.erase(it);
        } else
            ++it;
    }
    r->m_posted = 0;
    l.unlock();
}
int
QCoreApplication::exec()
{
    return loop(s_app->m_data);
}
void
QCoreApplication::quit()
{
    auto d = s_app->m_data;
    std::lock_guard<std::mutex> l(d->m);
    d->quit = true;
    d->c.notify_all();
}

// as QThreadPoolPrivate of Qt 5.15: a task is started right away as long as
// fewer threads than allowed are active, otherwise it is queued by priority;
// reserved threads count as active
struct QThreadPool::Impl : public std::enable_shared_from_this<QThreadPool::Impl>
{
    std::mutex m;
    std::condition_variable work, idle;
    std::vector<std::pair<int, QRunnable*>> queue;
    int max = 0, threads = 0, waiting = 0, reserved = 0, active = 0, wakeups = 0;
    int expiry = 30000;
    bool exiting = false;

    int active_count() const { return threads - waiting + wakeups + reserved; }
    void enqueue(QRunnable* r, int priority)
    {
        auto it = queue.begin();
        while (it != queue.end() && it->first >= priority)
            ++it;
        queue.emplace(it, priority, r);
    }
    bool try_start(QRunnable* r)
    {
        if (threads == 0) {
            start_thread(r);
            return true;
        }
        if (active_count() >= max)
            return false;
        if (waiting - wakeups > 0) {
            enqueue(r, 0);
            wake();
            return true;
        }
        start_thread(r);
        return true;
    }
    void wake()
    {
        wakeups++;
        work.notify_all();
    }
    void start_thread(QRunnable* r)
    {
        threads++;
        active++;
        auto self = shared_from_this();
        std::thread([self, r] { self->run(r); }).detach();
    }
    void start_more()
    {
        while (!queue.empty() && active_count() < max) {
            auto r = queue.front();
            queue.erase(queue.begin());
            if (!try_start(r.second)) {
                queue.insert(queue.begin(), r);
                break;
            }
        }
    }
    void inactive()
    {
        if (--active == 0)
            idle.notify_all();
    }
    void run(QRunnable* r)
    {
        std::unique_lock<std::mutex> l(m);
        for (;;) {
            for (;;) {
                if (r) {
                    const bool del = r->autoDelete();
                    l.unlock();
                    r->run();
                    if (del)
                        delete r;
                    l.lock();
                    r = nullptr;
                }
                if (active_count() > max && active_count() - reserved > 1)
                    break; // too many
                if (queue.empty())
                    break;
                r = queue.front().second;
                queue.erase(queue.begin());
            }
            const bool expired = exiting || (active_count() > max && active_count() - reserved > 1);
            if (expired)
                break;
            waiting++;
            inactive();
            bool timeout = false;
            while (wakeups == 0 && !exiting && !timeout)
                timeout = work.wait_for(l, std::chrono::milliseconds(expiry)) == std::cv_status::timeout;
            active++;
            waiting--;
            if (wakeups > 0)
                wakeups--;
            else
                break; // expired or exiting
        }
        threads--;
        inactive();
        set_current(nullptr);
    }
};
QThreadPool::QThreadPool(QObject* parent)
  : QObject(parent)
  , d(std::make_shared<Impl>())
{
    d->max = 2;
}
QThreadPool::~QThreadPool()
{
    waitForDone();
}
void
QThreadPool::start(QRunnable* r, int priority)
{
    std::lock_guard<std::mutex> l(d->m);
    if (!d->try_start(r)) {
        d->enqueue(r, priority);
        if (d->waiting - d->wakeups > 0)
            d->wake();
    }
}
void
QThreadPool::setMaxThreadCount(int n)
{
    std::lock_guard<std::mutex> l(d->m);
    d->max = n;
    d->start_more();
}
int
QThreadPool::maxThreadCount() const
{
    std::lock_guard<std::mutex> l(d->m);
    return d->max;
}
int
QThreadPool::activeThreadCount() const
{
    std::lock_guard<std::mutex> l(d->m);
    return d->active_count();
}
void
QThreadPool::setExpiryTimeout(int ms)
{
    std::lock_guard<std::mutex> l(d->m);
    d->expiry = ms;
}
void
QThreadPool::reserveThread()
{
    std::lock_guard<std::mutex> l(d->m);
    ++d->reserved;
}
void
QThreadPool::releaseThread()
{
    std::lock_guard<std::mutex> l(d->m);
    --d->reserved;
    d->start_more();
}
bool
QThreadPool::waitForDone(int ms)
{
    std::unique_lock<std::mutex> l(d->m);
    if (ms < 0) {
        while (!(d->queue.empty() && d->active == 0))
            d->idle.wait(l);
    } else if (!d->idle.wait_for(l, std::chrono::milliseconds(ms), [&] { return d->queue.empty() && d->active == 0; }))
        return false;
    // joins the threads, new ones are started as needed
    d->exiting = true;
    d->work.notify_all();
    while (d->threads)
        d->idle.wait(l);
    d->exiting = false;
    return true;
}
