// C34: the environment variables of the library only add messages and set the
// number of threads
#include "uses.h"
#include <iostream>
#include <streambuf>

struct capture : std::streambuf
{
    std::string text;
    int overflow(int c) override
    {
        text.push_back((char)c);
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        text.append(s, n);
        return n;
    }
};
static capture s_capture;
static void
trace(bool on = true)
{
    set_env("XDISPATCH2_TRACE", on ? "1" : "0");
    std::cerr.rdbuf(&s_capture);
}
// each message is a line of its own, whoever else is writing one
static void
check_messages()
{
    const std::string prefix = "[xdispatch2] ";
    const auto& t = s_capture.text;
    XCHECK(!t.empty(), "no messages");
    for (size_t at = 0; at < t.size();) {
        const auto end = t.find('\n', at);
        XCHECK(end != std::string::npos, "the last message is incomplete");
        const auto line = t.substr(at, end - at);
        XCHECK(line.compare(0, prefix.size(), prefix) == 0 && line.find(prefix, 1) == std::string::npos, "messages are mixed: '%s'", line.c_str());
        at = end + 1;
    }
}
SCENARIO("C34", tracing, o.bound = 1; o.bound_thorough = 2; o.about = "all parts of the library in use by two threads while messages are enabled";)
{
    trace();
    const int a = choose(USES), b = choose(USES);
    std::thread t([a] { use_library(a, 1, true); });
    use_library(b, 2, true);
    t.join();
    quiesce(20 * MS);
    const auto executed = [](int how, int id) {
        return how == 4 || how == 6 || how == 8 || how == 11 || count(E_END, id) == (how == 5 || how == 9 ? 2 : 1);
    };
    XCHECK(executed(a, 1) && executed(b, 2), "executed %d and %d times", count(E_END, 1), count(E_END, 2));
    check_messages();
}
SCENARIO("C34", tracing_queue, o.bound = 2; o.bound_thorough = 3; o.about = "a serial queue that is destroyed with more operations than it executes at once, while messages are enabled";)
{
    trace();
    {
        queue q("q");
        std::thread t([&] { q.async([] { record(100); }); });
        for (int i = 0; i < 12; i++)
            q.async([i] { record(i); });
        t.join();
    }
    quiesce();
    for (int i = 0; i < 12; i++)
        XCHECK(count(E_END, i) == 1, "operation %d was executed %d times", i, count(E_END, i));
    XCHECK(count(E_END, 100) == 1, "operation of the other thread");
    check_exclusive();
    check_messages();
}
SCENARIO("C34", tracing_pool, o.bound = 2; o.bound_thorough = 3; o.about = "threads of the pool starting, idling, expiring and being replaced while messages are enabled";)
{
    trace();
    const auto submit = [&](int id) { global_queue().async([id] { record(id); }); };
    submit(0);
    std::thread t([&] { submit(1); });
    submit(2);
    t.join();
    std::this_thread::sleep_for(std::chrono::seconds(30));
    submit(3);
    quiesce(100 * MS);
    for (int i = 0; i < 4; i++)
        XCHECK(count(E_END, i) == 1, "operation %d was executed %d times", i, count(E_END, i));
    check_messages();
}
SCENARIO("C34", silent, o.bound = 0; o.bound_thorough = 1; o.about = "nothing is written unless enabled";)
{
    trace(false);
    const int a = choose(USES), value = choose(4);
    const char* values[] = { "0", "", "no", nullptr };
    set_env("XDISPATCH2_TRACE", values[value]);
    use_library(a, 1, true);
    quiesce(20 * MS);
    XCHECK(s_capture.text.empty(), "'%s' was written", s_capture.text.c_str());
}
// ---- the number of threads --------------------------------------------------
static void
threads(int cpus)
{
    // what the variable is set to and how many cpus that means
    static const struct
    {
        const char* value;
        int cpus;
    } values[] = { { nullptr, 0 }, { "", 0 }, { "0", 0 }, { "-1", 0 }, { "-1000000", 0 }, { "many", 0 }, { "1", 1 }, { "2", 2 }, { " 3", 3 }, { "4 cores", 4 }, { "100", 100 }, { "1000000000", 1000000000 }, { "1073741824", 1073741824 }, { "2147483647", 2147483647 } };
    const auto& v = values[choose(sizeof values / sizeof *values)];
    std::cerr.rdbuf(&s_capture);
    set_env("XDISPATCH2_THREAD_COUNT", v.value);
    constexpr int N = 12;
    int running = 0, most = 0;
    for (int i = 0; i < N; i++)
        global_queue().async([&running, &most, i] {
            most = std::max(most, ++running);
            ev(E_START, i);
            std::this_thread::sleep_for(std::chrono::seconds(1));
            ev(E_END, i);
            running--;
        });
    quiesce(20000 * MS);
    for (int i = 0; i < N; i++)
        XCHECK(count(E_END, i) == 1, "operation %d was executed %d times", i, count(E_END, i));
    const auto limit = std::min<long>(N, 2l * (v.cpus ? v.cpus : cpus));
    XCHECK(most == limit, "XDISPATCH2_THREAD_COUNT=%s: %d threads instead of %ld", v.value ? v.value : "(unset)", most, limit);
}
SCENARIO("C34", thread_count, o.bound = 0; o.bound_thorough = 1; o.timedev = false; o.cpus = 1; o.about = "the number of threads with all kinds of values, one cpu";)
{
    threads(1);
}
SCENARIO("C34", thread_count_three_cpus, o.bound = 0; o.bound_thorough = 1; o.timedev = false; o.cpus = 3; o.about = "the same with three cpus";)
{
    threads(3);
}
