// Replays histories of spec/SeqSched.tla.  variant 0: schedule(duration), 1: schedule(time_point), 2: task state passed as arguments, moves between workers
#define GEN_OWN_CLOCK
#include "gen.hpp"
#include <rpp/schedulers/test_scheduler.hpp>
#include <ctime>
#include <pthread.h>

// virtual time: microseconds; sleeping advances it, and so does asking for the time while a blocking dispatch waits
static long g_us    = 0;
static bool g_ticks = false;
namespace std::chrono
{
    inline namespace _V2
    {
        steady_clock::time_point steady_clock::now() noexcept
        {
            if (g_ticks)
                g_us += 20;
            return time_point{microseconds{g_us + 1000000000L}};
        }
    }
}
extern "C" int nanosleep(const timespec* t, timespec*)
{
    const long us = t->tv_sec * 1000000 + t->tv_nsec / 1000;
    if (us > 0)
        g_us += us;
    return 0;
}
extern "C" int clock_nanosleep(clockid_t, int, const timespec* t, timespec* r) { return nanosleep(t, r); }
extern "C" int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec* t)
{
    const long us = t->tv_sec * 1000000 + t->tv_nsec / 1000 - 1000000000L;
    if (us > g_us)
        g_us = us;
    return ETIMEDOUT;
}
using namespace std::chrono;
namespace rs = rpp::schedulers;

struct Task
{
    int  id, runs = 0;
    bool disposed = false;
};
struct SchedRun;
struct Handler
{
    SchedRun*             r;
    std::shared_ptr<Task> t;
    bool                  is_disposed() const { return t->disposed; }
    void                  on_error(const std::exception_ptr& e) const;
};
struct SchedRun : Run
{
    struct Item { std::string op; int x; std::string res; int d; };
    std::vector<Item>                    menu;
    std::vector<std::string>             kinds;
    std::map<int, int>                   script;
    std::vector<std::shared_ptr<Task>>   tasks;
    int                                  nid = 0;
    bool                                 started = false;
    std::string                          kind;
    explicit SchedRun(const Cfg& c)
        : kind(str(c, "kind"))
    {
        for (auto& r : table(c, "items"))
            menu.push_back({r[0], atoi(r[1].c_str()), r[2], atoi(r[3].c_str())});
        kinds = split(str(c, "kinds"), ',');
        for (int i = 0; i <= num(c, "max"); ++i)
            tasks.push_back(std::make_shared<Task>(Task{i}));
        g_us += 1000000; // time never goes back
        g_us -= g_us % 1000;
        base    = g_us;
        g_ticks = false;
    }
    long         ms() const { return kind == "test" ? duration_cast<milliseconds>(rs::test_scheduler::now() - t0).count() : (g_us - base) / 1000; }
    long         base = 0;
    rs::time_point t0{};
    virtual void defer(int id, int delay)    = 0;
    virtual rs::time_point now()             = 0;
    // what the task does; -1: no more, else delay
    int body(const std::shared_ptr<Task>& t)
    {
        const bool ticks = std::exchange(g_ticks, false);
        (void)ticks;
        g_us -= g_us % 1000;
        out("r", t->id, ms());
        const int n  = ++t->runs;
        auto      it = script.find(t->id * 10 + n);
        if (it == script.end())
            return -1;
        const Item m = menu.at(it->second - 1);
        if (m.op == "work")
            g_us += m.x * 1000L;
        else if (m.op == "sched")
        {
            if (nid + 1 < static_cast<int>(tasks.size()))
                defer(++nid, m.x);
        }
        else if (m.op == "disp" && m.x < static_cast<int>(tasks.size()))
            tasks[m.x]->disposed = true;
        if (m.res == "throw")
            throw TestErr{"X"};
        return m.res == "again" ? m.d : -1;
    }
    template<typename W>
    void put(const W& w, int id, int delay, int variant)
    {
        const auto  t = tasks[id];
        const auto& k = kinds[id - 1];
        const auto  d = milliseconds{delay};
        Handler     hd{this, t};
        const auto  go = [&](auto fn) {
            if (variant == 0)
                w.schedule(d, fn, hd);
            else if (variant == 1)
                w.schedule(W::now() + d, fn, std::as_const(hd));
            else
            {
                auto copy = w;
                copy.schedule(d, [fn](const Handler& h, const std::shared_ptr<Task>&, int& n) { ++n; return fn(h); }, std::move(hd), std::shared_ptr<Task>(t), 5);
            }
        };
        if (k == "now")
            go([](const Handler& h) -> rs::optional_delay_from_now { const int r = h.r->body(h.t); return r < 0 ? rs::optional_delay_from_now{} : rs::delay_from_now{milliseconds{r}}; });
        else if (k == "this")
            go([](const Handler& h) -> rs::optional_delay_from_this_timepoint { const int r = h.r->body(h.t); return r < 0 ? rs::optional_delay_from_this_timepoint{} : rs::delay_from_this_timepoint{milliseconds{r}}; });
        else
            go([](const Handler& h) -> rs::optional_delay_to { const int r = h.r->body(h.t); return r < 0 ? rs::optional_delay_to{} : rs::delay_to{h.r->now() + milliseconds{r - 1}}; });
    }
    virtual void other(const Step& s) = 0;
    virtual std::string more() { return {}; }
    void step(const Step& s) override
    {
        if (s.k == "p")
            script[s.i] = s.v;
        else if (s.k == "start")
            started = true;
        else if (s.k == "sched")
            defer(++nid, s.v);
        else if (s.k == "dis")
            tasks[s.i]->disposed = true;
        else
            other(s);
        g_ticks = false;
        g_us -= g_us % 1000;
    }
    std::string flags() override { return started ? std::to_string(ms()) + more() : std::string{}; }
};
void Handler::on_error(const std::exception_ptr& e) const { r->out(errname(e) == "X" ? "x" : "?", t->id, 0); }

struct ImmRun final : SchedRun
{
    int v;
    ImmRun(const Cfg& c, int v)
        : SchedRun(c), v(v)
    {
    }
    void           defer(int id, int delay) override { put(rs::immediate::create_worker(), id, delay, v); }
    rs::time_point now() override { return rs::immediate::create_worker().now(); }
    void           other(const Step&) override {}
};
struct CurRun final : SchedRun
{
    int                   v;
    std::function<void()> end;
    CurRun(const Cfg& c, int v)
        : SchedRun(c), v(v)
    {
    }
    ~CurRun() override
    {
        script.clear();
        if (end)
            end();
    }
    void           defer(int id, int delay) override { put(rs::current_thread::create_worker(), id, delay, v); }
    rs::time_point now() override { return rs::current_thread::create_worker().now(); }
    void           other(const Step& s) override
    {
        using G = decltype(rs::current_thread::own_queue_and_drain_finally_if_not_owned());
        if (s.k == "own")
        {
            auto* g = new G(rs::current_thread::own_queue_and_drain_finally_if_not_owned());
            end     = [g] { delete g; };
        }
        else if (s.k == "end")
            std::exchange(end, nullptr)();
    }
};
struct TestRun final : SchedRun
{
    int                v;
    rs::test_scheduler s;
    TestRun(const Cfg& c, int v)
        : SchedRun(c), v(v)
    {
        t0 = rs::test_scheduler::now();
    }
    void           defer(int id, int delay) override { put(s.create_worker(), id, delay, v); }
    rs::time_point now() override { return rs::test_scheduler::now(); }
    void           other(const Step& x) override
    {
        if (x.k == "adv")
            s.time_advance(milliseconds{x.v});
    }
};
struct LoopRun final : SchedRun
{
    int          v;
    rs::run_loop s;
    LoopRun(const Cfg& c, int v)
        : SchedRun(c), v(v)
    {
    }
    void           defer(int id, int delay) override { put(s.create_worker(), id, delay, v); }
    rs::time_point now() override { return s.create_worker().now(); }
    void           other(const Step& x) override
    {
        if (x.k == "adv")
            g_us += x.v * 1000L;
        else if (x.k == "try")
            s.dispatch_if_ready();
        else if (x.k == "go")
        {
            g_ticks = true;
            s.dispatch();
        }
    }
    std::string more() override { return std::string(",") + (s.is_empty() ? "1" : "0") + "," + (s.is_any_ready_schedulable() ? "1" : "0"); }
};
std::unique_ptr<Run> make_run(const Cfg& c, int variant)
{
    const auto k = str(c, "kind");
    if (k == "imm")
        return std::make_unique<ImmRun>(c, variant);
    if (k == "cur")
        return std::make_unique<CurRun>(c, variant);
    if (k == "test")
        return std::make_unique<TestRun>(c, variant);
    return std::make_unique<LoopRun>(c, variant);
}
