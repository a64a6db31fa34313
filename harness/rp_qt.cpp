// Replays histories of spec/SeqQt.tla.  variant 0: schedule(duration), 1: schedule(time_point), 2: task state passed as arguments
#define GEN_OWN_CLOCK
#include "gen.hpp"
#include <rpp/rpp.hpp>
#include <rppqt/rppqt.hpp>
#include <QAbstractEventDispatcher>
#include <QCoreApplication>
#include <QThread>
#include <QTimerEvent>
#include <thread>

// virtual time: microseconds
static long g_us = 0;
namespace std::chrono
{
    inline namespace _V2
    {
        steady_clock::time_point steady_clock::now() noexcept { return time_point{microseconds{g_us + 1000000000L}}; }
    }
}
using namespace std::chrono;
namespace rs = rpp::schedulers;

static long g_events = 0;
struct App final : QCoreApplication
{
    using QCoreApplication::QCoreApplication;
    bool notify(QObject* o, QEvent* e) override
    {
        ++g_events;
        return QCoreApplication::notify(o, e);
    }
};
// Qt's timers in virtual time.  A coarse timer may be early (Qt: within 5% of the interval), a precise one is not
struct Dispatcher final : QAbstractEventDispatcher
{
    struct T
    {
        int           id;
        qint64        interval;
        Qt::TimerType type;
        QObject*      obj;
        long          due, n;
    };
    std::list<T> timers;
    long         count = 0;
    static long  after(qint64 ms, Qt::TimerType t) { return static_cast<long>(t == Qt::PreciseTimer || ms < 20 ? ms * 1000 : ms * 950); }

    void registerTimer(int id, qint64 ms, Qt::TimerType t, QObject* o) override { timers.push_back({id, ms, t, o, g_us + after(ms, t), ++count}); }
    bool unregisterTimer(int id) override { return timers.remove_if([&](const T& t) { return t.id == id; }) > 0; }
    bool unregisterTimers(QObject* o) override { return timers.remove_if([&](const T& t) { return t.obj == o; }) > 0; }
    QList<TimerInfo> registeredTimers(QObject* o) const override
    {
        QList<TimerInfo> l;
        for (auto& t : timers)
            if (t.obj == o)
                l.append(TimerInfo(t.id, static_cast<int>(t.interval), t.type));
        return l;
    }
    int remainingTime(int id) override
    {
        for (auto& t : timers)
            if (t.id == id)
                return static_cast<int>(std::max(0L, (t.due - g_us) / 1000));
        return -1;
    }
    bool processEvents(QEventLoop::ProcessEventsFlags) override
    {
        for (;;)
        {
            for (long before = -1; before != g_events;)
            {
                before = g_events;
                QCoreApplication::sendPostedEvents();
                QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
            }
            std::vector<T> due;
            for (auto& t : timers)
                if (t.due <= g_us)
                    due.push_back(t);
            if (due.empty())
                return true;
            std::stable_sort(due.begin(), due.end(), [](const T& a, const T& b) { return a.due < b.due; });
            for (auto& d : due)
                for (auto& t : timers)
                    if (t.id == d.id && t.n == d.n)
                    {
                        t.due = g_us + after(t.interval, t.type);
                        QTimerEvent e{d.id};
                        QCoreApplication::sendEvent(d.obj, &e);
                        break;
                    }
        }
    }
    void registerSocketNotifier(QSocketNotifier*) override {}
    void unregisterSocketNotifier(QSocketNotifier*) override {}
    void wakeUp() override {}
    void interrupt() override {}
};

struct Task
{
    int  id, runs = 0;
    bool disposed = false;
};
struct QtRun;
struct Handler
{
    QtRun*                r;
    std::shared_ptr<Task> t;
    bool                  is_disposed() const { return t->disposed; }
    void                  on_error(const std::exception_ptr& e) const;
};
struct QtRun final : Run
{
    struct Item { std::string op; int x; std::string res; int d; };
    std::vector<Item>                  menu;
    std::vector<std::string>           kinds;
    std::map<int, int>                 script;
    std::vector<std::shared_ptr<Task>> tasks;
    int                                nid = 0, variant;
    bool                               started = false;
    long                               base;
    std::unique_ptr<QCoreApplication>  app;
    int                                argc    = 1;
    char                               name[4] = "app";
    char*                              argv[2] = {name, nullptr};
    QtRun(const Cfg& c, int v)
        : variant(v)
    {
        for (auto& r : table(c, "items"))
            menu.push_back({r[0], atoi(r[1].c_str()), r[2], atoi(r[3].c_str())});
        kinds = split(str(c, "kinds"), ',');
        for (int i = 0; i <= num(c, "max"); ++i)
            tasks.push_back(std::make_shared<Task>(Task{i}));
        g_us += 100000000;
        base = g_us;
        if (num(c, "app"))
        {
            QCoreApplication::setEventDispatcher(new Dispatcher);
            app = std::make_unique<App>(argc, argv);
        }
    }
    long tick() const { return (g_us - base) / 500; }
    int  body(const std::shared_ptr<Task>& t)
    {
        out(QThread::currentThread() == QCoreApplication::instance()->thread() ? "r" : "r?", t->id, tick());
        const int n  = ++t->runs;
        auto      it = script.find(t->id * 10 + n);
        if (it == script.end())
            return -1;
        const Item m = menu.at(it->second - 1);
        if (m.op == "work")
            g_us += m.x * 500L;
        else if (m.op == "sched")
        {
            if (nid + 1 < static_cast<int>(tasks.size()))
                put(++nid, m.x);
        }
        else if (m.op == "disp" && m.x < static_cast<int>(tasks.size()))
            tasks[m.x]->disposed = true;
        return m.res == "again" ? m.d : -1;
    }
    static rs::duration ticks(int n) { return microseconds{n * 500L}; }
    void put(int id, int delay)
    {
        const auto  t = tasks[id];
        const auto& k = kinds[id - 1];
        const auto  d = ticks(delay);
        const auto  w = rppqt::schedulers::main_thread_scheduler::create_worker();
        using W       = decltype(rppqt::schedulers::main_thread_scheduler::create_worker());
        Handler    hd{this, t};
        const auto go = [&](auto fn) {
            if (variant == 0)
                w.schedule(d, fn, hd);
            else if (variant == 1)
                w.schedule(W::now() + d, fn, hd);
            else
                w.schedule(d, [fn](const Handler& h, const std::shared_ptr<Task>&, int& n) { ++n; return fn(h); }, std::move(hd), std::shared_ptr<Task>(t), 5);
        };
        if (k == "now")
            go([](const Handler& h) -> rs::optional_delay_from_now { const int r = h.r->body(h.t); return r < 0 ? rs::optional_delay_from_now{} : rs::delay_from_now{ticks(r)}; });
        else if (k == "this")
            go([](const Handler& h) -> rs::optional_delay_from_this_timepoint { const int r = h.r->body(h.t); return r < 0 ? rs::optional_delay_from_this_timepoint{} : rs::delay_from_this_timepoint{ticks(r)}; });
        else
            go([](const Handler& h) -> rs::optional_delay_to { const int r = h.r->body(h.t); return r < 0 ? rs::optional_delay_to{} : rs::delay_to{W::now() + ticks(r - 1)}; });
    }
    void step(const Step& s) override
    {
        if (s.k == "p")
            script[s.i] = s.v;
        else if (s.k == "start")
            started = true;
        else if (s.k == "sched")
        {
            ++nid;
            if (s.i == 0)
                put(nid, s.v);
            else
                std::thread([&] { put(nid, s.v); }).join();
        }
        else if (s.k == "dis")
            tasks[s.i]->disposed = true;
        else if (s.k == "adv")
            g_us += s.v * 500L;
        else if (s.k == "run")
            QCoreApplication::processEvents();
    }
    std::string flags() override { return started ? std::to_string(tick()) : std::string{}; }
};
void Handler::on_error(const std::exception_ptr& e) const
{
    try
    {
        std::rethrow_exception(e);
    }
    catch (const rppqt::utils::no_active_qapplication&)
    {
        r->out("x", t->id, 0);
    }
    catch (...)
    {
        r->out("x?", t->id, 0);
    }
}
std::unique_ptr<Run> make_run(const Cfg& c, int variant) { return std::make_unique<QtRun>(c, variant); }
