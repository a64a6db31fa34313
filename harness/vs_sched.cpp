// Schedulers used from several threads.  args: <kind> <n> <workers> <kinds> <variant> <behaviours> <threads>
//   kind: new (a thread per worker), pool (n threads), comp, loop (run_loop), cur (current_thread only)
//   kinds: how a task asks to be run again, by task: now,this,to     variant: 0 schedule(duration), 1 schedule(time_point)
//   behaviours: 1=s3.0.1+a0/-;2=x  by task, executions separated by '/': s<task>.<worker>.<delay> schedule, c<task>.<delay> schedule on
//               current_thread, d<task> dispose, w<ms> work, a<delay> again, x throw, - nothing
//   threads: s, c, d, w as above; g dispatch, y dispatch_if_ready, k<worker> drop a worker
#include "replay.hpp"

#include <vsched.hpp>

#include <rpp/schedulers.hpp>
#include <rpp/rpp.hpp>

#include <atomic>
#include <thread>

namespace rs = rpp::schedulers;
using namespace std::chrono;
static int now() { return static_cast<int>(vs::now_ms()); }
struct Task
{
    int  id, runs = 0;
    bool disposed = false;
};
static int live = 0;
struct Alive // lives as long as the function given to the scheduler
{
    std::shared_ptr<int> p{new int{}, [](int* x) { delete x; --live; }}; // the count is the task's own state: runs of a task never race
    Alive() { ++live; }
};
struct Handler
{
    Task* t;
    bool  is_disposed() const
    {
        vs::quiet q;
        return t->disposed;
    }
    void  on_error(const std::exception_ptr&) const { vs::ev("{\"k\":\"x\",\"t\":%d,\"id\":%d,\"now\":%d}", vs::tid(), t->id, now()); }
};
struct Sched
{
    int                                                      variant = 0;
    std::vector<std::string>                                 kinds;
    std::vector<Task*>                                       tasks;
    std::map<int, std::vector<std::vector<std::string>>>     beh;
    std::vector<std::function<void(int, int)>>               workers; // schedule task with delay
    std::function<void(bool)>                                dispatch;
    std::function<std::function<void(int, int)>()>           make; // a new worker
    std::vector<std::shared_ptr<void>>                       keep;

    int body(Task* t)
    {
        const int n = [&] { vs::quiet q; return t->runs++; }();
        vs::ev("{\"k\":\"r\",\"t\":%d,\"id\":%d,\"now\":%d}", vs::tid(), t->id, now());
        vs::point();
        int         d   = -1;
        bool        thr = false;
        const auto& b   = [&]() -> auto& { vs::quiet q; return beh[t->id]; }();
        if (n < static_cast<int>(b.size()))
            for (auto& op : b[n])
            {
                if (op[0] == 'a')
                    d = atoi(op.c_str() + 1);
                else if (op[0] == 'x')
                    thr = true;
                else
                    act(op);
            }
        vs::ev("{\"k\":\"re\",\"t\":%d,\"id\":%d,\"res\":\"%s\",\"d\":%d,\"now\":%d}", vs::tid(), t->id, thr ? "x" : d >= 0 ? "a" : "n", d, now());
        if (thr)
            throw std::runtime_error{"x"};
        return d;
    }
    template<typename Wk>
    void put(const Wk& w, int id, int delay)
    {
        Task* const t = tasks[id];
        const auto& k = kinds[(id - 1) % kinds.size()];
        const auto  d = milliseconds{delay};
        Alive       a;
        const auto  go = [&](auto fn) {
            if (variant == 0)
                w.schedule(d, fn, Handler{t});
            else
                w.schedule(Wk::now() + d, fn, Handler{t});
        };
        if (k == "now")
            go([this, a](const Handler& h) -> rs::optional_delay_from_now { ++*a.p; const int r = body(h.t); return r < 0 ? rs::optional_delay_from_now{} : rs::delay_from_now{milliseconds{r}}; });
        else if (k == "this")
            go([this, a](const Handler& h) -> rs::optional_delay_from_this_timepoint { ++*a.p; const int r = body(h.t); return r < 0 ? rs::optional_delay_from_this_timepoint{} : rs::delay_from_this_timepoint{milliseconds{r}}; });
        else
            go([this, a](const Handler& h) -> rs::optional_delay_to { ++*a.p; const int r = body(h.t); return r < 0 ? rs::optional_delay_to{} : rs::delay_to{Wk::now() + milliseconds{r}}; });
    }
    void leave(int i)
    {
        std::function<void(int, int)> gone{};
        {
            vs::quiet q;
            gone.swap(workers[i]);
        }
    }
    void act(const std::string& op)
    {
        const auto p = split(op.substr(1), '.');
        const int  i = p.empty() || p[0].empty() ? 0 : atoi(p[0].c_str());
        switch (op[0])
        {
        case 's':
        {
            const int  w    = atoi(p[1].c_str()), d = atoi(p[2].c_str());
            const auto put_ = [&] { vs::quiet q; return workers[w]; }();
            if (!put_)
                break;
            vs::ev("{\"k\":\"call\",\"t\":%d,\"id\":%d,\"w\":%d,\"d\":%d,\"now\":%d}", vs::tid(), i, w, d, now());
            put_(i, d);
            vs::ev("{\"k\":\"ret\",\"t\":%d,\"id\":%d,\"now\":%d}", vs::tid(), i, now());
            break;
        }
        case 'c':
        {
            const int d = atoi(p[1].c_str());
            vs::ev("{\"k\":\"call\",\"t\":%d,\"id\":%d,\"w\":-1,\"d\":%d,\"now\":%d}", vs::tid(), i, d, now());
            put(rs::current_thread::create_worker(), i, d);
            vs::ev("{\"k\":\"ret\",\"t\":%d,\"id\":%d,\"now\":%d}", vs::tid(), i, now());
            break;
        }
        case 'd':
        {
            vs::quiet q;
            tasks[i]->disposed = true;
        }
            vs::ev("{\"k\":\"dis\",\"t\":%d,\"id\":%d,\"now\":%d}", vs::tid(), i, now());
            break;
        case 'w': vs::sleep_ms(i); break;
        case 'k': leave(i); break;
        case 'm': // this thread creates worker i
        {
            auto     fn = make();
            vs::quiet q;
            workers[i] = std::move(fn);
            break;
        }
        case 'g':
        case 'y':
            vs::ev("{\"k\":\"g\",\"t\":%d,\"b\":%d,\"now\":%d}", vs::tid(), op[0] == 'g' ? 1 : 0, now());
            dispatch(op[0] == 'g');
            vs::ev("{\"k\":\"gr\",\"t\":%d,\"now\":%d}", vs::tid(), now());
            break;
        default: break;
        }
    }
};
SCENARIO(sched)
{
    const auto f = split(args, ' ');
    auto&      w = *new Sched;
    w.kinds      = split(f[3], ',');
    w.variant    = atoi(f[4].c_str());
    for (int i = 0; i < 16; ++i)
        w.tasks.push_back(new Task{i});
    if (f[5] != "-")
        for (auto& b : split(f[5], ';'))
            for (auto& e : split(b.substr(b.find('=') + 1), '/'))
                w.beh[atoi(b.c_str())].push_back(split(e, '+'));
    const auto wrap = [&w](auto wk) -> std::function<void(int, int)> { return [&w, wk](int id, int d) { w.put(wk, id, d); }; };
    const bool own  = f[6].find('m') != std::string::npos; // the threads create the workers
    const int  nw   = atoi(f[2].c_str());
    const auto worker = [&](auto wk) { w.workers.push_back(wrap(wk)); };
    if (own)
    {
        w.workers.resize(nw);
        if (f[0] == "new")
            w.make = [&] { return wrap(rs::new_thread::create_worker()); };
        else if (f[0] == "pool")
            w.make = [&, p = rs::thread_pool{static_cast<size_t>(atoi(f[1].c_str()))}] { return wrap(p.create_worker()); };
        else
            w.make = [&] { return wrap(rs::computational::create_worker()); };
    }
    else
    if (f[0] == "new")
        for (int i = 0; i < nw; ++i)
            worker(rs::new_thread::create_worker());
    else if (f[0] == "pool")
    {
        rs::thread_pool p{static_cast<size_t>(atoi(f[1].c_str()))};
        for (int i = 0; i < nw; ++i)
            worker(p.create_worker());
    }
    else if (f[0] == "comp")
        for (int i = 0; i < nw; ++i)
            worker(rs::computational::create_worker());
    else if (f[0] == "loop")
    {
        auto l = std::make_shared<rs::run_loop>();
        for (int i = 0; i < nw; ++i)
            worker(l->create_worker());
        w.dispatch = [l](bool b) { b ? l->dispatch() : l->dispatch_if_ready(); };
    }
    {
        std::vector<std::thread> threads;
        {
        vs::quiet q;
        for (auto& t : split(f[6], ';'))
        {
            threads.emplace_back([t, &w] {
                for (auto& op : split(t, ','))
                    w.act(op);
            });
        }
        }
        if (f[0] == "loop")
            vs::drain();
        else
            for (auto& t : threads)
                t.join();
        if (f[0] == "loop")
            for (auto& t : threads)
                t.detach();
    }
    w.make = {};
    if (f[0] != "loop")
        for (int i = 0; i < nw; ++i)
            w.leave(i);
    const int blocked = vs::drain();
    vs::ev("{\"k\":\"fin\",\"t\":0,\"blocked\":%d,\"live\":%d,\"now\":%d}", blocked, live, now());
    vs::finish();
}
