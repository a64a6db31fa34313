// asio strand with a context run by several threads.  args: <context threads> <workers> <kinds> <variant> <behaviours> <threads>
//   kinds: how a task asks to be run again, by task: now,this,to     variant: 0 schedule(duration), 1 schedule(time_point)
//   behaviours: 1=s3.0.1+a0/-;2=x  by task, executions separated by '/': s<task>.<worker>.<delay> schedule, c<task>.<delay> schedule on
//               current_thread, d<task> dispose, w<ms> work, a<delay> again, - nothing
//   threads: s, c, d, w as above; k<worker> drop a worker
#include "replay.hpp"

#include <vsched.hpp>

#include <rpp/schedulers.hpp>
#include <rpp/rpp.hpp>
#include <rppasio/schedulers/strand.hpp>

#include <atomic>
#include <thread>

namespace rs = rpp::schedulers;
using namespace std::chrono;
static int now() { return static_cast<int>(vs::now_ms()); }
struct Task
{
    int  id, runs = 0;
    bool disposed = false;
};
static int                live       = 0;
static thread_local bool in_context = false;
struct Alive // lives as long as the function given to the scheduler
{
    std::shared_ptr<int> p{new int{}, [](int* x) { delete x; --live; }}; // the count is the task's own state: runs of a task never race
    Alive() { ++live; }
};
struct Handler
{
    Task* t;
    bool  is_disposed() const
    {
        vs::quiet q;
        return t->disposed;
    }
    void  on_error(const std::exception_ptr&) const { vs::ev("{\"k\":\"x\",\"t\":%d,\"id\":%d,\"now\":%d}", vs::tid(), t->id, now()); }
};
struct Sched
{
    int                                                      variant = 0;
    std::vector<std::string>                                 kinds;
    std::vector<Task*>                                       tasks;
    std::map<int, std::vector<std::vector<std::string>>>     beh;
    std::vector<std::function<void(int, int)>>               workers; // schedule task with delay
    std::vector<std::shared_ptr<void>>                       keep;

    int body(Task* t)
    {
        const int n = [&] { vs::quiet q; return t->runs++; }();
        vs::ev("{\"k\":\"r\",\"t\":%d,\"id\":%d,\"ctx\":%d,\"now\":%d}", vs::tid(), t->id, in_context ? 1 : 0, now());
        vs::point();
        int         d = -1;
        const auto& b = [&]() -> auto& { vs::quiet q; return beh[t->id]; }();
        if (n < static_cast<int>(b.size()))
            for (auto& op : b[n])
            {
                if (op[0] == 'a')
                    d = atoi(op.c_str() + 1);
                else
                    act(op);
            }
        vs::ev("{\"k\":\"re\",\"t\":%d,\"id\":%d,\"res\":\"%s\",\"d\":%d,\"now\":%d}", vs::tid(), t->id, d >= 0 ? "a" : "n", d, now());
        return d;
    }
    template<typename Wk>
    void put(const Wk& w, int id, int delay)
    {
        Task* const t = tasks[id];
        const auto& k = kinds[(id - 1) % kinds.size()];
        const auto  d = milliseconds{delay};
        Alive       a;
        const auto  go = [&](auto fn) {
            if (variant == 0)
                w.schedule(d, fn, Handler{t});
            else
                w.schedule(Wk::now() + d, fn, Handler{t});
        };
        if (k == "now")
            go([this, a](const Handler& h) -> rs::optional_delay_from_now { ++*a.p; const int r = body(h.t); return r < 0 ? rs::optional_delay_from_now{} : rs::delay_from_now{milliseconds{r}}; });
        else if (k == "this")
            go([this, a](const Handler& h) -> rs::optional_delay_from_this_timepoint { ++*a.p; const int r = body(h.t); return r < 0 ? rs::optional_delay_from_this_timepoint{} : rs::delay_from_this_timepoint{milliseconds{r}}; });
        else
            go([this, a](const Handler& h) -> rs::optional_delay_to { ++*a.p; const int r = body(h.t); return r < 0 ? rs::optional_delay_to{} : rs::delay_to{Wk::now() + milliseconds{r}}; });
    }
    void leave(int i)
    {
        std::function<void(int, int)> gone{};
        {
            vs::quiet q;
            gone.swap(workers[i]);
        }
    }
    void act(const std::string& op)
    {
        const auto p = split(op.substr(1), '.');
        const int  i = p.empty() || p[0].empty() ? 0 : atoi(p[0].c_str());
        switch (op[0])
        {
        case 's':
        {
            const int  w    = atoi(p[1].c_str()), d = atoi(p[2].c_str());
            const auto put_ = [&] { vs::quiet q; return workers[w]; }();
            if (!put_)
                break;
            vs::ev("{\"k\":\"call\",\"t\":%d,\"id\":%d,\"w\":%d,\"d\":%d,\"imm\":%d,\"now\":%d}", vs::tid(), i, w, d, d == 0 && variant == 0 ? 1 : 0, now());
            put_(i, d);
            vs::ev("{\"k\":\"ret\",\"t\":%d,\"id\":%d,\"now\":%d}", vs::tid(), i, now());
            break;
        }
        case 'c':
        {
            const int d = atoi(p[1].c_str());
            vs::ev("{\"k\":\"call\",\"t\":%d,\"id\":%d,\"w\":-1,\"d\":%d,\"imm\":0,\"now\":%d}", vs::tid(), i, d, now());
            put(rs::current_thread::create_worker(), i, d);
            vs::ev("{\"k\":\"ret\",\"t\":%d,\"id\":%d,\"now\":%d}", vs::tid(), i, now());
            break;
        }
        case 'd':
        {
            vs::quiet q;
            tasks[i]->disposed = true;
        }
            vs::ev("{\"k\":\"dis\",\"t\":%d,\"id\":%d,\"now\":%d}", vs::tid(), i, now());
            break;
        case 'w': vs::sleep_ms(i); break;
        case 'k': leave(i); break;
        default: break;
        }
    }
};
SCENARIO(strand)
{
    const auto f = split(args, ' ');
    auto&      w = *new Sched;
    w.kinds      = split(f[2], ',');
    w.variant    = atoi(f[3].c_str());
    for (int i = 0; i < 16; ++i)
        w.tasks.push_back(new Task{i});
    if (f[4] != "-")
        for (auto& b : split(f[4], ';'))
            for (auto& e : split(b.substr(b.find('=') + 1), '/'))
                w.beh[atoi(b.c_str())].push_back(split(e, '+'));
    const int nw   = atoi(f[1].c_str());
    auto*     ctx  = new asio::io_context;
    bool      stop = false;
    {
        const auto guard = asio::make_work_guard(*ctx);
        for (int i = 0; i < nw; ++i)
            w.workers.push_back([&w, wk = rppasio::schedulers::strand{ctx->get_executor()}.create_worker()](int id, int d) { w.put(wk, id, d); });
        std::vector<std::thread> context, threads;
        {
            vs::quiet q;
            for (int i = 0; i < atoi(f[0].c_str()); ++i)
                context.emplace_back([ctx, &stop] {
                    in_context = true;
                    while (!stop)
                    {
                        ctx->poll();
                        vs::sleep_ms(1);
                    }
                });
            for (auto& t : split(f[5], ';'))
                threads.emplace_back([t, &w] {
                    for (auto& op : split(t, ','))
                        w.act(op);
                });
        }
        for (auto& t : threads)
            t.join();
        for (int i = 0; i < nw; ++i)
            w.leave(i);
        vs::sleep_ms(24);
        stop = true;
        for (auto& t : context)
            t.join();
    }
    delete ctx;
    const int blocked = vs::drain();
    vs::ev("{\"k\":\"fin\",\"t\":0,\"blocked\":%d,\"live\":%d,\"now\":%d}", blocked, live, now());
    vs::finish();
}
