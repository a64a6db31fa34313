// Multi-source / timed operators with sources emitting from their own threads, under the controlled scheduler.
// args: <op>[! downstream is type-erased] <p,p> <thr> <scripts> <dispose> [<time a value takes the observer>]
//   scripts: src=attempt/attempt;...   attempt = [~]n1,n2,c   ('~': emitted synchronously while being subscribed; wN = sleep N ms)
//   dispose: - none | d[N] a thread disposes after N ms | rN the observer disposes in its N-th callback
#include "multi.hpp"

#include <vsched.hpp>

#include <mutex>
#include <thread>

std::map<std::string, Builder>& builders()
{
    static std::map<std::string, Builder> m;
    return m;
}
struct Attempt
{
    bool                     sync = false;
    std::vector<std::string> evs;
};
static thread_local int depth = 0; // nesting of calls made by this thread
struct Nest
{
    Nest() { ++depth; }
    ~Nest() { --depth; }
};
static int who() { return vs::tid() + 100 * (depth - 1); }

static void do_emit(const rpp::dynamic_observer<Val>& o, int src, int nth, const std::string& e)
{
    if (e[0] == 'w')
    {
        vs::sleep_ms(atoi(e.c_str() + 1));
        return;
    }
    Nest n;
    if (e[0] == 'n')
    {
        const int v = atoi(e.c_str() + 1);
        vs::ev("{\"k\":\"call\",\"t\":%d,\"a\":\"n\",\"s\":%d,\"i\":%d,\"v\":%d,\"at\":%d}", who(), src, nth, v, (int)vs::now_ms());
        o.on_next(Val{v});
    }
    else
    {
        vs::ev("{\"k\":\"call\",\"t\":%d,\"a\":\"%c\",\"s\":%d,\"i\":%d,\"v\":\"E\",\"at\":%d}", who(), e[0], src, nth, (int)vs::now_ms());
        if (e[0] == 'e')
            o.on_error(mkerr("E"));
        else
            o.on_completed();
    }
    vs::ev("{\"k\":\"ret\",\"t\":%d,\"at\":%d}", who(), (int)vs::now_ms());
}
static void do_dispose(const D& d)
{
    Nest n;
    vs::ev("{\"k\":\"call\",\"t\":%d,\"a\":\"d\",\"s\":0,\"i\":0,\"v\":0,\"at\":%d}", who(), (int)vs::now_ms());
    d.dispose();
    vs::ev("{\"k\":\"ret\",\"t\":%d,\"at\":%d}", who(), (int)vs::now_ms());
}
struct Reg
{
    int                                         src, nth;
    std::shared_ptr<rpp::dynamic_observer<Val>> obs;
    std::shared_ptr<int>                        rel;
    bool                                        dead;
};

SCENARIO(op)
{
    auto f = split(args, ' ');
    // everything the run uses stays allocated until the process ends
    auto& w       = *new World{};
    auto& regs    = *new std::vector<Reg>{};
    auto& threads = *new std::vector<std::thread>{};
    auto& scr     = *new std::map<int, std::vector<Attempt>>{};
    auto& count   = *new std::map<int, int>{};
    P     p;
    w.erased = f[0].back() == '!';
    if (w.erased)
        f[0].pop_back();
    if (f[1] != "-")
        for (auto& x : split(f[1], ','))
            p.push_back(atoi(x.c_str()));
    if (f[3] != "-")
        for (auto& s : split(f[3], ';'))
        {
            auto kv = split(s, '=');
            for (auto& a : split(kv[1], '/'))
            {
                Attempt at;
                at.sync = a[0] == '~';
                if (a != "-" && a != "~")
                    at.evs = split(at.sync ? a.substr(1) : a, ',');
                scr[atoi(kv[0].c_str())].push_back(at);
            }
        }
    auto& d = *new D{D::make()};
    auto& received = *new int{0};
    w.on_cb = [&](int, char k, const std::string& v) {
        Nest        n;
        std::string s = v;
        for (auto& ch : s)
            ch = ch == ';' ? ',' : ch;
        if (k == 'n')
            vs::ev("{\"k\":\"cb\",\"t\":%d,\"x\":\"n\",\"v\":%s,\"at\":%d}", who(), s.c_str(), (int)vs::now_ms());
        else
            vs::ev("{\"k\":\"cb\",\"t\":%d,\"x\":\"%c\",\"v\":\"%s\",\"at\":%d}", who(), k, s.c_str(), (int)vs::now_ms());
        vs::point();
        if (f[4][0] == 'r' && ++received == atoi(f[4].c_str() + 1))
            do_dispose(d);
        if (f.size() > 5 && k == 'n')
            vs::sleep_ms(atoi(f[5].c_str()));
        vs::ev("{\"k\":\"cbe\",\"t\":%d,\"at\":%d}", who(), (int)vs::now_ms());
    };
    w.on_fin = [&] {
        vs::ev("{\"k\":\"fint\",\"t\":%d,\"at\":%d}", who(), (int)vs::now_ms());
        vs::point();
    };
    w.on_sub = [&](int src, int dead, std::shared_ptr<rpp::dynamic_observer<Val>> obs, std::shared_ptr<int> rel) {
        Attempt a;
        int     nth;
        {
            vs::quiet q;
            if (dead)
            {
                regs.push_back({src, 0, obs, rel, true});
                return;
            }
            nth = ++count[src];
            regs.push_back({src, nth, obs, rel, false});
            auto& v = scr[src];
            if (!v.empty())
                a = v[std::min(static_cast<size_t>(nth), v.size()) - 1];
        }
        if (a.evs.empty())
            return;
        if (a.sync)
        {
            for (auto& e : a.evs)
                do_emit(*obs, src, nth, e);
        }
        else
        {
            std::thread t{[obs, src, nth, a] {
                for (auto& e : a.evs)
                    do_emit(*obs, src, nth, e);
            }};
            vs::quiet q;
            threads.push_back(std::move(t));
        }
    };
    Ctx  ctx{w, p, atoi(f[2].c_str()), TS{}};
    auto sub = builders().at(f[0])(ctx);
    if (f[4][0] == 'd')
    {
        std::thread t{[&] {
            if (f[4].size() > 1)
                vs::sleep_ms(atoi(f[4].c_str() + 1));
            do_dispose(d);
        }};
        vs::quiet q;
        threads.push_back(std::move(t));
    }
    sub(0, d);
    vs::ev("{\"k\":\"subd\",\"t\":0,\"at\":%d}", (int)vs::now_ms());
    const int blocked = vs::drain();
    std::string r;
    for (auto& x : regs)
        r += (r.empty() ? "" : ",") + std::string("[") + std::to_string(x.src) + "," + std::to_string(x.nth) + "," + std::to_string(*x.rel) + "," + (x.obs->is_disposed() ? "1" : "0") + "," + (x.dead ? "1" : "0") + "]";
    vs::ev("{\"k\":\"fin\",\"t\":0,\"blocked\":%d,\"subs\":[%s],\"at\":%d}", blocked, r.c_str(), (int)vs::now_ms());
    vs::finish();
}
