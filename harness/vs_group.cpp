// group_by / window / window_toggle shared by threads.
// args: <group|window|toggle> <p> <source script> <openings script> <closings: script/script/...> <thread;thread;...> <reactions>
//   script: n1,n2,c ('-' none; '~' first: emitted while being subscribed)   thread: u0,u1   reaction o.n.uI
#include "replay.hpp"

#include <vsched.hpp>

#include <thread>

static thread_local int depth = 0;
struct Nest
{
    Nest() { ++depth; }
    ~Nest() { --depth; }
};
static int who() { return vs::tid() + 100 * (depth - 1); }
struct In
{
    int                        id;
    rpp::dynamic_observer<int> obs;
};
struct Re
{
    int o, n, i;
};
struct GW
{
    std::vector<std::shared_ptr<In>> in;
    std::map<int, std::string>       scr;
    std::vector<D>                   ds;
    std::vector<int>                 cnt;
    std::vector<Re>                  re;
    std::vector<std::thread>         threads;
    int                              nw = 0;
    void unsub(int i)
    {
        Nest n;
        vs::ev("{\"k\":\"call\",\"t\":%d,\"a\":\"u\",\"s\":-1,\"v\":%d}", who(), i);
        D{ds[i]}.dispose();
        vs::ev("{\"k\":\"ret\",\"t\":%d}", who());
    }
    void emit(In& x, const std::string& e)
    {
        Nest n;
        int  v = e.size() > 1 ? atoi(e.c_str() + 1) : 0;
        vs::ev("{\"k\":\"call\",\"t\":%d,\"a\":\"%c\",\"s\":%d,\"v\":%d}", who(), e[0], x.id, v);
        if (e[0] == 'n')
            x.obs.on_next(v);
        else if (e[0] == 'e')
            x.obs.on_error(mkerr("E"));
        else
            x.obs.on_completed();
        vs::ev("{\"k\":\"ret\",\"t\":%d}", who());
    }
    template<typename O>
    void arrive(int id, O&& o)
    {
        auto        x = std::make_shared<In>(In{id, std::forward<O>(o).as_dynamic()});
        std::string s;
        {
            vs::quiet q;
            in.push_back(x);
            s = scr.count(id) ? scr[id] : "-";
        }
        if (s == "-")
            return;
        if (s[0] == '~')
            for (auto& e : split(s.substr(1), ','))
                emit(*x, e);
        else
        {
            std::thread t{[this, x, s] {
                for (auto& e : split(s, ','))
                    emit(*x, e);
            }};
            vs::quiet q;
            threads.push_back(std::move(t));
        }
    }
    auto source(int id)
    {
        return rpp::source::create<int>([this, id](auto&& o) { arrive(id, std::forward<decltype(o)>(o)); });
    }
    void cb(int o, const char* k, int v, const std::function<void()>& inside = {})
    {
        if (k[0] == 'w' || k[0] == 'n')
            vs::ev("{\"k\":\"cb\",\"t\":%d,\"o\":%d,\"x\":\"%s\",\"v\":%d}", who(), o, k, v);
        else
            vs::ev("{\"k\":\"cb\",\"t\":%d,\"o\":%d,\"x\":\"%s\",\"v\":0}", who(), o, k);
        vs::point();
        if (inside)
            inside();
        int n = ++cnt[o];
        for (auto& r : re)
            if (r.o == o && r.n == n)
                unsub(r.i);
        vs::ev("{\"k\":\"cbe\",\"t\":%d,\"o\":%d}", who(), o);
    }
};
template<typename Obs>
static void run(GW& w, const Obs& o)
{
    using T = rpp::utils::extract_observable_type_t<Obs>;
    o.subscribe(
        w.ds[0],
        [&w](const T& win) {
            const int id = ++w.nw;
            w.cb(0, "w", id, [&] {
                win.subscribe(
                    w.ds[id], [&w, id](int v) { w.cb(id, "n", v); }, [&w, id](const std::exception_ptr&) { w.cb(id, "e", 0); }, [&w, id]() { w.cb(id, "c", 0); });
            });
        },
        [&w](const std::exception_ptr&) { w.cb(0, "e", 0); }, [&w]() { w.cb(0, "c", 0); });
}
SCENARIO(group)
{
    const auto f = split(args, ' ');
    auto&      w = *new GW{};
    const int  p = atoi(f[1].c_str());
    w.ds.assign(10, D::empty());
    for (auto& d : w.ds)
        d = D::make();
    w.cnt.assign(10, 0);
    w.scr[0] = f[2];
    w.scr[1] = f[3];
    int k    = 10;
    for (auto& s : split(f[4], '/'))
        w.scr[++k] = s;
    if (f[6] != "-")
        for (auto& r : split(f[6], ';'))
        {
            auto x = split(r, '.');
            w.re.push_back({atoi(x[0].c_str()), atoi(x[1].c_str()), atoi(x[2].c_str() + 1)});
        }
    if (f[5] != "-")
        for (auto& t : split(f[5], ';'))
        {
            std::thread th{[t, &w] {
                for (auto& op : split(t, ','))
                    w.unsub(atoi(op.c_str() + 1));
            }};
            vs::quiet q;
            w.threads.push_back(std::move(th));
        }
    if (f[0] == "group")
        run(w, w.source(0) | rpp::ops::group_by([p](int v) { return v % p; }, [](int v) { return 10 * v; }));
    else if (f[0] == "window")
        run(w, w.source(0) | rpp::ops::window(p));
    else
        run(w, w.source(0) | rpp::ops::window_toggle(w.source(1), [&w](int v) { return w.source(10 + v); }));
    const int   blocked = vs::drain();
    std::string live;
    for (auto& x : w.in)
        if (!x->obs.is_disposed())
            live += (live.empty() ? "" : ",") + std::to_string(x->id);
    vs::ev("{\"k\":\"fin\",\"t\":0,\"blocked\":%d,\"live\":[%s]}", blocked, live.c_str());
    vs::finish();
}
