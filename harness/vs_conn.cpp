// Connectables shared by threads.  args: <mode conn|ref> <variant> <nobs> <pre> <thread;thread;...>    ops: s1 subscribe, u1 unsubscribe, k connect, x disconnect
#include "replay.hpp"

#include <vsched.hpp>

#include <thread>

struct Att
{
    rpp::dynamic_observer<int> obs;
    bool                       off = false;
};
struct World2
{
    std::vector<std::shared_ptr<Att>> att;
    std::vector<D>                    ds;
    std::vector<int>                  got;
    bool                              counting = false;
};
struct Iface
{
    virtual ~Iface()                          = default;
    virtual void                    sub(int, const D&) = 0;
    virtual rpp::disposable_wrapper conn()    = 0;
};
template<typename C, typename O>
struct Impl final : Iface
{
    C       c;
    O       o;
    World2& w;
    Impl(C c, O o, World2& w)
        : c(std::move(c)), o(std::move(o)), w(w)
    {
    }
    void sub(int i, const D& d) override
    {
        o.subscribe(d, [this, i](int) { if (w.counting) ++w.got[i]; }, [](const std::exception_ptr&) {}, []() {});
    }
    rpp::disposable_wrapper conn() override { return c.connect(); }
};
template<typename C>
static Iface* mk(C c, bool ref, World2& w)
{
    if (ref)
    {
        auto o = c.ref_count();
        return new Impl<C, decltype(o)>(std::move(c), o, w);
    }
    return new Impl<C, C>(c, c, w);
}
SCENARIO(conn)
{
    const auto f = split(args, ' ');
    auto&      w = *new World2{};
    const int  n = atoi(f[2].c_str());
    w.ds.assign(n + 1, D::empty());
    w.got.assign(n + 1, 0);
    for (auto& d : w.ds)
        d = D::make();
    auto src = rpp::source::create<int>([&w](auto&& o) {
        auto a  = std::make_shared<Att>(Att{rpp::dynamic_observer<int>{std::forward<decltype(o)>(o)}});
        int  id = 0;
        {
            vs::quiet q;
            w.att.push_back(a);
            id = static_cast<int>(w.att.size());
        }
        vs::ev("{\"k\":\"on\",\"t\":%d,\"a\":%d}", vs::tid(), id);
        a->obs.set_upstream(rpp::make_callback_disposable([id, p = a.get()]() noexcept {
            p->off = true;
            vs::ev("{\"k\":\"off\",\"t\":%d,\"a\":%d}", vs::tid(), id);
        }));
    });
    Iface* c = f[1] == "0" ? mk(src | rpp::ops::publish(), f[0] == "ref", w) : mk(src | rpp::ops::multicast<rpp::subjects::serialized_publish_subject>(), f[0] == "ref", w);
    auto& doit = *new std::function<void(const std::string&, rpp::disposable_wrapper&)>{};
    doit       = [&w, c](const std::string& op, rpp::disposable_wrapper& h) {
        const int i = op.size() > 1 ? atoi(op.c_str() + 1) : 0;
        vs::ev("{\"k\":\"call\",\"t\":%d,\"a\":\"%c\",\"i\":%d}", vs::tid(), op[0], i);
        if (op[0] == 's')
            c->sub(i, w.ds[i]);
        else if (op[0] == 'u')
            w.ds[i].dispose();
        else if (op[0] == 'k')
            h = c->conn();
        else
            h.dispose();
        vs::ev("{\"k\":\"ret\",\"t\":%d}", vs::tid());
    };
    if (f[3] != "-")
    {
        vs::quiet q;
        auto      h = rpp::disposable_wrapper::empty();
        for (auto& op : split(f[3], ','))
            doit(op, h);
    }
    auto& threads = *new std::vector<std::thread>{};
    for (auto& t : split(f[4], ';'))
    {
        std::thread th{[t, &doit] {
            auto h = rpp::disposable_wrapper::empty();
            for (auto& op : split(t, ','))
                doit(op, h);
        }};
        vs::quiet q;
        threads.push_back(std::move(th));
    }
    vs::drain();
    w.counting = true;
    std::string live, got;
    for (size_t a = 0; a < w.att.size(); ++a)
        if (!w.att[a]->obs.is_disposed())
        {
            live += (live.empty() ? "" : ",") + std::to_string(a + 1);
            w.att[a]->obs.on_next(1);
        }
    for (int i = 1; i <= n; ++i)
        got += (i > 1 ? "," : "") + std::to_string(w.got[i]);
    vs::ev("{\"k\":\"fin\",\"t\":0,\"live\":[%s],\"got\":[%s]}", live.c_str(), got.c_str());
    vs::finish();
}
