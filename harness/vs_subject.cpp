// Subjects used from several threads.  args: <kind> <lim> <ser> <pre> <thread;thread;...> <reactions>
//   thread: n1,n2,e,c,s3,u1,x,w2     reaction: o.n.op (observer o does op in its n-th callback), joined by ';', '-' = none
#include "replay.hpp"

#include <vsched.hpp>

#include <thread>

static thread_local int depth = 0;
struct Nest
{
    Nest() { ++depth; }
    ~Nest() { --depth; }
};
static int who() { return vs::tid() + 100 * (depth - 1); }

struct Base
{
    virtual ~Base()                                         = default;
    virtual void emit(const std::string& op)                = 0;
    virtual void subscribe(int id, const D& d)              = 0;
    virtual void dispose()                                  = 0;
    virtual bool over()                                     = 0;
    virtual int  value()                                    = 0;
    virtual void upstream(const rpp::disposable_wrapper& d) = 0;
    std::function<void(int, char, int)> cb;
};
template<typename S>
struct Impl final : Base
{
    S s;
    explicit Impl(S x)
        : s(std::move(x))
    {
    }
    void emit(const std::string& op) override
    {
        if (op[0] == 'n')
            s.get_observer().on_next(atoi(op.c_str() + 1));
        else if (op[0] == 'e')
            s.get_observer().on_error(mkerr("E"));
        else
            s.get_observer().on_completed();
    }
    void subscribe(int id, const D& d) override
    {
        s.get_observable().subscribe(
            d, [this, id](int v) { cb(id, 'n', v); }, [this, id](const std::exception_ptr&) { cb(id, 'e', 0); }, [this, id]() { cb(id, 'c', 0); });
    }
    void dispose() override { s.get_disposable().dispose(); }
    bool over() override { return s.get_disposable().is_disposed(); }
    void upstream(const rpp::disposable_wrapper& d) override { s.get_observer().set_upstream(d); }
    int  value() override
    {
        if constexpr (requires { s.get_value(); })
            return s.get_value();
        return 0;
    }
};
template<typename S>
static Base* mk(S s)
{
    return new Impl<S>(std::move(s));
}
SCENARIO(subject)
{
    using namespace rpp::subjects;
    const auto   f   = split(args, ' ');
    const size_t lim = atoi(f[1].c_str());
    const bool   ser = f[2] == "1";
    Base*        b   = nullptr;
    if (f[0] == "pub")
        b = ser ? mk(serialized_publish_subject<int>{}) : mk(publish_subject<int>{});
    else if (f[0] == "beh")
        b = ser ? mk(serialized_behavior_subject<int>{50}) : mk(behavior_subject<int>{50});
    else if (ser)
        b = lim ? mk(serialized_replay_subject<int>{lim}) : mk(serialized_replay_subject<int>{});
    else
        b = lim ? mk(replay_subject<int>{lim}) : mk(replay_subject<int>{});
    auto& ds  = *new std::vector<D>(7, D::empty());
    for (auto& d : ds)
        d = D::make();
    auto& cnt = *new std::vector<int>(7);
    auto& rel = *new int{0};
    struct Re
    {
        int         o, n;
        std::string op;
    };
    auto& re = *new std::vector<Re>{};
    if (f[5] != "-")
        for (auto& r : split(f[5], ';'))
        {
            auto x = split(r, '.');
            re.push_back({atoi(x[0].c_str()), atoi(x[1].c_str()), x[2]});
        }
    auto& doit = *new std::function<void(const std::string&)>{};
    doit       = [&, b](const std::string& op) {
        if (op[0] == 'w')
        {
            vs::sleep_ms(atoi(op.c_str() + 1));
            return;
        }
        Nest      n;
        const int k = op.size() > 1 ? atoi(op.c_str() + 1) : 0;
        vs::ev("{\"k\":\"call\",\"t\":%d,\"a\":\"%c\",\"i\":%d,\"v\":%d}", who(), op[0], op[0] == 'n' ? 0 : k, op[0] == 'n' ? k : 0);
        if (op[0] == 's')
            b->subscribe(k, ds[k]);
        else if (op[0] == 'u')
        {
            const D d = ds[k];
            d.dispose();
        }
        else if (op[0] == 'x')
            b->dispose();
        else
            b->emit(op);
        vs::ev("{\"k\":\"ret\",\"t\":%d}", who());
    };
    bool quiet_cb = true;
    b->cb         = [&](int o, char k, int v) {
        if (quiet_cb)
            return;
        vs::ev("{\"k\":\"cb\",\"t\":%d,\"o\":%d,\"x\":\"%c\",\"v\":%d}", who(), o, k, v);
        vs::point();
        const int n = ++cnt[o];
        for (auto& r : re)
            if (r.o == o && r.n == n)
                doit(r.op);
        vs::ev("{\"k\":\"cbe\",\"t\":%d,\"o\":%d}", who(), o);
    };
    const int pre = atoi(f[3].c_str());
    int       all = pre;
    {
        vs::quiet q;
        b->upstream(rpp::make_callback_disposable([&rel]() noexcept { ++rel; }));
        for (int i = 1; i <= pre; ++i)
            b->subscribe(i, ds[i]);
        quiet_cb = false;
    }
    auto& threads = *new std::vector<std::thread>{};
    for (auto& t : split(f[4], ';'))
    {
        for (auto& op : split(t, ','))
            if (op[0] == 's')
                all = std::max(all, atoi(op.c_str() + 1));
        std::thread th{[t, &doit] {
            for (auto& op : split(t, ','))
                doit(op);
        }};
        vs::quiet q;
        threads.push_back(std::move(th));
    }
    for (auto& r : re)
        if (r.op[0] == 's')
            all = std::max(all, atoi(r.op.c_str() + 1));
    vs::drain();
    std::string s;
    for (int i = 1; i <= all; ++i)
        s += (i > 1 ? "," : "") + std::to_string(ds[i].is_disposed() ? 1 : 0);
    vs::ev("{\"k\":\"fin\",\"t\":0,\"over\":%d,\"rel\":%d,\"val\":%d,\"obs\":[%s]}", b->over() ? 1 : 0, rel, f[0] == "beh" ? b->value() : 0, s.c_str());
    vs::finish();
}
