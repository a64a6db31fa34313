// Replays histories of spec/SeqConn.tla.  variant 0: publish(), 1: multicast(subject), 2: multicast<serialized>, 3: publish() with a dynamic source
#include "gen.hpp"

struct Att
{
    rpp::dynamic_observer<int> obs;
    std::shared_ptr<int>       rel;
};
struct ConnBase : Run
{
    struct Re { int o, n; std::string k; int i; };
    std::vector<Att>                      att;
    std::vector<D>                        ds;
    std::vector<int>                      cnt;
    std::vector<Re>                       re;
    std::vector<std::vector<std::string>> sc;
    size_t                                max, maxa;
    std::function<void(int, const D&)>    subscribe;
    std::function<void()>                 connect, disconnect;
    explicit ConnBase(const Cfg& c)
        : max(num(c, "max")), maxa(num(c, "maxa"))
    {
        for (auto& r : table(c, "re"))
            re.push_back({atoi(r[0].c_str()), atoi(r[1].c_str()), r[2], atoi(r[3].c_str())});
        sc = table(c, "script");
    }
    template<typename O>
    void attempt(O&& o)
    {
        const auto a   = att.size();
        auto       rel = std::make_shared<int>(0);
        o.set_upstream(rpp::make_callback_disposable([rel]() noexcept { ++*rel; }));
        att.push_back({std::forward<O>(o).as_dynamic(), rel});
        if (!sc.empty())
            for (auto& e : std::vector<std::string>{sc[std::min(a, sc.size() - 1)]})
                emit(a, e[0], e.size() > 1 ? atoi(e.c_str() + 1) : 0);
    }
    void emit(size_t a, char k, int v)
    {
        auto o = att[a].obs;
        if (k == 'n')
            o.on_next(v);
        else if (k == 'e')
            o.on_error(mkerr("E"));
        else if (k == 'c')
            o.on_completed();
    }
    void cb(const char* k, int id, int v)
    {
        out(k, id, v);
        const int n = ++cnt[id - 1];
        for (size_t j = 0; j < re.size(); ++j)
            if (re[j].o == id && re[j].n == n && (k[0] == 'n' || re[j].k == "unsub" || re[j].k == "sub"))
            {
                if (re[j].k == "unsub")
                {
                    if (re[j].i <= static_cast<int>(ds.size()))
                        D{ds[re[j].i - 1]}.dispose();
                }
                else if (re[j].k == "sub")
                {
                    if (ds.size() < max)
                        sub();
                }
                else if (re[j].k == "conn")
                {
                    if (att.size() < maxa)
                        connect();
                }
                else
                    disconnect();
            }
    }
    void sub()
    {
        const int id = static_cast<int>(ds.size()) + 1;
        ds.push_back(D::make());
        cnt.push_back(0);
        subscribe(id, D{ds.back()});
    }
    template<typename Obs>
    void bind_sub(const Obs& o)
    {
        subscribe = [this, o](int id, const D& d) {
            o.subscribe(d, [this, id](int v) { cb("n", id, v); }, [this, id](const std::exception_ptr& e) { cb("e", id, errname(e) == "E" ? 0 : -1); }, [this, id]() { cb("c", id, 0); });
        };
    }
    void step(const Step& s) override
    {
        if (s.k == "sub")
            sub();
        else if (s.k == "unsub")
            D{ds[s.i - 1]}.dispose();
        else if (s.k == "conn")
            connect();
        else if (s.k == "disc")
            disconnect();
        else if (s.k != "start")
            emit(s.i - 1, s.k[0], s.v);
    }
    std::string flags() override
    {
        std::vector<long> f{static_cast<long>(att.size())};
        bool              odd = false;
        for (auto& a : att)
        {
            f.push_back(a.obs.is_disposed() ? 1 : 0);
            odd = odd || *a.rel != (a.obs.is_disposed() ? 1 : 0);
        }
        for (auto& d : ds)
            f.push_back(d.is_disposed() ? 1 : 0);
        return (odd ? "?" : "") + ints(f);
    }
};
template<typename Conn>
struct ConnRun final : ConnBase
{
    Conn                                c;
    std::unique_ptr<rpp::disposable_wrapper> handle;
    template<typename Mk>
    ConnRun(const Cfg& cfg, Mk mk)
        : ConnBase(cfg), c(mk(this))
    {
        if (str(cfg, "mode") == "ref")
            bind_sub(c.ref_count());
        else
            bind_sub(c);
        connect = [this] {
            auto d    = c.connect();
            if (!d.is_disposed() || !handle)
                handle = std::make_unique<rpp::disposable_wrapper>(d);
        };
        disconnect = [this] {
            // the connection can be reached through connect(), too
            if (handle && !handle->is_disposed())
                handle->dispose();
            else if (!att.empty() && !att.back().obs.is_disposed())
                c.connect().dispose();
        };
    }
    ~ConnRun() override
    {
        re.clear();
        for (auto& d : ds)
            d.dispose();
        disconnect();
    }
};
template<typename Mk>
std::unique_ptr<Run> mk(const Cfg& c, Mk m)
{
    return std::make_unique<ConnRun<decltype(m(static_cast<ConnBase*>(nullptr)))>>(c, m);
}
inline auto source(ConnBase* b)
{
    return rpp::source::create<int>([b](auto&& o) { b->attempt(std::forward<decltype(o)>(o)); });
}
std::unique_ptr<Run> make_run(const Cfg& c, int variant)
{
    // a serialized subject does not take emissions from inside of its own emission
    if (variant == 2 && !str(c, "script").empty() && (str(c, "re").find("conn") != std::string::npos || str(c, "re").find("sub,0") != std::string::npos))
        variant = 0;
    switch (variant)
    {
    case 0: return mk(c, [](ConnBase* b) { return source(b) | rpp::ops::publish(); });
    case 1: return mk(c, [](ConnBase* b) { return source(b) | rpp::ops::multicast(rpp::subjects::publish_subject<int>{}); });
    case 2: return mk(c, [](ConnBase* b) { return source(b) | rpp::ops::multicast<rpp::subjects::serialized_publish_subject>(); });
    default: return mk(c, [](ConnBase* b) { return source(b).as_dynamic() | rpp::ops::publish(); });
    }
}
