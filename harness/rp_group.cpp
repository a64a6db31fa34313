// Replays histories of spec/SeqGroup.tla.  variant 0: plain, 1: dynamic source, 2: through a dynamic observable and a dynamic observer, 3: lvalue operator
#include "gen.hpp"

struct In
{
    rpp::dynamic_observer<int> obs;
    std::shared_ptr<int>       rel;
};
struct GroupRun : Run
{
    struct Re { int o, n; std::string k; int i; };
    std::map<int, std::shared_ptr<In>>         in; // by source number
    std::vector<D>                             ds{D::make()};
    std::vector<int>                           cnt{0};
    std::vector<rpp::dynamic_observable<int>>  wins;
    std::vector<Re>                            re;
    std::vector<std::vector<std::string>>      sc;
    int  p, thr, autos, nwin = 0, nclose = 0;
    size_t max, maxw;
    bool late, odd = false, own = false;
    std::string mode, at;
    std::function<void()> start;
    explicit GroupRun(const Cfg& c)
        : p(num(c, "p")), thr(num(c, "thr")), autos(num(c, "auto")), max(num(c, "max")), maxw(num(c, "maxw")), late(num(c, "late")), mode(str(c, "mode")), at(str(c, "at"))
    {
        for (auto& r : table(c, "re"))
            re.push_back({atoi(r[0].c_str()), atoi(r[1].c_str()), r[2], atoi(r[3].c_str())});
        for (auto& x : re)
            own = own || (x.k == "sub" && x.o > 0);
        sc = table(c, "script");
    }
    ~GroupRun() override
    {
        re.clear();
        for (auto& d : std::vector<D>(ds))
            d.dispose();
    }
    bool live() const { return in.count(0) && !in.at(0)->obs.is_disposed(); }
    template<typename O>
    void arrive(int id, O&& o)
    {
        auto rel = std::make_shared<int>(0);
        o.set_upstream(rpp::make_callback_disposable([rel]() noexcept { ++*rel; }));
        in[id] = std::make_shared<In>(In{std::forward<O>(o).as_dynamic(), rel});
        if (id > 10 && static_cast<size_t>(id - 10) <= sc.size())
            for (auto& e : sc[id - 11])
                if (e != "-")
                    emit(id, e[0], 0);
    }
    auto source(int id)
    {
        return rpp::source::create<int>([this, id](auto&& o) { arrive(id, std::forward<decltype(o)>(o)); });
    }
    void emit(int id, char k, int v)
    {
        auto it = in.find(id);
        if (it == in.end())
            return;
        auto x = it->second;
        if (k == 'n')
            x->obs.on_next(v);
        else if (k == 'e')
            x->obs.on_error(mkerr("E"));
        else if (k == 'c')
            x->obs.on_completed();
    }
    void subscribe(const rpp::dynamic_observable<int>& w)
    {
        if (ds.size() > max || !live())
            return;
        const int i = static_cast<int>(ds.size());
        ds.push_back(D::make());
        cnt.push_back(0);
        const D d = ds.back();
        w.subscribe(
            d, [this, i, w = late || own ? std::optional<rpp::dynamic_observable<int>>(w) : std::nullopt](int v) { cb("n", i, v, w ? &*w : nullptr); },
            [this, i](const std::exception_ptr& e) { cb(errname(e) == "E" ? "e" : errname(e) == "X" ? "x" : "?", i, 0, nullptr); },
            [this, i]() { cb("c", i, 0, nullptr); });
    }
    void cb(const char* k, int i, int v, const rpp::dynamic_observable<int>* w)
    {
        out(k, i, v);
        const int n = ++cnt[i];
        for (size_t j = 0; j < re.size(); ++j)
            if (re[j].o == i && re[j].n == n)
            {
                if (re[j].k == "unsub")
                {
                    if (re[j].i < static_cast<int>(ds.size()))
                        D{ds[re[j].i]}.dispose();
                }
                else if (re[j].k == "sub")
                {
                    if (w)
                        subscribe(*w);
                }
                else if (k[0] == 'n' || k[0] == 'w')
                    throw TestErr{"X"};
            }
    }
    void window(const rpp::dynamic_observable<int>& w, int key)
    {
        out("w", ++nwin, key);
        if (late)
            wins.resize(nwin, w);
        for (int j = 0; j < autos; ++j)
            subscribe(w);
        const int n = ++cnt[0];
        for (size_t j = 0; j < re.size(); ++j)
            if (re[j].o == 0 && re[j].n == n)
            {
                if (re[j].k == "unsub")
                {
                    if (re[j].i < static_cast<int>(ds.size()))
                        D{ds[re[j].i]}.dispose();
                }
                else if (re[j].k == "sub")
                    subscribe(w);
                else
                    throw TestErr{"X"};
            }
    }
    template<typename Obs>
    void bind(const Obs& o, bool dyn)
    {
        using T  = rpp::utils::extract_observable_type_t<Obs>;
        auto on  = [this](const T& w) {
            if constexpr (requires { w.get_key(); })
                window(w.as_dynamic(), w.get_key());
            else
                window(w.as_dynamic(), 0);
        };
        auto err = [this](const std::exception_ptr& e) { cb(errname(e) == "E" ? "e" : errname(e) == "X" ? "x" : "?", 0, 0, nullptr); };
        auto end = [this]() { cb("c", 0, 0, nullptr); };
        start    = [=, this] {
            if (dyn)
                o.as_dynamic().subscribe(D{ds[0]}, rpp::make_lambda_observer<T>(on, err, end).as_dynamic());
            else
                o.subscribe(D{ds[0]}, on, err, end);
        };
    }
    void step(const Step& s) override
    {
        if (s.k == "start")
            start();
        else if (s.k == "sub")
            subscribe(wins.at(s.i - 1));
        else if (s.k == "unsub")
            D{ds[s.i]}.dispose();
        else if (in.count(s.i))
            emit(s.i, s.k[0], s.v);
        else
            odd = true;
    }
    std::string flags() override
    {
        std::vector<long> f;
        for (auto& [id, x] : in)
            odd = odd || *x->rel != (x->obs.is_disposed() ? 1 : 0);
        f.push_back(live() ? 0 : 1);
        f.push_back(in.count(1) && !in[1]->obs.is_disposed() ? 0 : 1);
        f.push_back(ds[0].is_disposed());
        for (size_t w = 1; w <= maxw; ++w)
            f.push_back(in.count(10 + w) && !in[10 + w]->obs.is_disposed() ? 1 : 0);
        for (size_t i = 1; i < ds.size(); ++i)
            f.push_back(ds[i].is_disposed());
        return (odd ? "?" : "") + ints(f);
    }
};
template<typename Op>
static void apply(GroupRun& r, int variant, const Op& op)
{
    switch (variant)
    {
    case 0: return r.bind(r.source(0) | op(), false);
    case 1: return r.bind(r.source(0).as_dynamic() | op(), false);
    case 2: return r.bind(r.source(0) | op(), true);
    default: {
        const auto o   = op();
        const auto src = r.source(0);
        return r.bind(src | o, false);
    }
    }
}
template<typename Cmp>
static void group(GroupRun& r, int variant, Cmp cmp)
{
    auto key = [&r](int v) {
        if (r.at == "key" && v == r.thr)
            throw TestErr{"X"};
        return v % r.p;
    };
    auto val = [&r](int v) {
        if (r.at == "val" && v == r.thr)
            throw TestErr{"X"};
        return 10 * v;
    };
    apply(r, variant, [=] { return rpp::ops::group_by(key, val, cmp); });
}
std::unique_ptr<Run> make_run(const Cfg& c, int variant)
{
    auto r = std::make_unique<GroupRun>(c);
    // an observer that swallows the exception of its own callback does not tell the disposable it was subscribed with
    for (auto& x : r->re)
        if (variant == 2 && x.o == 0 && x.k == "throw")
            variant = 0;
    if (r->mode == "group")
    {
        if (num(c, "desc"))
            group(*r, variant, std::greater<int>{});
        else
            group(*r, variant, std::less<int>{});
    }
    else if (r->mode == "window")
        apply(*r, variant, [p = r->p] { return rpp::ops::window(p); });
    else
    {
        auto* q       = r.get();
        auto  closing = [q](int) {
            if (++q->nclose == q->thr)
                throw TestErr{"X"};
            return q->source(10 + q->nclose);
        };
        apply(*r, variant, [q, closing] { return rpp::ops::window_toggle(q->source(1), closing); });
    }
    return r;
}
