// Replays histories of spec/SeqSubject.tla.  variant bit 0: serialized subject, bit 1: one shared observer / dynamic observable
#include "gen.hpp"

template<typename Subj>
struct SubjRun final : Run
{
    struct Re { int o, n; std::string k; int i; };
    Subj                              subj;
    rpp::dynamic_observer<int>        source;
    bool                              dyn, beh;
    std::vector<D>                    ds;
    std::vector<int>                  cnt;
    std::vector<Re>                   re;
    size_t                            max;
    int                               released = 0;
    std::function<long()>             val;
    SubjRun(Subj s, const Cfg& c, int variant, std::function<long()> v)
        : subj(std::move(s)), source{subj.get_observer().as_dynamic()}, dyn((variant & 2) != 0), beh(str(c, "kind") == "beh"), max(num(c, "max")), val(std::move(v))
    {
        for (auto& r : table(c, "re"))
            re.push_back({atoi(r[0].c_str()), atoi(r[1].c_str()), r[2], atoi(r[3].c_str())});
        source.set_upstream(rpp::make_callback_disposable([this]() noexcept { ++released; }));
        for (int i = 0; i < num(c, "pre"); ++i)
            sub();
    }
    ~SubjRun() override
    {
        for (auto& d : ds)
            d.dispose();
        subj.get_disposable().dispose();
    }
    void cb(const char* k, int id, int v)
    {
        out(k, id, v);
        const int n = ++cnt[id - 1];
        for (size_t j = 0; j < re.size(); ++j)
            if (re[j].o == id && re[j].n == n)
            {
                if (re[j].k == "unsub")
                {
                    if (re[j].i <= static_cast<int>(ds.size()))
                        D{ds[re[j].i - 1]}.dispose();
                }
                else if (re[j].k == "sub")
                {
                    if (ds.size() < max)
                        sub();
                }
                else
                    subj.get_disposable().dispose();
            }
    }
    void sub()
    {
        const int id = static_cast<int>(ds.size()) + 1;
        ds.push_back(D::make());
        cnt.push_back(0);
        const auto d  = ds.back();
        auto       on = [this, id](int v) { cb("n", id, v); };
        auto       oe = [this, id](const std::exception_ptr& e) { cb("e", id, errname(e) == "E" ? 0 : -1); };
        auto       oc = [this, id]() { cb("c", id, 0); };
        if (dyn)
            subj.get_observable().as_dynamic().subscribe(d, on, oe, oc);
        else
            subj.get_observable().subscribe(d, on, oe, oc);
    }
    void step(const Step& s) override
    {
        if (s.k == "sub")
            sub();
        else if (s.k == "unsub")
            D{ds[s.i - 1]}.dispose();
        else if (s.k == "n")
        {
            if (dyn)
                source.on_next(s.v);
            else
                subj.get_observer().on_next(s.v);
        }
        else if (s.k == "e")
            (dyn ? source : subj.get_observer().as_dynamic()).on_error(mkerr("E"));
        else if (s.k == "c")
        {
            if (dyn)
                source.on_completed();
            else
                subj.get_observer().on_completed();
        }
        else if (s.k == "dis")
            subj.get_disposable().dispose();
        else if (s.k == "t")
            ++fake_ms();
    }
    std::string flags() override
    {
        const bool over = subj.get_disposable().is_disposed();
        if (over != (released == 1) || released > 1)
            out("?source-release", released, over);
        std::vector<long> f{val ? val() : 0, over ? 1 : 0};
        for (auto& d : ds)
            f.push_back(d.is_disposed() ? 1 : 0);
        return (released == (over ? 1 : 0) ? "" : "?") + ints(f);
    }
};
template<typename S>
std::unique_ptr<Run> mk(S s, const Cfg& c, int v, std::function<long()> val = {})
{
    return std::make_unique<SubjRun<S>>(std::move(s), c, v, std::move(val));
}
template<template<typename> class Pub, template<typename> class Beh, template<typename> class Rep>
std::unique_ptr<Run> kind(const Cfg& c, int variant)
{
    const auto k = str(c, "kind");
    if (k == "pub")
        return mk(Pub<int>{}, c, variant);
    if (k == "beh")
    {
        Beh<int> s{50};
        return mk(s, c, variant, [s] { return static_cast<long>(s.get_value()); });
    }
    const auto lim = static_cast<size_t>(num(c, "lim"));
    if (const int d = num(c, "dur"))
        return mk(Rep<int>{lim ? lim : 1000, std::chrono::milliseconds{d}}, c, variant);
    return lim ? mk(Rep<int>{lim}, c, variant) : mk(Rep<int>{}, c, variant);
}
std::unique_ptr<Run> make_run(const Cfg& c, int variant)
{
    using namespace rpp::subjects;
    return (variant & 1) ? kind<serialized_publish_subject, serialized_behavior_subject, serialized_replay_subject>(c, variant)
                         : kind<publish_subject, behavior_subject, replay_subject>(c, variant);
}
