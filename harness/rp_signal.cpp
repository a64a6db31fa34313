// Replays histories of spec/SeqSubject.tla (kind sig) with from_signal.  variant 0: signal with one argument, 1: without, 2: with several
#include "gen.hpp"
#include "signal.hpp"
#include <rppqt/rppqt.hpp>
#include "signal_moc.h"

struct SigRun final : Run
{
    struct Re { int o, n; std::string k; int i; };
    std::unique_ptr<Sig>                                                                   obj = std::make_unique<Sig>();
    std::function<void(const D&, std::function<void(int)>, std::function<void(const std::exception_ptr&)>, std::function<void()>)> subscribe;
    int                                                                                    variant, cur = 0;
    std::vector<D>                                                                         ds;
    std::vector<int>                                                                       cnt;
    std::vector<Re>                                                                        re;
    size_t                                                                                 max;
    SigRun(const Cfg& c, int v)
        : variant(v), max(num(c, "max"))
    {
        for (auto& r : table(c, "re"))
            re.push_back({atoi(r[0].c_str()), atoi(r[1].c_str()), r[2], atoi(r[3].c_str())});
        if (v == 0)
            subscribe = [o = rppqt::source::from_signal(*obj, &Sig::one)](const D& d, auto on, auto oe, auto oc) { o.subscribe(d, on, oe, oc); };
        else if (v == 1)
            subscribe = [this, o = rppqt::source::from_signal(*obj, &Sig::none)](const D& d, auto on, auto oe, auto oc) { o.subscribe(d, [this, on](rpp::utils::none) { on(cur); }, oe, oc); };
        else
            subscribe = [o = rppqt::source::from_signal(*obj, &Sig::many)](const D& d, auto on, auto oe, auto oc) {
                o.subscribe(d, [on](const std::tuple<int, double, QString>& t) { on(std::get<1>(t) == std::get<0>(t) * 0.5 && std::get<2>(t) == QString::number(std::get<0>(t)) ? std::get<0>(t) : -1); }, oe, oc);
            };
        for (int i = 0; i < num(c, "pre"); ++i)
            sub();
    }
    ~SigRun() override
    {
        for (auto& d : ds)
            d.dispose();
    }
    void cb(const char* k, int id, int v)
    {
        out(k, id, v);
        const int n = ++cnt[id - 1];
        for (size_t j = 0; j < re.size(); ++j)
            if (re[j].o == id && re[j].n == n)
            {
                if (re[j].k == "unsub")
                {
                    if (re[j].i <= static_cast<int>(ds.size()))
                        D{ds[re[j].i - 1]}.dispose();
                }
                else if (ds.size() < max)
                    sub();
            }
    }
    void sub()
    {
        const int id = static_cast<int>(ds.size()) + 1;
        ds.push_back(D::make());
        cnt.push_back(0);
        const auto d = ds.back();
        subscribe(d, [this, id](int v) { cb("n", id, v); }, [this, id](const std::exception_ptr&) { cb("e", id, 0); }, [this, id]() { cb("c", id, 0); });
    }
    void step(const Step& s) override
    {
        if (s.k == "sub")
            sub();
        else if (s.k == "unsub")
            D{ds[s.i - 1]}.dispose();
        else if (s.k == "n" && obj)
        {
            cur = s.v;
            if (variant == 0)
                emit obj->one(s.v);
            else if (variant == 1)
                emit obj->none();
            else
                emit obj->many(s.v, s.v * 0.5, QString::number(s.v));
        }
        else if (s.k == "c")
            obj.reset();
    }
    std::string flags() override
    {
        std::vector<long> f{0, obj ? 0 : 1};
        for (auto& d : ds)
            f.push_back(d.is_disposed() ? 1 : 0);
        return ints(f);
    }
};
std::unique_ptr<Run> make_run(const Cfg& c, int variant) { return std::make_unique<SigRun>(c, variant); }
