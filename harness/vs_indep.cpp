// One pipeline object used by several threads at once, each with a subscription, sources and a history of its own
// (histories of spec/SeqUnary.tla and spec/SeqMulti.tla).
// args: u|m ; <configuration: the fields of a C line> ; <history> ; <history> ...     (separated by " ; ")
#include "unary.hpp"
#include "multi.hpp"

#include <vsched.hpp>

#include <thread>

std::map<std::string, Builder>& builders()
{
    static std::map<std::string, Builder> m;
    return m;
}
static thread_local World* mine = nullptr;

SCENARIO(indep)
{
    auto& parts = *new std::vector<std::string>{};
    for (size_t at = 0;;)
    {
        const auto e = args.find(" ; ", at);
        parts.push_back(args.substr(at, e - at));
        if (e == std::string::npos)
            break;
        at = e + 3;
    }
    const auto f      = split(parts[1], ' ');
    World&     shared = *new World{};
    shared.of_thread  = [] { return mine; };
    World& before     = *new World{};
    mine              = &before;

    char re = '-';
    int  rn = 0;
    auto react = [&](const std::string& s) {
        if (s != "-")
        {
            re = s[0];
            rn = atoi(s.c_str() + 1);
        }
    };
    std::map<int, std::vector<std::vector<Evt>>> attempts;
    SubscribeFn                                  sub;
    if (parts[0] == "u")
    {
        std::vector<StageSpec> st;
        for (auto& s : split(f[0], '>'))
            st.push_back(parse_stage(s));
        react(f[1]);
        if (st.size() == 1)
            sub = lone().at(st[0].name)(shared, StageCtx{shared, st[0].p, st[0].thr});
        else
        {
            AnyObs o = manual(shared, 0).as_dynamic();
            for (auto& s : st)
                o = stages().at(s.name)(o, StageCtx{shared, s.p, s.thr});
            sub = finish(shared, o);
        }
    }
    else
    {
        P p;
        if (f[1] != "-")
            for (auto& x : split(f[1], ','))
                p.push_back(atoi(x.c_str()));
        if (f[3] != "-")
            for (auto& s : split(f[3], ';'))
            {
                auto  kv = split(s, '=');
                auto& at = attempts[atoi(kv[0].c_str())];
                for (auto& a : split(kv[1], '/'))
                {
                    at.emplace_back();
                    if (a != "-")
                        for (auto& e : split(a, ','))
                            at.back().push_back(e[0] == 'n' ? Evt{'n', atoi(e.c_str() + 1), ""} : Evt{e[0], 0, "E"});
                }
            }
        react(f[4]);
        Ctx ctx{shared, p, atoi(f[2].c_str()), TS{}};
        sub = builders().at(f[0])(ctx);
    }
    const size_t             n = parts.size() - 2;
    std::vector<std::string> got(n);
    std::vector<std::thread> threads;
    for (size_t k = 0; k < n; ++k)
        threads.emplace_back([&, k] {
            World&                   w = *new World{};
            std::vector<std::string> steps;
            std::string              out;
            {
                vs::quiet q;
                w.attempts = attempts;
                steps      = split(parts[2 + k], ' ');
            }
            w.flip = static_cast<int>(k);
            w.exclusive = f[0].starts_with("retry") || f[0].starts_with("repeat");
            mine   = &w;
            Apart ap{w, 1};
            w.reaction = [&](int g) {
                if (re == 'd' && g == rn)
                    ap.ds[0].dispose();
                if (re == 't' && g == rn)
                    throw TestErr{"XO"};
            };
            for (const auto& s : steps)
            {
                vs::point();
                const auto  col  = split(s, ':');
                const auto& what = col[0];
                // (events of the unary part are those of source subscription 0)
                const bool   multi = parts[0] == "m";
                const size_t i     = multi && col.size() > 1 ? static_cast<size_t>(atoi(col[1].c_str())) : 0;
                if (what == "sub")
                    sub(0, ap.ds[0]);
                else if (what == "d")
                    ap.ds[0].dispose();
                else if (what == "n")
                    w.emit(i, Evt{'n', atoi(col[multi ? 2 : 1].c_str()), ""});
                else if (what == "e")
                    w.emit(i, Evt{'e', 0, multi ? "E" : col[1]});
                else if (what == "c")
                    w.emit(i, Evt{'c', 0, ""});
                out += (out.empty() ? "" : "|") + ap.observe(0);
            }
            vs::quiet q;
            got[k] = out;
        });
    for (auto& t : threads)
        t.join();
    for (size_t k = 0; k < n; ++k)
        vs::ev("{\"k\":\"obs\",\"t\":%d,\"s\":\"%s\"}", static_cast<int>(k), got[k].c_str());
    vs::finish();
}
