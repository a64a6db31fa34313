// Replays histories of spec/SeqMulti.tla.
// stdin: C <id> <op> <p,p,..> <thr> <scripts> <reaction>      scripts: src=attempt/attempt;src=...  attempt: n1,n2,c | e | -
//        H <id> <step> ...      steps: sub d n:<i>:<v> e:<i> c:<i> t   (i = 0-based subscription)
#include "multi.hpp"

std::map<std::string, Builder>& builders()
{
    static std::map<std::string, Builder> m;
    return m;
}
struct Config
{
    std::string                                    op;
    P                                              p;
    int                                            thr = -1;
    std::map<int, std::vector<std::vector<Evt>>>   scripts;
    std::map<int, std::vector<Val>>                tramp;
    char                                           re = '-';
    int                                            rn = 0;
};
static std::string run(const Config& c, const std::vector<std::string>& steps, int variant)
{
    World w;
    w.flip         = variant;
    w.attempts     = c.scripts;
    w.tramp        = c.tramp;
    w.exclusive    = c.op.starts_with("retry") || c.op.starts_with("repeat");
    const size_t n = apart_of(steps);
    Apart        ap{w, n};
    Ctx          ctx{w, c.p, c.thr, TS{}};
    auto         sub   = builders().at(c.op)(ctx);
    auto         react = [&](int id, int got) {
        if (c.re == 'd' && got == c.rn)
            ap.ds[static_cast<size_t>(id)].dispose();
        if (c.re == 't' && got == c.rn)
            throw TestErr{"XO"};
        if (c.re == 's') // takes time
            TS::s_current_time += ms{c.rn};
    };
    if (n == 1)
        w.reaction = [&](int got) { react(0, got); };
    else
        w.reaction_of = [&](int id, int got) { react(id - 1, got); };
    std::string out;
    for (const auto& s : steps)
    {
        // <what>[:subscription][:arg][@subscription of the pipeline]
        const auto  at   = split(s, '@');
        const auto  k    = at.size() > 1 ? static_cast<size_t>(atoi(at[1].c_str())) : size_t{};
        const auto  col  = split(at[0], ':');
        const auto& what = col[0];
        const auto  i    = col.size() > 1 ? static_cast<size_t>(atoi(col[1].c_str())) : size_t{};
        ap.select(k);
        if (what == "sub")
            sub(n == 1 ? 0 : static_cast<int>(k) + 1, ap.ds[k]);
        else if (what == "d")
            ap.ds[k].dispose();
        else if (what == "n")
            w.emit(i, Evt{'n', atoi(col[2].c_str()), ""});
        else if (what == "e")
            w.emit(i, Evt{'e', 0, "E"});
        else if (what == "c")
            w.emit(i, Evt{'c', 0, ""});
        else if (what == "t")
            ctx.ts.time_advance(ms{1});
        out += (out.empty() ? "" : "|") + ap.observe(k);
    }
    return out;
}
int main(int argc, char** argv)
{
    std::ios::sync_with_stdio(false);
    int                   variant = argc > 1 ? atoi(argv[1]) : 0;
    std::map<int, Config> cfg;
    std::string           line;
    while (std::getline(std::cin, line))
    {
        auto f = split(line, ' ');
        if (f[0] == "C")
        {
            Config c;
            c.op = f[2];
            if ((variant & 2) && builders().count(c.op + "_dyn"))
                c.op += "_dyn";
            if (f[3] != "-")
                for (auto& x : split(f[3], ','))
                    c.p.push_back(atoi(x.c_str()));
            c.thr = atoi(f[4].c_str());
            if (f[5] != "-")
                for (auto& s : split(f[5], ';'))
                {
                    auto kv  = split(s, '=');
                    auto& at = c.scripts[atoi(kv[0].c_str())];
                    for (auto& a : split(kv[1], '/'))
                    {
                        at.emplace_back();
                        if (a != "-")
                            for (auto& e : split(a, ','))
                                at.back().push_back(e[0] == 'n' ? Evt{'n', atoi(e.c_str() + 1), ""} : Evt{e[0], 0, "E"});
                    }
                }
            if (f[6] != "-")
            {
                c.re = f[6][0];
                c.rn = atoi(f[6].c_str() + 1);
            }
            if (f.size() > 7 && f[7] != "-") // src=v,v;src=...
                for (auto& s : split(f[7], ';'))
                {
                    auto  kv = split(s, '=');
                    auto& l  = c.tramp[atoi(kv[0].c_str())];
                    if (kv[1] != "")
                        for (auto& x : split(kv[1], ','))
                            l.push_back(Val{atoi(x.c_str())});
                }
            cfg[atoi(f[1].c_str())] = c;
        }
        else if (f[0] == "H")
        {
            std::cout << std::flush;
            alarm(20); // a hang is a failure of this history
            std::cout << run(cfg.at(atoi(f[1].c_str())), {f.begin() + 2, f.end()}, variant) << "\n";
        }
    }
    return 0;
}
