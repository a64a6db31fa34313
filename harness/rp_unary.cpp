// Replays histories of spec/SeqUnary.tla.
// stdin: C <id> <stage>stage...> <reaction>     (a configuration)
//        H <id> <step> <step> ...               (a history)
// stdout: per H line one line "<obs>|<obs>|..." where obs = outputs / flags / main flag
#include "unary.hpp"

#ifdef PART1
STAGE(id, OP_ID)
STAGE(map, OP_MAP)
STAGE(filter, OP_FILTER)
STAGE(take, OP_TAKE)
STAGE(skip, OP_SKIP)
STAGE(take_while, OP_TAKE_WHILE)
STAGE(first, OP_FIRST)
STAGE(element_at, OP_ELEMENT_AT)
#endif
#ifdef PART2
STAGE(last, OP_LAST)
STAGE(distinct, OP_DISTINCT)
STAGE(duc, OP_DUC)
STAGE(duc_par, OP_DUC_PAR)
STAGE(tap, OP_TAP)
STAGE(finally, OP_FINALLY)
#define TN [&w = c.w](const Val& v) { w.log("tn" + show(v)); }
#define TE [&w = c.w](const std::exception_ptr& e) { w.log("te" + errname(e)); }
#define TC [&w = c.w]() { w.log("tc"); }
static LoneFn tap_lone(int m)
{
    return [m](World& w, StageCtx c) -> SubscribeFn {
        switch (m)
        {
        case 2: return finish(w, manual(w, 0) | rpp::ops::tap({}, TE));
        case 4: return finish(w, manual(w, 0) | rpp::ops::tap({}, {}, TC));
        case 5: return finish(w, manual(w, 0) | rpp::ops::tap(TN, TC));
        case 1: return finish(w, manual(w, 0) | rpp::ops::tap(TN));
        case 3: return finish(w, manual(w, 0) | rpp::ops::tap(TN, TE));
        default: return finish(w, manual(w, 0) | rpp::ops::tap(TN, TE, TC));
        }
    };
}
static AnyObs tap_stage(AnyObs o, StageCtx c)
{
    switch (c.at(0))
    {
    case 2: return (o | rpp::ops::tap({}, TE)).as_dynamic();
    case 4: return (o | rpp::ops::tap({}, {}, TC)).as_dynamic();
    case 5: return (o | rpp::ops::tap(TN, TC)).as_dynamic();
    case 1: return (o | rpp::ops::tap(TN)).as_dynamic();
    case 3: return (o | rpp::ops::tap(TN, TE)).as_dynamic();
    default: return (o | rpp::ops::tap(TN, TE, TC)).as_dynamic();
    }
}
[[maybe_unused]] static const bool reg_tapm = (lone()["tapm"] = [](World& w, StageCtx c) { return tap_lone(c.at(0))(w, c); }, stages()["tapm"] = tap_stage, true);
STAGE(scan, OP_SCAN)
STAGE(scan_ns, OP_SCAN_NS)
#endif
#ifdef PART3
STAGE(reduce, OP_REDUCE)
STAGE(reduce_ns, OP_REDUCE_NS)
STAGE(buffer, OP_BUFFER)
static RegStage reg_bufsum{"bufsum", [](auto&& src, StageCtx c) { return std::forward<decltype(src)>(src) | OP_BUFSUM; }};
STAGE(take_last, OP_TAKE_LAST)
static RegStage reg_start_with{"start_with", [](auto&& src, StageCtx c) {
    std::vector<Val> v;
    for (int x : c.p) v.push_back(Val{x});
    return std::forward<decltype(src)>(src) | rpp::ops::start_with(rpp::source::from_iterable(v)); }};
static RegStage reg_start_with_v{"start_with_v", [](auto&& src, StageCtx c) {
    return std::forward<decltype(src)>(src) | rpp::ops::start_with(Val{c.at(0)}, Val{c.at(1)}); }};
#endif

#ifdef MAIN
struct Config
{
    std::vector<StageSpec> st;
    char                   re = '-';
    int                    rn = 0;
};

static std::string run(const Config& c, const std::vector<std::string>& steps, int variant)
{
    World w;
    w.flip         = variant;
    const size_t n = apart_of(steps);
    Apart        ap{w, n};
    SubscribeFn  sub;
    if (c.st.size() == 1 && ((variant & 2) == 0 || !stages().count(c.st[0].name)))
    {
        sub = lone().at(c.st[0].name)(w, StageCtx{w, c.st[0].p, c.st[0].thr});
    }
    else
    {
        AnyObs o = manual(w, 0).as_dynamic();
        for (auto& s : c.st)
            o = stages().at(s.name)(o, StageCtx{w, s.p, s.thr});
        sub = finish(w, o);
    }
    auto react = [&](int id, int got) {
        if (c.re == 'd' && got == c.rn)
            ap.ds[static_cast<size_t>(id)].dispose();
        if (c.re == 't' && got == c.rn)
            throw TestErr{"XO"};
    };
    if (n == 1)
        w.reaction = [&](int got) { react(0, got); };
    else
        w.reaction_of = [&](int id, int got) { react(id - 1, got); };
    std::string out;
    for (const auto& s : steps)
    {
        // <what>[:arg][@subscription]
        const auto  at   = split(s, '@');
        const auto  k    = at.size() > 1 ? static_cast<size_t>(atoi(at[1].c_str())) : size_t{};
        const auto  col  = split(at[0], ':');
        const auto& what = col[0];
        ap.select(k);
        if (what == "sub")
            sub(n == 1 ? 0 : static_cast<int>(k) + 1, ap.ds[k]);
        else if (what == "d")
            ap.ds[k].dispose();
        else if (what == "n")
            w.emit(0, Evt{'n', atoi(col[1].c_str()), ""});
        else if (what == "e")
            w.emit(0, Evt{'e', 0, col[1]});
        else if (what == "c")
            w.emit(0, Evt{'c', 0, ""});
        out += (out.empty() ? "" : "|") + ap.observe(k);
    }
    return out;
}

int main(int argc, char** argv)
{
    std::ios::sync_with_stdio(false);
    int                        variant = argc > 1 ? atoi(argv[1]) : 0;
    std::map<int, Config>      cfg;
    std::string                line;
    while (std::getline(std::cin, line))
    {
        auto f = split(line, ' ');
        if (f[0] == "C")
        {
            Config c;
            for (auto& s : split(f[2], '>'))
                c.st.push_back(parse_stage(s));
            if (f.size() > 3 && f[3] != "-")
            {
                c.re = f[3][0];
                c.rn = atoi(f[3].c_str() + 1);
            }
            cfg[atoi(f[1].c_str())] = c;
        }
        else if (f[0] == "H")
        {
            std::cout << std::flush;
            alarm(20); // a hang is a failure of this history
            std::cout << run(cfg.at(atoi(f[1].c_str())), {f.begin() + 2, f.end()}, variant) << "\n";
        }
    }
    return 0;
}
#endif
