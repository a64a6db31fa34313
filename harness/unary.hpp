// Registry of unary operator stages (names and meanings as in spec/RxUnary.tla)
#pragma once
#include "replay.hpp"

struct StageCtx
{
    World& w;
    P      p;
    int    thr;
    int    at(size_t i) const { return i < p.size() ? p[i] : 0; }
};
inline bool odd(const Val& v) { return v.v % 2 == 1; }
inline void maybe_throw(const Val& v, int thr)
{
    if (thr != -1 && v.v == thr)
        throw TestErr{"X"};
}
inline int acc(int a, int v) { return (a * 3 + v) % 50; }

using AnyObs  = rpp::dynamic_observable<Val>;
using StageFn = std::function<AnyObs(AnyObs, StageCtx)>;
using LoneFn  = std::function<SubscribeFn(World&, StageCtx)>;

inline std::map<std::string, StageFn>& stages()
{
    static std::map<std::string, StageFn> m;
    return m;
}
inline std::map<std::string, LoneFn>& lone()
{
    static std::map<std::string, LoneFn> m;
    return m;
}

// F: (source, ctx) -> observable
template<typename F>
struct RegStage
{
    RegStage(const char* name, F f)
    {
        // statically typed: no type erasure between source, operator and observer
        lone()[name] = [f](World& w, StageCtx c) { return finish(w, f(manual(w, 0), c)); };
        using R      = std::decay_t<decltype(f(std::declval<AnyObs>(), std::declval<StageCtx>()))>;
        if constexpr (std::is_same_v<typename R::value_type, Val>)
            stages()[name] = [f](AnyObs o, StageCtx c) -> AnyObs { return f(std::move(o), c).as_dynamic(); };
    }
};
#define STAGE(NAME, EXPR) \
    static RegStage reg_##NAME{#NAME, [](auto&& src, [[maybe_unused]] StageCtx c) { return std::forward<decltype(src)>(src) | (EXPR); }};

#define OP_ID          rpp::ops::map([](const Val& v) { return v; })
#define OP_MAP         rpp::ops::map([t = c.thr](const Val& v) { maybe_throw(v, t); return Val{v.v + 10}; })
#define OP_FILTER      rpp::ops::filter([t = c.thr](const Val& v) { maybe_throw(v, t); return odd(v); })
#define OP_TAKE        rpp::ops::take(static_cast<size_t>(c.at(0)))
#define OP_SKIP        rpp::ops::skip(static_cast<size_t>(c.at(0)))
#define OP_TAKE_WHILE  rpp::ops::take_while([t = c.thr](const Val& v) { maybe_throw(v, t); return v.v % 3 != 0; })
#define OP_FIRST       rpp::ops::first()
#define OP_ELEMENT_AT  rpp::ops::element_at(static_cast<size_t>(c.at(0)))
#define OP_LAST        rpp::ops::last()
#define OP_DISTINCT    rpp::ops::distinct()
#define OP_DUC         rpp::ops::distinct_until_changed()
#define OP_DUC_PAR     rpp::ops::distinct_until_changed([t = c.thr](const Val& a, const Val& b) { maybe_throw(b, t); return odd(a) == odd(b); })
#define OP_TAP         rpp::ops::tap([&w = c.w, t = c.thr](const Val& v) { w.log("tn" + show(v)); maybe_throw(v, t); }, [&w = c.w](const std::exception_ptr& e) { w.log("te" + errname(e)); }, [&w = c.w]() { w.log("tc"); })
#define OP_FINALLY     rpp::ops::finally([&w = c.w, k = c.at(0)]() noexcept { w.log("fin" + std::to_string(k)); })
#define OP_SCAN        rpp::ops::scan(Val{c.at(0)}, [t = c.thr](Val&& a, const Val& v) { maybe_throw(v, t); return Val{acc(a.v, v.v)}; })
#define OP_SCAN_NS     rpp::ops::scan([t = c.thr](Val&& a, const Val& v) { maybe_throw(v, t); return Val{acc(a.v, v.v)}; })
#define OP_REDUCE      rpp::ops::reduce(Val{c.at(0)}, [t = c.thr](Val&& a, const Val& v) { maybe_throw(v, t); return Val{acc(a.v, v.v)}; })
#define OP_REDUCE_NS   rpp::ops::reduce([t = c.thr](Val&& a, const Val& v) { maybe_throw(v, t); return Val{acc(a.v, v.v)}; })
#define OP_BUFFER      rpp::ops::buffer(static_cast<size_t>(c.at(0)))
#define OP_BUFSUM      rpp::ops::buffer(static_cast<size_t>(c.at(0))) | rpp::ops::map([](const std::vector<Val>& q) { int s = 0; for (auto& x : q) s += x.v; return Val{s % 50}; })
#define OP_TAKE_LAST   rpp::ops::take_last(static_cast<size_t>(c.at(0)))

// parse "name:p1,p2:thr"
struct StageSpec
{
    std::string name;
    P           p;
    int         thr = -1;
};
inline StageSpec parse_stage(const std::string& s)
{
    auto      f = split(s, ':');
    StageSpec r;
    r.name = f[0];
    if (f.size() > 1 && !f[1].empty())
        for (auto& x : split(f[1], ','))
            r.p.push_back(atoi(x.c_str()));
    if (f.size() > 2)
        r.thr = atoi(f[2].c_str());
    return r;
}
