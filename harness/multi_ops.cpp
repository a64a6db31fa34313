#include "multi.hpp"

[[maybe_unused]] static inline void thrw(const Val& v, int t)
{
    if (t != -1 && v.v == t)
        throw TestErr{"X"};
}

#define REG(NAME) \
    static SubscribeFn b_##NAME(Ctx& c); \
    static bool        r_##NAME = (builders()[#NAME] = b_##NAME, true); \
    static SubscribeFn b_##NAME([[maybe_unused]] Ctx& c)

#define M(i) manual(c.w, i)

#ifdef P_MERGE
REG(merge)
{
    auto f = [&w = c.w](const Val& v) { return manual(w, v.v); };
    if (c.thr == -1)
        return finish(c.w, M(0) | rpp::ops::map(f) | rpp::ops::merge());
    return finish(c.w, M(0) | rpp::ops::map([f, t = c.thr](const Val& v) { thrw(v, t); return f(v); }) | rpp::ops::merge());
}
REG(merge_dyn)
{
    return finish(c.w, M(0).as_dynamic() | rpp::ops::map([&w = c.w, t = c.thr](const Val& v) { thrw(v, t); return manual(w, v.v).as_dynamic(); }) | rpp::ops::merge());
}
REG(flat_map)
{
    return finish(c.w, M(0) | rpp::ops::flat_map([&w = c.w, t = c.thr](const Val& v) { thrw(v, t); return manual(w, v.v); }));
}
REG(merge_with)
{
    switch (c.at(0))
    {
    case 2: return finish(c.w, M(0) | rpp::ops::merge_with(M(1)));
    case 3: return finish(c.w, M(0) | rpp::ops::merge_with(M(1), M(2)));
    case 4: return finish(c.w, M(0) | rpp::ops::merge_with(M(1), M(2), M(3)));
    default: return finish(c.w, rpp::source::just(M(0), M(1)) | rpp::ops::merge());
    }
}
#endif
#ifdef P_CONCAT
REG(concat)
{
    return finish(c.w, M(0) | rpp::ops::map([&w = c.w](const Val& v) { return manual(w, v.v); }) | rpp::ops::concat());
}
REG(concat_dyn)
{
    return finish(c.w, M(0).as_dynamic() | rpp::ops::map([&w = c.w](const Val& v) { return manual(w, v.v).as_dynamic(); }) | rpp::ops::concat());
}
REG(concat_src)
{
    switch (c.p.size())
    {
    case 1: return finish(c.w, rpp::source::concat(M(c.at(0))));
    case 2: return finish(c.w, rpp::source::concat(M(c.at(0)), M(c.at(1))));
    case 3: return finish(c.w, rpp::source::concat(M(c.at(0)), M(c.at(1)), M(c.at(2))));
    default: return finish(c.w, rpp::source::concat(std::vector<Any>{M(c.at(0)).as_dynamic(), M(c.at(1)).as_dynamic(), M(c.at(2)).as_dynamic(), M(c.at(3)).as_dynamic()}));
    }
}
REG(concat_cont)
{
    std::vector<decltype(M(0))> v;
    for (int x : c.p)
        v.push_back(M(x));
    return finish(c.w, rpp::source::concat(v));
}
REG(start_with_obs)
{
    if (c.p.size() == 2)
        return finish(c.w, M(c.at(1)) | rpp::ops::start_with(M(c.at(0))));
    return finish(c.w, M(c.at(2)) | rpp::ops::start_with(M(c.at(0)), M(c.at(1))));
}
#endif
#ifdef P_SWITCH
REG(switch)
{
    return finish(c.w, M(0) | rpp::ops::map([&w = c.w](const Val& v) { return manual(w, v.v); }) | rpp::ops::switch_on_next());
}
REG(switch_dyn)
{
    return finish(c.w, M(0).as_dynamic() | rpp::ops::map([&w = c.w](const Val& v) { return manual(w, v.v).as_dynamic(); }) | rpp::ops::switch_on_next());
}
#endif
#ifdef P_ZIP
struct Tup
{
    int t;
    template<typename A, typename... B>
    auto operator()(const A& a, const B&... b) const
    {
        thrw(a, t);
        return std::make_tuple(a, b...);
    }
};
#define COMB(NAME, OP)                                                              \
    REG(NAME)                                                                       \
    {                                                                               \
        if (c.thr == -1)                                                            \
            return c.at(0) == 2 ? finish(c.w, M(0) | rpp::ops::OP(M(1)))            \
                                : finish(c.w, M(0) | rpp::ops::OP(M(1), M(2)));     \
        return c.at(0) == 2 ? finish(c.w, M(0) | rpp::ops::OP(Tup{c.thr}, M(1)))    \
                            : finish(c.w, M(0) | rpp::ops::OP(Tup{c.thr}, M(1), M(2))); \
    }
COMB(zip, zip)
COMB(combine_latest, combine_latest)
COMB(with_latest_from, with_latest_from)
#endif
#ifdef P_TU
REG(take_until) { return finish(c.w, M(0) | rpp::ops::take_until(M(1))); }
#endif
#ifdef P_RETRY
REG(retry) { return finish(c.w, M(0) | rpp::ops::retry(static_cast<size_t>(c.at(0)))); }
REG(retry_inf) { return finish(c.w, M(0) | rpp::ops::retry()); }
REG(repeat) { return finish(c.w, M(0) | rpp::ops::repeat(static_cast<size_t>(c.at(0)))); }
REG(repeat_inf) { return finish(c.w, M(0) | rpp::ops::repeat()); }
REG(retry_when)
{
    return finish(c.w, M(0) | rpp::ops::retry_when([&w = c.w, t = c.thr](const std::exception_ptr&) { if (t == 0) throw TestErr{"X"}; return manual(w, 1); }));
}
REG(oern)
{
    return finish(c.w, M(0) | rpp::ops::on_error_resume_next([&w = c.w, t = c.thr](const std::exception_ptr&) { if (t == 0) throw TestErr{"X"}; return manual(w, 1); }));
}
#endif
#ifdef P_DELAY
REG(delay) { return finish(c.w, M(0) | rpp::ops::delay(ms{c.at(0)}, c.ts)); }
REG(observe_on)
{
    return c.at(0) == 0 ? finish(c.w, M(0) | rpp::ops::observe_on(c.ts)) : finish(c.w, M(0) | rpp::ops::observe_on(c.ts, ms{c.at(0)}));
}
#ifdef VSCHED // the timed action runs inside the emitting call
REG(delay_imm) { return finish(c.w, M(0) | rpp::ops::delay(ms{c.at(0)}, rpp::schedulers::immediate{})); }
REG(delay_ct) { return finish(c.w, M(0) | rpp::ops::delay(ms{c.at(0)}, rpp::schedulers::current_thread{})); }
REG(observe_on_imm) { return finish(c.w, M(0) | rpp::ops::observe_on(rpp::schedulers::immediate{}, ms{c.at(0)})); }
REG(observe_on_ct) { return finish(c.w, M(0) | rpp::ops::observe_on(rpp::schedulers::current_thread{}, ms{c.at(0)})); }
#endif
#endif
#ifdef P_RATE
#ifdef VSCHED
REG(debounce_imm) { return finish(c.w, M(0) | rpp::ops::debounce(ms{c.at(0)}, rpp::schedulers::immediate{})); }
REG(debounce_ct) { return finish(c.w, M(0) | rpp::ops::debounce(ms{c.at(0)}, rpp::schedulers::current_thread{})); }
#endif
REG(debounce) { return finish(c.w, M(0) | rpp::ops::debounce(ms{c.at(0)}, c.ts)); }
REG(throttle) { return finish(c.w, M(0) | rpp::ops::throttle<TS>(ms{c.at(0)})); }
#endif
#ifdef P_TMO
REG(timeout) { return finish(c.w, M(0) | rpp::ops::timeout(ms{c.at(0)}, c.ts)); }
REG(timeout_fb) { return finish(c.w, M(0) | rpp::ops::timeout(ms{c.at(0)}, M(1), c.ts)); }
#endif
#ifdef P_TICK
REG(interval)
{
    if (c.p.size() == 2 && c.at(0) == c.at(1))
        return finish(c.w, rpp::source::interval(ms{c.at(0)}, c.ts));
    return finish(c.w, rpp::source::interval(ms{c.at(0)}, ms{c.at(1)}, c.ts));
}
REG(interval_tp) { return finish(c.w, rpp::source::interval(rpp::schedulers::utils::get_worker_t<TS>::now() + ms{c.at(0)}, ms{c.at(1)}, c.ts)); }
REG(timer) { return finish(c.w, rpp::source::timer(ms{c.at(0)}, c.ts)); }
REG(timer_tp) { return finish(c.w, rpp::source::timer(rpp::schedulers::utils::get_worker_t<TS>::now() + ms{c.at(0)}, c.ts)); }
REG(subscribe_on) { return finish(c.w, M(0) | rpp::ops::subscribe_on(c.ts)); }
#endif

#ifdef P_FIN
REG(finally_tu) // finally above an operator that may be over before it subscribes to its source
{
    return finish(c.w, M(0) | rpp::ops::finally([&w = c.w]() noexcept { if (w.on_fin) w.on_fin(); }) | rpp::ops::take_until(M(1)));
}
REG(finally)
{
    auto fin = [&w = c.w]() noexcept {
        if (w.on_fin)
            w.on_fin();
    };
    if (c.at(0) == 1)
        return finish(c.w, M(0) | rpp::ops::finally(fin) | rpp::ops::map([](const Val& v) { return v; }));
    if (c.at(0) == 2)
        return finish(c.w, M(0) | rpp::ops::map([](const Val& v) { return v; }) | rpp::ops::finally(fin));
    return finish(c.w, M(0) | rpp::ops::finally(fin));
}
#endif
