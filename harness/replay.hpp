// Common part of the replay drivers: a world of manual sources and logging observers.
#pragma once
#include <rpp/rpp.hpp>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <unistd.h>

// A value whose moved-from state is visible
struct Val
{
    int v;
    Val(int i = -7)
        : v(i)
    {
    }
    Val(const Val& o) = default;
    Val(Val&& o) noexcept
        : v(o.v)
    {
        o.v = -999;
    }
    Val& operator=(const Val&) = default;
    Val& operator=(Val&& o) noexcept
    {
        const int x = o.v;
        o.v         = -999;
        v           = x;
        return *this;
    }
    bool operator==(const Val& o) const { return v == o.v; }
    bool operator<(const Val& o) const { return v < o.v; }
};
template<>
struct std::hash<Val>
{
    size_t operator()(const Val& x) const noexcept { return static_cast<size_t>(x.v); }
};

struct TestErr : std::exception
{
    std::string code;
    explicit TestErr(std::string c)
        : code(std::move(c))
    {
    }
};
inline std::exception_ptr mkerr(const std::string& c) { return std::make_exception_ptr(TestErr{c}); }
inline std::string        errname(const std::exception_ptr& ep)
{
    if (!ep)
        return "NULL";
    try
    {
        std::rethrow_exception(ep);
    }
    catch (const TestErr& e)
    {
        return e.code;
    }
    catch (const rpp::utils::not_enough_emissions&)
    {
        return "NEE";
    }
    catch (const rpp::utils::out_of_range&)
    {
        return "OOR";
    }
    catch (const rpp::utils::timeout_reached&)
    {
        return "TMO";
    }
    catch (const rpp::utils::more_disposables_than_expected&)
    {
        return "MDE";
    }
    catch (...)
    {
        return "UNK";
    }
}

inline std::string show(int v) { return std::to_string(v); }
inline std::string show(size_t v) { return std::to_string(v); }
inline std::string show(const Val& v) { return std::to_string(v.v); }
template<typename T>
std::string show(const std::vector<T>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? ";" : "") + show(v[i]);
    return s + "]";
}
template<typename... Ts>
std::string show(const rpp::utils::tuple<Ts...>& t);
template<typename... Ts>
std::string show(const std::tuple<Ts...>& t)
{
    std::string s = "[";
    bool        f = true;
    std::apply([&](const auto&... x) { ((s += (f ? "" : ";") + show(x), f = false), ...); }, t);
    return s + "]";
}

struct Evt
{
    char        k; // n e c
    int         v = 0;
    std::string err;
};

struct World
{
    struct Sub
    {
        int                                        src;
        std::shared_ptr<rpp::dynamic_observer<Val>> obs;
        std::shared_ptr<int>                       released = std::make_shared<int>(0);
    };
    std::vector<std::string>      outs;
    std::vector<Sub>              subs;
    std::map<int, std::vector<std::vector<Evt>>> attempts; // synchronous sources: events at the k-th subscription
    std::map<int, int>            nsubs;           // subscriptions per source
    std::function<void(int)>      reaction;        // called with the number of values received so far
    std::function<void(int, int)> reaction_of;     // the same with the subscriber's number (several subscribers)
    std::map<int, int>            received;
    std::map<int, std::vector<Val>> tramp;         // sources giving these values on the current_thread trampoline
    int                           flip = 0;        // lvalue / rvalue emission
    bool                          with_upstream = true;
    bool                          erased        = false; // the pipeline is made a dynamic_observable first
    bool                          exclusive     = false; // a source is subscribed again only after its previous subscription was released

    // controlled-scheduler harnesses take over here
    std::function<void(int id, char k, const std::string& v)>                                           on_cb;
    std::function<void(int src, int nth, std::shared_ptr<rpp::dynamic_observer<Val>>, std::shared_ptr<int>)> on_sub;

    std::function<void()> on_fin; // the action of a finally
    // several threads using one pipeline: the world of the calling thread
    World* (*of_thread)() = nullptr;
    World& self() { return of_thread ? *of_thread() : *this; }
    void   log(const std::string& s) { self().outs.push_back(s); }
    void call(int id, char k, const std::string& v)
    {
        if (on_cb)
            on_cb(id, k, v);
        else
            log((id == 0 ? "" : std::to_string(id) + ".") + k + v);
    }

    void on_trampoline(const std::vector<Val>& v, rpp::dynamic_observer<Val> obs) const
    {
        if (flip & 1)
            rpp::source::from_iterable<rpp::memory_model::use_shared>(v).subscribe(std::move(obs));
        else if (v.size() == 1)
            rpp::source::just(v[0]).subscribe(std::move(obs));
        else if (v.size() == 2)
            rpp::source::just(v[0], v[1]).subscribe(std::move(obs));
        else
            rpp::source::from_iterable(v).subscribe(std::move(obs));
    }
    template<typename Obs>
    void on_subscribe(int src, Obs&& obs)
    {
        if (auto it = tramp.find(src); it != tramp.end())
            return on_trampoline(it->second, std::forward<Obs>(obs).as_dynamic());
        if (on_sub)
        {
            const bool dead = obs.is_disposed();
            auto       rel  = std::make_shared<int>(0);
            obs.set_upstream(rpp::make_callback_disposable([rel]() noexcept { ++*rel; }));
            on_sub(src, dead ? -1 : 0, std::make_shared<rpp::dynamic_observer<Val>>(std::forward<Obs>(obs).as_dynamic()), rel);
            return;
        }
        if (obs.is_disposed())
        {
            // subscribed although nobody listens any more: not a subscription, but has to be released at once
            auto rel = std::make_shared<int>(0);
            obs.set_upstream(rpp::make_callback_disposable([rel]() noexcept { ++*rel; }));
            if (*rel != 1)
                log("?leak");
            return;
        }
        if (exclusive)
            for (const auto& x : subs)
                if (x.src == src && *x.released != 1)
                    log("?overlap");
        const size_t id = subs.size();
        subs.push_back({src, nullptr});
        const int n   = nsubs[src]++;
        auto      rel = subs[id].released;
        if (with_upstream)
            obs.set_upstream(rpp::make_callback_disposable([rel]() noexcept { ++*rel; }));
        if (auto it = attempts.find(src); it != attempts.end() && !it->second.empty())
        {
            const auto evs = it->second[std::min(static_cast<size_t>(n), it->second.size() - 1)];
            for (const auto& e : evs)
                emit_to(obs, e);
        }
        subs[id].obs = std::make_shared<rpp::dynamic_observer<Val>>(std::forward<Obs>(obs).as_dynamic());
    }
    template<typename Obs>
    void emit_to(const Obs& o, const Evt& e)
    {
        if (e.k == 'n')
        {
            if (++flip & 1)
            {
                const Val v{e.v};
                o.on_next(v);
            }
            else
                o.on_next(Val{e.v});
        }
        else if (e.k == 'e')
            o.on_error(mkerr(e.err));
        else
            o.on_completed();
    }
    void emit(size_t i, const Evt& e)
    {
        if (i >= subs.size() || !subs[i].obs)
        {
            log("?nosub");
            return;
        }
        auto keep = subs[i].obs;
        emit_to(*keep, e);
    }
    std::string flags() const
    {
        std::string s;
        for (const auto& x : subs)
        {
            s += x.obs ? (x.obs->is_disposed() ? "D" : "L") : "-";
            s += std::to_string(x.src);
            if (with_upstream)
                s += ":" + std::to_string(*x.released);
        }
        return s;
    }
    std::string take()
    {
        std::string s;
        for (auto& o : outs)
            s += (s.empty() ? "" : " ") + o;
        outs.clear();
        return s;
    }
};

inline auto manual(World& w, int src)
{
    return rpp::source::create<Val>([&w, src](auto&& obs) { w.self().on_subscribe(src, std::forward<decltype(obs)>(obs)); });
}

using D           = rpp::composite_disposable_wrapper;
using SubscribeFn = std::function<void(int id, const D&)>;
using P           = std::vector<int>;

template<typename O>
SubscribeFn finish(World& w, O&& o)
{
    auto obs = std::make_shared<std::decay_t<O>>(std::forward<O>(o));
    return [&w, obs](int id, const D& d) {
        const auto go = [&](const auto& o, auto&&... callbacks) {
#ifdef VSCHED
            if (w.erased)
            {
                o.as_dynamic().subscribe(d, std::forward<decltype(callbacks)>(callbacks)...);
                return;
            }
#endif
            o.subscribe(d, std::forward<decltype(callbacks)>(callbacks)...);
        };
        go(
            *obs,
            [&w_ = w, id](const auto& v) {
                World& w = w_.self();
                w.call(id, 'n', show(v));
                const int n = ++w.received[id];
                if (id == 0 && w.reaction)
                    w.reaction(n);
                if (w.reaction_of)
                    w.reaction_of(id, n);
            },
            [&w, id](const std::exception_ptr& e) { w.self().call(id, 'e', errname(e)); },
            [&w, id]() { w.self().call(id, 'c', ""); });
    };
}

inline std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r;
    std::string              cur;
    for (char ch : s)
    {
        if (ch == c)
        {
            r.push_back(cur);
            cur.clear();
        }
        else
            cur += ch;
    }
    r.push_back(cur);
    return r;
}

// Several subscriptions of one pipeline: each one's sources are kept apart; its observer has the number k + 1
struct Apart
{
    World&                                                         w;
    std::vector<D>                                                 ds;
    size_t                                                         cur = 0;
    std::vector<std::pair<std::vector<World::Sub>, std::map<int, int>>> kept;
    Apart(World& w, size_t n)
        : w(w)
        , kept(n)
    {
        for (size_t i = 0; i < n; ++i)
            ds.push_back(D::make());
    }
    void select(size_t k)
    {
        if (k == cur)
            return;
        std::swap(kept[cur].first, w.subs);
        std::swap(kept[cur].second, w.nsubs);
        cur = k;
        std::swap(kept[cur].first, w.subs);
        std::swap(kept[cur].second, w.nsubs);
    }
    std::string observe(size_t k) // after a step of k
    {
        std::vector<std::string> o(ds.size());
        for (const auto& x : w.outs)
        {
            size_t i = k;
            auto   t = x;
            if (x.size() > 2 && x[1] == '.' && x[0] >= '1' && x[0] <= '9')
            {
                i = static_cast<size_t>(x[0] - '1');
                t = x.substr(2);
            }
            o[i] += (o[i].empty() ? "" : " ") + t;
        }
        w.outs.clear();
        std::string s;
        for (size_t i = 0; i < ds.size(); ++i)
        {
            select(i);
            s += (i ? "#" : "") + o[i] + "/" + w.flags() + "/" + (ds[i].is_disposed() ? "D" : "L");
        }
        return s;
    }
};
inline size_t apart_of(const std::vector<std::string>& steps)
{
    size_t n = 1;
    for (const auto& s : steps)
        if (auto p = s.find('@'); p != std::string::npos)
            n = std::max(n, static_cast<size_t>(atoi(s.c_str() + p + 1)) + 1);
    return n;
}
