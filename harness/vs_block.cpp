// Blocking subscriptions.  args: <variant> <script;script;...> <dispose>
//   one subscribing thread per script; "~n1,c" is emitted inside of the subscription, "n1,c" by a thread of its own
//   dispose: "-", "d1" (a thread disposes of subscription 1), "r1.2" (in the 2nd callback of subscription 1)
//   variant: 0 direct, 1 map before, 2 observe_on(new_thread), 3 subscribe_on(new_thread), 4 merge with never, 5 type erased, 6 as_blocking on a reused object
#include "replay.hpp"

#include <vsched.hpp>

#include <rpp/rpp.hpp>

#include <thread>

struct Blk
{
    std::vector<std::vector<std::string>>       scripts;
    std::vector<char>                           sync;
    std::vector<rpp::composite_disposable_wrapper> ds;
    std::vector<int>                            ret, ncb;
    int                                         rsub = -1, rn = 0;
};
SCENARIO(block)
{
    const auto f   = split(args, ' ');
    auto&      b   = *new Blk;
    const int  var = atoi(f[0].c_str());
    for (auto s : split(f[1], ';'))
    {
        b.sync.push_back(s[0] == '~');
        if (s[0] == '~')
            s = s.substr(1);
        b.scripts.push_back(s == "-" ? std::vector<std::string>{} : split(s, ','));
        b.ds.push_back(rpp::composite_disposable_wrapper::make());
        b.ret.push_back(0);
        b.ncb.push_back(0);
    }
    const auto unsub = [&b](int i) {
        vs::ev("{\"k\":\"call\",\"t\":%d,\"a\":\"u\",\"i\":%d}", vs::tid(), i);
        b.ds[i].dispose();
        vs::ev("{\"k\":\"ret\",\"t\":%d,\"a\":\"u\",\"i\":%d}", vs::tid(), i);
    };
    if (f[2][0] == 'r')
    {
        b.rsub = atoi(f[2].c_str() + 1);
        b.rn   = atoi(f[2].c_str() + f[2].find('.') + 1);
    }
    const auto make = [&b](int i) {
        return rpp::source::create<int>([&b, i](auto&& obs) {
            const auto emit = [](const auto& o, const std::vector<std::string>& s) {
                for (auto& e : s)
                    if (e[0] == 'n')
                        o.on_next(atoi(e.c_str() + 1));
                    else if (e[0] == 'c')
                        o.on_completed();
                    else
                        o.on_error(std::make_exception_ptr(std::runtime_error{"e"}));
            };
            if (b.sync[i])
                emit(obs, b.scripts[i]);
            else
            {
                auto        o = std::forward<decltype(obs)>(obs).as_dynamic();
                std::thread t{[o, &b, i, emit] { emit(o, b.scripts[i]); }};
                t.detach();
            }
        });
    };
    const auto cb = [&b, unsub](int i, char x, int v) {
        vs::ev("{\"k\":\"cb\",\"t\":%d,\"i\":%d,\"x\":\"%c\",\"v\":%d}", vs::tid(), i, x, v);
        vs::point();
        if (++b.ncb[i] == b.rn && b.rsub == i)
            unsub(i);
        vs::ev("{\"k\":\"cbe\",\"t\":%d,\"i\":%d}", vs::tid(), i);
    };
    std::vector<std::thread> ts;
    for (size_t k = 0; k < b.scripts.size(); ++k)
    {
        const int   i = static_cast<int>(k);
        std::thread t{[&b, i, var, make, cb] {
            const auto go = [&](const auto& o) {
                vs::ev("{\"k\":\"call\",\"t\":%d,\"a\":\"s\",\"i\":%d}", vs::tid(), i);
                o.subscribe(
                    b.ds[i],
                    [cb, i](int v) { cb(i, 'n', v); },
                    [cb, i](const std::exception_ptr&) { cb(i, 'e', 0); },
                    [cb, i] { cb(i, 'c', 0); });
                b.ret[i] = 1;
                vs::ev("{\"k\":\"ret\",\"t\":%d,\"a\":\"s\",\"i\":%d}", vs::tid(), i);
            };
            namespace op = rpp::operators;
            namespace rs = rpp::schedulers;
            switch (var)
            {
            case 1: go(make(i) | op::map([](int v) { return v; }) | op::as_blocking()); break;
            case 2: go(make(i) | op::observe_on(rs::new_thread{}) | op::as_blocking()); break;
            case 3: go(make(i) | op::subscribe_on(rs::new_thread{}) | op::as_blocking()); break;
            case 4: go(make(i) | op::merge_with(rpp::source::empty<int>()) | op::as_blocking()); break;
            case 5: go(make(i).as_dynamic() | op::as_blocking()); break;
            case 6:
            {
                const auto o = make(i);
                go(o | op::as_blocking());
                break;
            }
            default: go(make(i) | op::as_blocking());
            }
        }};
        vs::quiet q;
        ts.push_back(std::move(t));
    }
    if (f[2][0] == 'd')
    {
        const int   i = atoi(f[2].c_str() + 1);
        std::thread t{[i, unsub] { unsub(i); }};
        vs::quiet   q;
        ts.push_back(std::move(t));
    }
    vs::drain();
    std::string s;
    for (size_t i = 0; i < b.ret.size(); ++i)
        s += (i ? "," : "") + std::to_string(b.ret[i]);
    vs::ev("{\"k\":\"fin\",\"t\":0,\"ret\":[%s]}", s.c_str());
    vs::finish();
}
