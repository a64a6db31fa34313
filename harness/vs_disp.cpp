// Disposables used from several threads.  args: <kinds> <pre> <thread;thread;...> <reactions>
//   ops: a1.2 add 2 to 1, r1.2 remove, c1 clear, d1 dispose, f1.3 / g1.3 take a reference (kept as item 3), joined by ','
//   reaction: 2=a1.4 in the callback of leaf 2, joined by ';'; '-' none
#include "replay.hpp"

#include <vsched.hpp>

#include <thread>

using W  = rpp::disposable_wrapper;
using CW = rpp::composite_disposable_wrapper;
using RW = rpp::disposable_wrapper_impl<rpp::refcount_disposable>;
static thread_local int depth = 0;
struct Nest
{
    Nest() { ++depth; }
    ~Nest() { --depth; }
};
static int who() { return vs::tid() + 100 * (depth - 1); }

struct Item
{
    std::string kind;
    W           w = W::empty();
    CW          c = CW::empty();
    RW          r = RW::empty();
};
SCENARIO(disp)
{
    const auto f     = split(args, ' ');
    auto&      items = *new std::vector<Item>(1);
    auto&      re    = *new std::multimap<int, std::string>{};
    auto&      doit  = *new std::function<void(const std::string&)>{};
    if (f[3] != "-")
        for (auto& x : split(f[3], ';'))
            re.emplace(atoi(x.c_str()), x.substr(x.find('=') + 1));
    auto leaf = [&re, &doit](int id) {
        vs::ev("{\"k\":\"cb\",\"t\":%d,\"i\":%d}", who(), id);
        vs::point();
        auto [b, e] = re.equal_range(id);
        for (; b != e; ++b)
            doit(b->second);
        vs::ev("{\"k\":\"cbe\",\"t\":%d,\"i\":%d}", who(), id);
    };
    for (auto& k : split(f[0], ','))
    {
        Item it{k};
        const int id = static_cast<int>(items.size());
        if (k == "leaf")
            it.w = rpp::make_callback_disposable([leaf, id]() noexcept { leaf(id); });
        else if (k == "comp")
            it.w = it.c = CW::make();
        else if (k == "ref")
        {
            it.r = RW::make();
            it.c = it.r;
            it.w = it.r;
        }
        items.push_back(it);
    }
    doit = [&items](const std::string& op) {
        Nest n;
        static const std::map<char, const char*> names{{'a', "add"}, {'r', "rem"}, {'c', "clr"}, {'d', "dis"}, {'f', "ref"}, {'g', "ref"}};
        const int i = atoi(op.c_str() + 1);
        const int v = op.find('.') != std::string::npos ? atoi(op.c_str() + op.find('.') + 1) : 0;
        vs::ev("{\"k\":\"call\",\"t\":%d,\"a\":\"%s\",\"i\":%d,\"v\":%d}", who(), names.at(op[0]), i, v);
        auto& it = items[i];
        switch (op[0])
        {
        case 'a': it.c.add(items[v].w); break;
        case 'r': it.c.remove(items[v].w); break;
        case 'c': it.c.clear(); break;
        case 'd': it.w.dispose(); break;
        default: {
            CW c = it.r.lock()->add_ref(op[0] == 'f' ? rpp::refcount_disposable::Mode::WeakRefStrongSource : rpp::refcount_disposable::Mode::StrongRefRefSource);
            items[v].w = c;
            items[v].c = c;
        }
        }
        vs::ev("{\"k\":\"ret\",\"t\":%d}", who());
    };
    if (f[1] != "-")
    {
        vs::quiet q;
        for (auto& op : split(f[1], ','))
            doit(op);
    }
    auto& threads = *new std::vector<std::thread>{};
    for (auto& t : split(f[2], ';'))
    {
        std::thread th{[t, &doit] {
            for (auto& op : split(t, ','))
                doit(op);
        }};
        vs::quiet q;
        threads.push_back(std::move(th));
    }
    vs::drain();
    std::string s;
    for (size_t i = 1; i < items.size(); ++i)
        s += (i > 1 ? "," : "") + std::to_string(items[i].w.is_disposed() ? 1 : 0);
    vs::ev("{\"k\":\"fin\",\"t\":0,\"d\":[%s]}", s.c_str());
    vs::finish();
}
