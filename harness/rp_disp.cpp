// Replays histories of spec/SeqDisp.tla.  variant bit 0: composites with storage of fixed capacity; bit 1: operations through fresh copies of the wrappers
#include "gen.hpp"

using W  = rpp::disposable_wrapper;
using CW = rpp::composite_disposable_wrapper;
using RW = rpp::disposable_wrapper_impl<rpp::refcount_disposable>;
struct fixed_composite final : rpp::composite_disposable_impl<rpp::details::disposables::static_disposables_container<12>>
{
};
struct DispRun final : Run
{
    struct Item
    {
        std::string kind;
        W           strong = W::empty(), weak = W::empty();
        CW          cweak = CW::empty();
        RW          rweak = RW::empty();
        bool        hold  = true;
    };
    struct Re { int o; Step s; };
    std::vector<Item> items;
    std::vector<Re>   re;
    size_t            max;
    bool              copies;
    DispRun(const Cfg& c, int variant)
        : max(num(c, "max")), copies(variant & 2)
    {
        for (auto& r : table(c, "re"))
            re.push_back({atoi(r[0].c_str()), Step{r[1], atoi(r[2].c_str()), atoi(r[3].c_str())}});
        items.reserve(64);
        for (auto& k : split(str(c, "kinds"), ','))
        {
            const int id = static_cast<int>(items.size()) + 1;
            Item      it{k};
            if (k == "leaf")
            {
                it.strong = rpp::make_callback_disposable([this, id]() noexcept { leaf(id); });
                it.weak   = it.strong.as_weak();
            }
            else if (k == "comp")
            {
                CW w      = (variant & 1) ? CW::make<fixed_composite>() : CW::make();
                it.strong = w;
                it.cweak  = w.as_weak();
                it.weak   = it.strong.as_weak();
            }
            else
            {
                RW w      = RW::make();
                it.strong = w;
                it.rweak  = w.as_weak();
                it.cweak  = CW{w}.as_weak();
                it.weak   = it.strong.as_weak();
            }
            items.push_back(std::move(it));
        }
    }
    ~DispRun() override
    {
        re.clear();
        max = 0;
        for (size_t i = 0; i < items.size(); ++i)
            W{items[i].weak}.dispose();
        for (size_t i = 0; i < items.size(); ++i)
            W{std::move(items[i].strong)};
    }
    void leaf(int id)
    {
        out("d", id, 0);
        for (size_t j = 0; j < re.size(); ++j)
            if (re[j].o == id)
                step(re[j].s);
    }
    void step(const Step& s) override
    {
        if (s.k == "start")
            return;
        if (s.i > static_cast<int>(items.size()) || s.v > static_cast<int>(items.size()))
            return;
        Item& it = items[s.i - 1];
        if (s.k == "add" || s.k == "addw")
        {
            if (s.k == "addw")
                it.cweak.add(items[s.v - 1].weak);
            else if (items[s.v - 1].hold)
            {
                if (copies)
                    it.cweak.add(W{items[s.v - 1].strong});
                else
                    it.cweak.add(items[s.v - 1].strong);
            }
        }
        else if (s.k == "rem")
        {
            if (copies && items[s.v - 1].hold)
                it.cweak.remove(items[s.v - 1].strong);
            else
                it.cweak.remove(items[s.v - 1].weak);
        }
        else if (s.k == "clr")
            it.cweak.clear();
        else if (s.k == "dis")
        {
            if (copies && it.hold)
                W{it.strong}.dispose();
            else
                it.weak.dispose();
        }
        else if (s.k == "drop")
        {
            if (it.hold)
            {
                it.hold = false;
                W{std::exchange(it.strong, W::empty())};
            }
        }
        else if (items.size() < max)
        {
            Item n{"in"};
            using M = rpp::refcount_disposable::Mode;
            CW c = CW::empty();
            if (auto l = it.rweak.lock())
                c = l->add_ref(s.k == "ref" ? M::WeakRefStrongSource : M::StrongRefRefSource);
            n.strong = c;
            n.weak   = n.strong.as_weak();
            n.cweak  = c.as_weak();
            n.hold   = c.lock() != nullptr;
            items.push_back(std::move(n));
        }
    }
    std::string flags() override
    {
        std::vector<long> f;
        for (auto& it : items)
            f.push_back((it.weak.is_disposed() ? 1 : 0) + (it.weak.lock() ? 2 : 0));
        return ints(f);
    }
};
std::unique_ptr<Run> make_run(const Cfg& c, int variant) { return std::make_unique<DispRun>(c, variant); }
