// Replays histories of spec/SeqSource.tla
#include "gen.hpp"
#include <list>

using Sub = std::function<void(const D&, long)>;
namespace
{
    struct R : Run
    {
        Cfg                              c;
        int                              variant;
        std::vector<D>                   ds;
        std::map<long, long>             got;
        rpp::schedulers::run_loop        loop{};
        Sub                              sub;
        struct React { long o, n; std::string k; long i; };
        std::vector<React> re;

        void react(long o)
        {
            const long n = ++got[o];
            for (auto& r : re)
                if (r.o == o && r.n == n)
                {
                    if (r.k == "dis")
                    {
                        if (static_cast<size_t>(r.i) <= ds.size())
                            ds[static_cast<size_t>(r.i) - 1].dispose();
                    }
                    else if (r.k == "sub")
                        begin(true);
                    else if (!ds[static_cast<size_t>(o) - 1].is_disposed())
                        throw TestErr{"3"};
                }
        }
        void begin(bool live)
        {
            ds.push_back(D::make());
            auto d = ds.back();
            if (!live)
                d.dispose();
            sub(d, static_cast<long>(ds.size()));
        }
        static long val(const Val& v) { return v.v; }
        static long val(const rpp::utils::none&) { return 0; }
        static long code(const std::exception_ptr& e)
        {
            try { std::rethrow_exception(e); }
            catch (const TestErr& x) { return atoi(x.code.c_str()); }
            catch (...) { return -1; }
        }
        template<typename Ob>
        void use(Ob&& ob)
        {
            auto on = [this](const auto& o, const D& d, long i) {
                o.subscribe(
                    d, [this, i](const auto& v) { out("n", i, val(v)); react(i); }, [this, i](const std::exception_ptr& e) { out("e", i, code(e)); }, [this, i]() { out("c", i, 0); });
            };
            if (variant & 2)
            {
                auto dyn = ob.as_dynamic();
                sub      = [dyn, on](const D& d, long i) { auto copy = dyn; on(copy, d, i); };
            }
            else
            {
                auto p = std::make_shared<std::decay_t<Ob>>(std::forward<Ob>(ob));
                sub    = [p, on](const D& d, long i) { on(*p, d, i); };
            }
        }
        template<typename MM, typename S>
        void with(const S& s)
        {
            const auto       kind = str(c, "kind");
            std::vector<Val> v;
            if (!str(c, "vs").empty())
                for (auto& x : split(str(c, "vs"), ','))
                    v.push_back(Val{atoi(x.c_str())});
            auto a = [&](size_t i) { return v.at(i); };
            if (kind == "just")
            {
                const Val x = a(0);
                switch (v.size())
                {
                case 1: return use(rpp::source::just<MM>(s, x));
                case 2: return use(rpp::source::just<MM>(s, x, a(1)));
                case 3: return use(rpp::source::just<MM>(s, x, a(1), a(2)));
                default: return use(rpp::source::just<MM>(s, a(0), a(1), a(2), a(3)));
                }
            }
            if (kind == "iter")
            {
                if (variant & 1)
                    return use(rpp::source::from_iterable<MM>(std::list<Val>(v.begin(), v.end()), s));
                return use(rpp::source::from_iterable<MM>(v, s));
            }
            if (kind == "defer")
                return use(rpp::source::defer([this, v, s] { out("f", 0, 0); return rpp::source::from_iterable<MM>(v, s); }));
            if (kind == "concat")
            {
                std::vector<std::vector<Val>> ls;
                if (str(c, "ls") != "")
                    for (auto& l : split(str(c, "ls"), ';'))
                    {
                        ls.emplace_back();
                        if (l != "" && l != "-")
                            for (auto& x : split(l, ','))
                                ls.back().push_back(Val{atoi(x.c_str())});
                    }
                auto it = [&](size_t i) { return rpp::source::from_iterable<MM>(ls.at(i), s); };
                if ((variant & 1) || ls.empty())
                {
                    std::vector<decltype(it(0))> r;
                    for (size_t i = 0; i < ls.size(); ++i)
                        r.push_back(it(i));
                    return use(rpp::source::concat(r));
                }
                switch (ls.size())
                {
                case 1: return use(rpp::source::concat(it(0)));
                case 2: return use(rpp::source::concat(it(0), it(1)));
                default: return use(rpp::source::concat(it(0), it(1), it(2)));
                }
            }
            rest<MM>(kind, v);
        }
        template<typename MM>
        void rest(const std::string& kind, const std::vector<Val>& v)
        {
            if (kind == "call")
                return use(rpp::source::from_callable<MM>([this, x = v.at(0)] { out("f", 0, 0); return x; }));
            if (kind == "callv")
                return use(rpp::source::from_callable<MM>([this] { out("f", 0, 0); }));
            if (kind == "callx")
                return use(rpp::source::from_callable<MM>([this]() -> Val { out("f", 0, 0); throw TestErr{"1"}; }));
            if (kind == "empty")
                return use(rpp::source::empty<Val>());
            if (kind == "never")
                return use(rpp::source::never<Val>());
            if (kind == "error")
                return use(rpp::source::error<Val>(mkerr("2")));
            if (kind == "create")
                return use(rpp::source::create<Val>([ev = table(c, "ev")](auto&& o) {
                    for (auto& e : ev)
                    {
                        if (e[0] == "n")
                            o.on_next(Val{atoi(e[1].c_str())});
                        else if (e[0] == "e")
                            o.on_error(mkerr(e[1]));
                        else
                            o.on_completed();
                    }
                }));
            std::cerr << "kind? " << kind << "\n";
            abort();
        }
        R(const Cfg& cfg, int var)
            : c(cfg)
            , variant(var)
        {
            for (auto& x : table(c, "re"))
                re.push_back({atoi(x[0].c_str()), atoi(x[1].c_str()), x[2], atoi(x[3].c_str())});
            const auto md = str(c, "md");
            auto       mm = [&](const auto& s) {
                if (variant & 1)
                    with<rpp::memory_model::use_shared>(s);
                else
                    with<rpp::memory_model::use_stack>(s);
            };
            if (md == "imm")
                mm(rpp::schedulers::immediate{});
            else if (md == "loop")
                mm(loop);
            else
                mm(rpp::schedulers::current_thread{});
        }
        void step(const Step& s) override
        {
            if (s.k == "sub" || s.k == "subd")
                begin(s.k == "sub");
            else if (s.k == "dis")
                ds[static_cast<size_t>(s.i) - 1].dispose();
            else if (s.k == "run")
                while (outs.empty() && !loop.is_empty())
                    loop.dispatch_if_ready();
            else if (s.k == "all")
                while (!loop.is_empty())
                    loop.dispatch_if_ready();
        }
        std::string flags() override
        {
            std::vector<long> v;
            for (auto& d : ds)
                v.push_back(d.is_disposed());
            return ints(v);
        }
    };
}
std::unique_ptr<Run> make_run(const Cfg& c, int variant) { return std::make_unique<R>(c, variant); }
