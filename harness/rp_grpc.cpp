// Replays histories of spec/SeqGrpc.tla against the real reactors; gRPC's stream interfaces are stood in for (they exist for mocking).
// variant 1: the observer given out is kept as a dynamic one
#include "gen.hpp"

#include <rppgrpc/client_reactor.hpp>
#include <rppgrpc/server_reactor.hpp>

struct Msg
{
    static inline long live = 0;
    int                v    = 0;
    Msg() { ++live; }
    explicit Msg(int x) : v{x} { ++live; }
    Msg(const Msg& o) : v{o.v} { ++live; }
    Msg(Msg&& o) noexcept : v{o.v} { ++live; }
    Msg& operator=(const Msg&) = default;
    ~Msg() { --live; }
};
struct GrpcRun;
static GrpcRun* cur = nullptr;
struct GrpcRun : Run
{
    struct Re { int o, n; std::string k; int i; };
    std::vector<Re>                  re;
    std::vector<D>                   ds;
    std::vector<int>                 cnt;
    int                              seen = 0;
    bool                             done = false, reads = false;
    Msg*                             to   = nullptr; // where a read goes to
    std::function<void(int)>         push = [](int) {};
    std::function<void()>            comp = [] {}, err = [] {};
    std::function<void(int, const D&)> subscribe;
    std::function<void()>            init, wok, wno, cancel, drop;
    std::function<void(bool)>        read;
    std::function<void(int)>         fin;
    long                             base = Msg::live;

    void cb(const char* k, int id, int v)
    {
        out(k, id, v);
        const int n = ++cnt[id - 1];
        for (auto& r : std::vector<Re>{re})
            if (r.o == id && r.n == n)
            {
                if (r.k == "push")
                    push(50 + r.i);
                else if (r.k == "comp")
                    comp();
                else if (r.k == "err")
                    err();
                else if (r.k == "unsub" && r.i <= static_cast<int>(ds.size()))
                    D{ds[r.i - 1]}.dispose();
            }
    }
    void sub()
    {
        const int id = static_cast<int>(ds.size()) + 1;
        ds.push_back(D::make());
        cnt.push_back(0);
        subscribe(id, D{ds.back()});
    }
    template<typename Obs>
    void reader(Obs o)
    {
        subscribe = [this, o](int id, const D& d) {
            o.subscribe(
                d,
                [this, id](const auto& m) {
                    if constexpr (std::same_as<std::decay_t<decltype(m)>, Msg>)
                        cb("n", id, m.v);
                    else
                        cb("n", id, -1);
                },
                [this, id](const std::exception_ptr& e) {
                    int v = -1;
                    try
                    {
                        std::rethrow_exception(e);
                    }
                    catch (const rppgrpc::utils::reactor_failed& x)
                    {
                        v = std::string{x.what()} == "OnCancel called" ? 99 : atoi(x.what());
                    }
                    cb("e", id, v);
                },
                [this, id]() { cb("c", id, 0); });
        };
    }
    template<typename O>
    void writer(O&& obs)
    {
        auto o = std::make_shared<std::decay_t<O>>(std::forward<O>(obs));
        push   = [o](int v) { o->on_next(Msg{v}); };
        comp   = [o] { o->on_completed(); };
        err    = [o] { o->on_error(mkerr("E")); };
    }
    void step(const Step& s) override
    {
        if (s.k == "push") push(s.v);
        else if (s.k == "comp") comp();
        else if (s.k == "err") err();
        else if (s.k == "sub") sub();
        else if (s.k == "unsub") D{ds[s.i - 1]}.dispose();
        else if (s.k == "init") init();
        else if (s.k == "rok")
        {
            to->v = s.v;
            read(true);
        }
        else if (s.k == "rno") read(false);
        else if (s.k == "wok") wok();
        else if (s.k == "wno") wno();
        else if (s.k == "cancel") cancel();
        else if (s.k == "done")
        {
            done = true;
            fin(s.v);
        }
    }
    std::string flags() override
    {
        std::vector<long> f{Msg::live - base - (reads && !done ? 1 : 0), done ? 1 : 0};
        for (auto& d : ds)
            f.push_back(d.is_disposed() ? 1 : 0);
        return ints(f);
    }
    ~GrpcRun() override
    {
        re.clear();
        for (auto& d : ds)
            d.dispose();
        if (drop && !done)
            drop();
        cur = nullptr;
    }
};
using None = rpp::utils::none;
template<typename T>
static void wrote(const T* m)
{
    cur->out("w", 0, m->v);
}
static void rd(Msg* m)
{
    cur->to = m;
    cur->out("r", 0, 0);
}
// client side
struct CBidi final : grpc::ClientCallbackReaderWriter<Msg, Msg>
{
    void StartCall() override { cur->out("call", 0, 0); }
    void Write(const Msg* m, grpc::WriteOptions) override { wrote(m); }
    void WritesDone() override { cur->out("wd", 0, 0); }
    void Read(Msg* m) override { rd(m); }
    void AddHold(int) override {}
    void RemoveHold() override {}
    template<typename R>
    void bind(R* r) { this->BindReactor(r); }
};
struct CRead final : grpc::ClientCallbackReader<Msg>
{
    void StartCall() override { cur->out("call", 0, 0); }
    void Read(Msg* m) override { rd(m); }
    void AddHold(int) override {}
    void RemoveHold() override {}
    template<typename R>
    void bind(R* r) { this->BindReactor(r); }
};
struct CWrite final : grpc::ClientCallbackWriter<Msg>
{
    void StartCall() override { cur->out("call", 0, 0); }
    void Write(const Msg* m, grpc::WriteOptions) override { wrote(m); }
    void WritesDone() override { cur->out("wd", 0, 0); }
    void AddHold(int) override {}
    void RemoveHold() override {}
    template<typename R>
    void bind(R* r) { this->BindReactor(r); }
};
// server side
template<typename B>
struct SrvCall : B
{
    void Finish(grpc::Status s) override { cur->out("f", 0, static_cast<int>(s.error_code())); }
    void SendInitialMetadata() override { cur->out("meta", 0, 0); }
    template<typename R>
    void bind(R* r) { this->BindReactor(r); }

private:
    grpc::internal::ServerReactor* reactor() override { return nullptr; }
    void                           CallOnDone() override {}
};
struct SBidi final : SrvCall<grpc::ServerCallbackReaderWriter<Msg, Msg>>
{
    void Read(Msg* m) override { rd(m); }
    void Write(const Msg* m, grpc::WriteOptions) override { wrote(m); }
    void WriteAndFinish(const Msg* m, grpc::WriteOptions, grpc::Status s) override
    {
        wrote(m);
        Finish(s);
    }
};
struct SRead final : SrvCall<grpc::ServerCallbackReader<Msg>>
{
    void Read(Msg* m) override { rd(m); }
};
struct SWrite final : SrvCall<grpc::ServerCallbackWriter<Msg>>
{
    void Write(const Msg* m, grpc::WriteOptions) override { wrote(m); }
    void WriteAndFinish(const Msg* m, grpc::WriteOptions, grpc::Status s) override
    {
        wrote(m);
        Finish(s);
    }
};
// Api: gRPC's reactor interface, through which gRPC calls
template<typename R, typename Api, typename Stream>
struct Of final : GrpcRun
{
    Stream stream;
    R*     r;
    Of(const Cfg& c, int variant)
    {
        cur = this;
        for (auto& x : table(c, "re"))
            re.push_back({atoi(x[0].c_str()), atoi(x[1].c_str()), x[2], atoi(x[3].c_str())});
        r        = new R{};
        Api* api = r;
        constexpr bool client = std::is_base_of_v<grpc::internal::ClientReactor, Api>;
        if constexpr (client)
        {
            stream.bind(r);
            init = [this] { r->init(); };
            fin  = [api](int v) { api->OnDone(v == 0 ? grpc::Status::OK : grpc::Status{static_cast<grpc::StatusCode>(v), std::to_string(v)}); };
        }
        else
        {
            init   = [this] { stream.bind(r); };
            fin    = [api](int) { api->OnDone(); };
            cancel = [api] { api->OnCancel(); };
        }
        drop = [this] { delete r; };
        if constexpr (requires { api->OnReadDone(true); })
        {
            read  = [api](bool ok) { api->OnReadDone(ok); };
            reads = true;
        }
        if constexpr (requires { api->OnWriteDone(true); })
        {
            wok = [api] { api->OnWriteDone(true); };
            wno = [api] { api->OnWriteDone(false); };
        }
        if constexpr (requires { r->get_observer(); })
        {
            if (variant == 1)
                writer(r->get_observer().as_dynamic());
            else
                writer(r->get_observer());
        }
        reader(r->get_observable());
        for (int i = 0; i < num(c, "sub"); ++i)
            sub();
    }
};
std::unique_ptr<Run> make_run(const Cfg& c, int v)
{
    const auto k = str(c, "kind");
    if (k == "cbidi") return std::make_unique<Of<rppgrpc::client_bidi_reactor<Msg, Msg>, grpc::ClientBidiReactor<Msg, Msg>, CBidi>>(c, v);
    if (k == "cwrite") return std::make_unique<Of<rppgrpc::client_write_reactor<Msg>, grpc::ClientWriteReactor<Msg>, CWrite>>(c, v);
    if (k == "cread") return std::make_unique<Of<rppgrpc::client_read_reactor<Msg>, grpc::ClientReadReactor<Msg>, CRead>>(c, v);
    if (k == "sbidi") return std::make_unique<Of<rppgrpc::server_bidi_reactor<Msg, Msg>, grpc::ServerBidiReactor<Msg, Msg>, SBidi>>(c, v);
    if (k == "swrite") return std::make_unique<Of<rppgrpc::server_write_reactor<Msg>, grpc::ServerWriteReactor<Msg>, SWrite>>(c, v);
    return std::make_unique<Of<rppgrpc::server_read_reactor<Msg>, grpc::ServerReadReactor<Msg>, SRead>>(c, v);
}
