// gRPC adapters with gRPC's reactions and the user's emissions on different threads.
//   args: <kind> <threads> <reads> <writes> <code>
//   threads (joined by ';'): ops joined by ',': p<v> push, c completed, e error, x the call is cancelled
//   reads: values read, '-' for the end of the stream, joined by ','; writes: ok / no, joined by ','; then ok    code: status of the call (client)
#include "replay.hpp"

#include <vsched.hpp>

#include <rppgrpc/client_reactor.hpp>
#include <rppgrpc/server_reactor.hpp>

#include <condition_variable>
#include <mutex>
#include <thread>

struct Call
{
    std::mutex              m;
    std::condition_variable cv;
    bool                    rd = false, wr = false, fin = false, rend = false, done = false, reads = false, client = false, started = false;
    int                     reactions = 0, users = 0;
    int*                    to = nullptr;
};
static Call& S() { static auto* c = new Call; return *c; }
template<typename F>
static void upd(F f)
{
    {
        std::lock_guard l{S().m};
        f(S());
    }
    S().cv.notify_all();
}
template<typename P>
static void wait(P p)
{
    std::unique_lock l{S().m};
    S().cv.wait(l, [&] { return p(S()); });
}
static void sev(const char* k, int v) { vs::ev("{\"k\":\"%s\",\"t\":%d,\"v\":%d}", k, vs::tid(), v); }
static void on_write(const int* m)
{
    sev("w", *m);
    upd([](Call& c) { c.wr = true; });
}
static void on_read(int* m)
{
    sev("r", 0);
    upd([m](Call& c) { c.rd = true; c.to = m; });
}
static void on_end(const char* k, int v)
{
    sev(k, v);
    upd([](Call& c) { c.fin = true; });
}
template<typename B>
struct Cli : B
{
    void StartCall() override
    {
        upd([](Call& c) { c.started = true; });
    }
    void AddHold(int) override {}
    void RemoveHold() override {}
    template<typename R>
    void bind(R* r) { this->BindReactor(r); }
};
struct CBidi final : Cli<grpc::ClientCallbackReaderWriter<int, int>>
{
    void Write(const int* m, grpc::WriteOptions) override { on_write(m); }
    void WritesDone() override { on_end("wd", 0); }
    void Read(int* m) override { on_read(m); }
};
struct CWrite final : Cli<grpc::ClientCallbackWriter<int>>
{
    void Write(const int* m, grpc::WriteOptions) override { on_write(m); }
    void WritesDone() override { on_end("wd", 0); }
};
template<typename B>
struct Srv : B
{
    void Finish(grpc::Status s) override { on_end("f", static_cast<int>(s.error_code())); }
    void SendInitialMetadata() override {}
    template<typename R>
    void bind(R* r) { this->BindReactor(r); }

private:
    grpc::internal::ServerReactor* reactor() override { return nullptr; }
    void                           CallOnDone() override {}
};
struct SBidi final : Srv<grpc::ServerCallbackReaderWriter<int, int>>
{
    void Read(int* m) override { on_read(m); }
    void Write(const int* m, grpc::WriteOptions) override { on_write(m); }
    void WriteAndFinish(const int*, grpc::WriteOptions, grpc::Status) override {}
};
struct SRead final : Srv<grpc::ServerCallbackReader<int>>
{
    void Read(int* m) override { on_read(m); }
};
struct SWrite final : Srv<grpc::ServerCallbackWriter<int>>
{
    void Write(const int* m, grpc::WriteOptions) override { on_write(m); }
    void WriteAndFinish(const int*, grpc::WriteOptions, grpc::Status) override {}
};
template<typename F>
static void reaction(const char* k, int v, F f)
{
    sev(k, v);
    f();
    sev("end", 0);
    upd([](Call& c) { --c.reactions; });
}
template<typename R, typename Api, typename Stream>
static void run(const std::vector<std::string>& f)
{
    auto*          stream = new Stream;
    auto*          r      = new R{};
    Api*           api    = r;
    constexpr bool client = std::is_base_of_v<grpc::internal::ClientReactor, Api>;
    constexpr bool reads  = requires { api->OnReadDone(true); };
    constexpr bool writes = requires { r->get_observer(); };
    S().client            = client;
    S().reads             = reads;
    auto cb               = [](const char* k, int v) {
        sev(k, v);
        vs::point();
        sev("ce", 0);
    };
    r->get_observable().subscribe(
        [cb](const auto& m) {
            if constexpr (std::same_as<std::decay_t<decltype(m)>, int>)
                cb("n", m);
        },
        [cb](const std::exception_ptr& e) {
            int v = -1;
            try
            {
                std::rethrow_exception(e);
            }
            catch (const rppgrpc::utils::reactor_failed& x)
            {
                v = std::string{x.what()} == "OnCancel called" ? 99 : atoi(x.what());
            }
            cb("e", v);
        },
        [cb]() { cb("c", 0); });
    const auto threads = split(f[1], ';');
    S().users          = static_cast<int>(threads.size());
    std::vector<std::thread> ths;
    const auto go = [&ths](auto fn) {
        std::thread th{fn};
        vs::quiet   q;
        ths.push_back(std::move(th));
    };
    std::vector<std::function<void(const std::string&)>> act(threads.size());
    for (size_t i = 0; i < threads.size(); ++i)
    {
        if constexpr (writes)
        {
            auto o = std::make_shared<std::decay_t<decltype(r->get_observer())>>(r->get_observer());
            act[i] = [o, api](const std::string& op) {
                const int v = atoi(op.c_str() + 1);
                vs::ev("{\"k\":\"call\",\"t\":%d,\"a\":\"%c\",\"v\":%d}", vs::tid(), op[0], v);
                if (op[0] == 'p')
                    o->on_next(v);
                else if (op[0] == 'c')
                    o->on_completed();
                else
                    o->on_error(std::make_exception_ptr(std::runtime_error{"E"}));
                sev("ret", 0);
            };
        }
    }
    const auto users = [&] {
        for (size_t i = 0; i < threads.size(); ++i)
            go([ops = split(threads[i], ','), a = act[i], api] {
                for (auto& op : ops)
                    if (op[0] == 'x')
                    {
                        bool go = false;
                        upd([&](Call& c) { go = !c.done; c.reactions += go; });
                        if constexpr (!client)
                            if (go)
                                reaction("cancel", 0, [api] { api->OnCancel(); });
                    }
                    else
                        a(op);
                upd([](Call& c) { --c.users; });
            });
    };
    if constexpr (client)
        stream->bind(r);
    const auto init = [&] {
        sev("init", 0);
        if constexpr (client)
            r->init();
        else
            stream->bind(r);
        sev("end", 0);
    };
    if constexpr (!client)
        init();
    users();
    if constexpr (reads)
        go([api, vals = split(f[2], ',')] {
            for (auto& v : vals)
            {
                wait([](Call& c) { return c.rd || c.done; });
                bool go = false;
                upd([&](Call& c) {
                    if (!c.done)
                    {
                        go     = true;
                        c.rd   = false;
                        c.rend = v == "-";
                        ++c.reactions;
                        if (v != "-")
                            *c.to = atoi(v.c_str());
                    }
                });
                if (!go)
                    return;
                if (v == "-")
                    reaction("rno", 0, [api] { api->OnReadDone(false); });
                else
                    reaction("rok", atoi(v.c_str()), [api] { api->OnReadDone(true); });
            }
        });
    if constexpr (writes)
        go([api, oks = split(f[3], ',')] {
            for (size_t i = 0;; ++i)
            {
                wait([](Call& c) { return c.wr || c.done; });
                bool go = false;
                upd([&](Call& c) {
                    if (!c.done)
                    {
                        go   = true;
                        c.wr = false;
                        ++c.reactions;
                    }
                });
                if (!go)
                    return;
                if (i < oks.size() && oks[i] == "no")
                    reaction("wno", 0, [api] { api->OnWriteDone(false); });
                else
                    reaction("wok", 0, [api] { api->OnWriteDone(true); });
            }
        });
    const int code = atoi(f[4].c_str());
    go([api, code] {
        wait([](Call& c) { return c.done = c.reactions == 0 && !c.wr && (c.client ? c.started && !c.rd && c.users == 0 : (!c.reads || c.rend) && c.fin); });
        upd([](Call&) {});
        sev("done", client ? code : 0);
        if constexpr (client)
            api->OnDone(code == 0 ? grpc::Status::OK : grpc::Status{static_cast<grpc::StatusCode>(code), std::to_string(code)});
        else
            api->OnDone();
        sev("end", 0);
    });
    if constexpr (client)
        init();
    vs::drain();
    vs::ev("{\"k\":\"fin\",\"t\":0,\"done\":%d}", S().done ? 1 : 0);
    vs::finish();
}
SCENARIO(grpc)
{
    S();
    const auto f = split(args, ' ');
    if (f[0] == "cbidi") run<rppgrpc::client_bidi_reactor<int, int>, grpc::ClientBidiReactor<int, int>, CBidi>(f);
    else if (f[0] == "cwrite") run<rppgrpc::client_write_reactor<int>, grpc::ClientWriteReactor<int>, CWrite>(f);
    else if (f[0] == "sbidi") run<rppgrpc::server_bidi_reactor<int, int>, grpc::ServerBidiReactor<int, int>, SBidi>(f);
    else if (f[0] == "swrite") run<rppgrpc::server_write_reactor<int>, grpc::ServerWriteReactor<int>, SWrite>(f);
    else run<rppgrpc::server_read_reactor<int>, grpc::ServerReadReactor<int>, SRead>(f);
}
