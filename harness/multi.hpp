// Registry of operators with several sources / time (names as in spec/RxMulti.tla)
#pragma once
#include "replay.hpp"

#include <rpp/schedulers/test_scheduler.hpp>

using Any = rpp::dynamic_observable<Val>;
#ifdef VSCHED
// (a scheduler that is not an empty class: clang 18 miscompiles interval/timer over empty [[no_unique_address]] ones)
struct TS
{
    int         pad = 0;
    static auto create_worker() { return rpp::schedulers::new_thread::create_worker(); }
};
#else
using TS = rpp::schedulers::test_scheduler;
#endif
using ms = std::chrono::milliseconds;

struct Ctx
{
    World& w;
    P      p;
    int    thr;
    TS     ts;
    int    at(size_t i) const { return i < p.size() ? p[i] : 0; }
};
using Builder = std::function<SubscribeFn(Ctx&)>;
std::map<std::string, Builder>& builders();
