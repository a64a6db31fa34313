// Controlled scheduler: every mutex/condvar/thread/atomic/clock operation of the code under
// test becomes a scheduling point of a serialised execution with virtual time.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>

namespace vs
{
    // ---- to be used by scenarios (on managed threads) ----
    void    ev(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // append one JSON event (object text)
    void    point();            // explicit scheduling point
    int     tid();              // id of the calling managed thread (0 = scenario main thread)
    int64_t now_ms();           // virtual time since scenario start, in ms (floor)
    int64_t now_ns();
    void    sleep_ms(int64_t ms);
    int     drain();            // let every other thread run until all are finished or blocked for ever; returns #blocked
    void    drain_until(int64_t ms); // as drain, but virtual time does not pass `ms`
    int     live_threads();     // managed threads, other than the caller, which have not ended
    uint64_t rnd();             // scenario randomness (deterministic per seed)
    void    set_time_chaos(bool on); // allow time to pass while threads are runnable
    [[noreturn]] void finish(); // ends this run
    [[noreturn]] void fail(const char* why); // ends this run with a verdict of its own

    using scenario_fn = void (*)(const std::string& args);
    struct scenario
    {
        const char* name;
        scenario_fn fn;
    };
    struct registrar
    {
        registrar(const char* name, scenario_fn fn);
    };
    // RAII: no scheduling inside (for the harness' own bookkeeping)
    struct quiet
    {
        quiet();
        ~quiet();
    };
} // namespace vs

#define VS_CONCAT2(a, b) a##b
#define VS_CONCAT(a, b)  VS_CONCAT2(a, b)
#define SCENARIO(NAME)                                           \
    static void              VS_CONCAT(sc_, NAME)(const std::string&); \
    static vs::registrar     VS_CONCAT(reg_, NAME){#NAME, VS_CONCAT(sc_, NAME)}; \
    static void              VS_CONCAT(sc_, NAME)([[maybe_unused]] const std::string& args)
