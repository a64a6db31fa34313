// Runtime of the controlled scheduler. Compiled WITHOUT instrumentation.
//   vrun <scenario> <args> --mode random|pct|dfs --runs N --seed S --out F [--jobs J] [--bound B] [--fine P] [--replay FILE]
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.hpp"

#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace
{
    enum Verdict : int
    {
        V_NONE = 0,
        V_OK,
        V_DEADLOCK,
        V_STEPS,
        V_FAIL
    };
    constexpr int    MAXT      = 24;
    constexpr size_t TRACE_CAP = 1 << 18;
    constexpr int    MAXCH     = 1 << 16;
    struct Shared
    {
        int     verdict;
        int     nchoices;
        int     npoints;
        int     preempts;
        size_t  len;
        char    why[256];
        uint8_t chosen[MAXCH];   // index chosen
        uint8_t enabled[MAXCH];  // number of enabled alternatives
        uint8_t cont[MAXCH];     // index of "continue the same thread" alternative or 255
        char    trace[TRACE_CAP];
    };
    Shared* sh = nullptr;

    enum St
    {
        RUN,
        BLK,    // waits for an object (mutex / join / cond)
        DONE
    };
    struct Th
    {
        int       id;
        St        st = RUN;
        void*     obj      = nullptr; // what it waits for
        bool      is_cond  = false;
        int64_t   deadline = -1;
        bool      timedout = false;
        bool      signalled = false;
        int       futex    = 0;
        pthread_t real{};
        void* (*fn)(void*) = nullptr;
        void*     arg      = nullptr;
        int64_t   prio     = 0;
        uint64_t  spin     = 0;
        bool      detached = false;
        bool      joined   = false;
    };
    Th                 ths[MAXT];
    int                nth     = 0;
    int                cur     = 0;
    bool               active  = false;
    int64_t            vnow    = 0; // ns
    constexpr int64_t  T0      = 1'000'000'000'000LL;
    constexpr int64_t  MS      = 1'000'000;
    bool               chaos   = false;
    uint64_t           rng     = 1;
    uint64_t           rng_s   = 1; // scenario randomness
    int                mode    = 0; // 0 random 1 pct 2 dfs/replay
    uint32_t           pswitch = 0; // of 1024
    uint32_t           fine    = 0; // of 65536, probability of a point at a memory access
    uint32_t           p32     = 0; // of 1024, probability of a point at a 32 bit atomic
    uint32_t           pspur   = 0; // of 1024, spurious wake-ups
    int                nspur   = 0; // spurious wake-ups so far: bounded, or else they would count as progress
    int                maxsteps = 60000;
    int                steps   = 0;
    int                clockreads = 0;
    int                bound   = 2;
    std::vector<int>   pct_points;
    int64_t            pct_low = 0;
    std::vector<uint8_t> prefix;
    bool               draining = false; // main waits for others
    int64_t            drain_limit = -1;
    pthread_key_t      exit_key;
    thread_local int   my_id = -1;
    thread_local int   quiet_depth = 0;

    uint64_t next_rng(uint64_t& s)
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t rn(uint32_t n) { return n ? static_cast<uint32_t>(next_rng(rng) % n) : 0; }

    void futex_wait(int* addr)
    {
        while (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == 0)
            syscall(SYS_futex, addr, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
        __atomic_store_n(addr, 0, __ATOMIC_RELEASE);
    }
    void futex_post(int* addr)
    {
        __atomic_store_n(addr, 1, __ATOMIC_RELEASE);
        syscall(SYS_futex, addr, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }

    // memory of a run comes from an arena and is not used twice: an access to something given back is seen
    constexpr size_t ARENA = size_t{256} << 20;
    char*            arena = nullptr;
    uint8_t*         shade = nullptr; // per 16 bytes: 0 not given out, 1 in use, 2 given back
    size_t           atop  = 0;
    [[noreturn]] void end(int verdict, const char* why);
    void              touch(const volatile void* p, size_t n, bool write, bool atomic, const void* caller);
    [[noreturn]] void bad_access(uint8_t how) { end(V_FAIL, how == 2 ? "use of memory which was given back" : "access outside of an allocated block"); }
    inline void       access(const volatile void* p)
    {
        const size_t o = static_cast<size_t>(reinterpret_cast<const volatile char*>(p) - arena);
        if (o < ARENA && arena && shade[o >> 4] != 1)
            bad_access(shade[o >> 4]);
    }
    void* arena_new(size_t n, size_t align)
    {
        if (active)
        {
            size_t b = __atomic_load_n(&atop, __ATOMIC_RELAXED), e;
            size_t s;
            do
            {
                s = (b + 32 + align - 1) / align * align; // a gap and the size in front of each block
                e = s + (n + 15) / 16 * 16;
                if (e + 64 > ARENA)
                    return nullptr;
            } while (!__atomic_compare_exchange_n(&atop, &b, e, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));
            memset(shade + (s >> 4), 1, (e - s) >> 4);
            *reinterpret_cast<size_t*>(arena + s - 16) = e - s;
            return arena + s;
        }
        return nullptr;
    }
    bool arena_delete(void* p, const void* caller)
    {
        const size_t o = static_cast<size_t>(static_cast<char*>(p) - arena);
        if (!arena || o >= ARENA)
            return false;
        const size_t n = *reinterpret_cast<size_t*>(arena + o - 16);
        if (n && shade[o >> 4] != 1)
            end(V_FAIL, "memory given back twice");
        touch(p, n, true, false, caller);
        memset(shade + (o >> 4), 2, n >> 4);
        return true;
    }

    [[noreturn]] void end(int verdict, const char* why)
    {
        sh->verdict = verdict;
        if (why)
            snprintf(sh->why, sizeof sh->why, "%s", why);
        sh->npoints = steps;
        _exit(0);
    }

    // ---- happens-before order: conflicting plain accesses to memory of the arena which nothing orders are a data race
    using VC = uint32_t[MAXT];
    struct Epoch
    {
        uint32_t clk;
        uint32_t pc;
        uint8_t  tid, mask, atomic, pad;
    };
    struct Cell
    {
        Epoch w, r[2];
        uint32_t pad;
    };
    Cell* cells = nullptr; // per 8 bytes of the arena
    VC    clk[MAXT], pend[MAXT], relf[MAXT];
    struct Sync
    {
        const void* key;
        VC          vc;
    };
    constexpr size_t NSYNC = 1 << 16;
    Sync*            syncs = nullptr;
    size_t           nsyncs = 0;
    extern "C" char  __executable_start;

    inline void join(VC& a, const VC& b)
    {
        for (int i = 0; i < nth; ++i)
            a[i] = std::max(a[i], b[i]);
    }
    Sync* sync_of(const volatile void* p, bool make)
    {
        if (!syncs)
            return nullptr;
        size_t h = (reinterpret_cast<size_t>(p) >> 2) * 0x9E3779B97F4A7C15ull >> 48;
        while (syncs[h].key && syncs[h].key != p)
            h = (h + 1) % NSYNC;
        if (!syncs[h].key)
        {
            if (!make)
                return nullptr;
            if (++nsyncs > NSYNC / 2)
            {
                syncs = nullptr;
                cells = nullptr;
                return nullptr;
            }
            syncs[h].key = const_cast<const void*>(p);
        }
        return &syncs[h];
    }
    inline bool on() { return cells && active && my_id >= 0; }
    void        hb_acquire(const volatile void* p)
    {
        if (on())
            if (Sync* s = sync_of(p, false))
                join(clk[my_id], s->vc);
    }
    void hb_release(const volatile void* p)
    {
        if (on())
            if (Sync* s = sync_of(p, true))
            {
                join(s->vc, clk[my_id]);
                ++clk[my_id][my_id];
            }
    }
    inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
    inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
    void        hb_load(const volatile void* p, int mo)
    {
        if (!on())
            return;
        if (Sync* s = sync_of(p, false))
            join(is_acq(mo) ? clk[my_id] : pend[my_id], s->vc);
    }
    void hb_store(const volatile void* p, int mo, bool rmw)
    {
        if (!on())
            return;
        Sync* s = sync_of(p, true);
        if (!s)
            return;
        if (!rmw)
            memset(s->vc, 0, sizeof s->vc);
        join(s->vc, is_rel(mo) ? clk[my_id] : relf[my_id]);
        if (is_rel(mo))
            ++clk[my_id][my_id];
    }
    void hb_fence(int mo)
    {
        if (!on())
            return;
        if (is_acq(mo))
            join(clk[my_id], pend[my_id]);
        if (is_rel(mo))
        {
            memcpy(relf[my_id], clk[my_id], sizeof(VC));
            ++clk[my_id][my_id];
        }
    }
    void hb_spawn(int child)
    {
        if (!on())
            return;
        memcpy(clk[child], clk[my_id], sizeof(VC));
        memset(pend[child], 0, sizeof(VC));
        memset(relf[child], 0, sizeof(VC));
        clk[child][child] = 1;
        ++clk[my_id][my_id];
    }
    void hb_all(int to) // everything which has happened is before what follows in this thread
    {
        if (cells)
            for (int i = 0; i < nth; ++i)
                join(clk[to], clk[i]);
    }
    uint32_t rel_pc(const void* pc) { return static_cast<uint32_t>(static_cast<const char*>(pc) - &__executable_start); }
    [[noreturn]] void race(const Epoch& e, bool ew, uint32_t pc, bool write)
    {
        char b[200];
        snprintf(b, sizeof b, "data race: %s in t%d (at %x) and %s in t%d (at %x)", ew ? "write" : "read", e.tid, e.pc, write ? "write" : "read", my_id, pc);
        end(V_FAIL, b);
    }
    inline bool unordered(const Epoch& e, uint8_t mask, bool atomic) { return e.mask & mask && e.tid != my_id && e.clk > clk[my_id][e.tid] && !(atomic && e.atomic); }
    void        touch(const volatile void* p, size_t n, bool write, bool atomic, const void* caller)
    {
        if (!on() || quiet_depth)
            return;
        size_t o = static_cast<size_t>(reinterpret_cast<const volatile char*>(p) - arena);
        if (o >= ARENA)
            return;
        const uint32_t pc = rel_pc(caller);
        for (size_t e = o + n; o < e;)
        {
            Cell&         c    = cells[o >> 3];
            const size_t  k    = std::min<size_t>(e - o, 8 - (o & 7));
            const uint8_t mask = static_cast<uint8_t>(((1u << k) - 1) << (o & 7));
            o += k;
            if (unordered(c.w, mask, atomic))
                race(c.w, true, pc, write);
            const Epoch me{clk[my_id][my_id], pc, static_cast<uint8_t>(my_id), mask, atomic, 0};
            if (write)
            {
                for (auto& r : c.r)
                    if (unordered(r, mask, atomic))
                        race(r, false, pc, write);
                if (!(c.w.mask & ~mask)) // a wider one of before stays
                    c.w = me;
                else if (c.w.tid == my_id || c.w.clk <= clk[my_id][c.w.tid])
                {
                    c.w = me; // the other part is forgotten
                }
            }
            else
            {
                Epoch* to = nullptr;
                for (auto& r : c.r)
                    if (!r.mask || (r.tid == my_id && (r.mask == mask || !(r.mask & ~mask))))
                        to = &r;
                if (!to)
                    for (auto& r : c.r)
                        if (r.clk <= clk[my_id][r.tid])
                            to = &r;
                if (!to)
                    to = &c.r[pc & 1];
                *to = me;
            }
        }
    }

    [[noreturn]] void deadlock()
    {
        std::string s = "deadlock:";
        for (int i = 0; i < nth; ++i)
            if (ths[i].st == BLK)
                s += " t" + std::to_string(i) + (ths[i].is_cond ? "(cond)" : "(lock/join)");
        end(V_DEADLOCK, s.c_str());
    }

    // choose among n alternatives; cont = index continuing current thread (no preemption) or -1
    int choose(int n, int cont)
    {
        if (n <= 1)
            return 0;
        int c = 0;
        int k = sh->nchoices;
        if (mode == 2)
        {
            if (k < static_cast<int>(prefix.size()))
                c = std::min<int>(prefix[k], n - 1);
            else
                c = cont >= 0 ? cont : 0;
        }
        else
        {
            c = -1;
        }
        if (c >= 0 && k < MAXCH)
        {
            sh->chosen[k]  = static_cast<uint8_t>(c);
            sh->enabled[k] = static_cast<uint8_t>(n);
            sh->cont[k]    = static_cast<uint8_t>(cont < 0 ? 255 : cont);
            sh->nchoices   = k + 1;
        }
        return c;
    }
    void record_choice(int n, int cont, int c)
    {
        if (n <= 1)
            return;
        int k = sh->nchoices;
        if (k < MAXCH)
        {
            sh->chosen[k]  = static_cast<uint8_t>(c);
            sh->enabled[k] = static_cast<uint8_t>(n);
            sh->cont[k]    = static_cast<uint8_t>(cont < 0 ? 255 : cont);
            sh->nchoices   = k + 1;
        }
    }

    bool runnable(const Th& t) { return t.st == RUN && !(draining && t.id == 0); }

    void wake_deadlines()
    {
        for (int i = 0; i < nth; ++i)
            if (ths[i].st == BLK && ths[i].deadline >= 0 && ths[i].deadline <= vnow)
            {
                ths[i].st       = RUN;
                ths[i].timedout = true;
                ths[i].deadline = -1;
            }
    }
    int64_t earliest()
    {
        int64_t best = -1;
        for (int i = 0; i < nth; ++i)
            if (ths[i].st == BLK && ths[i].deadline >= 0 && (best < 0 || ths[i].deadline < best))
                best = ths[i].deadline;
        return best;
    }

    // pick the next thread to run. self_ok: the current thread may continue
    int pick(int self, bool spinning)
    {
        if (++steps > maxsteps)
            end(V_STEPS, "step bound exceeded (livelock)");
        int cand[MAXT + 1];
        for (;;)
        {
            int n = 0, cont = -1;
            // deterministic order: self first, then the others by id
            if (self >= 0 && runnable(ths[self]))
            {
                cont = 0;
                cand[n++] = self;
            }
            for (int i = 0; i < nth; ++i)
                if (i != self && runnable(ths[i]))
                    cand[n++] = i;
            int64_t e = earliest();
            if (n == 0)
            {
                if (e < 0 || (draining && drain_limit >= 0 && e > drain_limit))
                {
                    if (draining)
                    {
                        draining = false; // everybody else finished or is blocked (until the limit)
                        if (drain_limit >= 0)
                            vnow = std::max(vnow, drain_limit);
                        wake_deadlines();
                        return 0;
                    }
                    deadlock();
                }
                vnow = std::max(vnow, e);
                wake_deadlines();
                continue;
            }
            // spurious wake-ups and passing time as extra alternatives (random modes only)
            if (mode != 2)
            {
                if (chaos && e >= 0 && !(draining && drain_limit >= 0 && e > drain_limit) && rn(64) == 0)
                {
                    vnow = std::max(vnow, e);
                    wake_deadlines();
                    continue;
                }
                if (pspur && nspur < 40 && rn(1024) < pspur)
                {
                    int w[MAXT], m = 0;
                    for (int i = 0; i < nth; ++i)
                        if (ths[i].st == BLK && ths[i].is_cond)
                            w[m++] = i;
                    if (m)
                    {
                        ++nspur;
                        Th& t      = ths[w[rn(m)]];
                        t.st       = RUN;
                        t.deadline = -1;
                        continue;
                    }
                }
            }
            int extra = 0;
            if (mode == 2 && chaos && e >= 0 && !(draining && drain_limit >= 0 && e > drain_limit))
                extra = 1; // last alternative: time passes
            if (spinning && n > 1 && cont == 0)
            { // never continue a spinning thread
                for (int i = 1; i < n; ++i)
                    cand[i - 1] = cand[i];
                --n;
                cont = -1;
            }
            int c = choose(n + extra, cont);
            if (c < 0)
            {
                if (mode == 0)
                {
                    if (cont == 0 && rn(1024) >= pswitch)
                        c = 0;
                    else
                        c = static_cast<int>(rn(n));
                }
                else
                {
                    if (spinning && self >= 0)
                        ths[self].prio = --pct_low;
                    if (std::find(pct_points.begin(), pct_points.end(), steps) != pct_points.end() && self >= 0)
                        ths[self].prio = --pct_low;
                    c = 0;
                    for (int i = 1; i < n; ++i)
                        if (ths[cand[i]].prio > ths[cand[c]].prio)
                            c = i;
                }
                record_choice(n + extra, cont, c);
            }
            if (c == n)
            {
                vnow = std::max(vnow, e);
                wake_deadlines();
                continue;
            }
            return cand[c];
        }
    }
    void hand(int self, int next)
    {
        if (next == self)
            return;
        cur = next;
        futex_post(&ths[next].futex);
        futex_wait(&ths[self].futex);
    }
    // a scheduling point of the running thread
    void spoint(bool spinning = false)
    {
        if (!active || quiet_depth || my_id < 0)
            return;
        Th& t = ths[my_id];
        if (++t.spin > 3000)
        {
            spinning = true;
            if (t.spin > 3000)
                t.spin = 2000;
        }
        int nx = pick(my_id, spinning);
        if (nx != my_id)
            t.spin = 0;
        hand(my_id, nx);
    }
    // block the running thread until somebody makes it RUN
    void block(void* obj, bool is_cond, int64_t deadline)
    {
        Th& t       = ths[my_id];
        t.st        = BLK;
        t.obj       = obj;
        t.is_cond   = is_cond;
        t.deadline  = deadline;
        t.timedout  = false;
        t.signalled = false;
        t.spin      = 0;
        int nx      = pick(my_id, false);
        hand(my_id, nx);
        t.obj     = nullptr;
        t.is_cond = false;
        t.deadline = -1;
    }
    void wake_all(void* obj)
    {
        for (int i = 0; i < nth; ++i)
            if (ths[i].st == BLK && ths[i].obj == obj)
            {
                ths[i].st        = RUN;
                ths[i].signalled = true;
                ths[i].deadline  = -1;
            }
    }

    template<typename F>
    F real(const char* name)
    {
        return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    }

    void thread_exit(void*)
    {
        // last: other key/TLS destructors have run
        Th& t = ths[my_id];
        t.st  = DONE;
        wake_all(&t);
        int self = my_id;
        my_id    = -1;
        int nx   = pick(-1, false);
        (void)self;
        cur = nx;
        futex_post(&ths[nx].futex);
    }
    void* tramp(void* p)
    {
        Th* t = static_cast<Th*>(p);
        my_id = t->id;
        futex_wait(&t->futex);
        pthread_setspecific(exit_key, t);
        return t->fn(t->arg);
    }
    int64_t abs_ns(const timespec* ts) { return static_cast<int64_t>(ts->tv_sec) * 1'000'000'000LL + ts->tv_nsec; }
} // namespace

// ------------------------------------------------------------------ interposed functions
extern "C" {
// A virtual mutex lives in the pthread_mutex_t itself: __lock = owner id + 1, __count = depth
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    access(m);
    if (!active || my_id < 0)
        return 0;
    spoint();
    const int me = my_id + 1;
    while (m->__data.__lock != 0)
    {
        if (m->__data.__lock == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
        {
            ++m->__data.__count;
            return 0;
        }
        block(m, false, -1);
    }
    m->__data.__lock  = me;
    m->__data.__count = 1;
    hb_acquire(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    access(m);
    if (!active || my_id < 0)
        return 0;
    spoint();
    const int me = my_id + 1;
    if (m->__data.__lock != 0)
    {
        if (m->__data.__lock == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
        {
            ++m->__data.__count;
            return 0;
        }
        return EBUSY;
    }
    m->__data.__lock  = me;
    m->__data.__count = 1;
    hb_acquire(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    access(m);
    if (!active || my_id < 0)
        return 0;
    if (m->__data.__lock == 0)
        return 0;
    if (--m->__data.__count == 0)
    {
        m->__data.__lock = 0;
        hb_release(m);
        wake_all(m);
        spoint();
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }

static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
{
    if (!active || my_id < 0)
        return 0;
    spoint();
    auto depth        = m->__data.__count;
    m->__data.__count = 0;
    m->__data.__lock  = 0;
    hb_release(m);
    wake_all(m);
    bool timedout = false;
    if (deadline >= 0 && deadline <= vnow)
    {
        timedout = true;
        spoint();
    }
    else
    {
        block(c, true, deadline);
        timedout = ths[my_id].timedout;
    }
    const int me = my_id + 1;
    while (m->__data.__lock != 0)
        block(m, false, -1);
    m->__data.__lock  = me;
    m->__data.__count = depth;
    hb_acquire(m);
    return timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait_impl(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { return cond_wait_impl(c, m, abs_ns(ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) { return cond_wait_impl(c, m, abs_ns(ts)); }
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    access(c);
    if (!active || my_id < 0)
        return 0;
    spoint();
    int w[MAXT], n = 0;
    for (int i = 0; i < nth; ++i)
        if (ths[i].st == BLK && ths[i].obj == c && ths[i].is_cond)
            w[n++] = i;
    if (n)
    {
        Th& t       = ths[w[mode == 2 ? 0 : rn(n)]];
        t.st        = RUN;
        t.signalled = true;
        t.deadline  = -1;
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    access(c);
    if (!active || my_id < 0)
        return 0;
    spoint();
    wake_all(c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) noexcept
{
    static auto rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!active || my_id < 0)
        return rc(out, attr, fn, arg);
    if (nth >= MAXT)
        end(V_FAIL, "too many threads");
    Th& t  = ths[nth];
    t      = Th{};
    t.id   = nth;
    t.fn   = fn;
    t.arg  = arg;
    t.prio = mode == 1 ? static_cast<int64_t>(rn(1000)) + 1 : 0;
    ++nth;
    hb_spawn(t.id);
    int r  = rc(&t.real, attr, tramp, &t);
    if (r)
        return r;
    *out = t.real;
    spoint();
    return 0;
}
int pthread_join(pthread_t p, void** ret)
{
    static auto rj = real<int (*)(pthread_t, void**)>("pthread_join");
    if (active && my_id >= 0)
    {
        for (int i = nth - 1; i > 0; --i)
            if (!ths[i].joined && pthread_equal(ths[i].real, p))
            {
                spoint();
                while (ths[i].st != DONE)
                    block(&ths[i], false, -1);
                ths[i].joined = true;
                if (cells)
                    join(clk[my_id], clk[i]);
                break;
            }
    }
    return rj(p, ret);
}
int sched_yield() noexcept
{
    spoint(true);
    return 0;
}
static int sleep_until_ns(int64_t dl)
{
    if (dl <= vnow)
    {
        spoint();
        return 0;
    }
    block(nullptr, false, dl);
    return 0;
}
int nanosleep(const timespec* ts, timespec* rem)
{
    if (!active || my_id < 0)
    {
        static auto r = real<int (*)(const timespec*, timespec*)>("nanosleep");
        return r(ts, rem);
    }
    spoint();
    return sleep_until_ns(vnow + abs_ns(ts));
}
int clock_nanosleep(clockid_t id, int flags, const timespec* ts, timespec* rem)
{
    if (!active || my_id < 0)
    {
        static auto r = real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep");
        return r(id, flags, ts, rem);
    }
    spoint();
    return sleep_until_ns(flags & TIMER_ABSTIME ? abs_ns(ts) : vnow + abs_ns(ts));
}
int usleep(useconds_t us)
{
    if (!active || my_id < 0)
        return 0;
    spoint();
    return sleep_until_ns(vnow + static_cast<int64_t>(us) * 1000);
}
int clock_gettime(clockid_t id, timespec* ts) noexcept
{
    if (!active || my_id < 0)
        return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    if (!quiet_depth)
    {
        // a thread doing nothing but reading the clock: let time pass
        if (++clockreads > 200)
        {
            clockreads = 150;
            int64_t e  = earliest();
            vnow       = (vnow / MS + 1) * MS;
            if (e >= 0 && e < vnow)
                vnow = e;
            wake_deadlines();
            spoint(true);
        }
        else
            spoint();
    }
    ts->tv_sec  = vnow / 1'000'000'000LL;
    ts->tv_nsec = vnow % 1'000'000'000LL;
    return 0;
}

// static local initialisation guards
int __cxa_guard_acquire(int64_t* g) noexcept
{
    auto* b = reinterpret_cast<unsigned char*>(g);
    for (;;)
    {
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE))
        {
            hb_acquire(g);
            return 0;
        }
        if (!b[1])
        {
            b[1] = 1;
            return 1;
        }
        if (!active || my_id < 0)
            return 1;
        block(g, false, -1);
    }
}
void __cxa_guard_release(int64_t* g) noexcept
{
    auto* b = reinterpret_cast<unsigned char*>(g);
    b[1]    = 0;
    hb_release(g);
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    if (active && my_id >= 0)
        wake_all(g);
}
void __cxa_guard_abort(int64_t* g) noexcept
{
    auto* b = reinterpret_cast<unsigned char*>(g);
    b[1]    = 0;
    if (active && my_id >= 0)
        wake_all(g);
}

}
static void* make(size_t n, size_t align)
{
    if (void* p = arena_new(n, align < 16 ? 16 : align))
        return p;
    void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p)
        abort();
    return p;
}
static void unmake(void* p, const void* caller = __builtin_return_address(0))
{
    if (p && !arena_delete(p, caller))
        free(p);
}
void* operator new(size_t n) { return make(n, 16); }
void* operator new[](size_t n) { return make(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return make(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return make(n, static_cast<size_t>(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return make(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return make(n, 16); }
void  operator delete(void* p) noexcept { unmake(p, __builtin_return_address(0)); }
void  operator delete[](void* p) noexcept { unmake(p, __builtin_return_address(0)); }
void  operator delete(void* p, size_t) noexcept { unmake(p, __builtin_return_address(0)); }
void  operator delete[](void* p, size_t) noexcept { unmake(p, __builtin_return_address(0)); }
void  operator delete(void* p, std::align_val_t) noexcept { unmake(p, __builtin_return_address(0)); }
void  operator delete[](void* p, std::align_val_t) noexcept { unmake(p, __builtin_return_address(0)); }
void  operator delete(void* p, size_t, std::align_val_t) noexcept { unmake(p, __builtin_return_address(0)); }
void  operator delete[](void* p, size_t, std::align_val_t) noexcept { unmake(p, __builtin_return_address(0)); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { unmake(p, __builtin_return_address(0)); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { unmake(p, __builtin_return_address(0)); }
extern "C" {
// ------------------------------------------------------------------ __tsan_* interface
static inline __attribute__((always_inline)) void mem_point(const void* p, size_t n, bool write)
{
    access(p);
    touch(p, n, write, false, __builtin_return_address(0));
    if (fine && active && my_id >= 0 && !quiet_depth && (next_rng(rng) & 0xffff) < fine)
        spoint();
}
static inline void atomic_point(const volatile void* p, int bytes)
{
    access(p);
    if (!active || my_id < 0 || quiet_depth)
        return;
    if (bytes == 4)
    { // mostly reference counters of shared_ptr
        if (mode == 2 || rn(1024) >= p32)
        {
            if (++ths[my_id].spin > 20000)
                spoint(true);
            return;
        }
    }
    clockreads = 0;
    spoint();
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define MEM(n)                                                     \
    void __tsan_read##n(void* p) { mem_point(p, n, false); }             \
    void __tsan_write##n(void* p) { mem_point(p, n, true); }             \
    void __tsan_read_write##n(void* p) { mem_point(p, n, true); }        \
    void __tsan_unaligned_read##n(void* p) { mem_point(p, n, false); }   \
    void __tsan_unaligned_write##n(void* p) { mem_point(p, n, true); }   \
    void __tsan_unaligned_read_write##n(void* p) { mem_point(p, n, true); }
MEM(1)
MEM(2)
MEM(4)
MEM(8)
MEM(16)
void __tsan_read_range(void* p, size_t n)
{
    if (n)
    {
        access(static_cast<char*>(p) + n - 1);
        mem_point(p, n, false);
    }
}
void __tsan_write_range(void* p, size_t n)
{
    if (n)
    {
        access(static_cast<char*>(p) + n - 1);
        mem_point(p, n, true);
    }
}
void __tsan_vptr_read(void** p) { mem_point(p, 8, false); }
void __tsan_vptr_update(void** p, void* v) { mem_point(p, 8, *p != v); }
static inline __attribute__((always_inline)) void range(const void* p, size_t n, bool write)
{
    if (n)
    {
        touch(p, n, write, false, __builtin_return_address(0));
        access(p);
        access(static_cast<const char*>(p) + n - 1);
    }
}
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    range(d, n, true);
    range(s, n, false);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    range(d, n, true);
    range(s, n, false);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    range(d, n, true);
    return memset(d, c, n);
}

#define ATOMICS(bits, T, B)                                                                                                                                           \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo)                                                                                                         \
    {                                                                                                                                                                 \
        atomic_point(a, B);                                                                                                                                           \
        touch(a, B, false, true, __builtin_return_address(0));                                                                                                        \
        hb_load(a, mo);                                                                                                                                               \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                                                                  \
    }                                                                                                                                                                 \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo)                                                                                                      \
    {                                                                                                                                                                 \
        atomic_point(a, B);                                                                                                                                           \
        touch(a, B, true, true, __builtin_return_address(0));                                                                                                         \
        hb_store(a, mo, false);                                                                                                                                       \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                                                                     \
    }                                                                                                                                                                 \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo)                                                                                                      \
    {                                                                                                                                                                 \
        atomic_point(a, B);                                                                                                                                           \
        touch(a, B, true, true, __builtin_return_address(0));                                                                                                         \
        hb_load(a, mo);                                                                                                                                               \
        const T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                                                      \
        hb_store(a, mo, true);                                                                                                                                        \
        return r;                                                                                                                                                     \
    }                                                                                                                                                                 \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo)                                                                                                     \
    {                                                                                                                                                                 \
        atomic_point(a, B);                                                                                                                                           \
        touch(a, B, true, true, __builtin_return_address(0));                                                                                                         \
        hb_load(a, mo);                                                                                                                                               \
        const T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                                                                       \
        hb_store(a, mo, true);                                                                                                                                        \
        return r;                                                                                                                                                     \
    }                                                                                                                                                                 \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo)                                                                                                     \
    {                                                                                                                                                                 \
        atomic_point(a, B);                                                                                                                                           \
        touch(a, B, true, true, __builtin_return_address(0));                                                                                                         \
        hb_load(a, mo);                                                                                                                                               \
        const T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                                                                       \
        hb_store(a, mo, true);                                                                                                                                        \
        return r;                                                                                                                                                     \
    }                                                                                                                                                                 \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo)                                                                                                     \
    {                                                                                                                                                                 \
        atomic_point(a, B);                                                                                                                                           \
        touch(a, B, true, true, __builtin_return_address(0));                                                                                                         \
        hb_load(a, mo);                                                                                                                                               \
        const T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                                                                       \
        hb_store(a, mo, true);                                                                                                                                        \
        return r;                                                                                                                                                     \
    }                                                                                                                                                                 \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo)                                                                                                      \
    {                                                                                                                                                                 \
        atomic_point(a, B);                                                                                                                                           \
        touch(a, B, true, true, __builtin_return_address(0));                                                                                                         \
        hb_load(a, mo);                                                                                                                                               \
        const T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                                                                        \
        hb_store(a, mo, true);                                                                                                                                        \
        return r;                                                                                                                                                     \
    }                                                                                                                                                                 \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo)                                                                                                     \
    {                                                                                                                                                                 \
        atomic_point(a, B);                                                                                                                                           \
        touch(a, B, true, true, __builtin_return_address(0));                                                                                                         \
        hb_load(a, mo);                                                                                                                                               \
        const T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                                                                       \
        hb_store(a, mo, true);                                                                                                                                        \
        return r;                                                                                                                                                     \
    }                                                                                                                                                                 \
    static inline int cas##bits(volatile T* a, T* e, T v, int mo, int fmo, const void* caller)                                                                        \
    {                                                                                                                                                                 \
        atomic_point(a, B);                                                                                                                                           \
        const bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                              \
        touch(a, B, ok, true, caller);                                                                                                                                \
        hb_load(a, ok ? mo : fmo);                                                                                                                                    \
        if (ok)                                                                                                                                                       \
            hb_store(a, mo, true);                                                                                                                                    \
        return ok;                                                                                                                                                    \
    }                                                                                                                                                                 \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return cas##bits(a, e, v, mo, fmo, __builtin_return_address(0)); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return cas##bits(a, e, v, mo, fmo, __builtin_return_address(0)); }   \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo)                                                                            \
    {                                                                                                                                                                 \
        cas##bits(a, &e, v, mo, fmo, __builtin_return_address(0));                                                                                                    \
        return e;                                                                                                                                                     \
    }
ATOMICS(8, uint8_t, 1)
ATOMICS(16, uint16_t, 2)
ATOMICS(32, uint32_t, 4)
ATOMICS(64, uint64_t, 8)
void __tsan_atomic_thread_fence(int mo)
{
    hb_fence(mo);
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
void __tsan_atomic_signal_fence(int) {}
// annotations in libraries
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int  __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
} // extern "C"

// ------------------------------------------------------------------ scenario API
namespace vs
{
    static std::map<std::string, scenario_fn>& scenarios()
    {
        static std::map<std::string, scenario_fn> s;
        return s;
    }
    registrar::registrar(const char* name, scenario_fn fn) { scenarios()[name] = fn; }

    quiet::quiet() { ++quiet_depth; }
    quiet::~quiet() { --quiet_depth; }

    void ev(const char* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        char   buf[512];
        int    n = vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (n < 0 || sh->len + static_cast<size_t>(n) + 4 >= TRACE_CAP)
            end(V_STEPS, "trace overflow (livelock)");
        if (sh->len)
            sh->trace[sh->len++] = ',';
        memcpy(sh->trace + sh->len, buf, static_cast<size_t>(n));
        sh->len += static_cast<size_t>(n);
        sh->trace[sh->len] = 0;
        clockreads         = 0;
    }
    void    point() { spoint(); }
    int     tid() { return my_id; }
    int64_t now_ms() { return (vnow - T0) / MS; }
    int64_t now_ns() { return vnow - T0; }
    void    sleep_ms(int64_t ms) { sleep_until_ns(vnow + ms * MS); }
    int     live_threads()
    {
        int n = 0;
        for (int i = 0; i < nth; ++i)
            n += i != my_id && ths[i].st != DONE;
        return n;
    }
    int drain()
    {
        draining    = true;
        drain_limit = -1;
        int nx      = pick(0, false);
        hand(0, nx);
        hb_all(0);
        return live_threads();
    }
    void drain_until(int64_t ms)
    {
        draining    = true;
        drain_limit = T0 + ms * MS;
        int nx      = pick(0, false);
        hand(0, nx);
        hb_all(0);
        drain_limit = -1;
    }
    uint64_t rnd() { return next_rng(rng_s); }
    void     set_time_chaos(bool on) { chaos = on; }
    void     finish() { end(V_OK, nullptr); }
    void     fail(const char* why) { end(V_FAIL, why); }
} // namespace vs

// ------------------------------------------------------------------ the explorer
namespace
{
    struct Cfg
    {
        std::string scenario, args, mode = "random", out, replay;
        long        runs = 1000, seed = 1;
        int         jobs = 1, job = 0, bound = 2;
        uint32_t    fine = 0;
        double      secs = 1e9;
        bool        spurious = true;
        bool        races    = true;
        int         maxdistinct = 1 << 30;
        bool        one = false;
        uint64_t    one_seed = 0;
        int         approx = 60;
    };

    // runs one execution in a child; result in *sh
    int run_one(const Cfg& c, uint64_t seed, const std::vector<uint8_t>& pre, int approx_len)
    {
        sh->verdict = V_NONE;
        sh->nchoices = sh->npoints = sh->preempts = 0;
        sh->len      = 0;
        sh->trace[0] = 0;
        sh->why[0]   = 0;
        pid_t pid    = fork();
        if (pid == 0)
        {
            signal(SIGALRM, SIG_DFL);
            alarm(60);
            int devnull = open("/dev/null", O_WRONLY);
            dup2(devnull, 2);
            rng   = seed * 0x2545F4914F6CDD1Dull + 77;
            rng_s = seed * 0x9E3779B97F4A7C15ull + 5;
            next_rng(rng);
            prefix = pre;
            if (c.mode == "dfs" || c.mode == "replay")
            {
                mode  = 2;
                rng_s = 5;
            }
            else
            {
                mode = c.mode == "pct" ? 1 : c.mode == "mix" ? (seed % 3 == 0 ? 0 : 1)
                                                             : 0;
                static const uint32_t ps[] = {40, 150, 500, 1024};
                pswitch                    = ps[rn(4)];
                p32                        = rn(4) == 0 ? 100 : 0;
                pspur                      = c.spurious && rn(4) == 0 ? 30 : 0;
                if (c.fine && (seed & 1))
                {
                    static const uint32_t fs[] = {300, 2000, 10000};
                    fine                       = fs[rn(3)];
                    pswitch                    = ps[rn(3) + 1];
                }
                if (mode == 1)
                {
                    int d   = 1 + static_cast<int>(rn(4));
                    int len = std::max(10, fine ? approx_len * 3 : approx_len);
                    for (int i = 0; i < d; ++i)
                        pct_points.push_back(1 + static_cast<int>(rn(static_cast<uint32_t>(len))));
                }
            }
            bound = c.bound;
            pthread_key_create(&exit_key, thread_exit);
            nth        = 1;
            ths[0].id  = 0;
            ths[0].prio = mode == 1 ? static_cast<int64_t>(rn(1000)) + 1 : 0;
            my_id      = 0;
            vnow       = T0;
            arena      = static_cast<char*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            shade      = static_cast<uint8_t*>(mmap(nullptr, ARENA >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (c.races)
            {
                cells = static_cast<Cell*>(mmap(nullptr, ARENA / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
                syncs = static_cast<Sync*>(mmap(nullptr, NSYNC * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            }
            clk[0][0] = 1;
            active     = true;
            vs::scenarios()[c.scenario](c.args);
            end(V_OK, nullptr);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        if (sh->verdict == V_NONE)
        {
            if (WIFSIGNALED(status))
            {
                if (WTERMSIG(status) == SIGALRM)
                    snprintf(sh->why, sizeof sh->why, "hang (no scheduling point for 60s)");
                else
                    snprintf(sh->why, sizeof sh->why, "crash: signal %d", WTERMSIG(status));
            }
            else
                snprintf(sh->why, sizeof sh->why, "exited with %d", WEXITSTATUS(status));
        }
        return sh->verdict;
    }

    struct Out
    {
        FILE*                           f;
        std::set<std::string>           seen;
        long                            runs = 0, distinct = 0, bad = 0;
        void                            add(const Cfg& c, uint64_t seed, int approx = 0)
        {
            ++runs;
            std::string key = std::string(sh->trace) + "|" + std::to_string(sh->verdict) + sh->why;
            if (!seen.insert(key).second)
                return;
            ++distinct;
            if (sh->verdict != V_OK)
                ++bad;
            // one line: {"ev":[...],"end":"ok|...","seed":n,"sched":"..."}
            std::string e = sh->verdict == V_OK ? "ok" : std::string(sh->why);
            for (auto& ch : e)
                if (ch == '"' || ch == '\\')
                    ch = '\'';
            fprintf(f, "{\"ev\":[%s],\"end\":\"%s\",\"args\":\"%s\",\"mode\":\"%s\",\"seed\":\"%llu\",\"approx\":%d,\"sched\":\"", sh->trace, e.c_str(), c.args.c_str(), c.mode.c_str(), static_cast<unsigned long long>(seed), approx);
            if (c.mode == "dfs" || c.mode == "replay")
            {
                int last = -1;
                for (int i = 0; i < sh->nchoices; ++i)
                    if (sh->chosen[i] != (sh->cont[i] == 255 ? 0 : sh->cont[i]))
                        last = i;
                for (int i = 0; i <= last; ++i)
                    fputc('0' + sh->chosen[i], f);
            }
            fprintf(f, "\"}\n");
        }
    };

    double mono()
    {
        timespec ts;
        syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
        return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
    }

    void explore(const Cfg& c)
    {
        sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        Out o{fopen(c.out.c_str(), "w"), {}};
        if (!o.f)
            exit(3);
        const double t0 = mono();
        bool complete = false;
        if (c.mode == "replay")
        {
            std::vector<uint8_t> pre;
            for (char ch : c.replay)
                pre.push_back(static_cast<uint8_t>(ch - '0'));
            run_one(c, 0, pre, 100);
            o.add(c, 0);
        }
        else if (c.mode == "dfs")
        {
            struct Node
            {
                std::vector<uint8_t> pre;
                int                  cost;
                size_t               from;
            };
            std::vector<std::vector<Node>> stacks(static_cast<size_t>(c.bound) + 1);
            stacks[0].push_back({{}, 0, 0});
            long rootk = 0;
            auto lowest = [&]() -> std::vector<Node>* {
                for (auto& s : stacks)
                    if (!s.empty())
                        return &s;
                return nullptr;
            };
            while (lowest() && o.runs < c.runs && mono() - t0 < c.secs && o.distinct < c.maxdistinct)
            {
                auto& stack = *lowest();
                Node  n     = std::move(stack.back());
                stack.pop_back();
                run_one(c, 0, n.pre, 100);
                const bool root = n.pre.empty();
                if (!(root && c.job != 0))
                    o.add(c, 0);
                // children: deviate at each later choice point
                std::vector<uint8_t> ch(sh->chosen, sh->chosen + sh->nchoices);
                int k = sh->nchoices;
                for (int i = static_cast<int>(n.pre.size()); i < k && i < MAXCH; ++i)
                {
                    const int def  = sh->cont[i] == 255 ? 0 : sh->cont[i];
                    const int cost = sh->cont[i] == 255 ? n.cost : n.cost + 1;
                    if (cost > c.bound)
                        continue;
                    for (int a = 0; a < sh->enabled[i]; ++a)
                    {
                        if (a == def)
                            continue;
                        if (root && (rootk++ % c.jobs) != c.job)
                            continue;
                        Node m;
                        m.pre.assign(ch.begin(), ch.begin() + i);
                        m.pre.push_back(static_cast<uint8_t>(a));
                        m.cost = cost;
                        stacks[static_cast<size_t>(cost)].push_back(std::move(m));
                    }
                }
            }
            complete = !lowest();
        }
        else
        {
            int approx = 60;
            for (long i = c.job; i < c.runs && mono() - t0 < c.secs && o.distinct < c.maxdistinct; i += c.jobs)
            {
                uint64_t s = static_cast<uint64_t>(c.seed) * 1000003ull + static_cast<uint64_t>(i);
                if (c.one)
                {
                    s      = c.one_seed;
                    approx = c.approx;
                }
                const int used = approx;
                run_one(c, s, {}, approx);
                if (sh->verdict == V_OK && sh->npoints > 0)
                    approx = (approx * 7 + sh->npoints) / 8;
                o.add(c, s, used);
            }
        }
        fclose(o.f);
        printf("{\"scenario\":\"%s\",\"args\":\"%s\",\"mode\":\"%s\",\"runs\":%ld,\"distinct\":%ld,\"bad\":%ld,\"complete\":%s}\n", c.scenario.c_str(), c.args.c_str(), c.mode.c_str(), o.runs, o.distinct, o.bad, complete ? "true" : "false");
    }
} // namespace

int main(int argc, char** argv)
{
    Cfg c;
    if (argc < 2)
    {
        for (auto& [n, f] : vs::scenarios())
            printf("%s\n", n.c_str());
        return 0;
    }
    c.scenario = argv[1];
    c.args     = argc > 2 ? argv[2] : "";
    for (int i = 3; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--mode") c.mode = v;
        else if (k == "--runs") c.runs = atol(v.c_str());
        else if (k == "--seed") c.seed = atol(v.c_str());
        else if (k == "--out") c.out = v;
        else if (k == "--jobs") c.jobs = atoi(v.c_str());
        else if (k == "--job") c.job = atoi(v.c_str());
        else if (k == "--bound") c.bound = atoi(v.c_str());
        else if (k == "--fine") c.fine = static_cast<uint32_t>(atoi(v.c_str()));
        else if (k == "--sched") c.replay = v;
        else if (k == "--secs") c.secs = atof(v.c_str());
        else if (k == "--one") { c.one = true; c.one_seed = strtoull(v.c_str(), nullptr, 10); c.runs = 1; }
        else if (k == "--approx") c.approx = atoi(v.c_str());
        else if (k == "--spurious") c.spurious = atoi(v.c_str());
        else if (k == "--races") c.races = atoi(v.c_str());
        else if (k == "--maxdistinct") c.maxdistinct = atoi(v.c_str());
        else { fprintf(stderr, "bad option %s\n", k.c_str()); return 2; }
    }
    if (!vs::scenarios().count(c.scenario))
    {
        fprintf(stderr, "no scenario %s\n", c.scenario.c_str());
        return 2;
    }
    explore(c);
    return 0;
}
