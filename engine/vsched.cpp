// Controlled scheduler: implementation of the __tsan_* callbacks and of the blocking primitives.
// This file is compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#    define _GNU_SOURCE 1
#endif
#include "vsched.hpp"

#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>

namespace vs
{
    Report* report;
    void (*on_hang)(char*, size_t);

    namespace
    {
        enum St
        {
            ST_RUN,
            ST_MUTEX,
            ST_COND,
            ST_TCOND,
            ST_JOIN,
            ST_PRED,
            ST_QUIESCE,
            ST_GUARD,
            ST_RW_R,
            ST_RW_W,
            ST_DONE
        };

        struct Thr
        {
            int id;
            std::atomic<int> go;
            St st;
            void const* obj;
            bool (*pred)(void*);
            void* parg;
            bool timed_out;
            uint64_t stall_until;
            uint64_t ran; // steps since it last gave way
            unsigned noprog;
            void const* watch; // S_RACE: paused in front of an access to this address
            bool watch_write;
            unsigned watch_skip;
            Thr* handoff; // S_RACE: gives way to this thread at its next step
            int64_t prio;
            bool finished;
            pthread_t pt;
            void* (*fn)(void*);
            void* fnarg;
        };

        constexpr int MAXT = 300;
        Thr thr[MAXT];
        int nthr;
        Thr* volatile cur;
        bool g_active;
        int g_nopoint;
        Config cfg;
        uint64_t nsteps, nswitch;
        uint64_t rng_s;
        uint64_t next_change[64];
        unsigned n_change, i_change;
        int64_t low_prio;
        size_t dev_i;
        unsigned fentries;
        unsigned race_budget;

        __thread Thr* self __attribute__((tls_model("initial-exec")));
        pthread_key_t exit_key;

        struct Lk
        {
            void const* m;
            Thr* owner; // writer / mutex owner
            int readers;
        };
        constexpr int MAXL = 512;
        Lk lk[MAXL];
        int nlk;

        uint64_t rnd()
        {
            uint64_t z = (rng_s += 0x9e3779b97f4a7c15ull);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }

        uint64_t mix(uint64_t z)
        {
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }

        bool coin(unsigned log2)
        {
            return log2 < 31 && (rnd() & ((1ull << log2) - 1)) == 0;
        }

        template<typename F>
        F real(F& slot, char const* name)
        {
            if(!slot)
                slot = (F) dlsym(RTLD_NEXT, name);
            return slot;
        }

        void fwait(std::atomic<int>& a)
        {
            while(a.load(std::memory_order_acquire) == 0)
                syscall(SYS_futex, (int*) &a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
            a.store(0, std::memory_order_relaxed);
        }

        void fwake(std::atomic<int>& a)
        {
            a.store(1, std::memory_order_release);
            syscall(SYS_futex, (int*) &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
        }

        bool is_runnable(Thr& t)
        {
            if(t.st == ST_RUN)
                return true;
            if(t.st == ST_PRED)
            {
                ++g_nopoint; // its memory accesses are no scheduling points
                bool ok = t.pred(t.parg);
                --g_nopoint;
                if(ok)
                    t.st = ST_RUN;
                return ok;
            }
            return false;
        }

        char const* stname(St s)
        {
            static char const* n[]
                = {"running", "mutex", "condvar", "timed-condvar", "join", "predicate", "quiesce", "static-guard",
                   "rwlock-r", "rwlock-w", "finished"};
            return n[s];
        }

        [[noreturn]] void hang()
        {
            char buf[3000];
            size_t n = 0;
            n += snprintf(buf, sizeof buf, "all threads blocked:");
            for(int i = 0; i < nthr && n < 400; ++i)
                n += snprintf(buf + n, sizeof buf - n, " T%d=%s", i, stname(thr[i].st));
            if(on_hang)
            {
                n += snprintf(buf + n, sizeof buf - n, " | ");
                ++g_nopoint;
                on_hang(buf + n, sizeof buf - n - 1);
            }
            fail(O_HANG, "hang", "%s", buf);
        }

        void deviation(Thr* c)
        {
            if(report->n_dev < sizeof(report->dev) / sizeof(report->dev[0]))
            {
                report->dev[report->n_dev].step = nsteps;
                report->dev[report->n_dev].tid = c->id;
                report->n_dev++;
            }
        }

        // choose among runnable threads; `me` may or may not be runnable
        Thr* pick(Thr* me, bool me_runnable, bool forced, Thr* want = nullptr)
        {
            Thr* cand[MAXT];
            int n = 0;
            Thr* rr = nullptr; // default: next runnable after me
            for(int pass = 0; pass < 2 && n == 0; ++pass)
            {
                for(int k = 1; k < nthr; ++k)
                {
                    Thr& t = thr[(me->id + k) % nthr];
                    if(is_runnable(t))
                    {
                        if(!rr)
                            rr = &t; // stalled or not: a replay knows no stalls
                        if(pass == 1 || t.stall_until <= nsteps)
                            cand[n++] = &t;
                    }
                }
                if(pass == 0 && n == 0 && me_runnable)
                {
                    if(forced && rr)
                        deviation(me); // only stalled ones left: keep running
                    return me;
                }
            }
            if(n == 0)
            {
                if(me_runnable)
                    return me;
                // nobody can run
                for(int i = 0; i < nthr; ++i)
                    if(thr[i].st == ST_QUIESCE)
                    {
                        thr[i].st = ST_RUN;
                        return &thr[i];
                    }
                for(int i = 0; i < nthr; ++i)
                    if(thr[i].st == ST_TCOND)
                    {
                        thr[i].st = ST_RUN;
                        thr[i].timed_out = true;
                        return &thr[i];
                    }
                // a stalled blocked predicate? none: deadlock
                if(cfg.strategy == S_REPLAY)
                {
                }
                hang();
            }
            Thr* def = rr;
            Thr* c = cand[0];
            if(cfg.strategy == S_REPLAY)
            {
                while(dev_i < cfg.deviations.size() && cfg.deviations[dev_i].first < nsteps)
                    ++dev_i;
                if(dev_i < cfg.deviations.size() && cfg.deviations[dev_i].first == nsteps)
                {
                    int id = cfg.deviations[dev_i].second;
                    if(me_runnable && me->id == id)
                        c = me;
                    for(int i = 0; i < n; ++i)
                        if(cand[i]->id == id)
                            c = cand[i];
                    ++dev_i;
                }
                return c;
            }
            if(want)
                c = want;
            else if(n > 1)
            {
                if(cfg.strategy == S_PCT)
                {
                    for(int i = 0; i < n; ++i)
                        if(cand[i]->prio > c->prio)
                            c = cand[i];
                }
                else if(cfg.strategy == S_RACE)
                {
                    if(rnd() & 1)
                        c = cand[rnd() % n];
                }
                else if(cfg.strategy != S_NONPREEMPT)
                    c = cand[rnd() % n];
            }
            // every preemption of a runnable thread that was not forced is a deviation; so is a non-default choice
            if((me_runnable && !forced) || c != def)
                deviation(c);
            return c;
        }

        void switch_to(Thr* me, Thr* t)
        {
            if(t == me)
                return;
            ++nswitch;
            t->stall_until = 0;
            cur = t;
            fwake(t->go);
            if(me)
                fwait(me->go);
        }

        // the current thread cannot continue (its state was set by the caller)
        void block(Thr* me)
        {
            ++nsteps;
            me->noprog = 0;
            me->ran = 0;
            Thr* t = pick(me, false, true);
            switch_to(me, t);
        }

        void maybe_spurious()
        {
            if(!cfg.spurious || !coin(9))
                return;
            int w[MAXT], n = 0;
            for(int i = 0; i < nthr; ++i)
                if(thr[i].st == ST_COND)
                    w[n++] = i;
            if(n)
                thr[w[rnd() % n]].st = ST_RUN;
        }

        /* S_RACE: a thread is paused in front of an access at one of a few chosen locations and resumed as soon as
         * others have accessed the same memory (just before or just after such an access)
         */
        Thr* race(Thr* me, bool atomic_op, void const* addr, bool write, void* pc)
        {
            if(Thr* t = me->handoff)
            {
                me->handoff = nullptr;
                if(t->watch && is_runnable(*t))
                    return t;
            }
            if(!addr)
                return nullptr;
            for(int i = 0; i < nthr; ++i)
            {
                Thr* t = &thr[i];
                if(t == me || !t->watch || ((uintptr_t) t->watch ^ (uintptr_t) addr) >= 8 || (!write && !t->watch_write))
                    continue;
                if(t->stall_until <= nsteps)
                {
                    t->watch = nullptr;
                    continue;
                }
                if(t->watch_skip)
                {
                    --t->watch_skip;
                    continue;
                }
                if(!is_runnable(*t))
                    continue;
                if(rnd() & 3)
                    me->handoff = t;
                else
                    return t;
                break;
            }
            if(race_budget && (atomic_op || cfg.plain_log2 < 31)
               && (mix((uint64_t) pc * 0x9e3779b97f4a7c15ull ^ cfg.seed) & ((1u << cfg.p_log2) - 1)) == 0 && (rnd() & 1))
            {
                --race_budget;
                me->watch = addr;
                me->watch_write = write;
                me->watch_skip = (rnd() & 1) ? 0 : rnd() % 4;
                me->stall_until = nsteps + (1ull << (5 + rnd() % 9));
                return me;
            }
            return nullptr;
        }

        void step(bool atomic_op, bool progress, void* pc, void const* addr = nullptr, bool write = true)
        {
            Thr* me = self;
            if(!g_active || !me || g_nopoint)
                return;
            ++nsteps;
            if(nsteps > cfg.max_steps)
            {
                char buf[2000];
                buf[0] = 0;
                ++g_nopoint;
                if(on_hang)
                    on_hang(buf, sizeof buf - 1);
                fail(O_LIVELOCK, "livelock", "no completion after %llu steps | %s", (unsigned long long) nsteps, buf);
            }
            if(progress)
                me->noprog = 0;
            else if(atomic_op)
                me->noprog++;

            bool forced = false, pre = false;
            Thr* want = nullptr;
            // counted over preemptions: others which wake up now and then must not hide that this thread spins
            if(me->noprog > 60 || ++me->ran > cfg.quantum)
            {
                me->noprog = 0;
                me->ran = 0;
                forced = true;
                me->prio = --low_prio; // PCT: a spinning thread must not starve the others
            }
            switch(cfg.strategy)
            {
            case S_REPLAY:
                while(dev_i < cfg.deviations.size() && cfg.deviations[dev_i].first < nsteps)
                    ++dev_i;
                pre = dev_i < cfg.deviations.size() && cfg.deviations[dev_i].first == nsteps;
                break;
            case S_FEW:
                while(i_change < n_change && next_change[i_change] < nsteps)
                    ++i_change;
                if(i_change < n_change && next_change[i_change] == nsteps)
                    pre = true;
                break;
            case S_RANDOM:
                pre = atomic_op ? coin(cfg.p_log2) : (cfg.plain_log2 < 31 && coin(cfg.p_log2 + cfg.plain_log2));
                break;
            case S_LOCATION:
                if((mix((uint64_t) pc * 0x9e3779b97f4a7c15ull ^ cfg.seed) & 15) == 0)
                    pre = (atomic_op || cfg.plain_log2 < 31) && coin(cfg.p_log2 > 5 ? 5 : cfg.p_log2);
                break;
            case S_PCT:
                while(i_change < n_change && next_change[i_change] < nsteps)
                    ++i_change;
                if(i_change < n_change && next_change[i_change] == nsteps)
                    me->prio = --low_prio;
                if(atomic_op)
                {
                    for(int i = 0; i < nthr; ++i)
                        if(&thr[i] != me && thr[i].prio > me->prio && thr[i].stall_until <= nsteps && is_runnable(thr[i]))
                        {
                            pre = true;
                            break;
                        }
                }
                break;
            case S_RACE:
                me->watch = nullptr;
                want = race(me, atomic_op, addr, write, pc);
                if(want)
                {
                    pre = true;
                    if(want == me)
                        want = nullptr; // anybody else
                    else
                        want->stall_until = 0;
                    forced = false;
                }
                break;
            default:
                break;
            }
            if(atomic_op)
                maybe_spurious();
            if(!forced && !pre)
                return;
            if(pre && !forced && cfg.strategy != S_REPLAY && cfg.strategy != S_RACE && cfg.stall_log2 && (rnd() & 3) != 0)
                me->stall_until = nsteps + (rnd() % (1ull << (rnd() % cfg.stall_log2 + 1)));
            Thr* t = pick(me, true, forced, want);
            switch_to(me, t);
        }

        Lk* find_lk(void const* m)
        {
            for(int i = 0; i < nlk; ++i)
                if(lk[i].m == m)
                    return &lk[i];
            return nullptr;
        }

        Lk* get_lk(void const* m)
        {
            if(Lk* l = find_lk(m))
                return l;
            if(nlk == MAXL)
                fail(O_FAIL, "internal", "too many locks");
            lk[nlk] = Lk{m, nullptr, 0};
            return &lk[nlk++];
        }

        void drop_lk(Lk* l)
        {
            if(!l->owner && !l->readers)
                *l = lk[--nlk];
        }

        void wake_waiters(void const* obj, St s)
        {
            for(int i = 0; i < nthr; ++i)
                if(thr[i].obj == obj && thr[i].st == s)
                    thr[i].st = ST_RUN;
        }

        void m_lock(void const* m)
        {
            Thr* me = self;
            while(true)
            {
                Lk* l = find_lk(m);
                if(!l || !l->owner)
                {
                    get_lk(m)->owner = me;
                    me->noprog = 0;
                    return;
                }
                if(l->owner == me)
                    fail(O_HANG, "self-deadlock", "thread locks a mutex it already holds");
                me->st = ST_MUTEX;
                me->obj = m;
                block(me);
            }
        }

        void m_unlock(void const* m)
        {
            Lk* l = find_lk(m);
            if(l)
            {
                l->owner = nullptr;
                drop_lk(l);
            }
            wake_waiters(m, ST_MUTEX);
        }

        void thread_exit_dtor(void* p)
        {
            Thr* me = (Thr*) p;
            if(!g_active || self != me)
                return;
            me->st = ST_DONE;
            me->finished = true;
            for(int i = 0; i < nthr; ++i)
                if(thr[i].st == ST_JOIN && thr[i].obj == me)
                    thr[i].st = ST_RUN;
            ++nsteps;
            me->noprog = 0;
            me->ran = 0;
            Thr* t = pick(me, false, true);
            self = nullptr;
            ++nswitch;
            t->stall_until = 0;
            cur = t;
            fwake(t->go);
        }

        void* trampoline(void* p)
        {
            Thr* me = (Thr*) p;
            fwait(me->go);
            self = me;
            pthread_setspecific(exit_key, me);
            return me->fn(me->fnarg);
        }

        void crash_handler(int sig, siginfo_t* si, void*)
        {
            void* bt[40];
            int n = backtrace(bt, 40);
            char buf[1800];
            size_t k = snprintf(buf, sizeof buf, "signal %d (%s) addr %p at", sig, strsignal(sig), si->si_addr);
            for(int i = 2; i < n && k < sizeof buf - 40; ++i)
                k += snprintf(buf + k, sizeof buf - k, " %p", bt[i]);
            fail(O_CRASH, "crash", "%s", buf);
        }

        void on_terminate()
        {
            char const* w = "terminate called";
            if(auto e = std::current_exception())
            {
                try
                {
                    std::rethrow_exception(e);
                }
                catch(std::exception const& x)
                {
                    static char b[600];
                    snprintf(b, sizeof b, "uncaught exception: %s", x.what());
                    w = b;
                }
                catch(...)
                {
                    w = "uncaught exception";
                }
            }
            fail(O_CRASH, "terminate", "%s", w);
        }
    } // namespace

    void fail(int outcome, char const* kind, char const* fmt, ...)
    {
        if(report)
        {
            report->outcome = outcome;
            snprintf(report->kind, sizeof report->kind, "%s", kind);
            va_list ap;
            va_start(ap, fmt);
            vsnprintf(report->msg, sizeof report->msg, fmt, ap);
            va_end(ap);
            report->steps = nsteps;
            report->switches = nswitch;
            report->threads = nthr;
        }
        _exit(70 + outcome);
    }

    void install_handlers()
    {
        static char altstack[64 * 1024];
        stack_t ss{};
        ss.ss_sp = altstack;
        ss.ss_size = sizeof altstack;
        sigaltstack(&ss, nullptr);
        struct sigaction sa
        {
        };
        sa.sa_sigaction = crash_handler;
        sa.sa_flags = SA_SIGINFO | SA_RESETHAND;
        for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
            sigaction(s, &sa, nullptr);
        std::set_terminate(on_terminate);
        void* bt[2];
        backtrace(bt, 2); // preload libgcc
    }

    void begin(Config const& c)
    {
        cfg = c;
        rng_s = mix(c.seed + 0x1234567);
        nsteps = nswitch = 0;
        nthr = 1;
        nlk = 0;
        dev_i = 0;
        low_prio = 0;
        fentries = 0;
        race_budget = 16u << c.changes;
        report->n_dev = 0;
        pthread_key_create(&exit_key, thread_exit_dtor);
        Thr& t = thr[0];
        memset((void*) &t, 0, sizeof t);
        t.id = 0;
        t.st = ST_RUN;
        t.pt = pthread_self();
        t.prio = 1 + (int64_t) (rnd() % 1000000);
        n_change = c.changes > 60 ? 60 : c.changes;
        i_change = 0;
        for(unsigned i = 0; i < n_change; ++i)
        {
            unsigned b = c.horizon_log2 < 5 ? 5 : c.horizon_log2;
            // half log-uniform, half uniform below the horizon
            uint64_t lim = (rnd() & 1) ? (1ull << (4 + rnd() % (b - 3))) : (1ull << b);
            next_change[i] = 1 + rnd() % lim;
        }
        for(unsigned i = 0; i < n_change; ++i)
            for(unsigned j = i + 1; j < n_change; ++j)
                if(next_change[j] < next_change[i])
                    std::swap(next_change[i], next_change[j]);
        self = &t;
        cur = &t;
        g_active = true;
    }

    void end()
    {
        report->steps = nsteps;
        report->switches = nswitch;
        report->threads = nthr;
        g_active = false;
        self = nullptr;
    }

    bool active()
    {
        return g_active;
    }

    int self_id()
    {
        return self ? self->id : -1;
    }

    size_t describe_threads(char* buf, size_t n)
    {
        size_t k = 0;
        for(int i = 0; i < nthr && k + 40 < n; ++i)
            k += snprintf(buf + k, n - k, " T%d=%s", i, stname(thr[i].st));
        return k;
    }

    uint64_t steps()
    {
        return nsteps;
    }

    void point()
    {
        step(true, true, __builtin_return_address(0));
    }

    NoPoint::NoPoint()
    {
        if(self)
            ++g_nopoint;
    }
    NoPoint::~NoPoint()
    {
        if(self)
            --g_nopoint;
    }

    void block_until(bool (*pred)(void*), void* arg)
    {
        Thr* me = self;
        if(!g_active || !me)
            return;
        while(true)
        {
            ++g_nopoint;
            bool ok = pred(arg);
            --g_nopoint;
            if(ok)
                return;
            me->st = ST_PRED;
            me->pred = pred;
            me->parg = arg;
            block(me);
        }
    }

    void quiesce()
    {
        Thr* me = self;
        if(!g_active || !me)
            return;
        me->st = ST_QUIESCE;
        block(me);
    }
} // namespace vs

using namespace vs;

/* ------------------------------------------------------------------ interposed primitives */
extern "C"
{
    static int (*r_create)(pthread_t*, pthread_attr_t const*, void* (*) (void*), void*);
    static int (*r_join)(pthread_t, void**);
    static int (*r_mlock)(pthread_mutex_t*);
    static int (*r_mtry)(pthread_mutex_t*);
    static int (*r_munlock)(pthread_mutex_t*);
    static int (*r_cwait)(pthread_cond_t*, pthread_mutex_t*);
    static int (*r_csig)(pthread_cond_t*);
    static int (*r_cbc)(pthread_cond_t*);
    static int (*r_rd)(pthread_rwlock_t*);
    static int (*r_wr)(pthread_rwlock_t*);
    static int (*r_rwu)(pthread_rwlock_t*);

#define MANAGED (g_active && self)

    int pthread_create(pthread_t* pt, pthread_attr_t const* a, void* (*fn)(void*), void* arg)
    {
        if(!MANAGED)
            return real(r_create, "pthread_create")(pt, a, fn, arg);
        if(nthr == MAXT)
            fail(O_FAIL, "internal", "too many threads");
        Thr& t = thr[nthr];
        memset((void*) &t, 0, sizeof t);
        t.id = nthr;
        t.st = ST_RUN;
        t.fn = fn;
        t.fnarg = arg;
        t.prio = 1 + (int64_t) (rnd() % 1000000);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 512 * 1024);
        int rc = real(r_create, "pthread_create")(pt, a ? a : &at, trampoline, &t);
        pthread_attr_destroy(&at);
        if(rc)
            return rc;
        t.pt = *pt;
        ++nthr;
        step(true, true, __builtin_return_address(0));
        return 0;
    }

    int pthread_join(pthread_t pt, void** ret)
    {
        if(!MANAGED)
            return real(r_join, "pthread_join")(pt, ret);
        step(true, true, __builtin_return_address(0));
        Thr* t = nullptr;
        for(int i = 0; i < nthr; ++i)
            if(thr[i].pt == pt)
                t = &thr[i];
        if(t && !t->finished)
        {
            self->st = ST_JOIN;
            self->obj = t;
            block(self);
        }
        int rc = real(r_join, "pthread_join")(pt, ret);
        if(t)
            t->pt = 0;
        return rc;
    }

    /* std::atomic_load() etc. of shared_ptr: libstdc++ takes a mutex chosen by the hash of the address.
     * Here they are one step of the schedule, so they do not depend on addresses.
     */
    void _ZNSt10_Sp_lockerC1EPKv(unsigned char* l, void const* a)
    {
        step(true, true, __builtin_return_address(0), a, true);
        *l = self != nullptr;
        if(*l)
            ++g_nopoint;
    }
    void _ZNSt10_Sp_lockerC1EPKvS1_(unsigned char* l, void const*, void const*)
    {
        _ZNSt10_Sp_lockerC1EPKv(l, nullptr);
    }
    void _ZNSt10_Sp_lockerD1Ev(unsigned char* l)
    {
        if(*l)
            --g_nopoint;
    }

    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        if(!MANAGED)
            return real(r_mlock, "pthread_mutex_lock")(m);
        step(true, true, __builtin_return_address(0), (void const*) m, true);
        m_lock(m);
        return 0;
    }

    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if(!MANAGED)
            return real(r_mtry, "pthread_mutex_trylock")(m);
        step(true, false, __builtin_return_address(0), (void const*) m, true);
        Lk* l = find_lk(m);
        if(l && l->owner)
            return EBUSY;
        get_lk(m)->owner = self;
        return 0;
    }

    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        if(!MANAGED)
            return real(r_munlock, "pthread_mutex_unlock")(m);
        m_unlock(m);
        step(true, true, __builtin_return_address(0), (void const*) m, true);
        return 0;
    }

    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if(!MANAGED)
            return real(r_cwait, "pthread_cond_wait")(c, m);
        step(true, true, __builtin_return_address(0), (void const*) c, true);
        Thr* me = self;
        me->st = ST_COND;
        me->obj = c;
        m_unlock(m);
        block(me);
        m_lock(m);
        return 0;
    }

    static int timedwait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        step(true, true, __builtin_return_address(0), (void const*) c, true);
        Thr* me = self;
        me->st = ST_TCOND;
        me->obj = c;
        me->timed_out = false;
        m_unlock(m);
        block(me);
        m_lock(m);
        return me->timed_out ? ETIMEDOUT : 0;
    }

    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const*)
    {
        if(!MANAGED)
            return 0;
        return timedwait(c, m);
    }

    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, struct timespec const*)
    {
        if(!MANAGED)
            return 0;
        return timedwait(c, m);
    }

    int pthread_cond_signal(pthread_cond_t* c)
    {
        if(!MANAGED)
            return real(r_csig, "pthread_cond_signal")(c);
        step(true, true, __builtin_return_address(0), (void const*) c, true);
        int w[MAXT], n = 0;
        for(int i = 0; i < nthr; ++i)
            if((thr[i].st == ST_COND || thr[i].st == ST_TCOND) && thr[i].obj == c)
                w[n++] = i;
        if(n)
            thr[w[cfg.strategy == S_REPLAY ? 0 : rnd() % n]].st = ST_RUN;
        step(true, true, __builtin_return_address(0), (void const*) c, true);
        return 0;
    }

    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        if(!MANAGED)
            return real(r_cbc, "pthread_cond_broadcast")(c);
        step(true, true, __builtin_return_address(0), (void const*) c, true);
        wake_waiters(c, ST_COND);
        wake_waiters(c, ST_TCOND);
        step(true, true, __builtin_return_address(0), (void const*) c, true);
        return 0;
    }

    int pthread_rwlock_rdlock(pthread_rwlock_t* m)
    {
        if(!MANAGED)
            return real(r_rd, "pthread_rwlock_rdlock")(m);
        step(true, true, __builtin_return_address(0), (void const*) m, true);
        while(true)
        {
            Lk* l = find_lk(m);
            if(!l || !l->owner)
            {
                get_lk(m)->readers++;
                return 0;
            }
            self->st = ST_RW_R;
            self->obj = m;
            block(self);
        }
    }

    int pthread_rwlock_wrlock(pthread_rwlock_t* m)
    {
        if(!MANAGED)
            return real(r_wr, "pthread_rwlock_wrlock")(m);
        step(true, true, __builtin_return_address(0), (void const*) m, true);
        while(true)
        {
            Lk* l = find_lk(m);
            if(!l || (!l->owner && !l->readers))
            {
                get_lk(m)->owner = self;
                return 0;
            }
            self->st = ST_RW_W;
            self->obj = m;
            block(self);
        }
    }

    int pthread_rwlock_unlock(pthread_rwlock_t* m)
    {
        if(!MANAGED)
            return real(r_rwu, "pthread_rwlock_unlock")(m);
        if(Lk* l = find_lk(m))
        {
            if(l->owner)
                l->owner = nullptr;
            else if(l->readers)
                l->readers--;
            drop_lk(l);
        }
        wake_waiters(m, ST_RW_R);
        wake_waiters(m, ST_RW_W);
        step(true, true, __builtin_return_address(0), (void const*) m, true);
        return 0;
    }

    static void forced_yield()
    {
        Thr* me = self;
        me->noprog = 1000;
        step(true, false, __builtin_return_address(0));
    }

    int sched_yield()
    {
        if(MANAGED)
            forced_yield();
        return 0;
    }

    int nanosleep(struct timespec const* a, struct timespec*)
    {
        if(MANAGED)
            forced_yield();
        else
            syscall(SYS_nanosleep, a, nullptr);
        return 0;
    }

    int clock_nanosleep(clockid_t, int, struct timespec const*, struct timespec*)
    {
        if(MANAGED)
            forced_yield();
        return 0;
    }

    // the threads of a scheduled run take turns: where they run does not matter, and several checks may run at once
    int sched_setaffinity(pid_t, size_t, cpu_set_t const*)
    {
        return 0;
    }
    int pthread_setaffinity_np(pthread_t, size_t, cpu_set_t const*)
    {
        return 0;
    }

    int usleep(useconds_t)
    {
        if(MANAGED)
            forced_yield();
        return 0;
    }

    unsigned sleep(unsigned)
    {
        if(MANAGED)
            forced_yield();
        return 0;
    }

    /* function-local statics: Itanium guard, byte 0 = initialised, byte 1 = in progress */
    int __cxa_guard_acquire(uint64_t* g)
    {
        auto b = (unsigned char*) g;
        while(true)
        {
            if(b[0])
                return 0;
            if(!b[1])
            {
                b[1] = 1;
                return 1;
            }
            if(!MANAGED)
                abort();
            self->st = ST_GUARD;
            self->obj = g;
            block(self);
        }
    }

    void __cxa_guard_release(uint64_t* g)
    {
        auto b = (unsigned char*) g;
        b[0] = 1;
        b[1] = 0;
        if(MANAGED)
            wake_waiters(g, ST_GUARD);
    }

    void __cxa_guard_abort(uint64_t* g)
    {
        auto b = (unsigned char*) g;
        b[1] = 0;
        if(MANAGED)
            wake_waiters(g, ST_GUARD);
    }

    void __assert_fail(char const* expr, char const* file, unsigned line, char const* fn)
    {
        char const* f = strstr(file, "redGrapes/");
        vs::fail(O_CRASH, "assert", "assertion `%s' failed at %s:%u (%s)", expr, f ? f : file, line, fn);
    }

    /* ------------------------------------------------------------------ instrumentation callbacks */
    void __tsan_init()
    {
    }
    void __tsan_func_entry(void*)
    {
        if(g_active && self && (++fentries & 0xfff) == 0)
            step(false, false, __builtin_return_address(0)); // keeps the step limit effective in odd loops
    }
    void __tsan_func_exit()
    {
    }
    void __tsan_ignore_thread_begin()
    {
    }
    void __tsan_ignore_thread_end()
    {
    }

#define PC __builtin_return_address(0)
#define RD(name, n)                                                                                                   \
    void name(void* p)                                                                                                \
    {                                                                                                                 \
        if(g_active && cfg.plain_log2 < 31)                                                                           \
            step(false, false, PC, p, false);                                                                                   \
        arena::check(p, n, false, PC);                                                                                \
    }
#define WR(name, n)                                                                                                   \
    void name(void* p)                                                                                                \
    {                                                                                                                 \
        if(g_active && cfg.plain_log2 < 31)                                                                           \
            step(false, true, PC, p, true);                                                                                    \
        arena::check(p, n, true, PC);                                                                                 \
    }
    RD(__tsan_read1, 1)
    RD(__tsan_read2, 2)
    RD(__tsan_read4, 4)
    RD(__tsan_read8, 8)
    RD(__tsan_read16, 16)
    RD(__tsan_unaligned_read2, 2)
    RD(__tsan_unaligned_read4, 4)
    RD(__tsan_unaligned_read8, 8)
    RD(__tsan_unaligned_read16, 16)
    RD(__tsan_volatile_read1, 1)
    RD(__tsan_volatile_read2, 2)
    RD(__tsan_volatile_read4, 4)
    RD(__tsan_volatile_read8, 8)
    RD(__tsan_volatile_read16, 16)
    WR(__tsan_volatile_write1, 1)
    WR(__tsan_volatile_write2, 2)
    WR(__tsan_volatile_write4, 4)
    WR(__tsan_volatile_write8, 8)
    WR(__tsan_volatile_write16, 16)
    WR(__tsan_write1, 1)
    WR(__tsan_write2, 2)
    WR(__tsan_write4, 4)
    WR(__tsan_write8, 8)
    WR(__tsan_write16, 16)
    WR(__tsan_unaligned_write2, 2)
    WR(__tsan_unaligned_write4, 4)
    WR(__tsan_unaligned_write8, 8)
    WR(__tsan_unaligned_write16, 16)
    WR(__tsan_read_write1, 1)
    WR(__tsan_read_write2, 2)
    WR(__tsan_read_write4, 4)
    WR(__tsan_read_write8, 8)
    WR(__tsan_read_write16, 16)
    WR(__tsan_unaligned_read_write2, 2)
    WR(__tsan_unaligned_read_write4, 4)
    WR(__tsan_unaligned_read_write8, 8)
    WR(__tsan_unaligned_read_write16, 16)
    void __tsan_vptr_update(void** p, void*)
    {
        arena::check(p, 8, true, PC);
    }
    void __tsan_vptr_read(void** p)
    {
        arena::check(p, 8, false, PC);
    }
    void __tsan_read_range(void* p, size_t n)
    {
        arena::check(p, n, false, PC);
    }
    void __tsan_write_range(void* p, size_t n)
    {
        arena::check(p, n, true, PC);
    }
    void* __tsan_memcpy(void* d, void const* s, size_t n)
    {
        arena::check(s, n, false, PC);
        arena::check(d, n, true, PC);
        return memcpy(d, s, n);
    }
    void* __tsan_memmove(void* d, void const* s, size_t n)
    {
        arena::check(s, n, false, PC);
        arena::check(d, n, true, PC);
        return memmove(d, s, n);
    }
    void* __tsan_memset(void* d, int c, size_t n)
    {
        arena::check(d, n, true, PC);
        return memset(d, c, n);
    }
    void __tsan_mutex_create(void*, unsigned)
    {
    }
    void __tsan_mutex_destroy(void*, unsigned)
    {
    }
    void __tsan_mutex_pre_lock(void*, unsigned)
    {
    }
    void __tsan_mutex_post_lock(void*, unsigned, int)
    {
    }
    int __tsan_mutex_pre_unlock(void*, unsigned)
    {
        return 0;
    }
    void __tsan_mutex_post_unlock(void*, unsigned)
    {
    }
    void __tsan_mutex_pre_signal(void*, unsigned)
    {
    }
    void __tsan_mutex_post_signal(void*, unsigned)
    {
    }
    void __tsan_acquire(void*)
    {
    }
    void __tsan_release(void*)
    {
    }
    void AnnotateHappensBefore(char const*, int, void const volatile*)
    {
    }
    void AnnotateHappensAfter(char const*, int, void const volatile*)
    {
    }

    void __tsan_atomic_thread_fence(int)
    {
        step(true, true, PC);
    }
    void __tsan_atomic_signal_fence(int)
    {
    }

#define ATOMICS(T, B)                                                                                                 \
    T __tsan_atomic##B##_load(T const volatile* p, int)                                                               \
    {                                                                                                                 \
        step(true, false, PC, (void const*) p, false);                                                                                        \
        arena::check((void const*) p, sizeof(T), false, PC);                                                          \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                  \
    }                                                                                                                 \
    void __tsan_atomic##B##_store(T volatile* p, T v, int)                                                            \
    {                                                                                                                 \
        step(true, true, PC, (void const*) p, true);                                                                                         \
        arena::check((void const*) p, sizeof(T), true, PC);                                                           \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##B##_exchange(T volatile* p, T v, int)                                                            \
    {                                                                                                                 \
        step(true, true, PC, (void const*) p, true);                                                                                         \
        arena::check((void const*) p, sizeof(T), true, PC);                                                           \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                           \
    }                                                                                                                 \
    T __tsan_atomic##B##_fetch_add(T volatile* p, T v, int)                                                           \
    {                                                                                                                 \
        step(true, true, PC, (void const*) p, true);                                                                                         \
        arena::check((void const*) p, sizeof(T), true, PC);                                                           \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T __tsan_atomic##B##_fetch_sub(T volatile* p, T v, int)                                                           \
    {                                                                                                                 \
        step(true, true, PC, (void const*) p, true);                                                                                         \
        arena::check((void const*) p, sizeof(T), true, PC);                                                           \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T __tsan_atomic##B##_fetch_and(T volatile* p, T v, int)                                                           \
    {                                                                                                                 \
        step(true, true, PC, (void const*) p, true);                                                                                         \
        arena::check((void const*) p, sizeof(T), true, PC);                                                           \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T __tsan_atomic##B##_fetch_or(T volatile* p, T v, int)                                                            \
    {                                                                                                                 \
        step(true, true, PC, (void const*) p, true);                                                                                         \
        arena::check((void const*) p, sizeof(T), true, PC);                                                           \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                 \
    T __tsan_atomic##B##_fetch_xor(T volatile* p, T v, int)                                                           \
    {                                                                                                                 \
        step(true, true, PC, (void const*) p, true);                                                                                         \
        arena::check((void const*) p, sizeof(T), true, PC);                                                           \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T __tsan_atomic##B##_fetch_nand(T volatile* p, T v, int)                                                          \
    {                                                                                                                 \
        step(true, true, PC, (void const*) p, true);                                                                                         \
        arena::check((void const*) p, sizeof(T), true, PC);                                                           \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                           \
    }                                                                                                                 \
    static int cas##B(T volatile* p, T* c, T v, bool weak, void* pc)                                                  \
    {                                                                                                                 \
        step(true, false, pc, (void const*) p, true);                                                                                        \
        arena::check((void const*) p, sizeof(T), true, pc);                                                           \
        if(weak && g_active && cfg.spurious && cfg.strategy != S_REPLAY && coin(6))                                   \
        {                                                                                                             \
            *c = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                \
            return 0;                                                                                                 \
        }                                                                                                             \
        int ok = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                     \
        if(ok && self)                                                                                                \
            self->noprog = 0;                                                                                         \
        return ok;                                                                                                    \
    }                                                                                                                 \
    int __tsan_atomic##B##_compare_exchange_strong(T volatile* p, T* c, T v, int, int)                                \
    {                                                                                                                 \
        return cas##B(p, c, v, false, PC);                                                                            \
    }                                                                                                                 \
    int __tsan_atomic##B##_compare_exchange_weak(T volatile* p, T* c, T v, int, int)                                  \
    {                                                                                                                 \
        return cas##B(p, c, v, true, PC);                                                                             \
    }                                                                                                                 \
    T __tsan_atomic##B##_compare_exchange_val(T volatile* p, T c, T v, int, int)                                      \
    {                                                                                                                 \
        cas##B(p, &c, v, false, PC);                                                                                  \
        return c;                                                                                                     \
    }

    ATOMICS(uint8_t, 8)
    ATOMICS(uint16_t, 16)
    ATOMICS(uint32_t, 32)
    ATOMICS(uint64_t, 64)
}
