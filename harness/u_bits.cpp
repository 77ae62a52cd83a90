// P14: availability bits and the search for a worker
#include "units.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/dispatch/thread/worker_pool.hpp>
#include <redGrapes/util/bitfield.hpp>

#include <memory>
#include <thread>
#include <vector>

namespace rg = redGrapes;

namespace units
{
    using pbt::Gen;
    using Pool = rg::dispatch::thread::WorkerPool;
    namespace th = rg::dispatch::thread;

    static rg::HwlocContext& topology()
    {
        static rg::HwlocContext ctx;
        return ctx;
    }

    void bits_warm()
    {
        guards_warm();
        topology();
    }

    static unsigned pool_size(Gen& g)
    {
        switch(g.choose(6))
        {
        case 0:
            return 1 + g.choose(4);
        case 1:
            return 1 + g.choose(33);
        case 2:
            return 30 + g.choose(6);
        case 3:
            return 60 + g.choose(8);
        case 4:
            return 126 + g.choose(6);
        default:
            return 1 + g.choose(260);
        }
    }

    void bits_run(Gen& g)
    {
        enum
        {
            L_SETS,
            L_GETS,
            L_SEARCH,
            L_FOUND,
            L_NOT,
            L_32,
            L_64
        };
        unsigned n = pool_size(g);
        bool api = g.coin(1, 3);
        g.desc("size %u %s", n, api ? "worker pool" : "bit field");
        std::unique_ptr<rg::AtomicBitfield> f;
        std::unique_ptr<Pool> p;
        rg::HwlocContext& ctx = topology();
        if(api)
            p = std::make_unique<Pool>(ctx, n);
        else
            f = std::make_unique<rg::AtomicBitfield>(n);
        if(f && f->size() != n)
            pbt::fail("size", "size() is %zu", f->size());
        std::vector<char> m(n, 0);
        g.count(L_32, n > 32);
        g.count(L_64, n > 64);
        auto set = [&](unsigned i, bool v) -> bool // previous value
        {
            if(f)
                return f->set(i, v);
            return p->set_worker_state(i, v ? th::AVAILABLE : th::BUSY) ? !v : v;
        };
        auto get = [&](unsigned i) { return f ? f->get(i) : p->get_worker_state(i) == th::AVAILABLE; };
        unsigned ops = 1 + g.choose(24);
        // dense or sparse start
        if(g.coin(1, 2))
        {
            unsigned den = 1 + g.choose(5);
            for(unsigned i = 0; i < n; ++i)
                if(g.choose(den + 1) == den)
                {
                    if(set(i, true) != false)
                        pbt::fail("previous", "set(%u) reports previous value 1", i);
                    m[i] = 1;
                }
            g.desc(" filled 1/%u", den + 1);
        }
        g.desc(":");
        for(unsigned k = 0; k < ops; ++k)
            switch(g.weighted(4, 2, 5, api ? 2 : 0))
            {
            case 0:
                {
                    unsigned i = g.choose(n);
                    bool v = g.choose(2);
                    g.count(L_SETS);
                    g.desc(" set(%u,%d)", i, v);
                    bool old = set(i, v);
                    if(old != (bool) m[i])
                        pbt::fail("previous", "set(%u,%d) reports previous value %d", i, v, old);
                    m[i] = v;
                    break;
                }
            case 1:
                {
                    unsigned i = g.choose(n);
                    g.count(L_GETS);
                    g.desc(" get(%u)", i);
                    if(get(i) != (bool) m[i])
                        pbt::fail("value", "get(%u) is %d", i, !m[i]);
                    break;
                }
            case 2:
                {
                    unsigned start = g.choose(n);
                    bool want = g.choose(2), excl = g.choose(2);
                    unsigned mode = g.choose(4); // which indices the caller accepts
                    unsigned a = g.choose(n), b = 2 + g.choose(5);
                    bool flip = g.coin(1, 4); // the caller changes the bit it was offered
                    auto accept = [&](unsigned i)
                    {
                        switch(mode)
                        {
                        case 0:
                            return true;
                        case 1:
                            return i == a;
                        case 2:
                            return i % b == 0;
                        default:
                            return false;
                        }
                    };
                    g.count(L_SEARCH);
                    g.desc(" search(%d from %u%s accept %u)", want, start, excl ? " excl" : "", mode);
                    std::vector<char> offered(n, 0);
                    auto cb = [&](unsigned i) -> std::optional<unsigned>
                    {
                        if(i >= n)
                            pbt::fail("range", "search examined index %u of %u", i, n);
                        if(offered[i]++)
                            pbt::fail("twice", "search examined index %u twice", i);
                        if((bool) m[i] != want)
                            pbt::fail("condition", "search examined index %u whose value is %d", i, m[i]);
                        if(excl && i == start)
                            pbt::fail("excluded", "search examined the excluded index %u", i);
                        if(flip)
                        {
                            set(i, !want);
                            m[i] = !want;
                        }
                        if(accept(i))
                            return i;
                        return std::nullopt;
                    };
                    std::vector<char> before = m;
                    std::optional<unsigned> r;
                    if(f)
                        r = f->probe_by_value<unsigned>(cb, want, start, excl);
                    else
                        r = p->probe_worker_by_state<unsigned>(std::move(cb), want, start, excl);
                    bool exists = false;
                    unsigned zeros = 0, ones = 0;
                    for(unsigned i = 0; i < n; ++i)
                    {
                        (before[i] ? ones : zeros)++;
                        if((bool) before[i] == want && accept(i) && !(excl && i == start))
                            exists = true;
                    }
                    if(exists != (bool) r)
                        pbt::fail("search", "search for %d from %u %s although %s", want, start,
                                  r ? "succeeded" : "found nothing", exists ? "there is one" : "there is none");
                    if(r && (*r >= n || !offered[*r] || !accept(*r)))
                        pbt::fail("search", "search returned %u", *r);
                    g.count(r ? L_FOUND : L_NOT);
                    if(zeros && ones && n > 32)
                        g.nontrivial();
                    break;
                }
            case 3:
                {
                    g.desc(" find_free");
                    int r = p->find_free_worker();
                    bool exists = false;
                    for(char x : m)
                        exists |= x;
                    if((r >= 0) != exists || (r >= 0 && ((unsigned) r >= n || !m[r])))
                        pbt::fail("search", "find_free_worker() returned %d", r);
                    if(r >= 0)
                    {
                        if(get(r))
                            pbt::fail("search", "worker %d is still available after it was claimed", r);
                        m[r] = 0;
                    }
                }
            }
        for(unsigned i = 0; i < n; ++i)
            if(get(i) != (bool) m[i])
                pbt::fail("value", "at the end, value %u is %d", i, !m[i]);
    }

    void claim_run(Gen& g)
    {
        enum
        {
            L_CLAIM,
            L_FAILED,
            L_RELEASE,
            L_THREADS,
            L_32,
            L_API
        };
        vs::Config c = g.schedule();
        unsigned n = g.coin(1, 2) ? 1 + g.choose(4) : pool_size(g);
        bool api = g.coin(1, 5);
        unsigned nt = 1 + g.choose(4);
        rg::HwlocContext& ctx = topology();
        std::unique_ptr<rg::AtomicBitfield> f;
        std::unique_ptr<Pool> p;
        if(api)
            p = std::make_unique<Pool>(ctx, n);
        else
            f = std::make_unique<rg::AtomicBitfield>(n);
        struct Op
        {
            unsigned kind, start, cond;
            bool excl;
        };
        std::vector<std::vector<Op>> prog(nt);
        g.desc("size %u %s, %u threads\n", n, api ? "worker pool" : "bit field", nt);
        g.count(L_THREADS, nt);
        g.count(L_32, n > 32);
        g.count(L_API, api);
        unsigned claimers = 0;
        for(auto& t : prog)
        {
            bool cl = false;
            unsigned ops = 1 + g.choose(8);
            g.desc("thread:");
            for(unsigned i = 0; i < ops; ++i)
            {
                Op o{g.weighted(5, 3, 1, api ? 2 : 0), (unsigned) g.choose(n), (unsigned) g.choose(3), g.coin(1, 4)};
                cl |= o.kind == 0 || o.kind == 3;
                g.desc(" %s(%u,%u%s)", o.kind == 0 ? "claim" : o.kind == 1 ? "release" : o.kind == 2 ? "get" : "find_free",
                       o.start, o.cond, o.excl ? ",excl" : "");
                t.push_back(o);
            }
            g.desc("\n");
            claimers += cl;
        }
        if(claimers > 1)
            g.nontrivial();
        // initial: all available but a few
        struct W
        {
            int owner; // -1: available, else claiming thread, -2: changing
            uint64_t since;
        };
        std::vector<W> w(n);
        auto set = [&](unsigned i, bool v) -> bool
        {
            if(f)
                return f->set(i, v);
            return p->set_worker_state(i, v ? th::AVAILABLE : th::BUSY) ? !v : v;
        };
        for(unsigned i = 0; i < n; ++i)
        {
            bool av = g.choose(8) != 0;
            w[i] = {av ? -1 : 1000, 0};
            if(av)
                set(i, true);
        }
        std::vector<unsigned> attempts(n, 0); // claims which may have succeeded, but are not known to the model yet
        unsigned free_calls = 0;
        std::vector<std::vector<unsigned>> mine(nt + 1);
        for(unsigned i = 0; i < n; ++i)
            if(w[i].owner == 1000)
            {
                unsigned t = g.choose(nt);
                mine[t].push_back(i);
                w[i].owner = t;
            }
        uint64_t nclaim = 0, nfail = 0, nrel = 0;
        vs::begin(c);
        auto body = [&](unsigned t)
        {
            for(auto& o : prog[t])
            {
                auto cond = [&](unsigned i) { return o.cond == 0 ? true : o.cond == 1 ? i % 2 == 0 : i % 3 != 0; };
                if(o.kind == 0 || o.kind == 3)
                {
                    uint64_t t0 = tick();
                    std::optional<unsigned> r;
                    if(o.kind == 3)
                    {
                        {
                            vs::NoPoint np;
                            ++free_calls;
                        }
                        int x = p->find_free_worker();
                        if(x >= 0)
                            r = x;
                    }
                    else
                    {
                        std::vector<char> offered(n, 0);
                        auto cb = [&](unsigned i) -> std::optional<unsigned>
                        {
                            if(i >= n)
                                pbt::fail("range", "search examined index %u of %u", i, n);
                            if(offered[i]++)
                                pbt::fail("twice", "search examined index %u twice", i);
                            if(o.excl && i == o.start)
                                pbt::fail("excluded", "search examined the excluded index %u", i);
                            if(!cond(i))
                                return std::nullopt;
                            {
                                vs::NoPoint np;
                                ++attempts[i];
                            }
                            if(set(i, false))
                                return i;
                            vs::NoPoint np;
                            --attempts[i];
                            return std::nullopt;
                        };
                        if(f)
                            r = f->probe_by_value<unsigned>(cb, true, o.start, o.excl);
                        else
                            r = p->probe_worker_by_state<unsigned>(std::move(cb), true, o.start, o.excl);
                    }
                    vs::NoPoint np;
                    if(o.kind == 3)
                        --free_calls;
                    if(r)
                    {
                        if(o.kind != 3)
                            --attempts[*r];
                        ++nclaim;
                        if(*r >= n)
                            pbt::fail("range", "search returned %u of %u", *r, n);
                        if(w[*r].owner >= 0)
                            pbt::fail("claimed-twice", "worker %u is claimed by thread %u and thread %d", *r, t, w[*r].owner);
                        w[*r].owner = t;
                        mine[t].push_back(*r);
                    }
                    else
                    {
                        ++nfail;
                        // each of the other find_free_worker() in progress may have taken one
                        unsigned slack = free_calls;
                        for(unsigned i = 0; i < n; ++i)
                            if(w[i].owner == -1 && w[i].since < t0 && !attempts[i]
                               && (o.kind == 3 || (cond(i) && !(o.excl && i == o.start))) && slack-- == 0)
                                pbt::fail("search", "thread %u found nothing although worker %u was available all the time", t, i);
                    }
                }
                else if(o.kind == 1)
                {
                    if(mine[t].empty())
                        continue;
                    unsigned i;
                    {
                        vs::NoPoint np;
                        size_t k = o.start % mine[t].size();
                        i = mine[t][k];
                        mine[t].erase(mine[t].begin() + k);
                        w[i].owner = -2;
                        ++nrel;
                    }
                    if(set(i, true))
                        pbt::fail("previous", "worker %u claimed by thread %u was available", i, t);
                    vs::NoPoint np;
                    if(w[i].owner == -2)
                    {
                        w[i].owner = -1;
                        w[i].since = tick();
                    }
                }
                else
                {
                    if(mine[t].empty())
                        continue;
                    unsigned i = mine[t][o.start % mine[t].size()];
                    bool v = f ? f->get(i) : p->get_worker_state(i) == th::AVAILABLE;
                    if(v)
                        pbt::fail("value", "worker %u claimed by thread %u is available", i, t);
                }
            }
        };
        {
            std::vector<std::thread> ts;
            for(unsigned t = 1; t < nt; ++t)
                ts.emplace_back(body, t);
            body(0);
            for(auto& t : ts)
                t.join();
        }
        vs::end();
        for(unsigned i = 0; i < n; ++i)
        {
            bool v = f ? f->get(i) : p->get_worker_state(i) == th::AVAILABLE;
            if(v != (w[i].owner == -1))
                pbt::fail("lost-update", "at the end, worker %u is %savailable", i, v ? "" : "not ");
        }
        g.count(L_CLAIM, nclaim);
        g.count(L_FAILED, nfail);
        g.count(L_RELEASE, nrel);
    }
} // namespace units
