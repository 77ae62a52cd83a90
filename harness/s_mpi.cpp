// P20: request pool on a simulated message passing library
#include "mock/mpi.h"
#include "sys.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/dispatch/mpi/request_pool.hpp>

#include <algorithm>
#include <memory>
#include <thread>
#include <vector>

namespace rg = redGrapes;

namespace sys
{
    using pbt::Gen;
    namespace
    {
        enum
        {
            L_REQUESTS,
            L_BATCHES,
            L_MULTI,
            L_OUT_OF_ORDER,
            L_POLLS,
            L_REST,
            L_IMMEDIATE
        };
        struct Req
        {
            int handle = -2;
            int task;
            bool issued = false, completable = false, reported = false, resumed = false;
        };
        struct Lib
        {
            std::vector<Req> reqs;
            std::vector<int> by_handle; // handle -> request, -1: free
            Gen* g;
            unsigned max_batch;
            uint64_t multi = 0, out_of_order = 0, batches = 0;
            uint64_t order; // generates subsets and orders
            unsigned rnd()
            {
                order = order * 6364136223846793005ull + 1442695040888963407ull;
                return order >> 33;
            }
        };
        Lib* L;

        // requests still held by a pool, as far as it can be seen
        template<typename P>
        auto held(P& p, int) -> decltype(p.requests.size() + p.events.size() + p.statuses.size())
        {
            return std::max({p.requests.size(), p.events.size(), p.statuses.size()});
        }
        template<typename P>
        size_t held(P&, long)
        {
            return 0;
        }
    } // namespace
} // namespace sys

int MPI_Testsome(int n, MPI_Request* r, int* outcount, int* indices, MPI_Status* st)
{
    using namespace sys;
    vs::NoPoint np;
    std::vector<int> cand;
    bool active = false;
    std::vector<char> dup(L->by_handle.size(), 0);
    for(int i = 0; i < n; ++i)
    {
        if(r[i] == MPI_REQUEST_NULL)
            continue;
        active = true;
        if(r[i] < 0 || r[i] >= (int) L->by_handle.size() || L->by_handle[r[i]] < 0)
            pbt::fail("stale", "a request which is complete or never existed is passed to the library");
        if(dup[r[i]]++)
            pbt::fail("stale", "the same request is passed to the library twice");
        if(L->reqs[L->by_handle[r[i]]].completable)
            cand.push_back(i);
    }
    if(!active)
    {
        *outcount = MPI_UNDEFINED;
        return MPI_SUCCESS;
    }
    for(size_t i = cand.size(); i > 1; --i)
        std::swap(cand[i - 1], cand[L->rnd() % i]);
    if(L->max_batch && cand.size() > L->max_batch)
        cand.resize(L->max_batch);
    else if(cand.size() > 1 && L->rnd() % 3 == 0)
        cand.resize(1 + L->rnd() % cand.size());
    *outcount = cand.size();
    if(!cand.empty())
        L->batches++;
    L->multi += cand.size() > 1;
    L->out_of_order += !std::is_sorted(cand.begin(), cand.end());
    for(size_t i = 0; i < cand.size(); ++i)
    {
        int h = r[cand[i]];
        int q = L->by_handle[h];
        L->reqs[q].reported = true;
        L->by_handle[h] = -1; // may be used again
        indices[i] = cand[i];
        st[i] = MPI_Status{q + 100, q + 1000, 0, (unsigned long) q};
        r[cand[i]] = MPI_REQUEST_NULL;
    }
    return MPI_SUCCESS;
}

namespace sys
{
    void mpi_run(Gen& g)
    {
        vs::Config c = g.schedule();
        Lib lib;
        L = &lib;
        lib.g = &g;
        lib.order = g.choose(1 << 16);
        lib.max_batch = g.choose(4); // 0: any
        unsigned nw = 1 + g.choose(4);
        unsigned nt = 1 + g.choose(7);
        std::vector<unsigned> count(nt); // requests of each task, one after the other
        unsigned nq = 0;
        g.desc("%u workers, at most %u at once, requests per task:", nw, lib.max_batch);
        for(auto& x : count)
        {
            x = 1 + g.choose(3);
            g.desc(" %u", x);
            for(unsigned k = 0; k < x; ++k)
            {
                Req q;
                q.task = &x - &count[0];
                // complete as soon as it is issued
                q.completable = g.coin(1, 6);
                g.count(L_IMMEDIATE, q.completable);
                lib.reqs.push_back(q);
                ++nq;
            }
        }
        lib.by_handle.assign(nq, -1);
        g.count(L_REQUESTS, nq);
        bool poller = g.choose(2); // another thread polls all the time
        struct Op
        {
            unsigned kind, a;
        };
        std::vector<Op> ops(g.choose(16));
        g.desc("%s\nmain:", poller ? ", polling thread" : "");
        for(auto& o : ops)
        {
            o = {poller ? (unsigned) (2 * g.choose(2)) : g.weighted(4, 4, 2), (unsigned) g.choose(64)};
            g.desc(" %s(%u)", o.kind == 0 ? "complete" : o.kind == 1 ? "poll" : "rest", o.a);
        }
        g.desc("\n");
        uint64_t polls = 0;
        bool stop = false;
        arena::track_blocks = g.coin(1, 2);
        vs::begin(c);
        rg::init(nw);
        {
            auto pool = std::make_shared<rg::dispatch::mpi::RequestPool>();
            unsigned q = 0;
            for(unsigned t = 0; t < nt; ++t)
            {
                unsigned first = q, n = count[t];
                q += n;
                rg::emplace_task(
                    [pool, first, n]
                    {
                        for(unsigned k = 0; k < n; ++k)
                        {
                            unsigned id = first + k;
                            MPI_Request h;
                            {
                                vs::NoPoint np;
                                h = std::find(L->by_handle.begin(), L->by_handle.end(), -1) - L->by_handle.begin();
                                L->by_handle[h] = id;
                                L->reqs[id].handle = h;
                                L->reqs[id].issued = true;
                            }
                            MPI_Status s = pool->get_status(h);
                            vs::NoPoint np;
                            if(!L->reqs[id].reported)
                                pbt::fail("early", "waiter of request %u continues before the library reported it", id);
                            if(s.serial != id || s.MPI_TAG != (int) id + 1000 || s.MPI_SOURCE != (int) id + 100)
                                pbt::fail("status", "waiter of request %u received the status of request %lu", id, s.serial);
                            if(L->reqs[id].resumed)
                                pbt::fail("twice", "waiter of request %u continues twice", id);
                            L->reqs[id].resumed = true;
                        }
                    })
                    .enable_stack_switching();
            }
            auto rest = [&](bool end)
            {
                vs::quiesce();
                vs::NoPoint np;
                g.count(L_REST);
                for(unsigned i = 0; i < nq; ++i)
                {
                    Req& r = lib.reqs[i];
                    if(r.reported && !r.resumed)
                        pbt::fail("lost", "request %u was reported complete, its waiter sleeps", i);
                    if(r.issued && r.resumed && i + 1 < nq && lib.reqs[i + 1].task == r.task && !lib.reqs[i + 1].issued)
                        pbt::fail("lost", "task %d does not continue", r.task);
                    if(end && !r.resumed)
                        pbt::fail("lost", "request %u is never reported by the pool", i);
                }
            };
            std::thread pt;
            if(poller)
                pt = std::thread(
                    [&]
                    {
                        unsigned in_vain = 0;
                        while(!stop)
                        {
                            uint64_t b = lib.batches;
                            pool->poll();
                            {
                                vs::NoPoint np;
                                ++polls;
                                in_vain = lib.batches == b ? in_vain + 1 : 0;
                            }
                            // a request may be on its way into the pool: let the others go on
                            if(in_vain > 3)
                            {
                                vs::quiesce();
                                in_vain = 0;
                            }
                            // nothing to report: wait for a change
                            vs::wait_for(
                                [&]
                                {
                                    if(stop)
                                        return true;
                                    for(auto& r : lib.reqs)
                                        if(r.issued && r.completable && !r.reported)
                                            return true;
                                    return false;
                                });
                            vs::point();
                        }
                    });
            for(auto& o : ops)
                if(o.kind == 0)
                {
                    vs::NoPoint np;
                    std::vector<Req*> l;
                    for(auto& r : lib.reqs)
                        if(!r.completable)
                            l.push_back(&r);
                    if(!l.empty())
                        for(unsigned k = 0; k <= o.a / 16; ++k)
                            l[(o.a + 5 * k) % l.size()]->completable = true;
                }
                else if(o.kind == 1)
                {
                    pool->poll();
                    ++polls;
                }
                else
                    rest(false);
            {
                vs::NoPoint np;
                for(auto& r : lib.reqs)
                    r.completable = true;
            }
            if(poller)
            {
                vs::wait_for(
                    [&]
                    {
                        for(auto& r : lib.reqs)
                            if(!r.reported)
                                return false;
                        return true;
                    });
                stop = true;
                pt.join();
            }
            else
                for(unsigned k = 0; k < 4 * nq + 4; ++k)
                {
                    rest(false);
                    pool->poll();
                    ++polls;
                }
            rest(true);
            rg::barrier();
            // nothing is left behind
            if(size_t n = held(*pool, 0))
                pbt::fail("leftover", "the pool still holds %zu requests after all are complete", n);
        }
        rg::finalize();
        vs::end();
        g.count(L_POLLS, polls);
        g.count(L_BATCHES, lib.batches);
        g.count(L_MULTI, lib.multi);
        g.count(L_OUT_OF_ORDER, lib.out_of_order);
        if(lib.multi)
            g.nontrivial();
    }
} // namespace sys
