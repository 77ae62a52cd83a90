// P27: events of the device runtime are recycled, but never shared
#include "units.hpp"

#include <cstddef>

namespace units
{
    void mock_create(uint64_t*);
    void mock_destroy(uint64_t);

    namespace mock
    {
        // two unrelated kinds of handles, like those of the two device runtimes
        struct CudaEvent
        {
            uint64_t v = 0;
        };

        struct CuplaEvent
        {
            uint64_t v = 0;
        };
    } // namespace mock
} // namespace units

using cudaEvent_t = units::mock::CudaEvent;
using cuplaEvent_t = units::mock::CuplaEvent;

static int cudaEventCreate(cudaEvent_t* e)
{
    units::mock_create(&e->v);
    return 0;
}

static int cudaEventDestroy(cudaEvent_t e)
{
    units::mock_destroy(e.v);
    return 0;
}

static int cuplaEventCreate(cuplaEvent_t* e)
{
    units::mock_create(&e->v);
    return 0;
}

static int cuplaEventDestroy(cuplaEvent_t e)
{
    units::mock_destroy(e.v);
    return 0;
}

#include <redGrapes/dispatch/cuda/event_pool.hpp>
#include <redGrapes/dispatch/cupla/event_pool.hpp>

#include <algorithm>
#include <memory>
#include <thread>
#include <vector>

namespace units
{
    using pbt::Gen;

    namespace
    {
        enum Where
        {
            UNUSED, // in the pool or on the way back
            HELD,
            DESTROYED
        };

        std::vector<Where> where;
        bool alive;
        unsigned asking, in_use, returning, most; // requests under way, events handed out and on their way back, most needed at once
        unsigned created, destroyed;

        // what is in use or may be on its way
        void demand()
        {
            most = std::max(most, asking + in_use + returning);
        }
    } // namespace

    void mock_create(uint64_t* e)
    {
        vs::point(); // the device runtime takes its time
        vs::NoPoint np;
        where.push_back(UNUSED);
        *e = where.size() + 1000;
        ++created;
    }

    void mock_destroy(uint64_t e)
    {
        vs::point();
        vs::NoPoint np;
        if(e <= 1000 || e > where.size() + 1000)
            pbt::fail("destroy", "something is destroyed which is no event");
        Where& w = where[e - 1001];
        if(w != UNUSED)
            pbt::fail("destroy", "event %u is destroyed %s", (unsigned) (e - 1001), w == DESTROYED ? "twice" : "but still in use");
        if(alive)
            pbt::fail("destroy", "event %u is destroyed before the pool", (unsigned) (e - 1001));
        w = DESTROYED;
        ++destroyed;
    }

    namespace
    {
        enum
        {
            L_ALLOCS,
            L_RECYCLED,
            L_FREES,
            L_PASSED,
            L_THREADS,
            L_OVERLAPS
        };

        template<typename Pool, typename E>
        void run(Gen& g)
        {
            vs::Config c = g.schedule();
            unsigned nt = 1 + g.choose(4);
            unsigned rounds = 1 + g.choose(2);
            std::vector<std::vector<unsigned>> prog(nt * rounds); // 0: alloc, 1+k: free the k-th held (modulo)
            g.desc("%u threads:", nt);
            for(auto& p : prog)
            {
                unsigned n = g.choose(9);
                g.desc(" (");
                for(unsigned i = 0; i < n; ++i)
                {
                    unsigned k = g.coin(1, 2) ? 0 : 1 + g.choose(6);
                    p.push_back(k);
                    k ? g.desc("-%u", k - 1) : g.desc("+");
                }
                g.desc(")");
            }
            g.desc("\n");
            g.count(L_THREADS, nt);
            where.clear();
            created = destroyed = asking = in_use = returning = most = 0;
            uint64_t allocs = 0, frees = 0, overlaps = 0;
            unsigned inside = 0, passed = 0;
            std::vector<std::pair<E, unsigned>> held; // by whom it was obtained
            vs::begin(c);
            {
                auto pool = std::make_unique<Pool>();
                alive = true;
                auto body = [&](unsigned t, std::vector<unsigned> const& p)
                {
                    for(unsigned k : p)
                        if(k == 0)
                        {
                            {
                                vs::NoPoint np;
                                ++asking;
                                overlaps += inside++ > 0;
                                demand();
                            }
                            E e = pool->alloc();
                            vs::NoPoint np;
                            --asking;
                            ++in_use;
                            --inside;
                            ++allocs;
                            if(e.v <= 1000 || e.v > where.size() + 1000)
                                pbt::fail("stranger", "the pool hands out something which is no event");
                            Where& w = where[e.v - 1001];
                            if(w == HELD)
                                pbt::fail("shared", "event %u is handed out to two holders", (unsigned) (e.v - 1001));
                            if(w == DESTROYED)
                                pbt::fail("dead", "event %u is handed out after it was destroyed", (unsigned) (e.v - 1001));
                            w = HELD;
                            held.push_back({e, t});
                        }
                        else
                        {
                            E e;
                            {
                                vs::NoPoint np;
                                if(held.empty())
                                    continue;
                                unsigned i = (k - 1) % held.size();
                                e = held[i].first;
                                passed += held[i].second != t;
                                held.erase(held.begin() + i);
                                where[e.v - 1001] = UNUSED;
                                --in_use;
                                ++returning;
                                overlaps += inside++ > 0;
                            }
                            pool->free(e);
                            vs::NoPoint np;
                            --inside;
                            --returning;
                            ++frees;
                        }
                };
                for(unsigned r = 0; r < rounds; ++r)
                {
                    std::vector<std::thread> ts;
                    for(unsigned t = 1; t < nt; ++t)
                        ts.emplace_back([&, t, r] { body(t, prog[r * nt + t]); });
                    body(0, prog[r * nt]);
                    for(auto& t : ts)
                        t.join();
                    if(created > most)
                        pbt::fail("recycle", "%u events were created although at most %u were needed at once", created, most);
                }
                {
                    vs::NoPoint np;
                    alive = false;
                }
                pool.reset();
                for(size_t i = 0; i < where.size(); ++i)
                    if(where[i] == UNUSED)
                        pbt::fail("kept", "event %zu was given back, but is not destroyed with the pool", i);
            }
            vs::end();
            g.count(L_ALLOCS, allocs);
            g.count(L_RECYCLED, allocs - created);
            g.count(L_FREES, frees);
            g.count(L_PASSED, passed);
            g.count(L_OVERLAPS, overlaps);
            if(allocs > created && overlaps)
                g.nontrivial();
        }
    } // namespace

    void gpu_run(Gen& g)
    {
        if(g.choose(2))
            run<redGrapes::dispatch::cupla::EventPool, cuplaEvent_t>(g);
        else
            run<redGrapes::dispatch::cuda::EventPool, cudaEvent_t>(g);
    }
} // namespace units
