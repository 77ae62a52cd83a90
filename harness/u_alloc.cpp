// P13: arena allocator
#include "units.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/memory/allocator.hpp>
#include <redGrapes/memory/chunked_bump_alloc.hpp>
#include <redGrapes/dispatch/thread/worker_pool.hpp>

#include <algorithm>
#include <memory>
#include <thread>
#include <vector>

namespace rg = redGrapes;

namespace units
{
    using pbt::Gen;
    namespace
    {
        enum
        {
            L_ALLOC,
            L_FREE,
            L_REFUSED,
            L_FAILED,
            L_CHUNKS,
            L_THREADS,
            L_CROSS
        };

        struct Source
        {
            size_t live = 0, total = 0, peak = 0, failed = 0;
            std::vector<char> fail; // the i-th request fails
        };
        Source src;

        // backing allocator: the system
        struct SysAlloc
        {
            rg::memory::Block allocate(size_t n) const noexcept
            {
                vs::NoPoint np;
                size_t i = src.total++;
                if(i < src.fail.size() && src.fail[i])
                {
                    ++src.failed;
                    return rg::memory::Block::null();
                }
                ++src.live;
                src.peak = std::max(src.peak, src.live);
                return {(uintptr_t) arena::alloc(n, 4096), n};
            }
            void deallocate(rg::memory::Block b) const noexcept
            {
                vs::NoPoint np;
                --src.live;
                arena::free((void*) b.ptr);
            }
        };

        struct Blk
        {
            unsigned char* p;
            size_t n;
            unsigned char pat;
            unsigned thread, arena;
        };

        struct Op
        {
            unsigned kind; // 0 alloc 1 free 2 check
            size_t n;
            unsigned a;
        };

        size_t gen_size(Gen& g, size_t chunk)
        {
            switch(g.weighted(6, 2, 2, 1, 1))
            {
            case 0:
                return 1 + g.choose(chunk / 2);
            case 1:
                return chunk / 2 + g.choose(chunk / 2 + 1);
            case 2:
                return chunk - std::min<size_t>(chunk, g.choose(3)) + g.choose(4);
            case 3:
                return chunk + 1 + g.log2val(20);
            default:
                return g.choose(3);
            }
        }

        size_t pow2(size_t n)
        {
            size_t p = 1;
            while(p < n)
                p *= 2;
            return p;
        }

        struct Pool
        {
            std::vector<Blk> live;
            uint64_t n_alloc = 0, n_free = 0, n_refused = 0, n_cross = 0;
            unsigned char next_pat = 1;

            void check_content(Blk const& b)
            {
                // instrumented reads: released memory is noticed as well
                for(size_t i = 0; i < b.n; i += (i < 64 || i + 64 > b.n) ? 1 : 61)
                    if(b.p[i] != b.pat)
                        pbt::fail("content", "content of a live block of %zu bytes was changed", b.n);
            }

            void add(Blk b)
            {
                {
                    vs::NoPoint np;
                    ++n_alloc;
                    for(auto& o : live)
                        if(b.p < o.p + o.n && o.p < b.p + b.n)
                            pbt::fail("overlap", "new block of %zu bytes overlaps a live block of %zu bytes", b.n, o.n);
                    next_pat = next_pat % 255 + 1;
                    b.pat = next_pat;
                    live.push_back(b);
                    memset(b.p, b.pat, b.n);
                    if(b.n)
                        arena::check(b.p, b.n, true, __builtin_return_address(0));
                }
            }

            // takes a block out
            bool take(unsigned a, unsigned t, bool own, Blk& b)
            {
                vs::NoPoint np;
                std::vector<size_t> c;
                for(size_t i = 0; i < live.size(); ++i)
                    if(!own || live[i].thread == t)
                        c.push_back(i);
                if(c.empty())
                    return false;
                size_t i = c[a % c.size()];
                b = live[i];
                live.erase(live.begin() + i);
                ++n_free;
                n_cross += b.thread != t;
                return true;
            }
        };

        std::vector<std::vector<Op>> gen_prog(Gen& g, unsigned nt, size_t chunk)
        {
            std::vector<std::vector<Op>> prog(nt);
            for(auto& p : prog)
            {
                unsigned n = 1 + g.choose(nt == 1 ? 60 : 20);
                unsigned wf = 2 + g.choose(8);
                g.desc("thread:");
                for(unsigned i = 0; i < n; ++i)
                {
                    Op o{g.weighted(6, wf, 1), 0, 0};
                    if(o.kind == 0)
                    {
                        o.n = gen_size(g, chunk);
                        o.a = g.choose(8);
                        g.desc(" alloc(%zu)", o.n);
                    }
                    else
                    {
                        o.a = g.choose(64);
                        o.n = g.choose(3);
                        g.desc(" %s(%u%s)", o.kind == 1 ? "free" : "check", o.a, o.n ? "" : ",any");
                    }
                    p.push_back(o);
                }
                g.desc("\n");
            }
            return prog;
        }
    } // namespace

    void alloc_run(Gen& g)
    {
        vs::Config c = g.schedule();
        unsigned nt = 1 + g.choose(4);
        size_t chunk = g.coin(1, 3) ? 16 + g.choose(500) : size_t(32) << g.choose(6);
        src = Source();
        g.desc("chunks of %zu bytes, %u threads", chunk, nt);
        g.count(L_THREADS, nt);
        if(g.coin(1, 5))
        {
            src.fail.resize(1 + g.choose(10));
            for(auto& f : src.fail)
            {
                f = g.choose(2);
                g.desc("%s", f ? " F" : " ok");
            }
        }
        g.desc("\n");
        auto prog = gen_prog(g, nt, chunk);
        Pool pool;
        vs::begin(c);
        {
            rg::memory::ChunkedBumpAlloc<SysAlloc> al(SysAlloc(), chunk);
            uint64_t fails_seen = 0;
            auto body = [&](unsigned t)
            {
                for(auto& o : prog[t])
                    if(o.kind == 0)
                    {
                        size_t total, failed;
                        {
                            vs::NoPoint np;
                            total = src.total;
                            failed = src.failed;
                        }
                        rg::memory::Block b = al.allocate(o.n);
                        if(!b)
                        {
                            vs::NoPoint np;
                            ++pool.n_refused;
                            // may be refused: too large, or the system gave nothing
                            if(o.n <= chunk / 2 && src.failed == failed)
                                pbt::fail("refused", "request of %zu bytes refused (chunks of %zu bytes)", o.n, chunk);
                            if(o.n > chunk && nt == 1 && src.total != total)
                                pbt::fail("side-effect", "a request too large for any chunk took a chunk");
                            fails_seen += src.failed != failed;
                            continue;
                        }
                        if(b.len < o.n)
                            pbt::fail("short", "request of %zu bytes yields a block of %zu bytes", o.n, b.len);
                        pool.add({(unsigned char*) b.ptr, o.n, 0, t, 0});
                    }
                    else if(o.kind == 1)
                    {
                        Blk b;
                        if(pool.take(o.a, t, o.n != 0, b))
                        {
                            pool.check_content(b);
                            al.deallocate({(uintptr_t) b.p, b.n});
                        }
                    }
                    else
                    {
                        Blk b;
                        if(pool.take(o.a, t, false, b))
                        {
                            pool.check_content(b);
                            vs::NoPoint np;
                            --pool.n_free;
                            pool.live.push_back(b);
                        }
                    }
            };
            std::vector<std::thread> ts;
            for(unsigned t = 1; t < nt; ++t)
                ts.emplace_back(body, t);
            body(0);
            for(auto& t : ts)
                t.join();
            // chunks in use: at most one per live block, the current one and the ones not unlinked yet
            auto bound = [&](char const* when)
            {
                if(src.live > pool.live.size() + 2 + nt)
                    pbt::fail("chunks", "%s, %zu chunks are held for %zu live blocks", when, src.live, pool.live.size());
            };
            bound("at rest");
            Blk b;
            while(pool.take(0, 0, false, b))
            {
                pool.check_content(b);
                al.deallocate({(uintptr_t) b.p, b.n});
            }
            bound("after everything was released");
            // memory is usable again: one more round of single blocks stays bounded
            size_t before = src.live;
            src.fail.clear();
            for(int i = 0; i < 12; ++i)
            {
                rg::memory::Block x = al.allocate(chunk / 2);
                if(!x)
                    pbt::fail("refused", "request of half a chunk refused after everything was released");
                al.deallocate(x);
            }
            if(src.live > before + 2)
                pbt::fail("chunks", "allocating and releasing 12 blocks one by one raised the chunks held from %zu to %zu", before,
                          src.live);
            if(src.total > 1 && pool.n_free)
                g.nontrivial();
        }
        if(src.live)
            pbt::fail("leak", "%zu chunks were not given back when the allocator was destroyed", src.live);
        vs::end();
        g.count(L_ALLOC, pool.n_alloc);
        g.count(L_FREE, pool.n_free);
        g.count(L_REFUSED, pool.n_refused);
        g.count(L_FAILED, src.failed);
        g.count(L_CHUNKS, src.total);
        g.count(L_CROSS, pool.n_cross);
    }

    // the same through the interface of the runtime: arenas of the workers
    void allocapi_run(Gen& g)
    {
        vs::Config c = g.schedule();
        unsigned nt = 1 + g.choose(3);
        unsigned nw = 1 + g.choose(4);
        size_t chunk = REDGRAPES_ALLOC_CHUNKSIZE;
        g.desc("%u workers, %u threads\n", nw, nt);
        g.count(L_THREADS, nt);
        auto prog = gen_prog(g, nt, chunk);
        Pool pool;
        arena::track_blocks = false;
        vs::begin(c);
        rg::init(nw);
        unsigned used = 0;
        {
            size_t chunks0 = arena::chunk_count();
            auto body = [&](unsigned t)
            {
                for(auto& o : prog[t])
                    if(o.kind == 0)
                    {
                        unsigned ar = o.a % (nw + 1); // ids beyond the number of workers wrap around
                        rg::memory::Block b = rg::memory::Allocator(ar).allocate(o.n);
                        if(!b)
                        {
                            ++pool.n_refused;
                            if(o.n <= chunk / 2)
                                pbt::fail("refused", "request of %zu bytes refused (chunks of %zu bytes)", o.n, chunk);
                            continue;
                        }
                        if(b.len < o.n)
                            pbt::fail("short", "request of %zu bytes yields a block of %zu bytes", o.n, b.len);
                        used |= 1u << (ar % nw);
                        pool.add({(unsigned char*) b.ptr, o.n, 0, t, ar});
                    }
                    else
                    {
                        Blk b;
                        if(pool.take(o.a, t, o.n != 0, b))
                        {
                            pool.check_content(b);
                            rg::memory::Allocator(b.arena).deallocate({(uintptr_t) b.p, b.n});
                        }
                    }
            };
            std::vector<std::thread> ts;
            for(unsigned t = 1; t < nt; ++t)
                ts.emplace_back(body, t);
            body(0);
            for(auto& t : ts)
                t.join();
            for(auto& b : pool.live)
                pool.check_content(b);
            size_t now = arena::chunk_count();
            if(now > chunks0 + pool.live.size() + nw * (2 + nt))
                pbt::fail("chunks", "%zu chunks are held for %zu live blocks", now, pool.live.size());
            Blk b;
            while(pool.take(0, 0, false, b))
                rg::memory::Allocator(b.arena).deallocate({(uintptr_t) b.p, b.n});
            now = arena::chunk_count();
            if(now > chunks0 + nw * (2 + nt))
                pbt::fail("chunks", "%zu chunks are held after everything was released, %zu at the beginning", now, chunks0);
            g.count(L_CHUNKS, now);
        }
        rg::finalize();
        vs::end();
        if((used & (used - 1)) && pool.n_cross)
            g.nontrivial();
        g.count(L_ALLOC, pool.n_alloc);
        g.count(L_FREE, pool.n_free);
        g.count(L_REFUSED, pool.n_refused);
        g.count(L_CROSS, pool.n_cross);
    }
} // namespace units
