// P19: repeated work needs bounded memory
#include "sys.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/fieldresource.hpp>
#include <redGrapes/resource/ioresource.hpp>

#include <algorithm>
#include <memory>
#include <thread>
#include <vector>

namespace rg = redGrapes;

namespace sys
{
    using pbt::Gen;

    namespace
    {
        struct T
        {
            int parent;
            std::vector<std::pair<unsigned, bool>> acc;
            unsigned size; // captured bytes: 0, 1, 2
            unsigned fut; // 0: dropped, 1: kept and waited for, 2: kept and dropped after the batch
            bool yield, demote, event;
            std::vector<int> kids;
        };
        std::vector<T> tasks;
        std::vector<std::unique_ptr<rg::IOResource<int>>> res;
        unsigned counted, expected;
        std::vector<rg::scheduler::EventPtr> events;

        template<unsigned N>
        struct Load
        {
            char data[N];
        };

        void submit(int i, std::vector<rg::Future<int>>* futs);

        int body(int i)
        {
            T& t = tasks[i];
            for(int k : t.kids)
                submit(k, nullptr);
            if(t.demote)
            {
                std::vector<rg::ResourceAccess> none;
                rg::TaskProperties::Patch::Builder b;
                for(auto& a : t.acc)
                    if(a.second)
                        b.remove_resources({res[a.first]->write()});
                    else
                        b.remove_resources({res[a.first]->read()});
                rg::update_properties(b);
            }
            if(t.event)
            {
                auto e = *rg::create_event();
                vs::NoPoint np;
                events.push_back(e);
            }
            if(t.yield)
            {
                auto e = *rg::create_event();
                {
                    vs::NoPoint np;
                    events.push_back(e);
                }
                rg::yield(e);
            }
            vs::NoPoint np;
            ++counted;
            return i;
        }

        template<unsigned N>
        void submit_n(int i, std::vector<rg::Future<int>>* futs)
        {
            T& t = tasks[i];
            auto b = rg::emplace_task([i, load = Load<N>()] { return body(i); }).enable_stack_switching();
            for(auto& a : t.acc)
                if(a.second)
                    b.add_resource(res[a.first]->write());
                else
                    b.add_resource(res[a.first]->read());
            if(t.fut && futs)
                futs->push_back(b.submit());
        }

        void submit(int i, std::vector<rg::Future<int>>* futs)
        {
            switch(tasks[i].size)
            {
            case 0:
                return submit_n<1>(i, futs);
            case 1:
                return submit_n<300>(i, futs);
            default:
                return submit_n<3000>(i, futs);
            }
        }
    } // namespace

    void steady_run(Gen& g)
    {
        enum
        {
            L_TASKS,
            L_REPS,
            L_CHUNKS,
            L_WORKERS,
            L_NESTED,
            L_MOREWORKERS,
            L_LONG
        };
        vs::Config c = g.schedule();
        c.max_steps = 200'000'000;
        // few tasks over and over: shows what is kept for every hundredth task only
        #ifdef VERIF_STEADY
        bool marathon = g.coin(1, 4);
#else
        bool marathon = g.coin(1, 12);
#endif
        unsigned nw = marathon ? 1 + g.choose(2) : g.coin(1, 8) ? 9 + g.choose(4) : 1 + g.choose(4);
        unsigned nres = marathon ? g.choose(3) : g.choose(4);
        unsigned n = 1 + g.choose(marathon ? 3 : 8);
        bool keep_res = g.choose(marathon ? 8 : 2); // resources live across the repetitions
        bool per_task_rest = g.coin(1, 4);
        bool outlive = g.coin(1, 4); // the futures of a batch are dropped only after the next one
        unsigned reps = marathon ? 800 + g.choose(1200) : 40 + g.choose(40);
        if(marathon)
            per_task_rest = false;
        g.desc("%u workers, %u repetitions, %u resources%s%s\n", nw, reps, nres, keep_res ? " kept" : "",
               per_task_rest ? ", rest after each submission" : "");
        tasks.clear();
        events.clear();
        res.clear();
        for(unsigned i = 0; i < n; ++i)
        {
            T t{-1, {}, (unsigned) g.weighted(4, 2, 1), (unsigned) g.choose(3), g.coin(1, 5), g.coin(1, 6), g.coin(1, 6), {}};
            if(i && g.coin(1, 3))
            {
                t.parent = g.choose(i);
                if(tasks[t.parent].demote)
                    t.parent = -1;
            }
            for(unsigned r = 0; r < nres; ++r)
                if(g.coin(1, 2))
                {
                    bool w = g.choose(2);
                    if(t.parent >= 0)
                    {
                        bool in = false;
                        for(auto& a : tasks[t.parent].acc)
                            in |= a.first == r && (a.second || !w);
                        if(!in)
                            continue;
                    }
                    t.acc.push_back({r, w});
                }
            if(t.parent >= 0)
            {
                tasks[t.parent].kids.push_back(i);
                g.count(L_NESTED);
            }
            g.desc("t%u%s size %u future %u%s%s%s", i, t.parent >= 0 ? (" in t" + std::to_string(t.parent)).c_str() : "", t.size,
                   t.fut, t.yield ? " waits" : "", t.demote ? " narrows" : "", t.event ? " event" : "");
            for(auto& a : t.acc)
                g.desc(" %c%u", a.second ? 'w' : 'r', a.first);
            g.desc("\n");
            tasks.push_back(t);
        }
        arena::track_blocks = false;
        std::vector<size_t> chunks(reps), objs(reps), bytes(reps);
        vs::begin(c);
        rg::init(nw);
        {
            if(keep_res)
                for(unsigned r = 0; r < nres; ++r)
                    res.push_back(std::make_unique<rg::IOResource<int>>(0));
            std::vector<rg::Future<int>> old;
            old.reserve(n);
            events.reserve(2 * n);
            for(unsigned rep = 0; rep < reps; ++rep)
            {
                if(!keep_res)
                    for(unsigned r = 0; r < nres; ++r)
                        res.push_back(std::make_unique<rg::IOResource<int>>(0));
                std::vector<rg::Future<int>> futs;
                futs.reserve(n);
                {
                    vs::NoPoint np;
                    counted = 0;
                }
                for(unsigned i = 0; i < n; ++i)
                    if(tasks[i].parent < 0)
                    {
                        submit(i, &futs);
                        if(per_task_rest)
                            vs::quiesce();
                    }
                while(true)
                {
                    vs::quiesce();
                    std::vector<rg::scheduler::EventPtr> ev;
                    {
                        vs::NoPoint np;
                        ev = events;
                        events.clear();
                    }
                    if(ev.empty())
                        break;
                    for(auto& e : ev)
                        e.notify();
                }
                for(size_t i = 0; i < futs.size(); ++i)
                    if(i % 2)
                        futs[i].get();
                rg::barrier();
                if(counted != n)
                    pbt::fail("incomplete", "barrier returned after %u of %u tasks", counted, n);
                if(outlive)
                {
                    old.clear();
                    for(auto& f : futs)
                        old.push_back(std::move(f));
                }
                futs.clear();
                if(!keep_res)
                    res.clear();
                vs::quiesce();
                chunks[rep] = arena::chunk_count();
                objs[rep] = arena::new_live();
                bytes[rep] = arena::new_live_bytes();
            }
            old.clear();
            res.clear();
        }
        rg::finalize();
        vs::end();
        // grows: the smallest value late is larger than the largest value early by more than a few
        size_t h = reps / 2;
        auto early = [&](std::vector<size_t>& v) { return *std::max_element(v.begin() + 2, v.begin() + h); };
        auto late = [&](std::vector<size_t>& v) { return *std::min_element(v.end() - h / 2, v.end()); };
        size_t slack = nw + nres + 2;
        if(late(chunks) > early(chunks) + slack)
            pbt::fail("chunks", "after %u repetitions %zu chunks are in use, at most %zu during the first %zu", reps, late(chunks),
                      early(chunks), h);
        if(late(objs) > early(objs) + 4)
            pbt::fail("objects", "after %u repetitions %zu heap objects are alive, at most %zu during the first %zu", reps, late(objs),
                      early(objs), h);
        if(late(bytes) > early(bytes) + 4096)
            pbt::fail("bytes", "after %u repetitions %zu bytes of the heap are in use, at most %zu during the first %zu", reps,
                      late(bytes), early(bytes), h);
        g.count(L_TASKS, n * reps);
        g.count(L_REPS, reps);
        g.count(L_CHUNKS, chunks[reps - 1]);
        g.count(L_WORKERS, nw);
        g.count(L_MOREWORKERS, nw > 8);
        g.count(L_LONG, marathon);
        if(n > 1)
            g.nontrivial();
    }
} // namespace sys
