// P04: the queues which hand tasks to the workers
#include "units.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/task/queue.hpp>
#include <redGrapes/task/task.hpp>

#include <memory>
#include <thread>
#include <vector>

namespace rg = redGrapes;

namespace units
{
    using pbt::Gen;

    void queue_run(Gen& g)
    {
        enum
        {
            L_PUSH,
            L_POP,
            L_EMPTY,
            L_DRAINED,
            L_THREADS,
            L_RACES
        };
        constexpr uint64_t NEVER = ~0ull;
        struct Item
        {
            uint64_t push_b = NEVER, push_e = NEVER, pop_b = NEVER;
            unsigned taken = 0;
        };
        struct Nothing
        {
            uint64_t b, e;
        };
        vs::Config c = g.schedule();
        unsigned nt = 2 + g.choose(3);
        unsigned n_pre = g.choose(4);
        bool sized = g.choose(2);
        unsigned cap = g.choose(2) ? 32 : 1 + g.choose(70);
        std::vector<std::vector<unsigned>> prog(nt); // 0: pop, 1: push, 2: pop until something came
        unsigned pushes = n_pre, must = 0;
        bool burst = g.coin(1, 12);
        g.desc("queue of %u, %u at first, %u threads:", sized ? cap : 0, n_pre, nt);
        for(auto& p : prog)
        {
            unsigned n = 1 + g.choose(burst ? 80 : 6);
            g.desc(" (");
            for(unsigned i = 0; i < n; ++i)
            {
                unsigned k = g.weighted(5, 4, 2);
                if(k == 2 && must >= pushes) // nothing would be left for it
                    k = 0;
                pushes += k == 1;
                must += k == 2;
                p.push_back(k);
                g.desc("%s", k == 0 ? "-" : k == 1 ? "+" : "!");
            }
            g.desc(")");
        }
        g.desc("\n");
        g.count(L_THREADS, nt);
        std::vector<Item> item(pushes);
        std::vector<Nothing> nothing;
        // never dereferenced by the queue
        auto name = [](unsigned i) { return reinterpret_cast<rg::Task*>(uintptr_t(0x100000 + 64 * i)); };
        unsigned n_items = 0;
        unsigned popping = 0, races = 0;
        uint64_t pops = 0;

        vs::begin(c);
        {
            auto q = sized ? std::make_unique<rg::task::Queue>(cap) : std::make_unique<rg::task::Queue>();
            auto push = [&]
            {
                unsigned i;
                {
                    vs::NoPoint np;
                    i = n_items++;
                    item[i].push_b = tick();
                }
                q->push(name(i));
                vs::NoPoint np;
                item[i].push_e = tick();
            };
            auto pop = [&]() -> bool
            {
                uint64_t b;
                {
                    vs::NoPoint np;
                    b = tick();
                    races += popping++ > 0;
                }
                rg::Task* t = q->pop();
                vs::NoPoint np;
                --popping;
                if(!t)
                {
                    nothing.push_back({b, tick()});
                    return false;
                }
                uintptr_t i = ((uintptr_t) t - 0x100000) / 64;
                if((uintptr_t) t < 0x100000 || i >= n_items || name(i) != t)
                    pbt::fail("stranger", "the queue returned a task which was never put into it");
                if(item[i].taken++)
                    pbt::fail("twice", "task %u was taken from the queue twice", (unsigned) i);
                item[i].pop_b = b;
                ++pops;
                return true;
            };
            for(unsigned i = 0; i < n_pre; ++i)
                push();
            auto body = [&](unsigned t)
            {
                for(unsigned k : prog[t])
                    if(k == 1)
                        push();
                    else if(k == 0)
                        pop();
                    else
                    {
                        // like a worker: looks again only when something is added
                        unsigned had = n_items;
                        while(!pop())
                        {
                            if(n_items == had)
                                break;
                            had = n_items;
                        }
                    }
            };
            std::vector<std::thread> ts;
            for(unsigned t = 1; t < nt; ++t)
                ts.emplace_back(body, t);
            body(0);
            for(auto& t : ts)
                t.join();
            // all is quiet: the rest must come out, one by one
            while(true)
            {
                unsigned left = n_items - pops;
                bool e = q->empty();
                if(e != (left == 0))
                    pbt::fail("empty", "empty() is %d with %u tasks in the queue", e, left);
                if(!pop())
                {
                    if(left)
                        pbt::fail("lost", "%u tasks are left in the queue, but it returns none", left);
                    break;
                }
                g.count(L_DRAINED);
            }
            q.reset();
        }
        vs::end();
        for(unsigned i = 0; i < n_items; ++i)
            if(item[i].taken != 1)
                pbt::fail("lost", "task %u was never taken from the queue", i);
        for(auto& z : nothing)
            for(unsigned i = 0; i < n_items; ++i)
                if(item[i].push_e < z.b && item[i].pop_b > z.e)
                    pbt::fail("overlooked", "a worker found nothing in the queue while task %u was in it all the time", i);
        g.count(L_PUSH, n_items);
        g.count(L_POP, pops);
        g.count(L_EMPTY, nothing.size());
        g.count(L_RACES, races);
        if(races && nothing.size() > 1)
            g.nontrivial();
    }
} // namespace units
