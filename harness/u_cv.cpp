// P15: CondVar
#include "units.hpp"

#include <redGrapes/sync/cv.hpp>

#include <thread>
#include <vector>

namespace units
{
    using pbt::Gen;

    void cv_run(Gen& g)
    {
        enum
        {
            L_WAITS,
            L_NOTES,
            L_FIRST,
            L_OVERLAP,
            L_REST,
            L_NOTIFIERS
        };
        vs::Config c = g.schedule();
        unsigned nn = 1 + g.choose(3); // notifiers
        unsigned to = g.choose(5); // spins before sleeping
        unsigned waits = 1 + g.choose(4);
        std::vector<std::vector<unsigned>> prog(nn); // per notifier: pauses between notifications
        for(auto& p : prog)
        {
            p.resize(g.choose(5));
            for(auto& x : p)
                x = g.choose(3); // 0: at once, 1: when the waiter waits, 2: a little later
        }
        unsigned main_rest = g.choose(4); // how often the main thread looks at the state at rest
        g.desc("sleep after %u spins, %u waits, notifiers:", to, waits);
        for(auto& p : prog)
        {
            g.desc(" (");
            for(unsigned x : p)
                g.desc("%u", x);
            g.desc(")");
        }
        g.desc(" rest states %u\n", main_rest);
        g.count(L_NOTIFIERS, nn);

        uint64_t volatile returns = 0, first = 0;
        uint64_t notes = 0, overlaps = 0;
        unsigned inflight = 0; // notifications in progress
        bool volatile in_wait = false, done = false;
        uint64_t wait_start = 0;
        uint64_t last_note_start = 0; // start of the latest completed notification
        uint64_t notes_started_in_wait = 0;

        vs::begin(c);
        {
            redGrapes::CondVar cv(to);
            auto note = [&]
            {
                uint64_t s;
                {
                    vs::NoPoint np;
                    s = tick();
                    ++inflight;
                    ++notes;
                    if(in_wait)
                        ++overlaps;
                }
                bool f = cv.notify();
                vs::NoPoint np;
                --inflight;
                first += f;
                if(s > last_note_start)
                    last_note_start = s;
            };
            std::thread waiter(
                [&]
                {
                    for(unsigned i = 0; i < waits; ++i)
                    {
                        {
                            vs::NoPoint np;
                            in_wait = true;
                            wait_start = tick();
                        }
                        cv.wait();
                        vs::NoPoint np;
                        in_wait = false;
                        ++returns;
                        // every return uses up one first notification; those in progress may count already
                        if(returns > first + inflight)
                            pbt::fail("unfounded-return", "wait returned %lu times after %lu first notifications (%u in progress)",
                                      returns, first, inflight);
                    }
                    done = true;
                });
            std::vector<std::thread> ts;
            for(unsigned n = 0; n < nn; ++n)
                ts.emplace_back(
                    [&, n]
                    {
                        for(unsigned x : prog[n])
                        {
                            if(x == 1)
                                vs::wait_for([&] { return in_wait || done; });
                            else if(x == 2)
                                for(int i = 0; i < 8; ++i)
                                    vs::point();
                            note();
                        }
                    });
            auto rest = [&]
            {
                vs::quiesce();
                vs::NoPoint np;
                g.count(L_REST);
                if(in_wait && last_note_start > wait_start)
                    pbt::fail("lost", "the waiter sleeps although it was notified after its wait began");
                if(in_wait && !inflight && first > returns)
                    pbt::fail("lost", "the waiter sleeps although a notification was not used up (%lu first, %lu returns)", (unsigned long) first,
                              (unsigned long) returns);
                if(!inflight && first != returns && first != returns + 1)
                    pbt::fail("first-notify", "%lu notifications were told to be the first one, wait returned %lu times", first,
                              returns);
                if(!inflight && first == returns && !in_wait && !done)
                    pbt::fail("internal", "waiter is neither waiting nor done");
            };
            for(unsigned i = 0; i < main_rest; ++i)
            {
                rest();
                if(!done)
                    note();
            }
            for(auto& t : ts)
                t.join();
            while(true)
            {
                rest();
                if(done)
                    break;
                uint64_t r = returns;
                note();
                rest();
                if(returns == r)
                    pbt::fail("lost", "a notification did not wake the waiter");
            }
            waiter.join();
        }
        vs::end();
        g.count(L_WAITS, returns);
        g.count(L_NOTES, notes);
        g.count(L_FIRST, first);
        g.count(L_OVERLAP, overlaps);
        if(overlaps)
            g.nontrivial();
    }
} // namespace units
