// P18: idle workers are used
#include "sys.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>

#include <memory>
#include <thread>
#include <vector>

namespace rg = redGrapes;

namespace sys
{
    using pbt::Gen;

    void spread_run(Gen& g)
    {
        enum
        {
            L_WORKERS,
            L_32,
            L_64,
            L_WARM,
            L_SUBMITTED,
            L_READY,
            L_ROUNDS
        };
        vs::Config c = g.schedule();
        c.max_steps = 200'000'000; // many workers spin
        unsigned n;
        switch(g.weighted(60, 20, 6, 1, 1))
        {
        case 0:
            n = 1 + g.choose(4);
            break;
        case 1:
            n = 1 + g.choose(8);
            break;
        case 2:
            n = 1 + g.choose(20);
            break;
        case 3:
            n = 30 + g.choose(6);
            break;
        default:
            n = 62 + g.choose(10);
        }
        g.count(L_WORKERS, n);
        g.count(L_32, n > 32);
        g.count(L_64, n > 64);
        struct Round
        {
            unsigned warm; // short tasks before
            unsigned kind; // 0: independent tasks 1: common predecessor 2: several predecessors 3: some behind events, some new
            unsigned k;
            unsigned style; // how the predecessor is expressed
            bool from_task; // one task submits the others
            unsigned preds;
            unsigned fresh; // kind 3: that many are submitted right before the events are notified
        };
        std::vector<Round> rounds(1 + g.choose(n > 20 ? 1 : 4));
        g.desc("%u workers\n", n);
        for(auto& r : rounds)
        {
            r.warm = g.coin(1, 2) ? g.choose(n > 20 ? 8 : 2 * n + 3) : 0;
            r.kind = g.choose(4);
            r.k = g.choose(3) == 0 ? 1 + g.choose(n) : n;
            r.style = g.choose(3);
            r.from_task = g.coin(1, 4);
            r.preds = 1 + g.choose(3);
            if(r.kind == 2 && r.preds > n)
                r.preds = n;
            r.fresh = r.kind == 3 ? g.choose(r.k + 1) : 0;
            g.desc("%u short tasks, then %u %s%s\n", r.warm, r.k,
                   r.kind == 0   ? "independent tasks"
                   : r.kind == 1 ? "tasks behind one"
                   : r.kind == 2 ? "tasks behind several"
                                 : "tasks behind external events",
                   r.from_task ? " submitted by a task" : "");
            if(r.kind == 3)
                g.desc("  (%u events; %u of the tasks are new and independent)\n", r.preds, r.fresh);
            g.count(L_WARM, r.warm);
            g.count(L_ROUNDS);
            g.count(r.kind == 0 ? L_SUBMITTED : L_READY, r.k);
            if(r.k > 1)
                g.nontrivial();
        }
        arena::track_blocks = g.coin(1, 2);
        static unsigned started, phase, round_no;
        static bool open;
        started = phase = round_no = 0;
        vs::on_hang = [](char* buf, size_t sz)
        { snprintf(buf, sz, "round %u: only %u of the tasks run at the same time", round_no, started); };
        vs::begin(c);
        rg::init(n);
        {
            for(auto& r : rounds)
            {
                vs::quiesce();
                {
                    vs::NoPoint np;
                    started = 0;
                    open = false;
                    ++round_no;
                }
                for(unsigned i = 0; i < r.warm; ++i)
                    rg::emplace_task([] {});
                vs::quiesce();
                unsigned k = r.k;
                auto meet = [k]
                {
                    {
                        vs::NoPoint np;
                        ++started;
                    }
                    // does not return until all have started
                    vs::wait_for([k] { return started >= k; });
                };
                auto gate = [] { vs::wait_for([] { return open; }); };
                std::vector<std::unique_ptr<rg::IOResource<int>>> own, ps;
                std::vector<rg::scheduler::EventPtr> events(r.preds);
                auto submit = [&]
                {
                    own.push_back(std::make_unique<rg::IOResource<int>>(0));
                    rg::IOResource<int>& a = *own.back();
                    if(r.kind == 0)
                    {
                        for(unsigned i = 0; i < k; ++i)
                        {
                            if(r.style == 0)
                                rg::emplace_task([meet] { meet(); });
                            else if(r.style == 1)
                                rg::emplace_task([meet](auto) { meet(); }, a.read());
                            else
                            {
                                own.push_back(std::make_unique<rg::IOResource<int>>(0));
                                rg::emplace_task([meet](auto) { meet(); }, own.back()->write());
                            }
                        }
                        return;
                    }
                    // the last of the predecessors to finish makes all of them ready
                    unsigned np = r.kind == 1 ? 1 : r.preds;
                    for(unsigned i = 0; i < np; ++i)
                    {
                        ps.push_back(std::make_unique<rg::IOResource<int>>(0));
                        auto* e = &events[i];
                        if(r.kind == 3)
                            rg::emplace_task([e](auto) { *e = *rg::create_event(); }, ps[i]->write());
                        else
                            rg::emplace_task([gate](auto) { gate(); }, ps[i]->write());
                    }
                    for(unsigned i = r.fresh; i < k; ++i)
                    {
                        auto t = rg::emplace_task([meet] { meet(); });
                        if(r.kind == 3 && r.style == 0)
                            t.add_resource(ps[i % np]->read());
                        else
                            for(auto& p : ps)
                                t.add_resource(p->read());
                        if(r.style == 2)
                        {
                            own.push_back(std::make_unique<rg::IOResource<int>>(0));
                            t.add_resource(own.back()->write());
                        }
                    }
                };
                if(r.from_task)
                {
                    // the task is over before all of them have started
                    rg::emplace_task([&submit] { submit(); }).submit().get();
                }
                else
                    submit();
                if(r.kind == 3)
                {
                    vs::quiesce();
                    // all workers are idle now
                    for(unsigned i = 0; i < r.fresh; ++i)
                        rg::emplace_task([meet] { meet(); });
                    for(auto& e : events)
                        e.notify();
                }
                else if(r.kind)
                {
                    // every successor has found its predecessors, if there is someone to do that
                    if(r.style != 1)
                        vs::quiesce();
                    vs::NoPoint p;
                    open = true;
                }
                vs::wait_for([k] { return started >= k; });
                vs::quiesce();
            }
        }
        rg::finalize();
        vs::end();
    }
} // namespace sys
