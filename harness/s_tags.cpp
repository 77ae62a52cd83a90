// P16: dispatch by scheduling tags
#include "sys.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <redGrapes/scheduler/default_scheduler.hpp>
#include <redGrapes/scheduler/tag_match.hpp>

#include <spdlog/spdlog.h>

#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

namespace rg = redGrapes;

namespace sys
{
    using pbt::Gen;
    using Tags = std::bitset<64>;

    void warm()
    {
        spdlog::set_level(spdlog::level::off);
        (void) rg::SingletonContext::get();
    }

    namespace
    {
        // index of the first scheduler which supports all tags, -1: none
        int model_match(std::vector<Tags> const& sup, Tags const& t)
        {
            for(size_t i = 0; i < sup.size(); ++i)
            {
                bool all = true;
                for(unsigned k = 0; k < 64; ++k)
                    if(t.test(k) && !sup[i].test(k))
                        all = false;
                if(all)
                    return i;
            }
            return -1;
        }

        unsigned gen_tag(Gen& g)
        {
            static unsigned const high[] = {0, 1, 2, 3, 31, 32, 33, 62, 63};
            return g.coin(1, 4) ? high[g.choose(9)] : g.choose(4);
        }

        Tags gen_tags(Gen& g, unsigned max)
        {
            Tags t;
            unsigned n = g.choose(max + 1);
            for(unsigned i = 0; i < n; ++i)
                t.set(gen_tag(g));
            return t;
        }

        std::string str(Tags const& t)
        {
            std::string s = "{";
            for(unsigned i = 0; i < 64; ++i)
                if(t.test(i))
                    s += (s.size() > 1 ? "," : "") + std::to_string(i);
            return s + "}";
        }

        struct Call
        {
            int sched;
            int what; // 0 emplace 1 activate 2 dependency 3 wake 4 wake_all 5 steal
            void const* a;
            void const* b;
            int arg;
        };

        struct Fake : rg::scheduler::IScheduler
        {
            int id;
            std::vector<Call>& log;
            bool wakes = false, dep = false;
            rg::Task* stolen = nullptr;
            Fake(int id, std::vector<Call>& log) : id(id), log(log)
            {
            }
            bool task_dependency_type(rg::Task const& a, rg::Task const& b) override
            {
                log.push_back({id, 2, &a, &b, 0});
                return dep;
            }
            void emplace_task(rg::Task& t) override
            {
                log.push_back({id, 0, &t, nullptr, 0});
            }
            void activate_task(rg::Task& t) override
            {
                log.push_back({id, 1, &t, nullptr, 0});
            }
            rg::Task* steal_task(rg::dispatch::thread::Worker&) override
            {
                log.push_back({id, 5, nullptr, nullptr, 0});
                return stolen;
            }
            void wake_all() override
            {
                log.push_back({id, 4, nullptr, nullptr, 0});
            }
            bool wake(rg::scheduler::WakerId w) override
            {
                log.push_back({id, 3, nullptr, nullptr, w});
                return wakes;
            }
        };
    } // namespace

    void tags_api_run(Gen& g)
    {
        enum
        {
            L_CALLS,
            L_REFUSED,
            L_LATER,
            L_WAKES
        };
        // tasks are allocated in the arena of a worker; the workers do not run
        static bool const pool = []
        {
            auto& ctx = rg::SingletonContext::get();
            ctx.n_workers = 1;
            ctx.worker_pool = std::make_shared<rg::dispatch::thread::WorkerPool>(ctx.hwloc_ctx, 1);
            ctx.worker_pool->emplace_workers(1);
            return true;
        }();
        (void) pool;
        unsigned ns = g.choose(6);
        std::vector<Call> log;
        std::vector<Tags> sup;
        std::vector<std::shared_ptr<Fake>> fake;
        auto builder = rg::scheduler::make_tag_match_scheduler();
        auto tm = builder.tag_match;
        for(unsigned i = 0; i < ns; ++i)
        {
            sup.push_back(gen_tags(g, 6));
            fake.push_back(std::make_shared<Fake>(i, log));
            g.desc("scheduler %u: %s\n", i, str(sup[i]).c_str());
            std::vector<unsigned> l;
            for(unsigned k = 0; k < 64; ++k)
                if(sup[i].test(k))
                    l.push_back(k);
            unsigned how = g.choose(3);
            if(how == 0 || l.size() > 3)
                tm->add_scheduler(sup[i], fake[i]);
            else
            {
                std::initializer_list<unsigned> il[4] = {};
                unsigned a = l.size() > 0 ? l[0] : 0, b = l.size() > 1 ? l[1] : 0, c = l.size() > 2 ? l[2] : 0;
                if(how == 1)
                    switch(l.size())
                    {
                    case 0:
                        tm->add_scheduler(std::initializer_list<unsigned>{}, fake[i]);
                        break;
                    case 1:
                        tm->add_scheduler({a}, fake[i]);
                        break;
                    case 2:
                        tm->add_scheduler({a, b}, fake[i]);
                        break;
                    case 3:
                        tm->add_scheduler({a, b, c}, fake[i]);
                    }
                else
                    switch(l.size())
                    {
                    case 0:
                        builder = builder.add({}, fake[i]);
                        break;
                    case 1:
                        builder = builder.add({a}, fake[i]);
                        break;
                    case 2:
                        builder = builder.add({a, b}, fake[i]);
                        break;
                    case 3:
                        builder = builder.add({a, b, c}, fake[i]);
                    }
            }
        }
        std::shared_ptr<rg::scheduler::IScheduler> s = builder;
        unsigned nt = 1 + g.choose(3);
        std::vector<std::unique_ptr<rg::Task>> t;
        std::vector<Tags> tags;
        for(unsigned i = 0; i < nt; ++i)
        {
            t.push_back(std::make_unique<rg::ResultTask<void>>());
            tags.push_back(gen_tags(g, 3));
            t[i]->required_scheduler_tags = tags[i];
            g.desc("task %u: %s -> %d\n", i, str(tags[i]).c_str(), model_match(sup, tags[i]));
        }
        unsigned ops = 1 + g.choose(10);
        for(unsigned k = 0; k < ops; ++k)
        {
            unsigned op = g.choose(6);
            unsigned x = g.choose(nt), y = g.choose(nt);
            log.clear();
            g.count(L_CALLS);
            if(op <= 2)
            {
                rg::Task& task = *t[op == 2 ? y : x];
                int m = model_match(sup, tags[op == 2 ? y : x]);
                bool thrown = false, dep = false, want = g.choose(2);
                for(unsigned i = 0; i < ns; ++i)
                    fake[i]->dep = (int) i == m ? want : !want;
                g.desc("%s(%u) ", op == 0 ? "emplace" : op == 1 ? "activate" : "dependency", op == 2 ? y : x);
                try
                {
                    if(op == 0)
                        s->emplace_task(task);
                    else if(op == 1)
                        s->activate_task(task);
                    else
                        dep = s->task_dependency_type(*t[x], *t[y]);
                }
                catch(std::runtime_error const&)
                {
                    thrown = true;
                }
                if(m < 0)
                {
                    g.count(L_REFUSED);
                    if(!thrown || !log.empty())
                        pbt::fail("unsupported", "task with tags %s is supported by no scheduler, but was not refused",
                                  str(tags[op == 2 ? y : x]).c_str());
                    continue;
                }
                if(m > 0)
                {
                    g.count(L_LATER);
                    g.nontrivial();
                }
                if(thrown || log.size() != 1 || log[0].sched != m || log[0].what != (int) op)
                    pbt::fail("dispatch", "task with tags %s went to scheduler %d instead of %d (%zu calls)",
                              str(tags[op == 2 ? y : x]).c_str(), log.empty() ? -1 : log[0].sched, m, log.size());
                if(log[0].a != t[x].get() || (op == 2 && (log[0].b != t[y].get() || dep != want)))
                    pbt::fail("dispatch", "scheduler %d was given a different task or its answer was lost", m);
            }
            else if(op == 3)
            {
                g.count(L_WAKES);
                int first = -1;
                for(unsigned i = 0; i < ns; ++i)
                {
                    fake[i]->wakes = g.coin(1, 3);
                    if(fake[i]->wakes && first < 0)
                        first = i;
                }
                int id = (int) g.choose(70);
                g.desc("wake(%d) ", id);
                bool r = s->wake(id);
                if(r != (first >= 0))
                    pbt::fail("wake", "wake(%d) reports %d, schedulers which woke someone: first is %d", id, r, first);
                // every scheduler up to the one which knows the sleeper has to hear of it
                size_t need = first >= 0 ? first + 1 : ns;
                std::vector<int> got(ns, 0);
                for(auto& c : log)
                {
                    if(c.what != 3 || c.arg != id)
                        pbt::fail("wake", "wake(%d) was passed on as call %d with %d", id, c.what, c.arg);
                    got[c.sched]++;
                }
                for(size_t i = 0; i < need; ++i)
                    if(got[i] != 1)
                        pbt::fail("wake", "wake(%d) reached scheduler %zu %d times", id, i, got[i]);
            }
            else if(op == 4)
            {
                g.count(L_WAKES);
                g.desc("wake_all ");
                s->wake_all();
                std::vector<int> got(ns, 0);
                for(auto& c : log)
                {
                    if(c.what != 4)
                        pbt::fail("wake", "wake_all was passed on as call %d", c.what);
                    got[c.sched]++;
                }
                for(size_t i = 0; i < ns; ++i)
                    if(got[i] != 1)
                        pbt::fail("wake", "wake_all reached scheduler %zu %d times", i, got[i]);
            }
            else
            {
                g.desc("steal ");
                std::vector<bool> has;
                bool any = false;
                for(unsigned i = 0; i < ns; ++i)
                {
                    bool h = g.coin(1, 3);
                    fake[i]->stolen = h ? t[x].get() : nullptr;
                    any |= h;
                }
                rg::Task* r = s->steal_task(*(rg::dispatch::thread::Worker*) nullptr);
                if(r != (any ? t[x].get() : nullptr))
                    pbt::fail("steal", "%s", any ? "a task of a scheduler was not handed out" : "a task came from nowhere");
                int taken = 0;
                for(auto& c : log)
                    taken += fake[c.sched]->stolen != nullptr;
                if(taken > 1)
                    pbt::fail("steal", "tasks of %d schedulers were taken out for one worker", taken);
            }
        }
    }

    namespace
    {
        enum
        {
            L_TASKS,
            L_REFUSED,
            L_LATER,
            L_ACTIVATED,
            L_PRE,
            L_POST,
            L_YIELDS,
            L_REST,
            L_NESTED,
            L_OWNQUEUE
        };

        struct TSpec
        {
            int parent = -1;
            Tags tags;
            std::vector<std::pair<unsigned, bool>> acc; // resource, write
            std::vector<int> children;
            bool yield = false;
        };

        struct Obs
        {
            bool submitted = false, started = false, finished = false, event = false, notified = false;
            int emplaced = 0, activated = 0;
        };

        struct Edge
        {
            int a, b;
            bool pre;
        };

        struct World
        {
            std::vector<Tags> sup;
            std::vector<TSpec> t;
            std::vector<Obs> o;
            std::vector<Edge> edges;
            std::vector<std::optional<rg::scheduler::EventPtr>> ev;
            std::vector<std::unique_ptr<rg::IOResource<int>>> res;
            uint64_t salt;
            unsigned pre_den;
            Gen* g;

            bool complete(int i)
            {
                if(!o[i].finished)
                    return false;
                for(int c : t[i].children)
                    if(model_match(sup, t[c].tags) >= 0 && !complete(c))
                        return false;
                return true;
            }
            bool satisfied(Edge const& e)
            {
                // a task which is suspended has its pre-event armed again
                return e.pre ? o[e.a].started && (!o[e.a].event || o[e.a].finished) : complete(e.a);
            }
            // the pre-event of a task is reached shortly before its body is entered
            bool may_start(int i)
            {
                if(o[i].started)
                    return true;
                for(auto& e : edges)
                    if(e.b == i && !allowed(e))
                        return false;
                return o[i].submitted;
            }
            bool allowed(Edge const& e)
            {
                return e.pre ? may_start(e.a) : complete(e.a);
            }
        };
        World* W;

        int index_of(rg::Task const& t)
        {
            int i = atoi(t.label.c_str() + 1);
            if(t.label.empty() || t.label[0] != 't' || i < 0 || i >= (int) W->t.size())
                pbt::fail("unknown-task", "a scheduler was given a task which was not submitted");
            return i;
        }

        struct Rec : rg::scheduler::IScheduler
        {
            int id;
            explicit Rec(int id) : id(id)
            {
            }
            void note(rg::Task& t, bool activate)
            {
                vs::NoPoint np;
                int i = index_of(t);
                int m = model_match(W->sup, W->t[i].tags);
                if(m != id)
                    pbt::fail("dispatch", "task %d with tags %s %s scheduler %d instead of %d", i, str(W->t[i].tags).c_str(),
                              activate ? "became ready at" : "was given to", id, m);
                if(activate)
                {
                    W->o[i].activated++;
                    // ready: all it depends on is done
                    for(auto& e : W->edges)
                        if(e.b == i && !W->allowed(e))
                            pbt::fail("early", "task %d is activated although task %d it depends on %s", i, e.a,
                                      e.pre ? "can not have started" : "is not complete");
                }
                else if(++W->o[i].emplaced > 1)
                    pbt::fail("dispatch", "task %d was given to its scheduler twice", i);
            }
            bool task_dependency_type(rg::Task const& a, rg::Task const& b) override
            {
                vs::NoPoint np;
                int x = index_of(a), y = index_of(b);
                int m = model_match(W->sup, W->t[y].tags);
                if(m != id)
                    pbt::fail("dependency-type", "scheduler %d was asked about a dependency of task %d of scheduler %d", id, y, m);
                if(model_match(W->sup, W->t[x].tags) < 0)
                    pbt::fail("refused-blocks", "task %d depends on task %d which was refused", y, x);
                uint64_t h = (W->salt ^ (x * 1000003 + y * 7919 + id)) * 0x9e3779b97f4a7c15ull;
                bool pre = W->pre_den && (h >> 40) % W->pre_den == 0;
                W->edges.push_back({x, y, pre});
                W->g->count(pre ? L_PRE : L_POST);
                return pre;
            }
        };

        // shares the worker queues of the default scheduler
        struct PoolRec : Rec
        {
            std::shared_ptr<rg::scheduler::DefaultScheduler> inner;
            bool main; // wakes and steals on behalf of all
            PoolRec(int id, std::shared_ptr<rg::scheduler::DefaultScheduler> inner, bool main) : Rec(id), inner(inner), main(main)
            {
            }
            void emplace_task(rg::Task& t) override
            {
                note(t, false);
                inner->emplace_task(t);
            }
            void activate_task(rg::Task& t) override
            {
                note(t, true);
                inner->activate_task(t);
            }
            rg::Task* steal_task(rg::dispatch::thread::Worker& w) override
            {
                return main ? inner->steal_task(w) : nullptr;
            }
            void wake_all() override
            {
                if(main)
                    inner->wake_all();
            }
            bool wake(rg::scheduler::WakerId w) override
            {
                return main ? inner->wake(w) : false;
            }
        };

        // a scheduler of the user with a queue of its own
        struct QueueRec : Rec
        {
            std::mutex m;
            std::deque<rg::Task*> fresh, ready;
            using Rec::Rec;
            void kick()
            {
                auto pool = rg::SingletonContext::get().worker_pool;
                for(size_t i = 0; i < pool->size(); ++i)
                    pool->get_worker(i).wake();
            }
            void emplace_task(rg::Task& t) override
            {
                note(t, false);
                {
                    std::lock_guard<std::mutex> l(m);
                    fresh.push_back(&t);
                }
                kick();
            }
            void activate_task(rg::Task& t) override
            {
                note(t, true);
                {
                    std::lock_guard<std::mutex> l(m);
                    ready.push_back(&t);
                }
                kick();
            }
            rg::Task* pop(std::deque<rg::Task*>& q)
            {
                std::lock_guard<std::mutex> l(m);
                if(q.empty())
                    return nullptr;
                rg::Task* t = q.front();
                q.pop_front();
                return t;
            }
            rg::Task* steal_task(rg::dispatch::thread::Worker&) override
            {
                if(rg::Task* t = pop(ready))
                    return t;
                while(rg::Task* t = pop(fresh))
                {
                    t->pre_event.up();
                    t->init_graph();
                    if(t->get_pre_event().notify(true))
                        return t;
                }
                return nullptr;
            }
        };

        void submit(int i);

        void body(int i)
        {
            {
                vs::NoPoint np;
                Obs& o = W->o[i];
                if(o.started)
                    pbt::fail("twice", "task %d runs twice", i);
                if(o.emplaced != 1)
                    pbt::fail("dispatch", "task %d runs although its scheduler was not given it", i);
                o.started = true;
                for(auto& e : W->edges)
                    if(e.b == i && !W->allowed(e))
                        pbt::fail("early", "task %d starts although task %d it depends on %s", i, e.a,
                                  e.pre ? "can not have started" : "is not complete");
            }
            for(size_t k = 0; k < W->t[i].children.size(); ++k)
                submit(W->t[i].children[k]);
            if(W->t[i].yield)
            {
                auto e = rg::create_event();
                {
                    vs::NoPoint np;
                    W->ev[i] = *e;
                    W->o[i].event = true;
                }
                rg::yield(*e);
            }
            vs::NoPoint np;
            W->o[i].finished = true;
        }

        void submit(int i)
        {
            auto const& t = W->t[i];
            bool thrown = false;
            int m = model_match(W->sup, t.tags);
            W->o[i].submitted = true;
            try
            {
                auto b = rg::emplace_task([i] { body(i); }).label(("t" + std::to_string(i)).c_str()).enable_stack_switching();
                if(i % 2)
                    b.scheduling_tags(t.tags);
                else
                    for(unsigned k = 0; k < 64; ++k)
                        if(t.tags.test(k))
                            b.scheduling_tags({k}); // tags add up
                for(auto& a : t.acc)
                {
                    if(a.second)
                        b.add_resource(W->res[a.first]->write());
                    else
                        b.add_resource(W->res[a.first]->read());
                }
                b.submit();
            }
            catch(std::runtime_error const&)
            {
                thrown = true;
            }
            if(thrown != (m < 0))
                pbt::fail("unsupported", "task %d with tags %s %s", i, str(t.tags).c_str(),
                          thrown ? "was refused although a scheduler supports it" : "was accepted although no scheduler supports it");
        }

        void check_rest()
        {
            vs::quiesce();
            vs::NoPoint np;
            W->g->count(L_REST);
            for(size_t i = 0; i < W->t.size(); ++i)
            {
                Obs& o = W->o[i];
                int m = model_match(W->sup, W->t[i].tags);
                if(!o.submitted || m < 0)
                {
                    if(o.started)
                        pbt::fail("refused-runs", "refused task %zu runs", i);
                    continue;
                }
                if(o.emplaced != 1)
                    pbt::fail("dispatch", "task %zu was given to its scheduler %d times", i, o.emplaced);
                bool ready = true;
                for(auto& e : W->edges)
                    if(e.b == (int) i && !W->satisfied(e))
                        ready = false;
                if(ready && !o.started)
                    pbt::fail("held-back", "task %zu is not started although nothing it depends on is outstanding", i);
                if(o.started && !o.finished && !(o.event && !o.notified))
                    pbt::fail("held-back", "task %zu is not continued", i);
            }
        }
    } // namespace

    void tags_run(Gen& g)
    {
        vs::Config c = g.schedule();
        World w;
        W = &w;
        w.g = &g;
        unsigned nw = 1 + g.choose(4);
        unsigned ns = 1 + g.choose(4);
        std::vector<bool> own;
        bool any_pool = false;
        g.desc("%u workers\n", nw);
        for(unsigned i = 0; i < ns; ++i)
        {
            w.sup.push_back(gen_tags(g, 5));
            own.push_back(g.coin(1, 3));
            g.desc("scheduler %u: %s%s\n", i, str(w.sup[i]).c_str(), own[i] ? " own queue" : "");
        }
        unsigned n = 1 + g.choose(12);
        unsigned nr = g.choose(4);
        w.t.resize(n);
        w.o.resize(n);
        w.ev.resize(n);
        w.salt = g.choose(1000);
        w.pre_den = g.choose(4); // 0: no pre-dependencies, 1: all
        unsigned later = 0;
        std::vector<unsigned> depth(n, 0);
        for(unsigned i = 0; i < n; ++i)
        {
            auto& t = w.t[i];
            t.tags = gen_tags(g, 2);
            int m = model_match(w.sup, t.tags);
            if(i > 0 && g.coin(1, 3))
            {
                int p = g.choose(i);
                if(depth[p] < 2 && model_match(w.sup, w.t[p].tags) >= 0)
                {
                    t.parent = p;
                    depth[i] = depth[p] + 1;
                    w.t[p].children.push_back(i);
                    g.count(L_NESTED);
                }
            }
            for(unsigned r = 0; r < nr; ++r)
                if(g.coin(1, 2))
                {
                    bool wr = g.choose(2);
                    if(t.parent >= 0)
                    {
                        bool in = false;
                        for(auto& a : w.t[t.parent].acc)
                            if(a.first == r && (a.second || !wr))
                                in = true;
                        if(!in)
                            continue;
                    }
                    t.acc.push_back({r, wr});
                }
            t.yield = g.coin(1, 4);
            later += m > 0;
            g.count(L_TASKS);
            g.count(L_REFUSED, m < 0);
            g.count(L_LATER, m > 0);
            g.count(L_YIELDS, t.yield);
            g.count(L_OWNQUEUE, m >= 0 && own[m]);
            g.desc("t%u%s tags %s -> %d%s", i, t.parent >= 0 ? (" in t" + std::to_string(t.parent)).c_str() : "",
                   str(t.tags).c_str(), m, t.yield ? " waits" : "");
            for(auto& a : t.acc)
                g.desc(" %c%u", a.second ? 'w' : 'r', a.first);
            g.desc("\n");
        }
        // main: submissions in order, notifications and looks at rest in between
        std::vector<unsigned> pause(n);
        for(auto& p : pause)
            p = g.weighted(4, 1, 2);
        bool final_rest = g.choose(2);
        g.desc("pre-dependencies 1/%u, rest:", w.pre_den);
        for(auto p : pause)
            g.desc(" %u", p);
        g.desc("\n");

        arena::track_blocks = g.coin(1, 2);
        vs::begin(c);
        {
            auto tm = std::make_shared<rg::scheduler::TagMatch<64>>();
            auto inner = std::make_shared<rg::scheduler::DefaultScheduler>();
            for(unsigned i = 0; i < ns; ++i)
            {
                if(own[i])
                    tm->add_scheduler(w.sup[i], std::make_shared<QueueRec>(i));
                else
                {
                    tm->add_scheduler(w.sup[i], std::make_shared<PoolRec>(i, inner, !any_pool));
                    any_pool = true;
                }
            }
            // wakes the sleepers if every scheduler has a queue of its own; takes no task
            if(!any_pool)
            {
                Tags impossible;
                impossible.set(50);
                struct Waker : PoolRec
                {
                    using PoolRec::PoolRec;
                };
                w.sup.push_back(Tags());
                w.sup.back().set(50);
                // never first: an empty tag set is supported by it, so make it match nothing new
                tm->add_scheduler(w.sup.back(), std::make_shared<Waker>(ns, inner, true));
            }
            rg::init(nw, tm);
            for(unsigned r = 0; r < nr; ++r)
                w.res.push_back(std::make_unique<rg::IOResource<int>>(0));
            auto notify_some = [&](unsigned k)
            {
                std::vector<int> l;
                {
                    vs::NoPoint np;
                    for(unsigned i = 0; i < n; ++i)
                        if(w.o[i].event && !w.o[i].notified)
                            l.push_back(i);
                }
                if(l.empty())
                    return false;
                int i = l[k % l.size()];
                w.o[i].notified = true;
                w.ev[i]->notify();
                return true;
            };
            for(unsigned i = 0; i < n; ++i)
            {
                if(w.t[i].parent < 0)
                    submit(i);
                if(pause[i] == 1)
                    check_rest();
                else if(pause[i] == 2)
                    notify_some(i);
            }
            if(final_rest)
                check_rest();
            // complete everything
            while(true)
            {
                vs::quiesce();
                if(!notify_some(0))
                    break;
            }
            check_rest();
            {
                vs::NoPoint np;
                for(unsigned i = 0; i < n; ++i)
                {
                    if(w.o[i].submitted && model_match(w.sup, w.t[i].tags) >= 0 && !w.complete(i))
                        pbt::fail("held-back", "task %u is not complete at the end", i);
                    g.count(L_ACTIVATED, w.o[i].activated);
                }
            }
            rg::barrier();
            for(auto& e : w.ev)
                e.reset();
            w.res.clear();
            rg::finalize();
        }
        vs::end();
        if(later && ns > 1)
            g.nontrivial();
    }
} // namespace sys
