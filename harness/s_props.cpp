// P26: tasks carry exactly the properties they were given, whatever properties a user program adds
#include "sys.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>

#include <spdlog/spdlog.h>

#include <algorithm>
#include <bitset>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace rg = redGrapes;

std::atomic<int> props::Name::live{0};

namespace sys
{
    using pbt::Gen;

    void props_warm()
    {
        spdlog::set_level(spdlog::level::off);
        (void) rg::SingletonContext::get();
    }

    // argument types with a hook
    struct Rich
    {
        long weight = 0;
        int name = -1;
        int tag = -1;
    };

    struct Compound
    {
        Rich rich;
        int level;
        std::shared_ptr<rg::IOResource<int>> res; // read, if there is one
    };

    // argument type without
    struct Plain
    {
        int x;
    };
} // namespace sys

namespace redGrapes::trait
{
    template<>
    struct BuildProperties<sys::Rich>
    {
        template<typename B>
        static void build(B& b, sys::Rich const& r)
        {
            b.add_weight(r.weight);
            if(r.name >= 0)
                b.add_name(r.name);
            if(r.tag >= 0)
                b.scheduling_tags({(unsigned) r.tag});
        }
    };

    template<>
    struct BuildProperties<sys::Compound>
    {
        template<typename B>
        static void build(B& b, sys::Compound const& c)
        {
            b.add(c.rich);
            b.set_level(c.level);
            if(c.res)
                b.add(c.res->read());
        }
    };
} // namespace redGrapes::trait

namespace sys
{
    namespace
    {
        enum
        {
            L_TASKS,
            L_NESTED,
            L_INTERLEAVED,
            L_MOVED,
            L_RICH,
            L_UPDATES,
            L_REFUSED,
            L_SUSPENDED,
            L_PARENTS,
            L_HANDED_OVER
        };

        struct State // expected properties
        {
            long weight = 0;
            std::string label;
            std::vector<int> names;
            std::bitset<64> tags;
            int level = -1;
            std::vector<int> acc; // per resource: 0 none, 1 read, 2 write
            unsigned updates = 0;
        };

        struct Op
        {
            unsigned kind; // of builder calls
            long a, b;
        };

        struct Update
        {
            long weight; // 0: not part of it
            std::vector<int> names;
            int level; // -1: not part of it
            int give_up; // resource, -1: none
            int take; // resource which is not declared: refused, -1: none
            unsigned style;
        };

        struct Spec
        {
            int parent;
            unsigned sig;
            Rich r[3];
            int guard_res, compound_res;
            bool guard_write;
            int compound_level;
            std::vector<Op> ops;
            size_t split; // further builders are at work before this operation
            bool inner, move, hand_over, by_copy;
            unsigned id = -1u;
            unsigned finish; // 0: end of the builder, 1: submit, 2: get
            bool yield;
            std::vector<Update> updates;
            std::vector<int> kids;
            State st;
        };

        std::vector<Spec> specs;
        std::vector<std::shared_ptr<rg::IOResource<int>>> res;
        std::vector<unsigned> runs;
        std::vector<rg::scheduler::EventPtr> events;

        std::string names_text(std::vector<int> const& v)
        {
            std::string s;
            for(int n : v)
                s += " " + std::to_string(n);
            return s;
        }

        // compares the properties of a task with the expected ones
        void check(rg::Task& t, int i, char const* when)
        {
            State& e = specs[i].st;
            std::vector<int> names;
            {
                vs::NoPoint np;
                for(auto& n : t.names)
                    names.push_back(n.v);
            }
            auto want = e.names;
            std::sort(names.begin(), names.end());
            std::sort(want.begin(), want.end());
            PBT_ASSERT(t.weight == e.weight, "weight", "%s, T%d has weight %ld instead of %ld", when, i, t.weight, e.weight);
            PBT_ASSERT(names == want, "names", "%s, T%d has names%s instead of%s", when, i, names_text(names).c_str(),
                       names_text(want).c_str());
            PBT_ASSERT(t.level == e.level, "level", "%s, T%d has level %d instead of %d", when, i, t.level, e.level);
            PBT_ASSERT(e.label == t.label.c_str(), "label", "%s, T%d has label '%s' instead of '%s'", when, i, t.label.c_str(),
                       e.label.c_str());
            PBT_ASSERT(t.required_scheduler_tags == e.tags, "tags", "%s, T%d has tags %s instead of %s", when, i,
                       t.required_scheduler_tags.to_string().c_str(), e.tags.to_string().c_str());
            for(size_t r = 0; r < res.size(); ++r)
            {
                bool rd = false, wr = false;
                for(auto it = t.access_list.rbegin(); it != t.access_list.rend(); ++it)
                {
                    rd = rd || *it == rg::ResourceAccess(res[r]->read());
                    wr = wr || *it == rg::ResourceAccess(res[r]->write());
                }
                PBT_ASSERT(rd == (e.acc[r] == 1) && wr == (e.acc[r] == 2), "accesses",
                           "%s, T%d has%s%s access to resource %zu, expected was %s", when, i, rd ? " read" : "",
                           wr ? " write" : rd ? "" : " no", r, e.acc[r] == 2 ? "write" : e.acc[r] ? "read" : "none");
            }
            PBT_ASSERT(t.weight_updates == e.updates && t.names_updates == e.updates && t.level_updates == e.updates, "updates",
                       "%s, the properties of T%d were updated %u, %u and %u times instead of %u", when, i, t.weight_updates,
                       t.names_updates, t.level_updates, e.updates);
            vs::NoPoint np;
            auto text = fmt::format("{}", (rg::TaskProperties const&) t);
            text.erase(std::remove(text.begin(), text.end(), ' '), text.end());
            for(auto& s : {fmt::format("\"id\":{}", t.task_id), fmt::format("\"weight\":{},", e.weight),
                           fmt::format("\"label\":\"{}\"", e.label), fmt::format("\"names\":{},", e.names.size()),
                           fmt::format("\"level\":{}", e.level)})
                PBT_ASSERT(text.find(s) != std::string::npos, "text", "%s, T%d is described without %s as %s", when, i, s.c_str(),
                           text.c_str());
        }

        using PB = rg::TaskProperties::Patch::Builder;

        void update(int i, Update const& u)
        {
            rg::TaskProperties::Patch p;
            if(u.style == 0)
            {
                PB b;
                if(u.weight)
                    b.change_weight(u.weight);
                for(int n : u.names)
                    b.another_name(n);
                if(u.take >= 0)
                    b.add_resources({res[u.take]->write()});
                if(u.give_up >= 0)
                {
                    if(specs[i].st.acc[u.give_up] == 2)
                        b.remove_resources({res[u.give_up]->write()});
                    else
                        b.remove_resources({res[u.give_up]->read()});
                }
                if(u.level >= 0)
                    b.change_level(u.level);
                p = b;
            }
            else
            {
                // each call returns a builder which knows everything so far
                struct Chain
                {
                    int i;
                    Update const& u;

                    rg::TaskProperties::Patch level(PB b)
                    {
                        return u.level >= 0 ? b.change_level(u.level) : b;
                    }

                    rg::TaskProperties::Patch weight(PB b)
                    {
                        return u.weight ? names(b.change_weight(u.weight), 0) : names(b, 0);
                    }

                    rg::TaskProperties::Patch names(PB b, size_t k)
                    {
                        return k < u.names.size() ? names(b.another_name(u.names[k]), k + 1) : level(b);
                    }

                    rg::TaskProperties::Patch start(PB b)
                    {
                        if(u.take >= 0)
                            return weight(b.add_resources({res[u.take]->write()}));
                        if(u.give_up >= 0)
                            return weight(
                                specs[i].st.acc[u.give_up] == 2 ? b.remove_resources({res[u.give_up]->write()})
                                                                : b.remove_resources({res[u.give_up]->read()}));
                        return weight(b);
                    }
                };

                p = Chain{i, u}.start(PB());
            }
            bool refused = false;
            try
            {
                rg::update_properties(p);
            }
            catch(std::runtime_error const&)
            {
                refused = true;
            }
            PBT_ASSERT(refused == (u.take >= 0), "update", "an update of T%d which %s was %s", i,
                       u.take >= 0 ? "adds an access" : "adds nothing", refused ? "refused" : "accepted");
            if(refused)
                return;
            State& e = specs[i].st;
            e.weight += u.weight;
            e.names.insert(e.names.end(), u.names.begin(), u.names.end());
            if(u.level >= 0)
                e.level = u.level;
            if(u.give_up >= 0)
                e.acc[u.give_up] = 0;
            ++e.updates;
        }

        void submit_from(std::vector<int> const& ids, size_t pos);

        struct Body
        {
            int i;

            template<typename... A>
            void operator()(A&&...) const
            {
                Spec& s = specs[i];
                auto bt = rg::backtrace();
                PBT_ASSERT(!bt.empty(), "backtrace", "the backtrace in T%d is empty", i);
                rg::Task& t = bt[0].get();
                ++runs[i];
                s.id = t.task_id;
                size_t depth = 1;
                for(int a = s.parent; a >= 0; a = specs[a].parent)
                {
                    PBT_ASSERT(depth < bt.size() && bt[depth].get().task_id == specs[a].id, "scope",
                               "T%d does not run as a child of T%d%s", i, a, s.hand_over ? " after its builder was handed over" : "");
                    ++depth;
                }
                PBT_ASSERT(bt.size() == depth && rg::scope_depth() == depth, "scope",
                           "the depth of T%d is %u with %zu tasks in its backtrace instead of %zu%s", i, rg::scope_depth(), bt.size(),
                           depth, s.hand_over ? " after its builder was handed over" : "");
                check(t, i, "at the start");
                if(s.parent >= 0 && s.finish == 2)
                {
                    PBT_ASSERT(bt.size() > 1, "backtrace", "T%d does not find its parent", i);
                    check(bt[1].get(), s.parent, "in a child");
                }
                bool first = true;
                for(auto& u : s.updates)
                {
                    update(i, u);
                    check(t, i, "after an update");
                    if(first && s.yield)
                    {
                        auto e = *rg::create_event();
                        {
                            vs::NoPoint np;
                            events.push_back(e);
                        }
                        rg::yield(e);
                        check(t, i, "after a pause");
                    }
                    first = false;
                }
                submit_from(s.kids, 0);
                check(t, i, "at the end");
            }
        };

        template<typename B>
        void apply(B& b, int i, Op const& o)
        {
            State& e = specs[i].st;
            switch(o.kind)
            {
            case 0:
                b.add_weight(o.a);
                e.weight += o.a;
                break;
            case 1:
                b.add_name(o.a);
                e.names.push_back(o.a);
                break;
            case 2:
                b.set_level(o.a);
                e.level = o.a;
                break;
            case 3:
                e.label = "label" + std::to_string(o.a);
                b.label(e.label.c_str());
                break;
            case 4:
                b.scheduling_tags({(unsigned) o.a, (unsigned) o.b});
                e.tags.set(o.a);
                e.tags.set(o.b);
                break;
            case 5:
                b.add_resource(o.b ? rg::ResourceAccess(res[o.a]->write()) : rg::ResourceAccess(res[o.a]->read()));
                e.acc[o.a] = o.b ? 2 : 1;
                break;
            case 6:
                if(o.b)
                    b.resources({res[o.a]->write()});
                else
                    b.resources({res[o.a]->read()});
                e.acc[o.a] = o.b ? 2 : 1;
                break;
            case 7:
                // several calls in a row
                e.label = "label" + std::to_string(o.b);
                b.add_weight(o.a).label(e.label.c_str()).add_name(o.b).enable_stack_switching();
                e.weight += o.a;
                e.names.push_back(o.b);
                break;
            }
        }

        template<typename B>
        void finish(B& b, int i)
        {
            if(specs[i].finish == 1)
                b.submit();
            else if(specs[i].finish == 2)
                b.get();
        }

        size_t submit_one(std::vector<int> const& ids, size_t pos);

        // the remaining operations, with a builder which takes over from `b`
        template<typename B>
        void take_over(B& b, int i)
        {
            Spec& s = specs[i];
            auto rest = [&s, i](B& c)
            {
                for(size_t k = s.split; k < s.ops.size(); ++k)
                    apply(c, i, s.ops[k]);
                finish(c, i);
            };
            if(s.by_copy)
            {
                B c(b);
                rest(c);
            }
            else
            {
                B c(std::move(b));
                rest(c);
            }
        }

        // returns the position of the next task to be submitted
        template<typename B>
        size_t build(B b, std::vector<int> const& ids, size_t pos)
        {
            int i = ids[pos];
            Spec& s = specs[i];
            // waiting is for tasks with their own stack only
            bool waits = s.yield;
            for(int k : s.kids)
                waits = waits || specs[k].finish == 2 || specs[k].hand_over;
            if(waits)
                b.enable_stack_switching();
            for(size_t k = 0; k < s.split; ++k)
                apply(b, i, s.ops[k]);
            size_t next = pos + 1;
            if(s.inner)
                next = submit_one(ids, next);
            if(s.hand_over)
            {
                // another task moves the builder and submits; the task still belongs to the scope it was created in
                std::shared_ptr<B> held;
                {
                    vs::NoPoint np;
                    held = std::make_shared<B>(std::move(b));
                }
                auto carrier = rg::emplace_task(
                    [held, i]
                    {
                        take_over(*held, i);
                    });
                carrier.enable_stack_switching();
                carrier.get();
            }
            else if(s.move)
            {
                take_over(b, i);
            }
            else
            {
                for(size_t k = s.split; k < s.ops.size(); ++k)
                    apply(b, i, s.ops[k]);
                finish(b, i);
            }
            return next;
        }

        constexpr unsigned N_SIG = 17;

        // how many arguments of type Rich a signature has
        unsigned n_rich(unsigned sig)
        {
            static unsigned const n[N_SIG] = {0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 3, 1, 1, 1, 1};
            return n[sig];
        }

        bool has_guard(unsigned sig)
        {
            return sig == 8 || sig == 11;
        }

        bool has_compound(unsigned sig)
        {
            return sig == 14 || sig == 15;
        }

        size_t submit_one(std::vector<int> const& ids, size_t pos)
        {
            int i = ids[pos];
            Spec& s = specs[i];
            State& e = s.st;
            for(unsigned k = 0; k < n_rich(s.sig); ++k)
            {
                e.weight += s.r[k].weight;
                if(s.r[k].name >= 0)
                    e.names.push_back(s.r[k].name);
                if(s.r[k].tag >= 0)
                    e.tags.set(s.r[k].tag);
            }
            if(has_guard(s.sig))
                e.acc[s.guard_res] = s.guard_write ? 2 : 1;
            Compound c{s.r[0], s.compound_level, nullptr};
            if(has_compound(s.sig))
            {
                e.level = s.compound_level;
                if(s.compound_res >= 0)
                {
                    c.res = res[s.compound_res];
                    e.acc[s.compound_res] = 1;
                }
            }
            Rich r0 = s.r[0], r1 = s.r[1], r2 = s.r[2];
            Rich const k0 = r0;
            Body f{i};
            using rg::emplace_task;
            switch(s.sig)
            {
            case 0:
                return build(emplace_task(std::move(f)), ids, pos);
            case 1:
                return build(emplace_task(std::move(f), Rich(r0)), ids, pos);
            case 2:
                return build(emplace_task(std::move(f), r0), ids, pos);
            case 3:
                return build(emplace_task(std::move(f), k0), ids, pos);
            case 4:
                return build(emplace_task(std::move(f), std::move(k0)), ids, pos);
            case 5:
                return build(emplace_task(std::move(f), std::ref(r0)), ids, pos);
            case 6:
                return build(emplace_task(std::move(f), std::cref(r0)), ids, pos);
            case 7:
            {
                auto const w = std::ref(r0);
                return build(emplace_task(std::move(f), w), ids, pos);
            }
            case 8:
                if(s.guard_write)
                    return build(emplace_task(std::move(f), std::move(r0), res[s.guard_res]->write()), ids, pos);
                else
                    return build(emplace_task(std::move(f), std::move(r0), res[s.guard_res]->read()), ids, pos);
            case 9:
                return build(emplace_task(std::move(f), 5, r0), ids, pos);
            case 10:
                return build(emplace_task(std::move(f), k0, std::move(r1)), ids, pos);
            case 11:
            {
                unsigned u = 7;
                if(s.guard_write)
                {
                    auto const g = res[s.guard_res]->write();
                    return build(emplace_task(std::move(f), std::move(g), u, std::ref(r0), r1), ids, pos);
                }
                else
                    return build(emplace_task(std::move(f), res[s.guard_res]->read(), u, std::ref(r0), r1), ids, pos);
            }
            case 12:
                return build(emplace_task(std::move(f), std::move(r0), r1, std::cref(r2)), ids, pos);
            case 13:
                return build(emplace_task(std::move(f), Plain{3}, r0), ids, pos);
            case 14:
                return build(emplace_task(std::move(f), std::move(c)), ids, pos);
            case 15:
                return build(emplace_task(std::move(f), c, std::string("x")), ids, pos);
            case 16:
            {
                auto w = std::ref(r0);
                return build(emplace_task(std::move(f), w), ids, pos);
            }
            }
            return pos + 1;
        }

        void submit_from(std::vector<int> const& ids, size_t pos)
        {
            while(pos < ids.size())
                pos = submit_one(ids, pos);
        }
    } // namespace

    void props_run(Gen& g)
    {
        vs::Config c = g.schedule();
        unsigned workers = 1 + g.choose(4);
        unsigned nres = 1 + g.choose(3);
        unsigned n = 1 + g.choose(g.coin(1, 3) ? 12 : 6);
        bool yields = g.coin(1, 2);
        g.desc("%u workers, %u resources\n", workers, nres);
        specs.clear();
        specs.resize(n);
        runs.assign(n, 0);
        events.clear();
        res.clear();
        std::vector<int> top;
        unsigned rich_tasks = 0;
        for(unsigned i = 0; i < n; ++i)
        {
            Spec& s = specs[i];
            s.parent = i && g.coin(1, 3) ? (int) g.choose(i) : -1;
            (s.parent < 0 ? top : specs[s.parent].kids).push_back(i);
            g.count(L_NESTED, s.parent >= 0);
            s.st.acc.assign(nres, 0);
            // every resource is declared once
            std::vector<int> declared(nres, 0);
            s.sig = g.choose(N_SIG);
            g.desc("T%u", i);
            if(s.parent >= 0)
                g.desc(" in T%d", s.parent);
            g.desc(": signature %u", s.sig);
            for(unsigned k = 0; k < n_rich(s.sig); ++k)
            {
                s.r[k].weight = 1 + g.choose(1000);
                s.r[k].name = g.coin(1, 2) ? (int) g.choose(1000) : -1;
                s.r[k].tag = g.coin(1, 2) ? (int) g.choose(64) : -1;
                g.desc(" (%ld, %d, %d)", s.r[k].weight, s.r[k].name, s.r[k].tag);
            }
            if(n_rich(s.sig))
            {
                ++rich_tasks;
                g.count(L_RICH);
            }
            s.guard_res = s.compound_res = -1;
            s.guard_write = false;
            s.compound_level = g.choose(50);
            // children use nothing of their parents: these may give up their accesses at any time
            bool can = s.parent < 0;
            if(has_guard(s.sig))
            {
                if(!can)
                    s.sig = 1;
                else
                {
                    s.guard_res = g.choose(nres);
                    s.guard_write = g.coin(1, 2);
                    declared[s.guard_res] = s.guard_write ? 2 : 1;
                    g.desc(" %s of R%d", s.guard_write ? "write" : "read", s.guard_res);
                }
            }
            if(has_compound(s.sig) && can && g.coin(1, 2))
            {
                s.compound_res = g.choose(nres);
                declared[s.compound_res] = 1;
                g.desc(" compound with read of R%d", s.compound_res);
            }
            unsigned nops = g.choose(6);
            static char const* const names[] = {"weight", "name", "level", "label", "tags", "add_resource", "resources", "chain"};
            for(unsigned k = 0; k < nops; ++k)
            {
                Op o;
                o.kind = g.choose(8);
                o.a = g.choose(1000);
                o.b = g.choose(1000);
                if(o.kind == 4)
                    o.a %= 64, o.b %= 64;
                if(o.kind == 5 || o.kind == 6)
                {
                    o.a %= nres;
                    o.b %= 2;
                    if(!can || declared[o.a])
                        continue;
                    declared[o.a] = o.b ? 2 : 1;
                }
                s.ops.push_back(o);
                g.desc(" %s(%ld,%ld)", names[o.kind], o.a, o.b);
            }
            s.split = g.choose(s.ops.size() + 1);
            s.inner = g.coin(1, 3);
            s.move = g.coin(1, 4);
            s.hand_over = g.coin(1, 5);
            s.by_copy = g.coin(1, 3);
            s.finish = g.choose(yields ? 2 : 3);
            s.yield = yields && g.coin(1, 3);
            if(s.hand_over)
                g.desc(" handed over before #%zu", s.split);
            else if(s.move)
                g.desc(" moved before #%zu", s.split);
            if(s.finish)
                g.desc(s.finish == 1 ? " submit" : " get");
            g.count(L_MOVED, s.move);
            g.count(L_HANDED_OVER, s.hand_over);
            g.count(L_PARENTS, s.finish == 2 && s.parent >= 0);
            unsigned nu = g.choose(4);
            for(unsigned k = 0; k < nu; ++k)
            {
                Update u;
                u.weight = g.coin(1, 2) ? 1 + (long) g.choose(100) : 0;
                unsigned nn = g.choose(3);
                for(unsigned j = 0; j < nn; ++j)
                    u.names.push_back(g.choose(1000));
                u.level = g.coin(1, 2) ? (int) g.choose(50) : -1;
                u.give_up = u.take = -1;
                unsigned w = g.choose(3), r = g.choose(nres);
                if(w == 1 && declared[r])
                {
                    u.give_up = r;
                    declared[r] = 0;
                }
                else if(w == 2 && !declared[r])
                    u.take = r;
                u.style = g.choose(2);
                g.count(L_UPDATES);
                g.count(L_REFUSED, u.take >= 0);
                g.desc("; update weight %ld names%s level %d gives up %d takes %d%s", u.weight, names_text(u.names).c_str(), u.level,
                       u.give_up, u.take, u.style ? " chained" : "");
                s.updates.push_back(u);
            }
            if(s.yield && nu)
            {
                g.count(L_SUSPENDED);
                g.desc(" pauses");
            }
            g.desc("\n");
        }
        g.count(L_TASKS, n);
        // the last of a sequence has nothing within
        if(!top.empty())
            specs[top.back()].inner = false;
        for(auto& s : specs)
            if(!s.kids.empty())
                specs[s.kids.back()].inner = false;
        for(auto& s : specs)
            if(s.inner)
                g.count(L_INTERLEAVED);
        if(rich_tasks > 1)
            g.nontrivial();
        props::Name::live = 0;
        arena::track_blocks = g.coin(1, 2);
        vs::begin(c);
        rg::init(workers);
        for(unsigned r = 0; r < nres; ++r)
            res.push_back(std::make_shared<rg::IOResource<int>>(0));
        submit_from(top, 0);
        for(;;)
        {
            vs::quiesce();
            std::vector<rg::scheduler::EventPtr> now;
            {
                vs::NoPoint np;
                now.swap(events);
            }
            if(now.empty())
                break;
            for(auto& e : now)
                e.notify();
        }
        rg::barrier();
        for(unsigned i = 0; i < n; ++i)
            PBT_ASSERT(runs[i] == 1, "runs", "T%u ran %u times", i, runs[i]);
        res.clear();
        rg::finalize();
        PBT_ASSERT(props::Name::live == 0, "leak", "%d objects of properties are left after the shutdown", props::Name::live.load());
        vs::end();
    }
} // namespace sys
