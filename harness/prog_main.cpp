#include "prog_run.hpp"

namespace sys
{
    // only part of some binaries
    void steady_run(pbt::Gen&) __attribute__((weak));
} // namespace sys

using namespace prog;

enum Label
{
    L_TASKS,
    L_NESTED,
    L_CONFLICT,
    L_EVENTS,
    L_YIELDS,
    L_DEMOTES,
    L_REJECTS,
    L_FUTURES,
    L_WORKERS,
    L_TRACKED,
    L_RESTS,
    L_HELPER,
    L_USER,
    L_DROP,
    L_N
};
static std::vector<char const*> const labels = {"tasks", "nested_tasks", "programs_with_conflict", "events", "waits",
    "narrowings", "rejected_updates", "futures", "workers", "tracked_memory", "rest_comparisons", "helper_notifications",
    "user_policies", "handles_discarded"};

static bool has(Program const& p, int kind)
{
    for(auto& t : p.tasks)
        for(auto& o : t.ops)
            if(o.kind == kind)
                return true;
    for(auto& o : p.main)
        if(o.kind == kind)
            return true;
    return false;
}

static void classify(pbt::Gen& g, Program const& p)
{
    g.count(L_TASKS, p.tasks.size());
    g.count(L_WORKERS, p.n_workers);
    g.count(L_TRACKED, p.tracked);
    g.count(L_DROP, p.drop);
    for(auto& r : p.res)
        g.count(L_USER, r.policy != 0);
    g.count(L_CONFLICT, nontrivial_conflict(p));
    for(auto& t : p.tasks)
    {
        g.count(L_NESTED, t.parent >= 0);
        for(auto& o : t.ops)
        {
            g.count(L_EVENTS, o.kind == OP_EVENT);
            g.count(L_YIELDS, o.kind == OP_YIELD || o.kind == OP_GET);
            g.count(L_DEMOTES, o.kind == OP_DEMOTE);
            g.count(L_REJECTS, o.kind == OP_BAD);
            g.count(L_FUTURES, o.kind == OP_CHILD && o.b);
        }
    }
    for(auto& o : p.main)
    {
        g.count(L_FUTURES, o.kind == OP_CHILD && o.b);
        g.count(L_RESTS, o.kind == OP_QUIESCE);
        g.count(L_HELPER, o.kind == OP_NOTIFY && o.b);
    }
}

static Program run_profile(pbt::Gen& g, Profile const& pf, RunOpts const& o = {})
{
    vs::Config c = g.schedule();
    unsigned n = pf.epochs > 1 ? 1 + g.choose(pf.epochs) : 1;
    Program first;
    for(unsigned e = 0; e < n; ++e)
    {
        Program p = generate(g, pf);
        for(auto& t : p.tasks)
            if(t.style >= ST_GUARD)
                t.result = RES_INT;
        classify(g, p);
        g.desc("%s", describe(p).c_str());
        if(e == 0)
            first = p;
        execute(p, o, c, e, n);
    }
    return first;
}

static std::vector<char const*> const assume = {
    "sequentially consistent interleavings only: reorderings of relaxed atomics by the hardware are not simulated",
    "task bodies never block a worker except through the library"};

#define CONC true, 1, 60

// number of operations of this kind inside task bodies
static unsigned body_ops(Program const& p, int kind)
{
    unsigned n = 0;
    for(auto& t : p.tasks)
        for(auto& o : t.ops)
            n += o.kind == kind;
    return n;
}

static bool descendants_before_successor(Program const& p)
{
    for(size_t a = 0; a < p.tasks.size(); ++a)
    {
        bool kids = false;
        for(auto& o : p.tasks[a].ops)
            kids |= o.kind == OP_CHILD;
        if(!kids)
            continue;
        for(size_t b = a + 1; b < p.tasks.size(); ++b)
            if(p.tasks[a].parent == p.tasks[b].parent && conflict(p.tasks[a].acc, p.tasks[b].acc))
                return true;
    }
    return false;
}

static bool free_and_held(Program const& p)
{
    bool fr = false, held = false;
    for(size_t a = 0; a < p.tasks.size(); ++a)
        for(size_t b = a + 1; b < p.tasks.size(); ++b)
        {
            bool same = false;
            for(auto& x : p.tasks[a].acc)
                for(auto& y : p.tasks[b].acc)
                    same |= x.res == y.res;
            bool c = conflict(p.tasks[a].acc, p.tasks[b].acc);
            if(p.tasks[a].parent == p.tasks[b].parent)
            {
                fr |= same && !c;
                held |= c;
            }
        }
    return fr && held;
}

static void order_run(pbt::Gen& g)
{
    Profile pf;
    pf.styles = true;
    pf.w_child = 4;
    pf.w_event = 2;
    pf.w_yield = 1;
    if(nontrivial_conflict(run_profile(g, pf)))
        g.nontrivial();
}

static void order_demote_run(pbt::Gen& g)
{
    Profile pf;
    pf.styles = true;
    pf.w_child = 3;
    pf.w_event = 4;
    pf.w_yield = 2;
    pf.w_demote = 6;
    pf.max_res = 2;
    pf.p_conflict = 75;
    if(nontrivial_conflict(run_profile(g, pf)))
        g.nontrivial();
}

static void heldback_run(pbt::Gen& g)
{
    Profile pf;
    pf.styles = true;
    pf.max_res = 3;
    pf.w_child = 6;
    pf.w_event = 8;
    pf.w_yield = 3;
    pf.w_quiesce = 14;
    pf.dup = 20;
    pf.p_future = 60;
    if(free_and_held(run_profile(g, pf)))
        g.nontrivial();
}

static void descend_run(pbt::Gen& g)
{
    Profile pf;
    pf.max_depth = 5;
    pf.w_child = 20;
    pf.w_event = 3;
    pf.w_yield = 3;
    pf.max_tasks = 14;
    pf.p_empty = 15;
    pf.p_conflict = 75;
    pf.w_quiesce = 10;
    if(descendants_before_successor(run_profile(g, pf)))
        g.nontrivial();
}

static void once_run(pbt::Gen& g)
{
    Profile pf;
    pf.epochs = 3;
    pf.max_tasks = 8;
    pf.w_barrier = 10;
    pf.w_quiesce = 2;
    pf.w_child = 6;
    pf.w_event = 4;
    pf.w_yield = 3;
    pf.w_xget = 3;
    pf.styles = true;
    pf.helper = true;
    Program p = run_profile(g, pf);
    unsigned n = 0;
    for(auto& o : p.main)
        n += o.kind == OP_BARRIER;
    if(p.tasks.size() >= 3 && (n || p.rebarrier))
        g.nontrivial();
}

static void futures_run(pbt::Gen& g)
{
    Profile pf;
    pf.p_future = 90;
    pf.results = true;
    pf.p_stack = 70;
    pf.w_get = 14;
    pf.w_xget = 8;
    pf.w_mget = 14;
    pf.w_mdrop = 6;
    pf.w_event = 3;
    pf.w_child = 10;
    pf.p_blocker = 30;
    Program p = run_profile(g, pf, {true});
    unsigned n = 0;
    for(auto& o : p.main)
        n += o.kind == OP_GET;
    if(n + body_ops(p, OP_GET) >= 2)
        g.nontrivial();
}

static void events_run(pbt::Gen& g)
{
    Profile pf;
    pf.w_event = 16;
    pf.w_yield = 3;
    pf.w_child = 5;
    pf.helper = true;
    pf.p_conflict = 75;
    pf.w_mmisc = 2;
    pf.w_barrier = 6;
    pf.p_blocker = 15;
    Program p = run_profile(g, pf);
    if(p.events.size() && nontrivial_conflict(p))
        g.nontrivial();
}

static void suspend_run(pbt::Gen& g)
{
    Profile pf;
    pf.p_stack = 90;
    pf.w_event = 12;
    pf.w_yield = 16;
    pf.w_get = 8;
    pf.w_xget = 4;
    pf.p_future = 70;
    pf.w_child = 5;
    pf.helper = true;
    pf.w_myield = 4;
    pf.p_blocker = 15;
    Program p = run_profile(g, pf);
    if(body_ops(p, OP_YIELD) + body_ops(p, OP_GET) >= 2)
        g.nontrivial();
}

static void narrow_run(pbt::Gen& g)
{
    Profile pf;
    pf.w_demote = 16;
    pf.w_bad = 7;
    pf.w_event = 6;
    pf.w_yield = 6;
    pf.w_child = 3;
    pf.p_stack = 70;
    pf.max_res = 3;
    pf.p_conflict = 80;
    pf.w_quiesce = 12;
    pf.dup = 20;
    pf.w_mmisc = 1;
    pf.p_empty = 3;
    Program p = run_profile(g, pf);
    if(body_ops(p, OP_DEMOTE) && nontrivial_conflict(p))
        g.nontrivial();
}

static void scopes_run(pbt::Gen& g)
{
    Profile pf;
    pf.max_depth = 4;
    pf.w_child = 12;
    pf.w_local = 10;
    pf.w_badchild = 12;
    pf.w_demote = 2;
    pf.w_event = 2;
    pf.styles = true;
    pf.w_yield = 2;
    Program p = run_profile(g, pf, {true});
    bool local = false;
    for(auto& t : p.tasks)
        for(auto& a : t.acc)
            local |= p.res[a.res].creator >= 0;
    if(body_ops(p, OP_BADCHILD) && local)
        g.nontrivial();
}

static void introspect_run(pbt::Gen& g)
{
    Profile pf;
    pf.max_depth = 5;
    pf.w_bt = 16;
    pf.w_child = 14;
    pf.p_stack = 75;
    pf.w_event = 5;
    pf.w_yield = 8;
    pf.w_get = 6;
    pf.p_future = 60;
    pf.w_mmisc = 8;
    Program p = run_profile(g, pf);
    bool nested = false;
    for(auto& t : p.tasks)
        nested |= t.depth >= 1;
    if(nested && body_ops(p, OP_YIELD) + body_ops(p, OP_GET))
        g.nontrivial();
}

static void leaks_run(pbt::Gen& g)
{
    Profile pf;
    pf.tracked = 1;
    pf.styles = true;
    pf.results = true;
    pf.w_demote = 3;
    pf.w_bad = 2;
    pf.w_badchild = 1;
    pf.w_xget = 2;
    pf.w_local = 5;
    pf.epochs = 2;
    Program p = run_profile(g, pf, {true});
    if(p.tasks.size() >= 4)
        g.nontrivial();
}

static void safety_run(pbt::Gen& g)
{
    Profile pf;
    pf.tracked = 1;
    pf.styles = true;
    pf.results = true;
    pf.lvalue = true;
    pf.helper = true;
    pf.w_demote = 4;
    pf.w_bad = 1;
    pf.w_badchild = 1;
    pf.w_yield = 6;
    pf.w_get = 6;
    pf.w_xget = 3;
    pf.p_future = 60;
    pf.w_bt = 2;
    pf.epochs = 2;
    pf.max_res = 2;
    pf.w_mmisc = 1;
    Program p = run_profile(g, pf, {true});
    if(nontrivial_conflict(p))
        g.nontrivial();
}

static void describe_run(pbt::Gen& g)
{
    Profile pf;
    pf.styles = true;
    pf.max_depth = 4;
    pf.w_bt = 14;
    pf.w_child = 10;
    pf.w_demote = 7;
    pf.w_bad = 1;
    pf.w_badchild = 2;
    pf.w_local = 5;
    pf.dup = 20;
    pf.w_event = 3;
    pf.w_yield = 4;
    RunOpts o;
    o.describe = true;
    Program p = run_profile(g, pf, o);
    unsigned acc = 0;
    for(auto& t : p.tasks)
        acc += t.acc.size();
    if(acc >= 3 && body_ops(p, OP_BACKTRACE))
        g.nontrivial();
}

// everything at once, for builds with unusual settings
static void mixed_run(pbt::Gen& g)
{
    switch(g.choose(5))
    {
    case 0:
        return order_run(g);
    case 1:
        return once_run(g);
    case 2:
        return suspend_run(g);
    case 3:
        return heldback_run(g);
    default:
        return safety_run(g);
    }
}

static void lifetimes_run(pbt::Gen& g)
{
    Profile pf;
    pf.styles = true;
    pf.results = true;
    pf.lvalue = true;
    pf.w_child = 8;
    pf.w_event = 3;
    pf.w_yield = 3;
    pf.w_badchild = 1;
    pf.p_future = 50;
    Program p = run_profile(g, pf, {true});
    unsigned lv = 0, args = 0;
    for(auto& t : p.tasks)
    {
        lv += t.lvalue && t.style < ST_GUARD;
        args += t.style >= ST_GUARD;
    }
    if(lv && args)
        g.nontrivial();
}

int main(int argc, char** argv)
{
#define CHECK(id, name, fn, rule) {id, name, warm, fn, CONC, rule, labels, assume, 100000000, 1000000000, 60, 600}
    return pbt::main(argc, argv,
        {
            CHECK("P01", "order", order_run, "two sibling tasks with conflicting accesses"),
            CHECK("P01", "order_demote", order_demote_run, "two sibling tasks with conflicting accesses, accesses may be given up"),
            CHECK("P02", "heldback", heldback_run, "siblings in conflict and siblings that share a resource without conflict"),
            CHECK("P03", "descend", descend_run, "a task with children has a conflicting later sibling"),
            CHECK("P04", "once", once_run, "three tasks or more and a barrier between submissions or a repeated barrier"),
            CHECK("P05", "futures", futures_run, "two or more results retrieved"),
            CHECK("P06", "events", events_run, "an external event and conflicting siblings"),
            CHECK("P07", "suspend", suspend_run, "two or more waits inside tasks"),
            CHECK("P08", "narrow", narrow_run, "a task gives up accesses and conflicting siblings exist"),
            CHECK("P09", "scopes", scopes_run, "a child to be refused and a child using a resource of inner scope"),
            CHECK("P17", "introspect", introspect_run, "nested tasks and waits inside tasks"),
            CHECK("P19", "leaks", leaks_run, "four tasks or more"),
            CHECK("P21", "safety", safety_run, "two sibling tasks with conflicting accesses"),
            CHECK("P24", "describe", describe_run, "three accesses or more and a description of a running task"),
            CHECK("P24", "logging", safety_run, "two sibling tasks with conflicting accesses"),
            CHECK("P25", "tuned", mixed_run, "as the profile drawn: order, once, suspend, heldback or safety"),
            CHECK("P25", "tuned2", mixed_run, "as the profile drawn: order, once, suspend, heldback or safety"),
            CHECK("P25", "tuned_leaks", leaks_run, "four tasks or more"),
            {"P25", "tuned_steady", warm, sys::steady_run, true, 1, 120, "two tasks or more per repetition",
             {"tasks", "repetitions", "chunks", "workers", "nested", "more_workers_than_units", "long_runs"}, assume,
             100000000, 1000000000, 60, 600},
            CHECK("P22", "lifetimes", lifetimes_run, "callables passed as lvalues and tasks with arguments"),
        });
}
