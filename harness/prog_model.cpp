#include "prog_model.hpp"

#include <algorithm>
#include <cstdio>
#include <cstring>
#include <set>

namespace prog
{
    static bool overlap(Acc const& a, Acc const& b)
    {
        for(int d = 0; d < 2; ++d)
            if(!(std::max(a.lo[d], b.lo[d]) < std::min(a.hi[d], b.hi[d])))
                return false;
        return true;
    }

    bool conflict(Acc const& a, Acc const& b)
    {
        if(a.res != b.res || !overlap(a, b))
            return false;
        return !(a.mode == b.mode && a.mode != M_WRITE);
    }

    bool conflict(std::vector<Acc> const& a, std::vector<Acc> const& b)
    {
        for(auto& x : a)
            for(auto& y : b)
                if(conflict(x, y))
                    return true;
        return false;
    }

    bool covers(Acc const& a, Acc const& b)
    {
        if(a.res != b.res || !(a.mode == M_WRITE || a.mode == b.mode))
            return false;
        for(int d = 0; d < 2; ++d)
            if(!(a.lo[d] <= b.lo[d] && b.hi[d] <= a.hi[d]))
                return false;
        return true;
    }

    void elements(ResDef const& r, Acc const& a, std::vector<unsigned>& out)
    {
        out.clear();
        if(r.kind == R_IO)
            out.push_back(0);
        else if(r.kind == R_F1)
        {
            for(unsigned x = a.lo[0]; x < std::min(a.hi[0], EXT1); ++x)
                out.push_back(x);
        }
        else
            for(unsigned y = a.lo[1]; y < std::min(a.hi[1], EXT2Y); ++y)
                for(unsigned x = a.lo[0]; x < std::min(a.hi[0], EXT2X); ++x)
                    out.push_back(y * EXT2X + x);
    }

    bool union_covers(ResDef const& r, std::vector<Acc> const& v, Acc const& a)
    {
        for(auto& b : v)
            if(covers(b, a))
                return true;
        if(a.hi[0] == FULL)
            return false;
        std::vector<unsigned> el, mine;
        elements(r, a, mine);
        for(unsigned x : mine)
        {
            bool f = false;
            for(auto& b : v)
            {
                if(b.res != a.res || !(b.mode == M_WRITE || b.mode == a.mode))
                    continue;
                elements(r, b, el);
                f |= std::find(el.begin(), el.end(), x) != el.end();
            }
            if(!f)
                return false;
        }
        return true;
    }

    /* ------------------------------------------------------------------ model */
    Model::Model(Program const& p) : p(&p)
    {
        grow();
    }

    void Model::grow()
    {
        t.resize(p->tasks.size());
        e.resize(p->events.size());
        space.resize(p->tasks.size() + 1);
    }

    void Model::submit(int k)
    {
        grow();
        t[k].submitted = true;
        t[k].acc = p->tasks[k].acc;
        t[k].seq = order.size();
        order.push_back(k);
        auto& s = space[p->tasks[k].parent + 1];
        s.push_back(k);
        if(p->tasks[k].parent >= 0)
            t[p->tasks[k].parent].children.push_back(k);
    }

    bool Model::complete(int k) const
    {
        if(!t[k].body_done)
            return false;
        for(int ev : t[k].events)
            if(!e[ev].notified)
                return false;
        for(int c : t[k].children)
            if(!complete(c))
                return false;
        return true;
    }

    bool Model::startable(int k) const
    {
        for(int o : space[p->tasks[k].parent + 1])
        {
            if(o == k)
                return true;
            if(conflict(t[o].acc, t[k].acc) && !complete(o))
                return false;
        }
        return true;
    }

    void Model::notify(int ev)
    {
        grow();
        e[ev].notified = true;
    }

    bool Model::run(int k)
    {
        bool any = false;
        auto& ops = p->tasks[k].ops;
        while(t[k].pc < ops.size())
        {
            Op const& o = ops[t[k].pc];
            switch(o.kind)
            {
            case OP_CHILD:
                submit(o.a);
                break;
            case OP_GET:
                if(!t[o.a].body_done)
                    return any;
                break;
            case OP_EVENT:
                e[o.a].created = true;
                t[k].events.push_back(o.a);
                break;
            case OP_NOTIFY:
                e[o.a].notified = true;
                break;
            case OP_YIELD:
                if(!e[o.a].notified)
                    return any;
                break;
            case OP_DEMOTE:
                t[k].acc = p->demotes[o.a].result;
                break;
            default:
                break;
            }
            t[k].pc++;
            any = true;
        }
        if(!t[k].body_done)
        {
            t[k].body_done = true;
            any = true;
        }
        return any;
    }

    void Model::rest()
    {
        grow();
        bool any = true;
        while(any)
        {
            any = false;
            for(size_t i = 0; i < order.size(); ++i)
            {
                int k = order[i];
                if(!t[k].started && startable(k))
                {
                    t[k].started = true;
                    any = true;
                }
                if(t[k].started && !t[k].body_done && run(k))
                    any = true;
            }
        }
    }

    bool Model::all_complete() const
    {
        for(int k : space[0])
            if(!complete(k))
                return false;
        return true;
    }

    /* ------------------------------------------------------------------ generator */
    namespace
    {
        struct Generator
        {
            pbt::Gen& g;
            Profile const& pf;
            Program p;
            Model m;
            std::vector<int> assigned; // per event: 1 = notifier fixed
            unsigned n_tasks = 0;
            std::vector<int> held; // top level tasks whose futures are held by main
            std::vector<int> anc_res; // resources created by ancestors of the current task

            Generator(pbt::Gen& g, Profile const& pf) : g(g), pf(pf), m(p)
            {
            }

            int policy()
            {
                return g.coin(pf.p_user, 100) ? 1 + g.choose(2) : 0;
            }

            Acc area_of(int r, bool allow_full = true)
            {
                Acc a;
                a.res = r;
                a.mode = M_WRITE;
                a.lo[0] = a.lo[1] = 0;
                a.hi[0] = a.hi[1] = FULL;
                int k = p.res[r].kind;
                if(k != R_IO && !(allow_full && g.coin(15, 100)))
                {
                    a.lo[0] = g.choose(k == R_F1 ? EXT1 : EXT2X);
                    a.hi[0] = a.lo[0] + 1 + g.choose((k == R_F1 ? EXT1 : EXT2X) - a.lo[0]);
                    if(k == R_F2)
                    {
                        a.lo[1] = g.choose(EXT2Y);
                        a.hi[1] = a.lo[1] + 1 + g.choose(EXT2Y - a.lo[1]);
                    }
                }
                return a;
            }

            int mode(int r)
            {
                if(pf.modes == 2)
                    return g.weighted(3, 3);
                (void) r;
                return g.weighted(5, 5, 2, 1);
            }

            // an access covered by `a`, possibly equal to it
            Acc narrow(Acc a)
            {
                if(a.mode == M_WRITE)
                    a.mode = g.coin(1, 2) ? mode(a.res) : M_WRITE;
                int k = p.res[a.res].kind;
                if(k != R_IO && g.coin(1, 2))
                {
                    unsigned ext[2] = {k == R_F1 ? EXT1 : EXT2X, k == R_F1 ? FULL : EXT2Y};
                    for(int d = 0; d < (k == R_F1 ? 1 : 2); ++d)
                    {
                        unsigned hi = std::min(a.hi[d], ext[d]);
                        unsigned lo = a.lo[d] + g.choose(hi - a.lo[d]);
                        a.hi[d] = lo + 1 + g.choose(hi - lo);
                        a.lo[d] = lo;
                    }
                }
                return a;
            }

            std::vector<Acc> accesses(int parent, std::vector<Acc> const& pcur, std::vector<int> const& locals)
            {
                std::vector<Acc> v;
                if(g.coin(pf.p_empty, 100))
                    return v;
                unsigned n = 1 + (pf.light ? g.weighted(8, 2) : g.weighted(10, 6, 3, 1));
                for(unsigned i = 0; i < n; ++i)
                {
                    Acc a;
                    if(parent < 0)
                    {
                        int r = g.coin(pf.p_conflict, 100) ? 0 : g.choose(p.res.size());
                        if(p.res[r].creator >= 0)
                            r = 0;
                        a = area_of(r);
                        a.mode = mode(r);
                    }
                    else
                    {
                        unsigned k = g.choose(pcur.size() + locals.size());
                        if(pcur.empty() && locals.empty())
                            return v;
                        if(k < pcur.size())
                            a = narrow(pcur[k]);
                        else
                        {
                            a = area_of(locals[k - pcur.size()]);
                            a.mode = mode(a.res);
                        }
                    }
                    bool used = false, same = false;
                    for(auto& x : v)
                    {
                        used |= x.res == a.res;
                        same |= x == a;
                    }
                    if(used && !g.coin(pf.dup, 100))
                        continue;
                    if(same && !g.coin(1, 4))
                        continue;
                    v.push_back(a);
                }
                return v;
            }

            // open: events of t's ancestors and of t without a notifier
            int task(int parent, int depth, std::vector<Acc> const& pcur, std::vector<int> const& locals,
                     std::vector<int>& open, std::vector<int> const& visible, bool blocks = false)
            {
                int k = p.tasks.size();
                ++n_tasks;
                p.tasks.emplace_back();
                {
                    TaskDef& d = p.tasks[k];
                    d.parent = parent;
                    d.depth = depth;
                    d.style = pf.styles ? (int) g.choose(ST_COUNT) : ST_LIST;
                    d.result = pf.results ? (int) g.choose(3) : (int) g.weighted(8, 2, 0);
                    d.stack_switching = g.coin(pf.p_stack, 100);
                    d.in_ctor = false;
                    d.lvalue = pf.lvalue && g.coin(1, 4);
                    d.touch_end = true;
                    if(!blocks)
                        d.acc = accesses(parent, pcur, locals);
                }
                if(blocks)
                {
                    p.tasks[k].ops.push_back({OP_EVENT, (int) p.events.size(), 0});
                    p.events.push_back({k, -1});
                    assigned.push_back(0);
                    return k;
                }
                std::vector<Acc> cur = p.tasks[k].acc;
                std::vector<Op> ops;
                std::vector<int> mylocals, myevents, vis = visible, kids, kept;
                std::vector<Acc> kid_acc;
                bool ss = p.tasks[k].stack_switching;
                unsigned budget = g.weighted(8, 6, 4, 2, 1, 1);
                bool demoted = false;
                for(unsigned i = 0; i < budget + 0u; ++i)
                {
                    bool more = n_tasks < pf.max_tasks && depth + 1 < (int) pf.max_depth && !pf.only_flat;
                    unsigned pick = g.weighted(
                        4, // point
                        more ? pf.w_child : 0,
                        pf.w_event,
                        pf.w_event,
                        (ss && !vis.empty()) ? pf.w_yield : 0,
                        cur.empty() ? 0 : pf.w_demote,
                        pf.w_bad,
                        (ss && !kept.empty()) ? pf.w_get : 0,
                        more ? pf.w_local : 0,
                        pf.w_bt,
                        kept.empty() ? 0 : 1,
                        kept.empty() ? 0 : 1,
                        (ss && !held.empty()) ? pf.w_xget : 0,
                        held.empty() ? 0 : pf.w_xget / 2,
                        pf.w_badchild);
                    switch(pick)
                    {
                    case 0:
                        ops.push_back({OP_POINT, 0, 0});
                        break;
                    case 1:
                        {
                            unsigned n = 1 + g.choose(3);
                            for(unsigned j = 0; j < n && n_tasks < pf.max_tasks; ++j)
                            {
                                size_t mark = anc_res.size();
                                anc_res.insert(anc_res.end(), mylocals.begin(), mylocals.end());
                                int c = task(k, depth + 1, cur, mylocals, open, vis);
                                anc_res.resize(mark);
                                bool keep = g.coin(pf.p_future, 100);
                                ops.push_back({OP_CHILD, c, keep});
                                kids.push_back(c);
                                if(keep)
                                    kept.push_back(c);
                                for(auto& a : p.tasks[c].acc)
                                    kid_acc.push_back(a);
                            }
                            break;
                        }
                    case 2:
                        {
                            int e = p.events.size();
                            p.events.push_back({k, -1});
                            assigned.push_back(0);
                            ops.push_back({OP_EVENT, e, 0});
                            open.push_back(e);
                            vis.push_back(e);
                            myevents.push_back(e);
                            break;
                        }
                    case 3:
                        if(!open.empty())
                        {
                            unsigned j = g.choose(open.size());
                            int e = open[j];
                            open.erase(open.begin() + j);
                            p.events[e].notifier = k;
                            ops.push_back({OP_NOTIFY, e, 0});
                        }
                        break;
                    case 4:
                        {
                            int e = vis[g.choose(vis.size())];
                            auto it = std::find(open.begin(), open.end(), e);
                            if(it != open.end())
                            {
                                open.erase(it);
                                p.events[e].notifier = pf.helper && g.coin(1, 2) ? -2 : -1;
                            }
                            ops.push_back({OP_YIELD, e, 0});
                            break;
                        }
                    case 5:
                        {
                            Demote d;
                            d.add_first = g.coin(1, 2);
                            std::vector<Acc> res = cur;
                            std::vector<Acc> add;
                            for(auto& a : cur)
                            {
                                unsigned w = g.weighted(3, 3, 4);
                                if(w == 0)
                                    continue;
                                if(std::find(d.remove.begin(), d.remove.end(), a) != d.remove.end())
                                    continue;
                                if(w == 2)
                                {
                                    Acc b = narrow(a);
                                    if(b == a)
                                        continue;
                                    add.push_back(b);
                                }
                                d.remove.push_back(a);
                            }
                            auto rm = [&]
                            {
                                for(auto& r : d.remove)
                                    res.erase(std::remove(res.begin(), res.end(), r), res.end());
                            };
                            if(d.add_first)
                            {
                                res.insert(res.end(), add.begin(), add.end());
                                rm();
                            }
                            else
                            {
                                rm();
                                res.insert(res.end(), add.begin(), add.end());
                            }
                            bool ok = !d.remove.empty();
                            for(auto& a : kid_acc)
                            {
                                if(p.res[a.res].creator == k)
                                    continue;
                                bool c = false;
                                for(auto& b : res)
                                    c |= covers(b, a);
                                ok &= c;
                            }
                            if(!ok)
                                break;
                            d.add = add;
                            d.result = res;
                            cur = res;
                            demoted = true;
                            ops.push_back({OP_DEMOTE, (int) p.demotes.size(), 0});
                            p.demotes.push_back(d);
                            break;
                        }
                    case 6:
                        {
                            // something that is no narrowing, together with harmless parts
                            Demote d;
                            d.add_first = g.coin(1, 2);
                            Acc bad;
                            bool found = false;
                            for(int tries = 0; tries < 3 && !found; ++tries)
                            {
                                int r = g.choose(p.res.size());
                                if(p.res[r].creator >= 0)
                                    continue;
                                bad = area_of(r);
                                bad.mode = mode(r);
                                found = !union_covers(p.res[r], cur, bad);
                            }
                            if(!found)
                                break;
                            if(!cur.empty() && g.coin(1, 2))
                                d.remove.push_back(cur[g.choose(cur.size())]);
                            if(!cur.empty() && g.coin(1, 2))
                                d.add.push_back(narrow(cur[g.choose(cur.size())]));
                            d.add.insert(d.add.begin() + g.choose(d.add.size() + 1), bad);
                            // removing afterwards what was added would make it harmless
                            bool harmless = false;
                            for(auto& r : d.remove)
                                harmless |= r == bad;
                            if(harmless)
                                break;
                            d.result = cur;
                            ops.push_back({OP_BAD, (int) p.demotes.size(), 0});
                            p.demotes.push_back(d);
                            break;
                        }
                    case 7:
                        {
                            unsigned j = g.choose(kept.size());
                            ops.push_back({OP_GET, kept[j], 0});
                            kept.erase(kept.begin() + j);
                            break;
                        }
                    case 8:
                        {
                            int r = p.res.size();
                            int kind = g.choose(3);
                            p.res.push_back({kind, k, policy()});
                            mylocals.push_back(r);
                            ops.push_back({OP_RESOURCE, r, 0});
                            break;
                        }
                    case 9:
                        ops.push_back({OP_BACKTRACE, 0, 0});
                        break;
                    case 10:
                        {
                            unsigned j = g.choose(kept.size());
                            ops.push_back({OP_DROP, kept[j], 0});
                            kept.erase(kept.begin() + j);
                            break;
                        }
                    case 11:
                        ops.push_back({OP_READY, kept[g.choose(kept.size())], 0});
                        break;
                    case 12:
                    case 13:
                        {
                            // the main thread handed the future of an earlier task over to this one
                            unsigned j = g.choose(held.size());
                            ops.push_back({pick == 12 ? OP_GET : OP_DROP, held[j], 1});
                            held.erase(held.begin() + j);
                            break;
                        }
                    case 14:
                        {
                            Acc bad;
                            bool found = false;
                            for(int tries = 0; tries < 3 && !found; ++tries)
                            {
                                unsigned n = 0;
                                while(n < p.res.size() && p.res[n].creator < 0)
                                    ++n;
                                unsigned j = g.choose(n + anc_res.size());
                                int r = j < n ? (int) j : anc_res[j - n];
                                bad = area_of(r);
                                bad.mode = mode(r);
                                found = !union_covers(p.res[r], cur, bad);
                            }
                            if(!found)
                                break;
                            Demote d;
                            d.add_first = false;
                            if(!cur.empty() && g.coin(1, 2))
                                d.add.push_back(narrow(cur[g.choose(cur.size())]));
                            d.add.insert(d.add.begin() + g.choose(d.add.size() + 1), bad);
                            ops.push_back({OP_BADCHILD, (int) p.demotes.size(), g.coin(1, 3)});
                            p.demotes.push_back(d);
                            break;
                        }
                    }
                }
                for(int e : myevents)
                {
                    auto it = std::find(open.begin(), open.end(), e);
                    if(it != open.end())
                    {
                        open.erase(it);
                        p.events[e].notifier = pf.helper && g.coin(1, 2) ? -2 : -1;
                    }
                }
                TaskDef& d = p.tasks[k];
                d.ops = ops;
                d.touch_end = !demoted && kids.empty();
                return k;
            }

            void notify_main(int e)
            {
                p.main.push_back({OP_NOTIFY, e, p.events[e].notifier == -2});
                m.notify(e);
                m.rest();
            }

            int late = -1; // event of the blocker

            std::vector<int> notifiable()
            {
                std::vector<int> v;
                m.grow();
                for(size_t e = 0; e < p.events.size(); ++e)
                    if(p.events[e].notifier < 0 && m.e[e].created && !m.e[e].notified && (int) e != late)
                        v.push_back(e);
                return v;
            }

            // a task without accesses which stays outstanding until everything else is complete: the root scope
            // does not become empty in between
            void blocker()
            {
                std::vector<int> open;
                int k = task(-1, 0, {}, {}, open, {}, true);
                late = p.tasks[k].ops.at(0).a;
                p.main.push_back({OP_CHILD, k, 0});
                m.submit(k);
                m.rest();
            }

            void build()
            {
                p.n_workers = 1 + g.choose(pf.max_workers);
                p.tracked = pf.tracked < 0 ? g.coin(1, 2) : pf.tracked;
                p.rebarrier = g.coin(1, 4);
                p.drop = g.coin(pf.p_drop, 100);
                unsigned nr = 1 + g.choose(pf.max_res);
                for(unsigned i = 0; i < nr; ++i)
                {
                    int kind = g.weighted(6, 3, 2);
                    p.res.push_back({kind, -1, policy()});
                }
                if(g.coin(pf.p_blocker, 100))
                    blocker();
                unsigned nops = 3 + g.choose(pf.max_tasks * 3 / 2);
                for(unsigned i = 0; i < nops; ++i)
                {
                    auto nt = notifiable();
                    std::vector<int> gettable;
                    for(int k : held)
                        if(m.t[k].body_done)
                            gettable.push_back(k);
                    std::vector<int> reached;
                    for(size_t e = 0; e < p.events.size(); ++e)
                        if(m.e[e].created && m.e[e].notified)
                            reached.push_back(e);
                    unsigned pick = g.weighted(
                        n_tasks < pf.max_tasks ? 20 : 0,
                        m.all_complete() && !m.space[0].empty() ? pf.w_barrier : 0,
                        pf.w_quiesce,
                        nt.empty() ? 0 : pf.w_notify,
                        gettable.empty() ? 0 : pf.w_mget,
                        held.empty() ? 0 : pf.w_mdrop,
                        reached.empty() ? 0 : pf.w_myield,
                        pf.w_mmisc,
                        held.empty() ? 0 : 1);
                    switch(pick)
                    {
                    case 0:
                        if(n_tasks < pf.max_tasks)
                        {
                            std::vector<int> open;
                            int k = task(-1, 0, {}, {}, open, {});
                            bool keep = g.coin(pf.p_future, 100);
                            p.main.push_back({OP_CHILD, k, keep});
                            if(keep)
                                held.push_back(k);
                            m.submit(k);
                            m.rest();
                        }
                        break;
                    case 1:
                        p.main.push_back({OP_BARRIER, 0, 0});
                        break;
                    case 2:
                        p.main.push_back({OP_QUIESCE, 0, 0});
                        break;
                    case 3:
                        notify_main(nt[g.choose(nt.size())]);
                        break;
                    case 4:
                        {
                            int k = gettable[g.choose(gettable.size())];
                            p.main.push_back({OP_GET, k, 0});
                            held.erase(std::find(held.begin(), held.end(), k));
                            break;
                        }
                    case 5:
                        {
                            unsigned j = g.choose(held.size());
                            p.main.push_back({OP_DROP, held[j], 0});
                            held.erase(held.begin() + j);
                            break;
                        }
                    case 6:
                        p.main.push_back({OP_YIELD, reached[g.choose(reached.size())], 0});
                        break;
                    case 7:
                        p.main.push_back({OP_MAINMISC, 0, 0});
                        break;
                    case 8:
                        p.main.push_back({OP_READY, held[g.choose(held.size())], 0});
                        break;
                    }
                }
                if(g.coin(1, 2))
                    p.main.push_back({OP_QUIESCE, 0, 0});
                // let everything complete
                while(true)
                {
                    m.rest();
                    auto nt = notifiable();
                    if(!nt.empty())
                    {
                        notify_main(nt[g.choose(nt.size())]);
                        continue;
                    }
                    if(late >= 0)
                    {
                        late = -1;
                        continue;
                    }
                    if(m.all_complete())
                        break;
                    // the program waits for itself: remove the first waiting operation
                    bool fixed = false;
                    for(size_t k = 0; k < m.t.size() && !fixed; ++k)
                        if(m.t[k].started && !m.t[k].body_done)
                        {
                            p.tasks[k].ops[m.t[k].pc].kind = OP_NOP;
                            fixed = true;
                        }
                    if(!fixed)
                    {
                        fprintf(stderr, "generator: stuck program\n%s\n", describe(p).c_str());
                        abort();
                    }
                }
                if(g.coin(1, 2))
                    p.main.push_back({OP_QUIESCE, 0, 0});
                p.hold.assign(p.tasks.size(), 0);
                for(int k : held)
                    switch(g.weighted(2, 2, 1))
                    {
                    case 0:
                        p.main.push_back({OP_GET, k, 0});
                        break;
                    case 1:
                        p.main.push_back({OP_DROP, k, 0});
                        break;
                    default:
                        p.hold[k] = 1;
                    }
            }
        };
    } // namespace

    Program generate(pbt::Gen& g, Profile const& pf)
    {
        Generator x(g, pf);
        x.build();
        return x.p;
    }

    static std::string acc_str(Acc const& a)
    {
        static char const* n[] = {"w", "r", "aadd", "amul"};
        char b[100];
        if(a.hi[0] == FULL)
            snprintf(b, sizeof b, "%s:R%d", n[a.mode], a.res);
        else if(a.hi[1] == FULL)
            snprintf(b, sizeof b, "%s:R%d[%u,%u)", n[a.mode], a.res, a.lo[0], a.hi[0]);
        else
            snprintf(b, sizeof b, "%s:R%d[%u,%u)x[%u,%u)", n[a.mode], a.res, a.lo[0], a.hi[0], a.lo[1], a.hi[1]);
        return b;
    }

    static std::string accs_str(std::vector<Acc> const& v)
    {
        std::string s = "{";
        for(auto& a : v)
            s += (s.size() > 1 ? " " : "") + acc_str(a);
        return s + "}";
    }

    static void task_str(Program const& p, int k, std::string& s, int ind);

    static void op_str(Program const& p, Op const& o, std::string& s, int ind)
    {
        std::string in(ind, ' ');
        char b[160];
        auto add = [&](char const* f, auto... a)
        {
            if constexpr(sizeof...(a) == 0)
                snprintf(b, sizeof b, "%s", f);
            else
                snprintf(b, sizeof b, f, a...);
            s += in + b + "\n";
        };
        switch(o.kind)
        {
        case OP_CHILD:
            s += in + (o.b ? "submit (keep future) " : "submit ");
            task_str(p, o.a, s, ind);
            break;
        case OP_GET:
            add("get T%d", o.a);
            break;
        case OP_DROP:
            add("drop future of T%d", o.a);
            break;
        case OP_EVENT:
            add("create event E%d", o.a);
            break;
        case OP_NOTIFY:
            add("notify E%d%s", o.a, o.b ? " (helper thread)" : "");
            break;
        case OP_YIELD:
            add("wait for E%d", o.a);
            break;
        case OP_DEMOTE:
        case OP_BAD:
            {
                auto& d = p.demotes[o.a];
                s += in + (o.kind == OP_BAD ? "rejected update" : "update") + (d.add_first ? " (adds first)" : "")
                     + " remove " + accs_str(d.remove) + " add " + accs_str(d.add) + "\n";
                break;
            }
        case OP_BADCHILD:
            s += in + "refused child " + accs_str(p.demotes[o.a].add) + (o.b ? " (by destruction)\n" : "\n");
            break;
        case OP_BACKTRACE:
            add("backtrace");
            break;
        case OP_RESOURCE:
            add("create resource R%d kind %d", o.a, p.res[o.a].kind);
            break;
        case OP_BARRIER:
            add("barrier");
            break;
        case OP_QUIESCE:
            add("rest");
            break;
        case OP_READY:
            add("is_ready T%d", o.a);
            break;
        case OP_MAINMISC:
            add("introspect");
            break;
        case OP_POINT:
            add("work");
            break;
        default:
            add("nop");
        }
    }

    static void task_str(Program const& p, int k, std::string& s, int ind)
    {
        auto& t = p.tasks[k];
        s += "T" + std::to_string(k) + accs_str(t.acc) + (t.stack_switching ? " own-stack" : "")
             + (t.style ? " style" + std::to_string(t.style) : "") + (t.result ? " result" + std::to_string(t.result) : "")
             + "\n";
        for(auto& o : t.ops)
            op_str(p, o, s, ind + 4);
    }

    std::string describe(Program const& p)
    {
        std::string s = "workers=" + std::to_string(p.n_workers) + (p.tracked ? " tracked" : "")
                        + (p.drop ? " handles-discarded" : "") + " resources:";
        for(size_t i = 0; i < p.res.size(); ++i)
            if(p.res[i].creator < 0 || p.res[i].policy)
                s += " R" + std::to_string(i) + "=" + (p.res[i].kind == 0 ? "IO" : p.res[i].kind == 1 ? "F1" : "F2")
                     + (p.res[i].policy ? "/user" + std::to_string(p.res[i].policy) : "");
        s += "\n";
        for(auto& o : p.main)
            op_str(p, o, s, 0);
        for(size_t k = 0; k < p.hold.size(); ++k)
            if(p.hold[k])
                s += "hold future of T" + std::to_string(k) + " past the last barrier\n";
        return s;
    }

    bool nontrivial_conflict(Program const& p)
    {
        // at least one pair of conflicting siblings
        for(size_t a = 0; a < p.tasks.size(); ++a)
            for(size_t b = a + 1; b < p.tasks.size(); ++b)
                if(p.tasks[a].parent == p.tasks[b].parent && conflict(p.tasks[a].acc, p.tasks[b].acc))
                    return true;
        return false;
    }

    /* ------------------------------------------------------------------ serial execution */
    namespace
    {
        struct Ser
        {
            Program const& p;
            Serial& s;
            void run(int k)
            {
                auto& t = p.tasks[k];
                std::vector<unsigned> el;
                s.seen[k].resize(t.acc.size());
                for(size_t i = 0; i < t.acc.size(); ++i)
                {
                    auto& a = t.acc[i];
                    elements(p.res[a.res], a, el);
                    for(unsigned x : el)
                    {
                        uint64_t& v = s.final_[a.res][x];
                        uint64_t b = v;
                        if(a.mode == M_WRITE)
                            v = f_write(v, k);
                        else if(a.mode == M_AADD)
                            v += f_aadd(k);
                        else if(a.mode == M_AMUL)
                            v *= f_amul(k);
                        s.seen[k][i].push_back({b, 0});
                    }
                }
                for(size_t i = 0; i < t.acc.size(); ++i)
                {
                    elements(p.res[t.acc[i].res], t.acc[i], el);
                    for(size_t j = 0; j < el.size(); ++j)
                        s.seen[k][i][j].after = s.final_[t.acc[i].res][el[j]];
                }
                for(auto& o : t.ops)
                    if(o.kind == OP_CHILD)
                        run(o.a);
            }
        };
    } // namespace

    Serial serial(Program const& p)
    {
        Serial s;
        s.seen.resize(p.tasks.size());
        for(size_t r = 0; r < p.res.size(); ++r)
            s.final_.push_back(std::vector<uint64_t>(p.res[r].n_elem(), 1000 + r));
        Ser x{p, s};
        for(auto& o : p.main)
            if(o.kind == OP_CHILD)
                x.run(o.a);
        return s;
    }
} // namespace prog
