// P12: ChunkedList under concurrent histories
#include "units.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/util/chunked_list.hpp>

#include <algorithm>
#include <memory>
#include <optional>
#include <thread>
#include <vector>

namespace rg = redGrapes;

namespace units
{
    using pbt::Gen;
    namespace
    {
        enum
        {
            L_PUSH,
            L_REMOVE,
            L_ERASE,
            L_ITER,
            L_VISIT,
            L_COPY,
            L_THREADS,
            L_HELD,
            L_FROM,
            L_ASSIGN,
            L_NOMEM,
            L_CROSS,
            L_RACE
        };

        bool no_memory[64]; // allocations of this thread fail
        uint64_t n_failed;
        struct TrackAlloc
        {
            rg::memory::Block allocate(size_t n)
            {
                int me = vs::self_id();
                if(me >= 0 && no_memory[me])
                {
                    ++n_failed;
                    return rg::memory::Block::null();
                }
                return {(uintptr_t) arena::alloc(n, 16), n};
            }
            void deallocate(rg::memory::Block b)
            {
                arena::free((void*) b.ptr);
            }
        };

        constexpr int MAXE = 400;
        constexpr uint64_t NEVER = ~0ull;

        struct Info
        {
            uint64_t push_b = NEVER, push_e = NEVER, rem_b = NEVER, rem_e = NEVER;
            int live = 0; // copies of the value inside the list
            bool destroyed = false;
            bool refused = false;
        };
        Info info[MAXE];
        int n_elem;
        bool in_push[64]; // thread constructs inside the list

        struct Val
        {
            static constexpr uint32_t ALIVE = 0xa11fe001, DEAD = 0xdeaddead;
            uint32_t state;
            int id;
            bool listed; // lives inside the list

            explicit Val(int id) : state(ALIVE), id(id), listed(false)
            {
            }
            Val(Val const& o) : state(ALIVE), id(o.id), listed(false)
            {
                if(o.state != ALIVE)
                    pbt::fail("dead-copy", "element was copied while its value was %s",
                              o.state == DEAD ? "already destroyed" : "not constructed");
                int me = vs::self_id();
                if(me >= 0 && in_push[me])
                {
                    listed = true;
                    info[id].live++;
                }
            }
            ~Val()
            {
                if(state != ALIVE)
                    pbt::fail("double-destroy", "value of an element destroyed while it is %s",
                              state == DEAD ? "already destroyed" : "not constructed");
                state = DEAD;
                if(listed)
                {
                    if(--info[id].live < 0)
                        pbt::fail("double-destroy", "value of element %d destroyed twice", id);
                    info[id].destroyed = true;
                }
            }
            bool operator==(Val const& o) const
            {
                return id == o.id;
            }
        };

        struct Op
        {
            unsigned kind, a, b;
        };
        char const* const opname[] = {"push", "remove", "iterate", "erase", "from-handle", "hold", "advance", "drop", "copy", "assign", "erase-any"};

        template<size_t CS>
        void run(Gen& g, vs::Config const& c)
        {
            using List = rg::ChunkedList<Val, CS, TrackAlloc>;
            using It = typename List::MutBackwardIterator;
            unsigned nt = 1 + g.choose(4);
            unsigned maxops = nt == 1 ? 40 : 14;
            bool pre = g.choose(3);
            bool nomem = g.coin(1, 5); // some allocations fail
            unsigned n_pre = pre ? g.choose(2 * CS + 3) : 0;
            std::vector<std::vector<Op>> prog(nt);
            g.desc("chunk size %zu, %u elements at first\n", CS, n_pre);
            g.count(L_THREADS, nt);
            unsigned pushers = 0;
            for(auto& p : prog)
            {
                unsigned n = 1 + g.choose(maxops);
                bool ps = false;
                g.desc("thread:");
                for(unsigned i = 0; i < n; ++i)
                {
                    Op o;
                    o.kind = g.weighted(8, 6, 5, 2, 2, 2, 2, 1, 1, 2, 3);
                    o.a = g.choose(64);
                    o.b = g.choose(8);
                    ps |= o.kind == 0;
                    p.push_back(o);
                    g.desc(" %s(%u,%u)", opname[o.kind], o.a, o.b);
                }
                pushers += ps;
                g.desc("\n");
            }
            for(int i = 0; i < MAXE; ++i)
                info[i] = Info();
            n_elem = 0;
            memset(in_push, 0, sizeof in_push);
            memset(no_memory, 0, sizeof no_memory);
            n_failed = 0;

            uint64_t cnt[10] = {0};
            uint64_t n_held = 0, n_overlap = 0, n_cross = 0, n_race = 0;
            unsigned removing = 0, iterating = 0;

            vs::begin(c);
            {
                auto list = std::make_unique<List>(TrackAlloc());

                // state of one iteration
                struct Walk
                {
                    std::optional<It> it;
                    uint64_t start = 0;
                    int limit = -1; // element whose handle it began at
                    bool incl = false; // that element itself may be visited
                    std::vector<char> seen = std::vector<char>(MAXE, 0);
                    std::vector<int> order;
                    uint64_t step_t = 0; // begin of the last step
                };
                // checks for the element the walk stands on
                auto visit = [&](Walk& w)
                {
                    vs::NoPoint np;
                    Val const& v = **w.it;
                    if(v.state != Val::ALIVE || v.id < 0 || v.id >= n_elem)
                        pbt::fail("dead-visit", "iteration visits a value which is %s",
                                  v.state == Val::DEAD ? "already destroyed" : "not constructed");
                    int x = v.id;
                    ++cnt[L_VISIT];
                    if(w.seen[x]++)
                        pbt::fail("twice", "iteration visits element %d twice", x);
                    // where it begins is given by the handle
                    if(info[x].rem_e < w.step_t && !(x == w.limit && w.incl))
                        pbt::fail("revived", "iteration visits element %d which was removed before", x);
                    if(w.limit >= 0)
                    {
                        if(x == w.limit ? !w.incl : info[x].push_b > info[w.limit].push_e)
                            pbt::fail("from-handle", "iteration from element %d visits element %d which is not before it", w.limit, x);
                    }
                    for(int y : w.order)
                        if(info[y].push_e < info[x].push_b)
                            pbt::fail("order", "iteration visits element %d after the older element %d", x, y);
                    w.order.push_back(x);
                };
                // `older_than`: the walk has reached this element, -1: the end
                auto missed = [&](Walk& w, int at)
                {
                    vs::NoPoint np;
                    for(int y = 0; y < n_elem; ++y)
                    {
                        if(w.seen[y] || info[y].push_e >= w.start || info[y].rem_b != NEVER)
                            continue;
                        if(at >= 0 && !(info[at].push_e < info[y].push_b))
                            continue; // not passed yet
                        if(w.limit >= 0 && !(info[y].push_e < info[w.limit].push_b) && !(y == w.limit && w.incl))
                            continue; // not before the handle
                        pbt::fail("missed", "iteration passes element %d, which is present all the time, without a visit", y);
                    }
                };
                // true: stands on an element
                auto settle = [&](Walk& w)
                {
                    bool more = *w.it != list->rend();
                    if(more)
                    {
                        visit(w);
                        missed(w, w.order.back());
                    }
                    else
                        missed(w, -1);
                    return more;
                };
                auto begin = [&](Walk& w)
                {
                    {
                        vs::NoPoint np;
                        w.start = w.step_t = tick();
                    }
                    w.it.emplace(list->rbegin());
                    return settle(w);
                };
                auto advance = [&](Walk& w)
                {
                    {
                        vs::NoPoint np;
                        Val const& v = **w.it;
                        if(v.state != Val::ALIVE || v.id != w.order.back())
                            pbt::fail("dead-held", "value of element %d was destroyed while an iterator was on it", w.order.back());
                        if(info[v.id].rem_e != NEVER)
                            ++n_held;
                        w.step_t = tick();
                    }
                    ++*w.it;
                    return settle(w);
                };

                struct Mine
                {
                    int id;
                    std::optional<It> h;
                    bool alive = true;
                };
                auto push = [&](std::vector<Mine>& mine, bool starve)
                {
                    int id;
                    int me = vs::self_id();
                    {
                        vs::NoPoint np;
                        if(n_elem == MAXE)
                            return;
                        id = n_elem++;
                        ++cnt[L_PUSH];
                        info[id].push_b = tick();
                    }
                    Val v(id);
                    mine.push_back({id, std::nullopt});
                    in_push[me] = true;
                    no_memory[me] = starve;
                    std::optional<It> got_h;
                    try
                    {
                        got_h.emplace(list->push(v));
                    }
                    catch(std::bad_alloc const&)
                    {
                        if(!starve)
                            pbt::fail("refused", "element %d was refused although there is memory", id);
                    }
                    in_push[me] = no_memory[me] = false;
                    if(!got_h)
                    {
                        // not part of the list
                        vs::NoPoint np;
                        info[id].push_e = tick();
                        info[id].rem_b = info[id].rem_e = info[id].push_b;
                        mine.pop_back();
                        return;
                    }
                    It& h = *got_h;
                    {
                        Val const& got = *h;
                        if(!h.is_valid() || got.id != id || got.state != Val::ALIVE)
                            pbt::fail("push", "handle of the new element %d does not refer to it", id);
                    }
                    // anyone may erase elements with an odd number: handles could refer to nothing
                    if(id % 2)
                        got_h.reset();
                    else
                        mine.back().h.emplace(h);
                    vs::NoPoint np;
                    info[id].push_e = tick();
                };
                std::vector<Mine> all_pre;
                for(unsigned i = 0; i < n_pre; ++i)
                    push(all_pre, false);

                auto body = [&](unsigned t)
                {
                    std::vector<Mine> mine;
                    std::optional<Walk> held;
                    if(t == 0)
                        mine = std::move(all_pre);
                    auto pick = [&](unsigned a, bool handle = false) -> Mine*
                    {
                        std::vector<Mine*> l;
                        for(auto& m : mine)
                            if(m.alive && !(handle && m.id % 2))
                                l.push_back(&m);
                        return l.empty() ? nullptr : l[a % l.size()];
                    };
                    for(auto& o : prog[t])
                        switch(o.kind)
                        {
                        case 0:
                            push(mine, nomem && o.b < 2);
                            break;
                        case 1:
                        case 3:
                            if(Mine* m = pick(o.a))
                            {
                                {
                                    vs::NoPoint np;
                                    m->alive = false;
                                    n_race += info[m->id].rem_b != NEVER && info[m->id].rem_e == NEVER;
                                    info[m->id].rem_b = std::min(info[m->id].rem_b, tick());
                                    ++cnt[o.kind == 1 ? L_REMOVE : L_ERASE];
                                    ++removing;
                                    n_overlap += iterating > 0;
                                }
                                if(o.kind == 1 && m->h)
                                    list->remove(*m->h);
                                else
                                    list->erase(Val(m->id));
                                vs::NoPoint np;
                                --removing;
                                info[m->id].rem_e = std::min(info[m->id].rem_e, tick());
                                if(o.b < 5 && m->h)
                                {
                                    if(m->h->is_valid() && ((**m->h).state != Val::ALIVE || (**m->h).id != m->id))
                                        pbt::fail("dead-held", "value of element %d was destroyed while a handle was on it", m->id);
                                    m->h.reset(); // else: keep the handle until the end
                                }
                            }
                            break;
                        case 10:
                            // an element of any thread, maybe one somebody else is removing
                            {
                                int y = -1;
                                {
                                    vs::NoPoint np;
                                    std::vector<int> l;
                                    for(int x = 0; x < n_elem; ++x)
                                        if(x % 2 && info[x].push_e != NEVER && info[x].rem_e == NEVER)
                                        {
                                            l.push_back(x);
                                            if(info[x].rem_b != NEVER && o.b < 6)
                                            {
                                                l.assign(1, x);
                                                break;
                                            }
                                        }
                                    if(!l.empty())
                                    {
                                        y = l[o.a % l.size()];
                                        ++cnt[L_ERASE];
                                        ++n_cross;
                                        n_race += info[y].rem_b != NEVER;
                                        info[y].rem_b = std::min(info[y].rem_b, tick());
                                        ++removing;
                                        n_overlap += iterating > 0;
                                    }
                                }
                                if(y < 0)
                                    break;
                                list->erase(Val(y));
                                vs::NoPoint np;
                                --removing;
                                info[y].rem_e = std::min(info[y].rem_e, tick());
                                break;
                            }
                        case 2:
                            {
                                vs::NoPoint* np = new vs::NoPoint;
                                ++iterating;
                                ++cnt[L_ITER];
                                n_overlap += removing > 0;
                                delete np;
                                Walk w;
                                unsigned stop = o.b < 6 ? ~0u : o.a % 4;
                                unsigned n = 0;
                                for(bool m = begin(w); m && n < stop; m = advance(w), ++n)
                                    for(unsigned k = o.b % 3; k > 0; --k)
                                        vs::point();
                                --iterating;
                                break;
                            }
                        case 4:
                            if(Mine* m = pick(o.a, true))
                            {
                                vs::NoPoint* np = new vs::NoPoint;
                                ++cnt[L_FROM];
                                Walk w;
                                w.start = w.step_t = tick();
                                w.limit = m->id;
                                delete np;
                                if(o.b % 2)
                                {
                                    // as the library does: copy of the handle, then one step
                                    w.it.emplace(*m->h);
                                    if((**w.it).id != m->id)
                                        pbt::fail("from-handle", "copied handle of element %d refers to another element", m->id);
                                    ++*w.it;
                                }
                                else
                                {
                                    w.incl = true;
                                    w.it.emplace(*m->h);
                                }
                                for(bool more = settle(w); more; more = advance(w))
                                    ;
                            }
                            break;
                        case 5:
                            held.emplace();
                            if(!begin(*held))
                                held.reset();
                            break;
                        case 6:
                            if(held && !advance(*held))
                                held.reset();
                            break;
                        case 7:
                            held.reset();
                            break;
                        case 9:
                            // an iterator leaves where it is and moves to the position of a handle
                            if(Mine* m = pick(o.a, true))
                            {
                                {
                                    vs::NoPoint np;
                                    ++cnt[L_ASSIGN];
                                }
                                It it = o.b < 4 ? list->rbegin() : o.b < 6 ? It(*m->h) : list->rend();
                                for(unsigned k = 0; k < 1 + o.b % 2; ++k)
                                {
                                    it = *m->h;
                                    vs::NoPoint np;
                                    if(!it.is_valid() || (*it).id != m->id || (*it).state != Val::ALIVE)
                                        pbt::fail("assign", "iterator assigned from the handle of element %d does not refer to it", m->id);
                                    m = pick(o.a + 1, true);
                                }
                                if(o.b % 4 == 3)
                                    it = list->rend();
                            }
                            break;
                        case 8:
                            {
                                uint64_t t0;
                                {
                                    vs::NoPoint np;
                                    ++cnt[L_COPY];
                                    t0 = tick();
                                }
                                List cp(TrackAlloc(), *list);
                                uint64_t t1 = tick();
                                std::vector<char> in(MAXE, 0);
                                int last = -1;
                                for(auto it = cp.crbegin(); it != cp.crend(); ++it)
                                {
                                    vs::NoPoint np;
                                    Val const& v = *it;
                                    if(v.state != Val::ALIVE || v.id < 0 || v.id >= n_elem)
                                        pbt::fail("dead-visit", "copied list contains a dead value");
                                    if(in[v.id]++)
                                        pbt::fail("twice", "copied list contains element %d twice", v.id);
                                    if(info[v.id].rem_e < t0)
                                        pbt::fail("revived", "copied list contains element %d which was removed before", v.id);
                                    if(last >= 0 && info[last].push_e < info[v.id].push_b)
                                        pbt::fail("order", "copied list is out of order");
                                    last = v.id;
                                }
                                vs::NoPoint np;
                                for(int y = 0; y < n_elem; ++y)
                                    if(!in[y] && info[y].push_e < t0 && info[y].rem_b > t1)
                                        pbt::fail("missed", "copied list lacks element %d", y);
                                break;
                            }
                        }
                };
                {
                    std::vector<std::thread> ts;
                    for(unsigned t = 1; t < nt; ++t)
                        ts.emplace_back(body, t);
                    body(0);
                    for(auto& t : ts)
                        t.join();
                }
                // at rest, without any iterator
                Walk w;
                for(bool m = begin(w); m; m = advance(w))
                    ;
                w.it.reset();
                for(int y = 0; y < n_elem; ++y)
                {
                    bool removed = info[y].rem_b != NEVER;
                    if((bool) w.seen[y] == removed)
                        pbt::fail(removed ? "revived" : "missed", "at the end, element %d is %s the list", y, removed ? "still in" : "not in");
                    if(info[y].live != (removed ? 0 : 1))
                        pbt::fail(removed ? "leak" : "destroyed", "at the end, %s element %d has %d values", removed ? "removed" : "present", y,
                                  info[y].live);
                }
                list.reset();
                for(int y = 0; y < n_elem; ++y)
                    if(info[y].live != 0)
                        pbt::fail("leak", "value of element %d is still alive after the list was destroyed", y);
            }
            vs::end();
            for(int i = 0; i < 10; ++i)
                g.count(i, cnt[i]);
            g.count(L_HELD, n_held);
            g.count(L_NOMEM, n_failed);
            g.count(L_CROSS, n_cross);
            g.count(L_RACE, n_race);
            if(n_overlap || pushers > 1)
                g.nontrivial();
        }
    } // namespace

    void list_run(Gen& g)
    {
        vs::Config c = g.schedule();
        switch(g.choose(6))
        {
        case 0:
            return run<1>(g, c);
        case 1:
            return run<2>(g, c);
        case 2:
            return run<3>(g, c);
        case 3:
            return run<4>(g, c);
        case 4:
            return run<5>(g, c);
        default:
            return run<8>(g, c);
        }
    }

    // the list of chunks below: appended by several threads, flagged as deleted, unlinked while others iterate
    namespace
    {
        enum
        {
            A_APPEND,
            A_TRY,
            A_LOST,
            A_ERASE,
            A_ITER,
            A_VISIT,
            A_THREADS,
            A_HELD
        };
        int pending[64]; // id of the item this thread constructs
        struct Rec
        {
            static constexpr uint32_t ALIVE = 0xa11fe002, DEAD = 0xdeaddead;
            uint32_t state;
            int id;
            explicit Rec(rg::memory::Block) : state(ALIVE), id(pending[vs::self_id()])
            {
                info[id].live++;
            }
            ~Rec()
            {
                if(state != ALIVE)
                    pbt::fail("double-destroy", "an item is destroyed while it is %s", state == DEAD ? "already destroyed" : "not constructed");
                state = DEAD;
                --info[id].live;
                info[id].destroyed = true;
            }
        };
    } // namespace

    void chunks_run(Gen& g)
    {
        using List = rg::memory::AtomicList<Rec, TrackAlloc>;
        using It = typename List::MutBackwardIterator;
        vs::Config c = g.schedule();
        unsigned nt = 1 + g.choose(4);
        char const* const name[] = {"append", "try", "erase", "iterate", "hold", "advance", "drop", "optimize"};
        std::vector<std::vector<Op>> prog(nt);
        unsigned pushers = 0;
        unsigned n_pre = g.choose(5);
        g.desc("%u items at first\n", n_pre);
        for(auto& p : prog)
        {
            unsigned n = 1 + g.choose(nt == 1 ? 30 : 12);
            bool ps = false;
            g.desc("thread:");
            for(unsigned i = 0; i < n; ++i)
            {
                Op o;
                o.kind = g.weighted(6, 5, 6, 4, 2, 2, 1, 2);
                o.a = g.choose(64);
                o.b = g.choose(8);
                ps |= o.kind < 2;
                p.push_back(o);
                g.desc(" %s(%u,%u)", name[o.kind], o.a, o.b);
            }
            pushers += ps;
            g.desc("\n");
        }
        for(int i = 0; i < MAXE; ++i)
            info[i] = Info();
        n_elem = 0;
        memset(no_memory, 0, sizeof no_memory);
        uint64_t cnt[8] = {0};
        cnt[A_THREADS] = nt;
        uint64_t n_overlap = 0;
        unsigned appending = 0;

        vs::begin(c);
        {
            auto list = std::make_unique<List>(TrackAlloc(), sizeof(Rec) + 16);
            auto fresh = [&]
            {
                vs::NoPoint np;
                int id = n_elem++;
                pending[vs::self_id()] = id;
                info[id].push_b = tick();
                n_overlap += appending++ > 0;
                return id;
            };
            auto settled = [&](int id, bool in)
            {
                vs::NoPoint np;
                --appending;
                info[id].push_e = tick();
                if(!in)
                {
                    // not part of the list
                    info[id].rem_b = info[id].rem_e = info[id].push_b;
                    info[id].refused = true;
                    ++cnt[A_LOST];
                }
            };
            struct Walk
            {
                It it{nullptr};
                uint64_t start = 0;
                std::vector<char> seen = std::vector<char>(MAXE, 0);
                std::vector<int> order;
            };
            auto settle = [&](Walk& w)
            {
                bool more = w.it != list->rend();
                vs::NoPoint np;
                if(more != (bool) w.it)
                    pbt::fail("end", "an iterator at the end is not false");
                int at = -1;
                if(more)
                {
                    Rec const& r = *w.it;
                    if(r.state != Rec::ALIVE || r.id < 0 || r.id >= n_elem || info[r.id].live != 1)
                        pbt::fail("dead-visit", "iteration visits an item which is %s",
                                  r.state == Rec::DEAD ? "already destroyed" : "not constructed");
                    at = r.id;
                    ++cnt[A_VISIT];
                    if(w.seen[at]++)
                        pbt::fail("twice", "iteration visits item %d twice", at);
                    if(info[at].refused)
                        pbt::fail("lost", "iteration visits item %d although its append was refused", at);
                    for(int y : w.order)
                        if(info[y].push_e < info[at].push_b)
                            pbt::fail("order", "iteration visits item %d after the older item %d", at, y);
                    w.order.push_back(at);
                }
                for(int y = 0; y < n_elem; ++y)
                {
                    if(w.seen[y] || info[y].push_e >= w.start || info[y].rem_b != NEVER)
                        continue;
                    if(at >= 0 && !(info[at].push_e < info[y].push_b))
                        continue; // not passed yet
                    pbt::fail("missed", "iteration passes item %d, which is present all the time, without a visit", y);
                }
                return more;
            };
            auto begin = [&](Walk& w)
            {
                {
                    vs::NoPoint np;
                    w.start = tick();
                }
                w.it = list->rbegin();
                return settle(w);
            };
            auto advance = [&](Walk& w)
            {
                {
                    vs::NoPoint np;
                    Rec const& r = *w.it;
                    if(r.state != Rec::ALIVE || r.id != w.order.back())
                        pbt::fail("dead-held", "item %d was destroyed while an iterator was on it", w.order.back());
                    cnt[A_HELD] += info[r.id].rem_e != NEVER;
                }
                ++w.it;
                return settle(w);
            };
            auto append = [&]
            {
                int id = fresh();
                It prev = list->allocate_item();
                settled(id, true);
                vs::NoPoint np;
                ++cnt[A_APPEND];
                // the item it was linked to
                if(prev && (prev->state != Rec::ALIVE || prev->id == id || info[prev->id].push_b > info[id].push_e))
                    pbt::fail("append", "append of item %d returns no item before it", id);
            };
            for(unsigned i = 0; i < n_pre; ++i)
                append();

            auto body = [&](unsigned t)
            {
                std::optional<Walk> held;
                for(auto& o : prog[t])
                {
                    if(n_elem > MAXE - 8)
                        break;
                    switch(o.kind)
                    {
                    case 0:
                        append();
                        break;
                    case 1:
                        {
                            // only one of those who saw the same head may append
                            It expected = list->rbegin();
                            for(unsigned k = o.b % 3; k > 0; --k)
                                vs::point();
                            int id = fresh();
                            bool empty = !expected;
                            bool in = empty && o.b < 4 ? list->try_allocate_first_item() : list->try_allocate_item(expected.c);
                            settled(id, in);
                            vs::NoPoint np;
                            ++cnt[A_TRY];
                            if(!in && info[id].live != 0)
                                pbt::fail("leak", "item %d whose append was refused is still alive", id);
                            if(in && expected && expected->state != Rec::ALIVE)
                                pbt::fail("dead-held", "an item was destroyed while an iterator was on it");
                            // refused only if somebody else changed the list meanwhile
                            if(!in)
                            {
                                bool other = false;
                                for(int y = 0; y < n_elem; ++y)
                                    other |= y != id && (empty || y != expected->id);
                                if(!other)
                                    pbt::fail("refused", "append of item %d was refused although the head did not change", id);
                            }
                            break;
                        }
                    case 2:
                        {
                            // any item which is found
                            Walk w;
                            unsigned n = o.a % 6;
                            bool more = begin(w);
                            while(more && n-- > 0)
                                more = advance(w);
                            if(!more)
                                break;
                            int id = w.order.back();
                            {
                                vs::NoPoint np;
                                ++cnt[A_ERASE];
                                info[id].rem_b = std::min(info[id].rem_b, tick());
                            }
                            list->erase(w.it);
                            vs::NoPoint np;
                            info[id].rem_e = std::min(info[id].rem_e, tick());
                            if((*w.it).state != Rec::ALIVE)
                                pbt::fail("dead-held", "item %d was destroyed while an iterator was on it", id);
                            break;
                        }
                    case 3:
                        {
                            ++cnt[A_ITER];
                            Walk w;
                            for(bool more = begin(w); more; more = advance(w))
                                for(unsigned k = o.b % 3; k > 0; --k)
                                    vs::point();
                            break;
                        }
                    case 4:
                        held.emplace();
                        if(!begin(*held))
                            held.reset();
                        break;
                    case 5:
                        if(held && !advance(*held))
                            held.reset();
                        break;
                    case 6:
                        held.reset();
                        break;
                    case 7:
                        list->rbegin().optimize();
                        break;
                    }
                }
            };
            {
                std::vector<std::thread> ts;
                for(unsigned t = 1; t < nt; ++t)
                    ts.emplace_back(body, t);
                body(0);
                for(auto& t : ts)
                    t.join();
            }
            // at rest
            int head = -1;
            for(unsigned round = 0; round < 2; ++round)
            {
                Walk w;
                for(bool m = begin(w); m; m = advance(w))
                    ;
                head = w.order.empty() ? -1 : w.order.front();
                for(int y = 0; y < n_elem; ++y)
                    if((bool) w.seen[y] != (info[y].rem_b == NEVER) && y != head)
                        pbt::fail(w.seen[y] ? "revived" : "missed", "at the end, item %d is %s the list", y, w.seen[y] ? "still in" : "not in");
            }
            for(int y = 0; y < n_elem; ++y)
                if(info[y].live != (info[y].rem_b == NEVER || y == head ? 1 : 0))
                    pbt::fail(info[y].live ? "leak" : "destroyed", "at the end, %s item %d has %d values",
                              info[y].rem_b == NEVER ? "present" : "erased", y, info[y].live);
            list.reset();
            for(int y = 0; y < n_elem; ++y)
                if(info[y].live != 0)
                    pbt::fail("leak", "item %d is still alive after the list was destroyed", y);
        }
        vs::end();
        for(int i = 0; i < 8; ++i)
            g.count(i, cnt[i]);
        if(n_overlap)
            g.nontrivial();
    }
} // namespace units
