// P08: a task gives up accesses while tasks behind it are being submitted and look for their predecessors
#include "sys.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>

#include <memory>
#include <vector>

namespace rg = redGrapes;

namespace sys
{
    using pbt::Gen;

    namespace
    {
        constexpr unsigned MAXR = 4;
        using Acc = unsigned char; // bit 0: read, bit 1: write
        struct Accs
        {
            Acc a[MAXR] = {};
        };
        bool conflict(Accs const& x, Accs const& y)
        {
            for(unsigned i = 0; i < MAXR; ++i)
                if(x.a[i] && y.a[i] && ((x.a[i] | y.a[i]) & 2))
                    return true;
            return false;
        }
        char const* str(Accs const& x, unsigned n, char* buf)
        {
            char* p = buf;
            for(unsigned i = 0; i < n; ++i)
                if(x.a[i])
                    p += sprintf(p, " %s%sR%u", x.a[i] & 1 ? "r" : "", x.a[i] & 2 ? "w" : "", i);
            if(p == buf)
                strcpy(buf, " -");
            return buf;
        }
    } // namespace

    void narrow_race_run(Gen& g)
    {
        enum
        {
            L_TASKS,
            L_UPDATES,
            L_RELEASED,
            L_HELD,
            L_NESTED
        };
        vs::Config c = g.schedule();
        c.max_steps = 60'000'000;
        unsigned nw = 1 + g.choose(4), nr = 1 + g.choose(MAXR), nb = 1 + g.choose(5);
        bool nested = g.coin(1, 5);
        // the accesses of the first task, initially and after each update
        std::vector<Accs> st(1);
        for(unsigned r = 0; r < nr; ++r)
        {
            static Acc const k[] = {2, 2, 2, 1, 3, 0};
            st[0].a[r] = k[g.choose(6)];
        }
        unsigned nu = 1 + g.choose(3);
        for(unsigned u = 0; u < nu; ++u)
        {
            Accs x = st.back();
            for(unsigned r = 0; r < nr; ++r)
            {
                if(!x.a[r] || g.choose(3) == 0)
                    continue;
                switch(x.a[r])
                {
                case 1:
                    x.a[r] = 0;
                    break;
                case 2:
                    x.a[r] = g.choose(3) == 0 ? 1 : 0; // a write access covers the read access
                    break;
                default:
                    x.a[r] = g.choose(3); // one of the two or none
                }
            }
            st.push_back(x);
        }
        std::vector<Accs> b(nb);
        for(auto& x : b)
            for(unsigned r = 0; r < nr; ++r)
            {
                static Acc const k[] = {0, 1, 1, 2, 2};
                x.a[r] = k[g.choose(5)];
            }
        char buf[200];
        g.desc("%u workers%s\nT0:%s", nw, nested ? ", submitted by a task" : "", str(st[0], nr, buf));
        for(unsigned u = 1; u <= nu; ++u)
            g.desc(", then%s", str(st[u], nr, buf));
        g.desc("\n");
        unsigned must = 0; // bit mask
        unsigned n_must = 0, released = 0;
        for(unsigned i = 0; i < nb; ++i)
        {
            bool held = conflict(st.back(), b[i]);
            for(unsigned j = 0; j < i; ++j)
                if(!(must >> j & 1) && conflict(b[j], b[i]))
                    held = true;
            if(!held)
            {
                must |= 1u << i;
                ++n_must;
                released += conflict(st[0], b[i]);
            }
            g.desc("T%u:%s%s\n", i + 1, str(b[i], nr, buf), held ? " (held back)" : "");
        }
        g.count(L_TASKS, nb + 1);
        g.count(L_UPDATES, nu);
        g.count(L_RELEASED, released);
        g.count(L_HELD, nb - n_must);
        g.count(L_NESTED, nested);
        if(released)
            g.nontrivial();
        arena::track_blocks = g.coin(1, 2);

        static struct
        {
            unsigned level, begun, ended, must, nb;
            bool complete;
        } s;
        s = {};
        s.must = must;
        s.nb = nb;
        vs::on_hang = [](char* buf, size_t sz)
        {
            unsigned k = 0;
            for(unsigned i = 0; i < s.nb; ++i)
                if(s.must >> i & ~(s.begun >> i) & 1)
                {
                    snprintf(buf, sz, "T%u is held back by accesses which were given up (T0 %s)", i + 1,
                             s.complete ? "complete" : "runs");
                    ++k;
                    break;
                }
            if(!k)
                snprintf(buf, sz, "begun %x ended %x", s.begun, s.ended);
        };
        vs::begin(c);
        rg::init(nw);
        {
            std::vector<std::unique_ptr<rg::IOResource<int>>> res;
            rg::scheduler::EventPtr ev;
            static bool has_event;
            has_event = false;
            auto submit = [&]
            {
                for(unsigned r = 0; r < nr; ++r)
                    res.push_back(std::make_unique<rg::IOResource<int>>(0));
                auto access = [&](auto&& builder, Accs const& x)
                {
                    for(unsigned r = 0; r < nr; ++r)
                    {
                        if(x.a[r] & 1)
                            builder.add_resource(res[r]->read());
                        if(x.a[r] & 2)
                            builder.add_resource(res[r]->write());
                    }
                };
                {
                    auto t = rg::emplace_task(
                        [&]
                        {
                            for(unsigned u = 1; u <= nu; ++u)
                            {
                                rg::TaskProperties::Patch::Builder pb;
                                for(unsigned r = 0; r < nr; ++r)
                                {
                                    Acc o = st[u - 1].a[r], n = st[u].a[r];
                                    if(n & ~o & 1)
                                        pb.add_resources({res[r]->read()});
                                    if(o & ~n & 1)
                                        pb.remove_resources({res[r]->read()});
                                    if(o & ~n & 2)
                                        pb.remove_resources({res[r]->write()});
                                }
                                {
                                    vs::NoPoint np;
                                    s.level = u;
                                }
                                rg::update_properties(pb);
                            }
                            auto e = *rg::create_event();
                            ev = e;
                            {
                                vs::NoPoint np;
                                has_event = true;
                            }
                            rg::yield(e);
                            vs::NoPoint np;
                            for(unsigned i = 0; i < nb; ++i)
                                if(s.begun >> i & ~must >> i & 1)
                                    pbt::fail("early", "T%u begins, although accesses of T0 or others hold it back", i + 1);
                            s.complete = true;
                        });
                    t.enable_stack_switching();
                    access(t, st[0]);
                }
                for(unsigned i = 0; i < nb; ++i)
                {
                    auto t = rg::emplace_task(
                        [&, i]
                        {
                            vs::NoPoint np;
                            if(!s.complete && conflict(st[s.level], b[i]))
                                pbt::fail("early", "T%u begins, although an access of T0 conflicts", i + 1);
                            for(unsigned j = 0; j < i; ++j)
                                if(!(s.ended >> j & 1) && conflict(b[j], b[i]))
                                    pbt::fail("early", "T%u begins before T%u, which conflicts, is over", i + 1, j + 1);
                            s.begun |= 1u << i;
                            s.ended |= 1u << i;
                        });
                    access(t, b[i]);
                }
            };
            if(nested)
                rg::emplace_task(
                    [&]
                    {
                        submit();
                    });
            else
                submit();
            vs::wait_for([must] { return has_event && (s.ended & must) == must; });
            ev.notify();
            ev = {};
            rg::barrier();
            if(s.ended != (1u << nb) - 1 || !s.complete)
                pbt::fail("lost", "the barrier is over, tasks which did run: %x", s.ended);
        }
        rg::finalize();
        vs::end();
    }
} // namespace sys
