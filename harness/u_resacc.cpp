// P10 on the level of resources: accesses of several types and sets of them
#include "units.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/access/combine.hpp>
#include <redGrapes/resource/access/field.hpp>
#include <redGrapes/resource/resource_user.hpp>

#include <fmt/format.h>

#include <functional>
#include <memory>
#include <optional>
#include <vector>

namespace rg = redGrapes;

namespace units
{
    using pbt::Gen;

    // a policy as a user may write one: a set of up to six channels, each read or written
    struct Channels
    {
        unsigned rd = 0, wr = 63;
        bool is_synchronizing() const
        {
            return wr == 63;
        }
        static bool is_serial(Channels a, Channels b)
        {
            return (a.wr & (b.rd | b.wr)) || (b.wr & a.rd);
        }
        bool is_superset_of(Channels o) const
        {
            return !(o.wr & ~wr) && !(o.rd & ~(rd | wr));
        }
        bool operator==(Channels o) const
        {
            return rd == o.rd && wr == o.wr;
        }
    };
} // namespace units

template<>
struct fmt::formatter<units::Channels>
{
    constexpr auto parse(format_parse_context& ctx)
    {
        return ctx.begin();
    }
    template<typename C>
    auto format(units::Channels const& a, C& ctx) const
    {
        return fmt::format_to(ctx.out(), "{{ \"rd\" : {}, \"wr\" : {} }}", a.rd, a.wr);
    }
};

namespace units
{
    namespace
    {
        enum
        {
            L_ACC,
            L_PAIRS,
            L_CONF,
            L_INCL,
            L_FOREIGN,
            L_SETS,
            L_REMOVED
        };

        // two resource types may refer to the same resource
        template<typename P>
        struct Res : rg::Resource<P>
        {
            Res()
            {
            }
            template<typename Q>
            explicit Res(Res<Q> const& o) : rg::Resource<P>(o.get_base())
            {
            }
            std::shared_ptr<rg::ResourceBase> get_base() const
            {
                return this->base;
            }
        };

        // small universe: every access is a set of touches (element, kind)
        struct M
        {
            int type, res;
            bool all = false; // touches the whole resource in the strongest way
            std::vector<std::array<int, 2>> t; // element, kind: 0 write, 1 read, 2 add, 3 mul
            bool has(int e, int k) const
            {
                for(auto& x : t)
                    if(x[0] == e && x[1] == k)
                        return true;
                return false;
            }
        };

        bool foreign(M const& a, M const& b)
        {
            return a.type != b.type || a.res != b.res;
        }

        bool conflict(M const& a, M const& b)
        {
            if(foreign(a, b))
                return false;
            for(auto& x : a.t)
                for(auto& y : b.t)
                    if(x[0] == y[0] && (x[1] != y[1] || x[1] == 0))
                        return true;
            return false;
        }

        bool includes(M const& a, M const& b)
        {
            if(foreign(a, b))
                return false;
            for(auto& y : b.t)
                if(!a.has(y[0], y[1]) && !a.has(y[0], 0))
                    return false;
            return true;
        }

        bool equal(M const& a, M const& b)
        {
            return includes(a, b) && includes(b, a);
        }

        rg::access::IOAccess io_lib(int k)
        {
            using A = rg::access::IOAccess;
            return k == 0 ? A(A::write) : k == 1 ? A(A::read) : k == 2 ? A(A::aadd) : A(A::amul);
        }

        // nonempty interval within 0..6, or everything (elements 0..6 stand for everything)
        struct Iv
        {
            int b, e;
            bool all() const
            {
                return b == 0 && e == 7;
            }
            static Iv gen(Gen& g)
            {
                if(g.coin(1, 4))
                    return {0, 7};
                int b = g.choose(6), n = 1 + g.choose(6 - b);
                return {b, b + n};
            }
            rg::access::AreaAccess lib() const
            {
                if(all())
                    return rg::access::AreaAccess();
                return rg::access::AreaAccess({(size_t) b, (size_t) e});
            }
        };

        using F1 = rg::access::FieldAccess<1>;
        using F2 = rg::access::FieldAccess<2>;

        struct Known
        {
            rg::ResourceAccess acc;
            M m;
        };

        struct World
        {
            Gen& g;
            struct Slot
            {
                Res<rg::access::IOAccess> io;
                Res<F1> f1{io};
                Res<F2> f2{io};
                Res<Channels> ch{io};
            };
            std::vector<std::unique_ptr<Slot>> res;
            std::vector<Known> k;

            void add()
            {
                M m;
                m.res = g.choose(res.size());
                m.type = g.choose(4);
                auto& s = *res[m.res];
                std::optional<rg::ResourceAccess> a;
                switch(m.type)
                {
                case 0:
                    {
                        int kd = g.choose(4);
                        m.all = kd == 0;
                        m.t.push_back({0, kd});
                        a = s.io.make_access(io_lib(kd));
                        g.desc(" R%d io %d", m.res, kd);
                        break;
                    }
                case 1:
                    {
                        int kd = g.choose(4);
                        Iv v = Iv::gen(g);
                        for(int i = v.b; i < v.e; ++i)
                            m.t.push_back({i, kd});
                        m.all = kd == 0 && v.all();
                        if(v.all() && g.coin(1, 2))
                            a = s.f1.make_access(F1(io_lib(kd)));
                        else
                            a = s.f1.make_access(F1(io_lib(kd), std::array<rg::access::AreaAccess, 1>{v.lib()}));
                        g.desc(" R%d f1 %d[%d,%d)", m.res, kd, v.b, v.e);
                        break;
                    }
                case 2:
                    {
                        int kd = g.choose(4);
                        Iv v = Iv::gen(g), w = Iv::gen(g);
                        for(int i = v.b; i < v.e; ++i)
                            for(int j = w.b; j < w.e; ++j)
                                m.t.push_back({i * 8 + j, kd});
                        m.all = kd == 0 && v.all() && w.all();
                        a = s.f2.make_access(F2(io_lib(kd), std::array<rg::access::AreaAccess, 2>{v.lib(), w.lib()}));
                        g.desc(" R%d f2 %d[%d,%d)[%d,%d)", m.res, kd, v.b, v.e, w.b, w.e);
                        break;
                    }
                default:
                    {
                        Channels c;
                        if(g.coin(5, 6))
                        {
                            c.wr = g.choose(64);
                            c.rd = g.choose(64) & ~c.wr;
                            if(g.coin(1, 2))
                                c.wr &= 1u << g.choose(6);
                        }
                        for(int i = 0; i < 6; ++i)
                        {
                            if(c.wr >> i & 1)
                                m.t.push_back({i, 0});
                            if(c.rd >> i & 1)
                                m.t.push_back({i, 1});
                        }
                        m.all = c.wr == 63;
                        a = s.ch.make_access(c);
                        g.desc(" R%d ch r%u w%u", m.res, c.rd, c.wr);
                    }
                }
                k.push_back({*a, m});
            }
        };

        struct Set
        {
            std::unique_ptr<rg::ResourceUser> u;
            std::vector<M> m;
        };
    } // namespace

    void resacc_run(Gen& g)
    {
        vs::Config c = g.schedule();
        vs::begin(c);
        rg::init(1);
        {
            World w{g};
            unsigned nr = 1 + g.choose(3);
            for(unsigned i = 0; i < nr; ++i)
                w.res.push_back(std::make_unique<World::Slot>());
            unsigned n = 2 + g.choose(10);
            for(unsigned i = 0; i < n; ++i)
            {
                if(i && g.coin(1, 5))
                {
                    // a copy stands for the same access, however it was made
                    unsigned j = g.choose(w.k.size());
                    g.desc(" copy of %u", j);
                    switch(g.choose(3))
                    {
                    case 0:
                        w.k.push_back(Known(w.k[j]));
                        break;
                    case 1:
                        {
                            rg::ResourceAccess const x(w.k[j].acc);
                            rg::ResourceAccess y(w.k[0].acc);
                            y = x;
                            w.k.push_back({y, w.k[j].m});
                            break;
                        }
                    default:
                        {
                            rg::ResourceAccess const x(w.k[j].acc);
                            rg::ResourceAccess y(x);
                            w.k.push_back({std::move(y), w.k[j].m});
                        }
                    }
                }
                else
                    w.add();
            }
            g.desc("\n");
            g.count(L_ACC, n);
            bool conf = false, strict = false, frn = false;
            for(unsigned i = 0; i < n; ++i)
            {
                auto& x = w.k[i];
                if(x.acc.is_synchronizing() != x.m.all)
                    pbt::fail("synchronising", "access %u: declared %d", i, !x.m.all);
                if(rg::ResourceAccess(x.acc).get_resource() != w.res[x.m.res]->io.get_base()
                   || x.acc.resource_id() != w.res[x.m.res]->io.get_base()->id || x.acc.scope_level() != 0)
                    pbt::fail("identity", "access %u belongs to another resource", i);
                for(unsigned j = 0; j < n; ++j)
                {
                    auto& y = w.k[j];
                    g.count(L_PAIRS);
                    bool f = foreign(x.m, y.m), cf = conflict(x.m, y.m), in = includes(x.m, y.m), eq = equal(x.m, y.m);
                    if(rg::ResourceAccess::is_serial(x.acc, y.acc) != cf)
                        pbt::fail("conflict", "accesses %u and %u: conflict test says %d", i, j, (int) !cf);
                    if(x.acc.is_superset_of(y.acc) != in)
                        pbt::fail("inclusion", "access %u includes %u: test says %d", i, j, (int) !in);
                    if((x.acc == y.acc) != eq)
                        pbt::fail("equality", "accesses %u and %u: equality test says %d", i, j, (int) !eq);
                    if(x.m.type == y.m.type && x.acc.is_same_resource(y.acc) != (x.m.res == y.m.res))
                        pbt::fail("identity", "accesses %u and %u: same resource test says %d", i, j,
                                  (int) (x.m.res != y.m.res));
                    g.count(L_CONF, cf);
                    g.count(L_INCL, in);
                    g.count(L_FOREIGN, f);
                    conf |= cf && i != j;
                    strict |= in && !eq;
                    frn |= f;
                }
            }
            if(conf && strict && frn)
                g.nontrivial();
            // sets
            std::vector<Set> sets;
            for(unsigned s = 2 + g.choose(3); s > 0; --s)
            {
                Set x;
                unsigned kind = g.choose(3);
                auto pick = [&]() -> Known&
                {
                    unsigned i = g.choose(n);
                    g.desc(" %u", i);
                    x.m.push_back(w.k[i].m);
                    return w.k[i];
                };
                g.desc("set:");
                if(kind == 2 && sets.size())
                {
                    auto& o = sets[g.choose(sets.size())];
                    x.u = std::make_unique<rg::ResourceUser>(*o.u);
                    x.m = o.m;
                    g.desc(" copy");
                }
                else if(kind == 1)
                {
                    auto& a = pick();
                    auto& b = pick();
                    auto& d = pick();
                    x.u = std::make_unique<rg::ResourceUser>(std::initializer_list<rg::ResourceAccess>{a.acc, b.acc, d.acc});
                }
                else
                    x.u = std::make_unique<rg::ResourceUser>();
                for(unsigned i = g.choose(20); i > 0; --i)
                    if(g.coin(1, 5))
                    {
                        unsigned j = g.choose(n);
                        g.desc(" -%u", j);
                        x.u->rm_resource_access(w.k[j].acc);
                        for(size_t l = x.m.size(); l-- > 0;)
                            if(equal(x.m[l], w.k[j].m))
                            {
                                x.m.erase(x.m.begin() + l);
                                g.count(L_REMOVED);
                            }
                    }
                    else
                    {
                        auto& a = pick();
                        x.u->add_resource_access(a.acc);
                    }
                if(g.coin(1, 3))
                {
                    g.desc(" list");
                    x.u->build_unique_resource_list();
                }
                g.desc("\n");
                sets.push_back(std::move(x));
            }
            for(auto& x : sets)
            {
                g.count(L_SETS);
                for(unsigned i = 0; i < n; ++i)
                {
                    bool h = false;
                    for(auto& m : x.m)
                        h |= equal(m, w.k[i].m);
                    if(x.u->has_access(w.k[i].acc) != h)
                        pbt::fail("sets", "access %u is in the set: test says %d", i, (int) !h);
                }
                for(unsigned r = 0; r < nr; ++r)
                {
                    auto b = w.res[r]->io.get_base();
                    bool s = false, used = false;
                    for(auto& m : x.m)
                    {
                        s |= m.res == (int) r && m.all;
                        used |= m.res == (int) r;
                    }
                    if(x.u->has_sync_access(b) != s)
                        pbt::fail("sets", "set contains a synchronising access to R%u: test says %d", r, (int) !s);
                    unsigned listed = 0;
                    for(auto u = x.u->unique_resources.rbegin(); u != x.u->unique_resources.rend(); ++u)
                        listed += u->resource == b;
                    if(listed > 1 || (used && !listed))
                        pbt::fail("sets", "R%u is listed %u times in a set", r, listed);
                }
                size_t cnt = 0;
                for(auto a = x.u->access_list.rbegin(); a != x.u->access_list.rend(); ++a)
                    ++cnt;
                if(cnt != x.m.size())
                    pbt::fail("sets", "a set of %zu accesses lists %zu", x.m.size(), cnt);
                for(auto& y : sets)
                {
                    bool ser = false, sup = true;
                    for(auto& b : y.m)
                    {
                        bool inc = false;
                        for(auto& a : x.m)
                        {
                            ser |= conflict(a, b);
                            inc |= includes(a, b);
                        }
                        sup &= inc;
                    }
                    if(rg::ResourceUser::is_serial(*x.u, *y.u) != ser)
                        pbt::fail("sets", "conflict of two access sets is %d", (int) !ser);
                    if(rg::ResourceUser::is_superset(*x.u, *y.u) != sup || x.u->is_superset_of(*y.u) != sup)
                        pbt::fail("sets", "inclusion of two access sets is %d", (int) !sup);
                }
            }
        }
        rg::finalize();
        vs::end();
    }
} // namespace units
