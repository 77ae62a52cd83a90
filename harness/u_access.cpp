// P10: access policies against a set model
#include "units.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/access/combine.hpp>
#include <redGrapes/resource/access/field.hpp>

#include <functional>
#include <vector>

namespace units
{
    namespace ra = redGrapes::access;
    using pbt::Gen;
    enum
    {
        L_PAIRS,
        L_CONF,
        L_INCL,
        L_STRICT,
        L_TRIPLES,
        L_SYNC,
        L_NONEMPTY
    };

    /* reference semantics, written from the documentation: every policy has
     *   - gen: random value
     *   - conflict / incl / full / empty on the model value */

    // kinds of touching: 0 write 1 read 2 add 3 mul
    struct MIo
    {
        using Lib = ra::IOAccess;
        int k;
        static MIo gen(Gen& g)
        {
            return {(int) g.choose(4)};
        }
        Lib lib() const
        {
            switch(k)
            {
            case 0:
                return Lib(Lib::write);
            case 1:
                return Lib(Lib::read);
            case 2:
                return Lib(Lib::aadd);
            default:
                return Lib(Lib::amul);
            }
        }
        static bool conflict(MIo a, MIo b)
        {
            return !(a.k == b.k && a.k != 0);
        }
        static bool incl(MIo a, MIo b)
        {
            return a.k == 0 || a.k == b.k;
        }
        bool empty() const
        {
            return false;
        }
        bool all() const
        {
            return k == 0;
        }
        bool eq(MIo o) const
        {
            return k == o.k;
        }
        void desc(Gen& g) const
        {
            g.desc("%s", k == 0 ? "w" : k == 1 ? "r" : k == 2 ? "a" : "m");
        }
    };

    struct MArea
    {
        using Lib = ra::AreaAccess;
        size_t b, e; // elements b <= i < e
        static size_t coord(Gen& g)
        {
            switch(g.choose(8))
            {
            case 6:
                return std::numeric_limits<size_t>::max() - g.choose(3);
            case 7:
                return (size_t(1) << g.choose(64)) - g.choose(2);
            default:
                return g.choose(7);
            }
        }
        static MArea gen(Gen& g)
        {
            if(g.coin(1, 6))
                return {0, std::numeric_limits<size_t>::max()};
            size_t a = coord(g), b = coord(g);
            if(a > b)
                std::swap(a, b);
            return {a, b};
        }
        Lib lib() const
        {
            if(all())
                return Lib();
            return Lib({b, e});
        }
        static bool conflict(MArea x, MArea y)
        {
            // some index i lies in both
            size_t lo = x.b > y.b ? x.b : y.b;
            return lo < x.e && lo < y.e;
        }
        static bool incl(MArea x, MArea y)
        {
            return x.b <= y.b && y.e <= x.e;
        }
        bool empty() const
        {
            return b >= e;
        }
        bool all() const
        {
            return b == 0 && e == std::numeric_limits<size_t>::max();
        }
        bool eq(MArea o) const
        {
            return b == o.b && e == o.e;
        }
        void desc(Gen& g) const
        {
            if(all())
                g.desc("[*)");
            else
                g.desc("[%zu,%zu)", b, e);
        }
    };

    template<typename M, size_t N, bool And>
    struct MArr
    {
        using Lib = ra::ArrayAccess<typename M::Lib, N, std::conditional_t<And, ra::And_t, ra::Or_t>>;
        std::array<M, N> m;
        static MArr gen(Gen& g)
        {
            MArr r;
            for(auto& x : r.m)
                x = M::gen(g);
            return r;
        }
        Lib lib() const
        {
            bool a = true;
            for(auto& x : m)
                a &= x.all();
            if(a)
                return Lib();
            std::array<typename M::Lib, N> l;
            for(size_t i = 0; i < N; ++i)
                l[i] = m[i].lib();
            return Lib(l);
        }
        static bool conflict(MArr const& x, MArr const& y)
        {
            bool c = And;
            for(size_t i = 0; i < N; ++i)
                if(And)
                    c &= M::conflict(x.m[i], y.m[i]);
                else
                    c |= M::conflict(x.m[i], y.m[i]);
            return c;
        }
        static bool incl(MArr const& x, MArr const& y)
        {
            bool c = true;
            for(size_t i = 0; i < N; ++i)
                c &= M::incl(x.m[i], y.m[i]);
            return c;
        }
        bool empty() const
        {
            size_t n = 0;
            for(auto& x : m)
                n += x.empty();
            return And ? n > 0 : n == N;
        }
        bool all() const
        {
            for(auto& x : m)
                if(!x.all())
                    return false;
            return true;
        }
        bool eq(MArr const& o) const
        {
            for(size_t i = 0; i < N; ++i)
                if(!m[i].eq(o.m[i]))
                    return false;
            return true;
        }
        void desc(Gen& g) const
        {
            g.desc(And ? "&(" : "|(");
            for(auto& x : m)
                x.desc(g);
            g.desc(")");
        }
    };

    template<typename A, typename B, bool And>
    struct MComb
    {
        using Lib = ra::CombineAccess<typename A::Lib, typename B::Lib, std::conditional_t<And, ra::And_t, ra::Or_t>>;
        A a;
        B b;
        static MComb gen(Gen& g)
        {
            A x = A::gen(g);
            return {x, B::gen(g)};
        }
        Lib lib() const
        {
            if(a.all() && b.all())
                return Lib();
            if(b.all())
                return Lib(a.lib());
            return Lib(a.lib(), b.lib());
        }
        static bool conflict(MComb const& x, MComb const& y)
        {
            bool p = A::conflict(x.a, y.a), q = B::conflict(x.b, y.b);
            return And ? p && q : p || q;
        }
        static bool incl(MComb const& x, MComb const& y)
        {
            return A::incl(x.a, y.a) && B::incl(x.b, y.b);
        }
        bool empty() const
        {
            return And ? a.empty() || b.empty() : a.empty() && b.empty();
        }
        bool all() const
        {
            return a.all() && b.all();
        }
        bool eq(MComb const& o) const
        {
            return a.eq(o.a) && b.eq(o.b);
        }
        void desc(Gen& g) const
        {
            g.desc(And ? "<" : "{");
            a.desc(g);
            b.desc(g);
            g.desc(And ? ">" : "}");
        }
    };

    template<typename M>
    static void policy(Gen& g, char const* what)
    {
        using L = typename M::Lib;
        unsigned n = 2 + g.choose(6);
        std::vector<M> m;
        g.desc("%s:", what);
        for(unsigned i = 0; i < n; ++i)
        {
            if(i && g.coin(1, 6))
                m.push_back(m[g.choose(i)]);
            else
                m.push_back(M::gen(g));
            g.desc(" ");
            m.back().desc(g);
        }
        g.desc("\n");
        bool conf = false, strict = false;
        std::vector<L> l;
        for(auto& x : m)
            l.push_back(x.lib());
        for(unsigned i = 0; i < n; ++i)
        {
            if(l[i].is_synchronizing() != m[i].all())
                pbt::fail("synchronising", "%s access %u: declared %d", what, i, (int) l[i].is_synchronizing());
            g.count(L_SYNC, m[i].all());
            g.count(L_NONEMPTY, !m[i].empty());
            for(unsigned j = 0; j < n; ++j)
            {
                g.count(L_PAIRS);
                bool c = L::is_serial(l[i], l[j]);
                bool mc = M::conflict(m[i], m[j]);
                if(c != mc)
                    pbt::fail("conflict", "%s accesses %u and %u: conflict test says %d", what, i, j, (int) c);
                if(c != L::is_serial(l[j], l[i]))
                    pbt::fail("conflict", "%s accesses %u and %u: conflict test is not symmetric", what, i, j);
                if(m[i].all() && !m[j].empty() && !c)
                    pbt::fail("synchronising", "%s access %u does not conflict with %u", what, i, j);
                bool s = l[i].is_superset_of(l[j]);
                if(s != M::incl(m[i], m[j]))
                    pbt::fail("inclusion", "%s access %u includes %u: test says %d", what, i, j, (int) s);
                bool eq = l[i] == l[j];
                if(eq != m[i].eq(m[j]))
                    pbt::fail("equality", "%s accesses %u and %u: equality test says %d", what, i, j, (int) eq);
                if(eq != (s && l[j].is_superset_of(l[i])))
                    pbt::fail("inclusion", "%s accesses %u and %u include each other but differ", what, i, j);
                conf |= c && i != j;
                strict |= s && !eq;
                g.count(L_CONF, c);
                g.count(L_INCL, s);
                g.count(L_STRICT, s && !eq);
                if(s)
                    for(unsigned k = 0; k < n; ++k)
                    {
                        g.count(L_TRIPLES);
                        if(L::is_serial(l[j], l[k]) && !L::is_serial(l[i], l[k]))
                            pbt::fail("monotony", "%s access %u is smaller than %u but conflicts with %u", what, j, i, k);
                        if(l[j].is_superset_of(l[k]) && !l[i].is_superset_of(l[k]))
                            pbt::fail("inclusion", "%s inclusion %u > %u > %u is not transitive", what, i, j, k);
                    }
            }
        }
        if(conf && strict)
            g.nontrivial();
    }

    template<size_t N>
    using MField = MComb<MIo, MArr<MArea, N, true>, true>;

    void access_run(Gen& g)
    {
        switch(g.choose(16))
        {
        case 0:
            return policy<MIo>(g, "IOAccess");
        case 1:
            return policy<MArea>(g, "AreaAccess");
        case 2:
            return policy<MArr<MArea, 1, true>>(g, "And[1] of areas");
        case 3:
            return policy<MArr<MArea, 2, true>>(g, "And[2] of areas");
        case 4:
            return policy<MArr<MArea, 3, true>>(g, "And[3] of areas");
        case 5:
            return policy<MArr<MArea, 2, false>>(g, "Or[2] of areas");
        case 6:
            return policy<MArr<MIo, 3, false>>(g, "Or[3] of io");
        case 7:
            return policy<MArr<MIo, 2, true>>(g, "And[2] of io");
        case 8:
            return policy<MComb<MIo, MArea, true>>(g, "io and area");
        case 9:
            return policy<MComb<MIo, MArea, false>>(g, "io or area");
        case 10:
            return policy<MComb<MField<1>, MField<1>, false>>(g, "field or field");
        case 11:
            return policy<MArr<MField<1>, 2, false>>(g, "Or[2] of fields");
        case 12:
            return policy<MField<1>>(g, "FieldAccess<1>");
        case 13:
            return policy<MField<2>>(g, "FieldAccess<2>");
        case 14:
            return policy<MField<3>>(g, "FieldAccess<3>");
        default:
            return policy<MArr<MArr<MArea, 2, true>, 2, false>>(g, "Or[2] of And[2] of areas");
        }
    }
} // namespace units
