// P11: guards, areas and resource identity; P10 on the level of resources
#include "units.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/fieldresource.hpp>
#include <redGrapes/resource/ioresource.hpp>

#include <spdlog/spdlog.h>

#include <memory>
#include <thread>
#include <vector>

namespace rg = redGrapes;

namespace units
{
    using pbt::Gen;
    enum
    {
        L_RESTRICT,
        L_REFUSED,
        L_IN,
        L_OUT,
        L_RES,
        L_DECL
    };

    void guards_warm()
    {
        spdlog::set_level(spdlog::level::off);
        (void) rg::SingletonContext::get();
    }

    namespace
    {
        constexpr size_t INF = std::numeric_limits<size_t>::max();

        // guards have protected constructors but are copyable; assignment is not needed: keep them in lists of pointers
        struct Decl // what a guard should declare
        {
            int res; // resource index
            bool write;
            size_t lo[2], hi[2];
            int dim; // 0: io
        };

        struct Known
        {
            rg::ResourceAccess acc;
            Decl d;
        };

        struct World
        {
            Gen& g;
            std::vector<Known> decls;
            unsigned n_res = 0;
            unsigned restrictions = 0, in = 0, out = 0;
        };

        bool same_decl(Decl const& a, Decl const& b)
        {
            if(a.res != b.res || a.dim != b.dim || a.write != b.write)
                return false;
            for(int d = 0; d < a.dim; ++d)
                if(a.lo[d] != b.lo[d] || a.hi[d] != b.hi[d])
                    return false;
            return true;
        }

        bool conflict(Decl const& a, Decl const& b)
        {
            if(a.res != b.res || (!a.write && !b.write))
                return false;
            for(int d = 0; d < a.dim; ++d)
                if(!(std::max(a.lo[d], b.lo[d]) < std::min(a.hi[d], b.hi[d])))
                    return false;
            return true;
        }

        bool includes(Decl const& a, Decl const& b)
        {
            if(a.res != b.res || (!a.write && b.write))
                return false;
            for(int d = 0; d < a.dim; ++d)
                if(a.lo[d] > b.lo[d] || a.hi[d] < b.hi[d])
                    return false;
            return true;
        }

        size_t coord(Gen& g, size_t ext)
        {
            unsigned k = g.choose(10);
            if(k < 7)
                return g.choose(ext + 2);
            if(k == 7)
                return INF - g.choose(2);
            return (size_t(1) << g.choose(63)) + g.choose(3);
        }

        template<typename C>
        struct Shape;
        template<>
        struct Shape<std::vector<int>>
        {
            static constexpr size_t ext[1] = {5};
            static int& at(std::vector<int>& c, std::array<size_t, 1> i)
            {
                return c[i[0]];
            }
        };
        template<>
        struct Shape<std::array<int, 6>>
        {
            static constexpr size_t ext[1] = {6};
            static int& at(std::array<int, 6>& c, std::array<size_t, 1> i)
            {
                return c[i[0]];
            }
        };
        template<>
        struct Shape<std::array<std::array<int, 3>, 4>>
        {
            static constexpr size_t ext[2] = {3, 4};
            static int& at(std::array<std::array<int, 3>, 4>& c, std::array<size_t, 2> i)
            {
                return c[i[1]][i[0]];
            }
        };

        // Gd: guard type, declared mode follows from the type
        template<typename C, typename Gd>
        void check_guard(World& w, Gd const& gd, Decl const& d, C* obj)
        {
            Gen& g = w.g;
            constexpr size_t dim = rg::trait::Field<C>::dim;
            g.count(L_DECL);
            if((C const*) gd.operator->() != obj)
                pbt::fail("identity", "guard of R%d refers to another object", d.res);
            // declared access
            rg::ResourceAccess a = gd;
            w.decls.push_back({a, d});
            // element accesses
            for(unsigned n = 0; n < 4; ++n)
            {
                std::array<size_t, dim> i;
                bool inside = true, exists = true;
                for(size_t k = 0; k < dim; ++k)
                {
                    i[k] = g.coin(1, 8) ? coord(g, Shape<C>::ext[k]) : g.choose(Shape<C>::ext[k]);
                    inside &= d.lo[k] <= i[k] && i[k] < d.hi[k];
                    exists &= i[k] < Shape<C>::ext[k];
                }
                if(gd.contains(i) != inside)
                    pbt::fail("bounds", "guard of R%d: contains() is %d", d.res, !inside);
                if(inside && !exists)
                    continue;
                bool thrown = false;
                void const* p = nullptr;
                try
                {
                    p = &gd[i];
                }
                catch(std::out_of_range const&)
                {
                    thrown = true;
                }
                (inside ? w.in : w.out)++;
                g.count(inside ? L_IN : L_OUT);
                if(thrown == inside)
                    pbt::fail("bounds", "guard of R%d: element (%zu,%zu) of area [%zu,%zu)x[%zu,%zu) was %s", d.res, i[0],
                              dim > 1 ? i[dim - 1] : 0, d.lo[0], d.hi[0], dim > 1 ? d.lo[1] : 0, dim > 1 ? d.hi[1] : 0,
                              inside ? "refused" : "permitted");
                if(inside && p != &Shape<C>::at(*obj, i))
                    pbt::fail("element", "guard of R%d: wrong element", d.res);
            }
        }

        template<typename C, typename Gd>
        void explore(World& w, Gd const& gd, Decl d, C* obj, int depth)
        {
            Gen& g = w.g;
            constexpr size_t dim = rg::trait::Field<C>::dim;
            check_guard<C>(w, gd, d, obj);
            unsigned n = depth ? g.choose(3) : 0;
            for(unsigned k = 0; k < n; ++k)
                switch(g.weighted(2, 6, 2, 2, 1))
                {
                case 0: // read-only
                    {
                        Decl e = d;
                        e.write = false;
                        g.desc(" read(");
                        explore<C>(w, gd.read(), e, obj, depth - 1);
                        g.desc(")");
                        break;
                    }
                case 1: // sub area
                    {
                        std::array<size_t, dim> lo, hi;
                        bool ok = true;
                        Decl e = d;
                        for(size_t i = 0; i < dim; ++i)
                        {
                            // mostly inside of the current area
                            size_t l = std::max(d.lo[i], size_t(0)), h = std::min(d.hi[i], Shape<C>::ext[i] + 1);
                            if(l <= h && !g.coin(1, 6))
                            {
                                lo[i] = l + g.choose(h - l + 1);
                                hi[i] = lo[i] + g.choose(h - lo[i] + 1);
                            }
                            else
                            {
                                lo[i] = coord(g, Shape<C>::ext[i]);
                                hi[i] = coord(g, Shape<C>::ext[i]);
                            }
                            ok &= d.lo[i] <= lo[i] && hi[i] <= d.hi[i];
                            e.lo[i] = lo[i];
                            e.hi[i] = hi[i];
                        }
                        g.desc(" area[%zu,%zu)", lo[0], hi[0]);
                        if(dim > 1)
                            g.desc("x[%zu,%zu)", lo[dim - 1], hi[dim - 1]);
                        g.desc("%s(", ok ? "" : "!");
                        g.count(ok ? L_RESTRICT : L_REFUSED);
                        bool thrown = false;
                        try
                        {
                            auto s = gd.area(lo, hi);
                            if(ok)
                            {
                                w.restrictions++;
                                explore<C>(w, s, e, obj, depth - 1);
                            }
                        }
                        catch(std::out_of_range const&)
                        {
                            thrown = true;
                        }
                        g.desc(")");
                        if(thrown == ok)
                            pbt::fail("sub-area", "guard of R%d: area [%zu,%zu) of [%zu,%zu) was %s", d.res, lo[0], hi[0],
                                      d.lo[0], d.hi[0], ok ? "refused" : "permitted");
                        break;
                    }
                case 2: // single element
                    {
                        std::array<size_t, dim> p;
                        bool ok = true;
                        Decl e = d;
                        for(size_t i = 0; i < dim; ++i)
                        {
                            p[i] = g.choose(Shape<C>::ext[i] + 1);
                            ok &= d.lo[i] <= p[i] && p[i] + 1 <= d.hi[i];
                            e.lo[i] = p[i];
                            e.hi[i] = p[i] + 1;
                        }
                        g.desc(" at[%zu]%s(", p[0], ok ? "" : "!");
                        bool thrown = false;
                        try
                        {
                            auto s = gd.at(p);
                            if(ok)
                            {
                                w.restrictions++;
                                explore<C>(w, s, e, obj, depth - 1);
                            }
                        }
                        catch(std::out_of_range const&)
                        {
                            thrown = true;
                        }
                        g.desc(")");
                        if(thrown == ok)
                            pbt::fail("sub-area", "guard of R%d: at(%zu) of [%zu,%zu) was %s", d.res, p[0], d.lo[0], d.hi[0],
                                      ok ? "refused" : "permitted");
                        break;
                    }
                case 3: // copy
                    {
                        Gd c(gd);
                        g.desc(" copy(");
                        explore<C>(w, c, d, obj, depth - 1);
                        g.desc(")");
                        break;
                    }
                case 4: // keep the mode
                    if constexpr(std::is_base_of_v<rg::fieldresource::WriteGuard<C>, Gd>)
                    {
                        g.desc(" write(");
                        explore<C>(w, gd.write(), d, obj, depth - 1);
                        g.desc(")");
                    }
                    break;
                }
        }

        template<typename C>
        void field(World& w)
        {
            int r = w.n_res++;
            w.g.desc("R%d field:", r);
            bool from_ptr = w.g.coin(1, 3);
            Decl d{r, true, {0, 0}, {INF, INF}, (int) rg::trait::Field<C>::dim};
            auto go = [&](rg::FieldResource<C> const& res)
            {
                C* obj = res.operator->();
                explore<C>(w, res, d, obj, 4);
                if(w.g.coin(1, 2))
                {
                    rg::FieldResource<C> const other(res);
                    explore<C>(w, other, d, obj, 2);
                }
            };
            if constexpr(std::is_same_v<C, std::vector<int>>)
            {
                if(from_ptr)
                {
                    C* c = new C(5);
                    rg::FieldResource<C> const res(c);
                    if(res.operator->() != c)
                        pbt::fail("identity", "field resource does not refer to the given container");
                    go(res);
                }
                else
                {
                    rg::FieldResource<C> const res((size_t) 5);
                    go(res);
                }
            }
            else
            {
                rg::FieldResource<C> const res;
                go(res);
            }
            w.g.desc("\n");
        }

        struct Obj
        {
            static long n;
            int a, b;
            Obj(int a, int b) : a(a), b(b)
            {
                ++n;
            }
            ~Obj()
            {
                --n;
            }
        };
        long Obj::n;

        template<typename Gd>
        void io_check(World& w, Gd const& gd, int r, bool write, Obj const* o, int depth)
        {
            w.g.count(L_DECL);
            if(&*gd != o || gd.operator->() != o || gd.get() != o)
                pbt::fail("identity", "guard of R%d refers to another object", r);
            w.decls.push_back({rg::ResourceAccess(gd), Decl{r, write, {0, 0}, {0, 0}, 0}});
            if(!depth)
                return;
            for(unsigned k = w.g.choose(3); k > 0; --k)
                switch(w.g.choose(3))
                {
                case 0:
                    w.g.desc(" read(");
                    w.restrictions++;
                    io_check(w, gd.read(), r, false, o, depth - 1);
                    w.g.desc(")");
                    break;
                case 1:
                    {
                        Gd c(gd);
                        w.g.desc(" copy(");
                        io_check(w, c, r, write, o, depth - 1);
                        w.g.desc(")");
                        break;
                    }
                case 2:
                    if constexpr(std::is_base_of_v<rg::ioresource::WriteGuard<Obj>, Gd>)
                    {
                        w.g.desc(" write(");
                        io_check(w, gd.write(), r, true, o, depth - 1);
                        w.g.desc(")");
                    }
                    break;
                }
        }

        void io(World& w)
        {
            int r = w.n_res++;
            int x = w.g.choose(100), y = w.g.choose(100);
            w.g.desc("R%d io:", r);
            if(w.g.coin(1, 3))
            {
                auto o = std::make_shared<Obj>(x, y);
                rg::IOResource<Obj> const res(o);
                if(res.get() != o.get())
                    pbt::fail("identity", "resource does not refer to the given object");
                io_check(w, res, r, true, o.get(), 3);
                if(w.g.coin(1, 2))
                {
                    // the same object wrapped once more is another resource
                    int r2 = w.n_res++;
                    rg::IOResource<Obj> const res2(o);
                    io_check(w, res2, r2, true, o.get(), 2);
                }
            }
            else
            {
                rg::IOResource<Obj> const res(x, y);
                if(res->a != x || res->b != y)
                    pbt::fail("identity", "object was not constructed from the given arguments");
                io_check(w, res, r, true, res.get(), 3);
                rg::IOResource<Obj> const c(res);
                io_check(w, c, r, true, res.get(), 2);
            }
            w.g.desc("\n");
        }
    } // namespace

    void guards_run(Gen& g)
    {
        vs::Config c = g.schedule();
        unsigned nw = 1 + g.choose(3);
        vs::begin(c);
        rg::init(nw);
        {
            World w{g};
            unsigned n = 1 + g.choose(4);
            // identities are also handed out to other threads at the same time
            std::vector<unsigned> other;
            std::thread t;
            if(g.coin(1, 4))
                t = std::thread(
                    [&]
                    {
                        for(int i = 0; i < 3; ++i)
                        {
                            rg::IOResource<int> const x(i);
                            other.push_back(rg::ResourceAccess(x.read()).resource_id());
                        }
                    });
            for(unsigned i = 0; i < n; ++i)
                switch(g.choose(4))
                {
                case 0:
                    io(w);
                    break;
                case 1:
                    field<std::vector<int>>(w);
                    break;
                case 2:
                    field<std::array<int, 6>>(w);
                    break;
                default:
                    field<std::array<std::array<int, 3>, 4>>(w);
                }
            if(t.joinable())
                t.join();
            g.count(L_RES, w.n_res);
            for(auto& x : w.decls)
                for(unsigned o : other)
                    if(x.acc.resource_id() == o)
                        pbt::fail("identity", "a resource shares its id with one created by another thread");
            for(size_t i = 0; i < other.size(); ++i)
                for(size_t j = 0; j < i; ++j)
                    if(other[i] == other[j])
                        pbt::fail("identity", "two resources share an id");
            // every pair of declared accesses
            size_t m = std::min<size_t>(w.decls.size(), 40);
            for(size_t i = 0; i < m; ++i)
            {
                auto& x = w.decls[i];
                bool all = x.d.write;
                for(int d = 0; d < x.d.dim; ++d)
                    all &= x.d.lo[d] == 0 && x.d.hi[d] == INF;
                if(x.acc.is_synchronizing() != all)
                    pbt::fail("declared", "access of a guard of R%d: is_synchronizing() is %d", x.d.res, !all);
                for(size_t j = 0; j < m; ++j)
                {
                    auto& y = w.decls[j];
                    bool same = x.d.res == y.d.res;
                    if(x.acc.is_same_resource(y.acc) != same || (x.acc.resource_id() == y.acc.resource_id()) != same
                       || (rg::ResourceAccess(x.acc).get_resource() == rg::ResourceAccess(y.acc).get_resource()) != same)
                        pbt::fail("identity", "accesses of R%d and R%d: same resource is %d", x.d.res, y.d.res, !same);
                    if((x.acc == y.acc) != same_decl(x.d, y.d))
                        pbt::fail("declared", "accesses %zu and %zu declared by guards of R%d and R%d: equality is %d", i, j,
                                  x.d.res, y.d.res, (int) (x.acc == y.acc));
                    if(rg::ResourceAccess::is_serial(x.acc, y.acc) != conflict(x.d, y.d))
                        pbt::fail("declared", "accesses %zu and %zu declared by guards of R%d and R%d: conflict is %d", i, j,
                                  x.d.res, y.d.res, (int) !conflict(x.d, y.d));
                    if(x.acc.is_superset_of(y.acc) != includes(x.d, y.d))
                        pbt::fail("declared", "accesses %zu and %zu declared by guards of R%d and R%d: inclusion is %d", i, j,
                                  x.d.res, y.d.res, (int) !includes(x.d, y.d));
                }
            }
            // sets of accesses, as tasks hold them
            if(m)
                for(int k = 0; k < 3; ++k)
                {
                    rg::ResourceUser u, v;
                    std::vector<Decl> du, dv;
                    for(unsigned i = g.choose(12); i > 0; --i)
                    {
                        auto& x = w.decls[g.choose(m)];
                        u.add_resource_access(x.acc);
                        du.push_back(x.d);
                    }
                    for(unsigned i = g.choose(4); i > 0; --i)
                    {
                        auto& x = w.decls[g.choose(m)];
                        v.add_resource_access(x.acc);
                        dv.push_back(x.d);
                    }
                    bool ser = false, sup = true;
                    for(auto& y : dv)
                    {
                        bool inc = false;
                        for(auto& x : du)
                        {
                            ser |= conflict(x, y);
                            inc |= includes(x, y);
                        }
                        sup &= inc;
                    }
                    if(rg::ResourceUser::is_serial(u, v) != ser || rg::ResourceUser::is_serial(v, u) != ser)
                        pbt::fail("sets", "conflict of two access sets is %d", !ser);
                    if(rg::ResourceUser::is_superset(u, v) != sup)
                        pbt::fail("sets", "inclusion of two access sets is %d", !sup);
                    rg::ResourceUser cp(u);
                    if(rg::ResourceUser::is_superset(cp, v) != sup)
                        pbt::fail("sets", "inclusion of a copied access set is %d", !sup);
                }
            if(w.restrictions >= 2 && w.in && w.out)
                g.nontrivial();
        }
        if(Obj::n)
            pbt::fail("leak", "%ld objects of resources are still alive", Obj::n);
        rg::finalize();
        vs::end();
    }
} // namespace units
