// Interpreter of task programs on the real library.
#include "prog_run.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/fieldresource.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <redGrapes/task/property/label.hpp>

#include <spdlog/sinks/sink.h>
#include <spdlog/spdlog.h>

#include <array>
#include <bitset>
#include <limits>
#include <cstdio>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace rg = redGrapes;

namespace prog
{
    static std::atomic<long> n_tokens{0}, n_elems{0};

    long live_tokens()
    {
        return n_tokens;
    }
    long live_elems()
    {
        return n_elems;
    }

    struct Token
    {
        static constexpr uint64_t ALIVE = 0xa11fe0a11fe0ull, MOVED = 0x30f3d30f3dull, DEAD = 0xdeaddeaddeadull;
        uint64_t state;
        int k;

        explicit Token(int k = -1) : state(ALIVE), k(k)
        {
            ++n_tokens;
        }
        Token(Token const& o) : state(o.state), k(o.k)
        {
            o.check_any();
            ++n_tokens;
        }
        Token(Token&& o) : state(o.state), k(o.k)
        {
            o.check_any();
            o.state = MOVED;
            ++n_tokens;
        }
        Token& operator=(Token const& o)
        {
            check_any();
            o.check_any();
            state = o.state;
            k = o.k;
            return *this;
        }
        Token& operator=(Token&& o)
        {
            check_any();
            o.check_any();
            state = o.state;
            k = o.k;
            o.state = MOVED;
            return *this;
        }
        ~Token()
        {
            check_any();
            state = DEAD;
            --n_tokens;
        }
        void check_any() const
        {
            if(state != ALIVE && state != MOVED)
                pbt::fail("object-lifetime", "object with value of task T%d used while not alive (%s)", k,
                          state == DEAD ? "already destroyed" : "never constructed");
        }
        void check(int t, char const* what) const
        {
            check_any();
            if(state != ALIVE || k != t)
                pbt::fail("argument-value", "%s of T%d has %s", what, t,
                          state == MOVED ? "been moved away" : "another value");
        }
    };

    struct Elem
    {
        uint64_t v = 0;
        uint64_t alive = Token::ALIVE;
        Elem()
        {
            ++n_elems;
        }
        explicit Elem(uint64_t x) : v(x)
        {
            ++n_elems;
        }
        Elem(Elem const& o) : v(o.v)
        {
            ++n_elems;
        }
        ~Elem()
        {
            if(alive != Token::ALIVE)
                pbt::fail("object-lifetime", "resource object destroyed twice");
            alive = Token::DEAD;
            --n_elems;
        }
    };

    using Arr2 = std::array<std::array<Elem, EXT2X>, EXT2Y>;

    // access policy as a user program may supply it
    struct UserPolicy
    {
        Acc a;
        bool hints; // knows which accesses conflict with all others

        static bool is_serial(UserPolicy const& x, UserPolicy const& y)
        {
            return conflict(x.a, y.a);
        }
        bool is_superset_of(UserPolicy const& o) const
        {
            return covers(a, o.a);
        }
        bool is_synchronizing() const
        {
            return hints && a.mode == M_WRITE && a.lo[0] == 0 && a.lo[1] == 0 && a.hi[0] == FULL && a.hi[1] == FULL;
        }
        bool operator==(UserPolicy const& o) const
        {
            return a == o.a;
        }
    };
    static std::string user_text(Acc const& a)
    {
        char b[100];
        snprintf(b, sizeof b, "{\"user\":[%d,%u,%u,%u,%u]}", a.mode, a.lo[0], a.hi[0], a.lo[1], a.hi[1]);
        return b;
    }
} // namespace prog

template<>
struct fmt::formatter<prog::UserPolicy>
{
    constexpr auto parse(format_parse_context& ctx)
    {
        return ctx.begin();
    }

    template<typename C>
    auto format(prog::UserPolicy const& p, C& ctx) const
    {
        return fmt::format_to(ctx.out(), "{}", prog::user_text(p.a));
    }
};

namespace prog
{
    struct Handle
    {
        int kind = -1;
        int policy = 0;
        std::optional<rg::Resource<UserPolicy> const> user;
        std::shared_ptr<std::vector<Elem>> data; // of a resource with user supplied policy
        std::optional<rg::IOResource<Elem> const> io;
        std::optional<rg::FieldResource<std::vector<Elem>> const> f1;
        std::optional<rg::FieldResource<Arr2> const> f2;

        Elem* elem(unsigned i) const
        {
            if(policy)
                return &(*data)[i];
            switch(kind)
            {
            case R_IO:
                return &**io;
            case R_F1:
                return &(*f1)[{i}];
            default:
                return &(*f2)[{i % EXT2X, i / EXT2X}];
            }
        }
    };
    using HandleP = std::shared_ptr<Handle>;

    // a fresh copy of the handle: the copy denotes the same resource
    static HandleP copy(HandleP const& h)
    {
        auto n = std::make_shared<Handle>();
        n->kind = h->kind;
        n->policy = h->policy;
        n->data = h->data;
        if(h->user)
            n->user.emplace(*h->user);
        if(h->io)
            n->io.emplace(*h->io);
        if(h->f1)
            n->f1.emplace(*h->f1);
        if(h->f2)
            n->f2.emplace(*h->f2);
        return n;
    }

    static HandleP make_resource(int kind, int policy, int r)
    {
        auto n = std::make_shared<Handle>();
        n->kind = kind;
        n->policy = policy;
        uint64_t init = 1000 + r;
        unsigned ne = kind == R_IO ? 1 : kind == R_F1 ? EXT1 : EXT2X * EXT2Y;
        if(policy)
        {
            n->user.emplace();
            n->data = std::make_shared<std::vector<Elem>>(ne);
        }
        else if(kind == R_IO)
            n->io.emplace(init);
        else if(kind == R_F1)
            n->f1.emplace((size_t) EXT1);
        else
            n->f2.emplace();
        for(unsigned i = 0; i < ne; ++i)
            n->elem(i)->v = init;
        return n;
    }

    static rg::access::IOAccess io_mode(int m)
    {
        switch(m)
        {
        case M_WRITE:
            return rg::access::IOAccess::write;
        case M_READ:
            return rg::access::IOAccess::read;
        case M_AADD:
            return rg::access::IOAccess::aadd;
        default:
            return rg::access::IOAccess::amul;
        }
    }

    static rg::ResourceAccess make_access(Handle const& h, Acc const& a)
    {
        if(h.policy)
            return h.user->make_access(UserPolicy{a, h.policy == 2});
        if(h.kind == R_IO)
        {
            if(a.mode == M_READ)
                return h.io->read();
            if(a.mode == M_WRITE)
                return h.io->write();
            return h.io->make_access(io_mode(a.mode));
        }
        if(h.kind == R_F1)
        {
            std::array<size_t, 1> lo{a.lo[0]}, hi{a.hi[0]};
            if(a.hi[0] == FULL)
            {
                if(a.mode == M_READ)
                    return h.f1->read();
                if(a.mode == M_WRITE)
                    return h.f1->write();
                return h.f1->make_access(rg::access::FieldAccess<1>(io_mode(a.mode)));
            }
            if(a.mode == M_READ)
                return h.f1->read().area(lo, hi);
            if(a.mode == M_WRITE)
                return h.f1->write().area(lo, hi);
            std::array<rg::access::AreaAccess, 1> ar{rg::access::AreaAccess({lo[0], hi[0]})};
            return h.f1->make_access(rg::access::FieldAccess<1>(io_mode(a.mode), ar));
        }
        std::array<size_t, 2> lo{a.lo[0], a.lo[1]}, hi{a.hi[0], a.hi[1]};
        if(a.hi[0] == FULL)
        {
            if(a.mode == M_READ)
                return h.f2->read();
            if(a.mode == M_WRITE)
                return h.f2->write();
            return h.f2->make_access(rg::access::FieldAccess<2>(io_mode(a.mode)));
        }
        if(a.mode == M_READ)
            return h.f2->read().area(lo, hi);
        if(a.mode == M_WRITE)
            return h.f2->write().area(lo, hi);
        std::array<rg::access::AreaAccess, 2> ar{
            rg::access::AreaAccess({lo[0], hi[0]}),
            rg::access::AreaAccess({lo[1], hi[1]})};
        return h.f2->make_access(rg::access::FieldAccess<2>(io_mode(a.mode), ar));
    }

    // argument type with user supplied property builder
    struct Bundle
    {
        Token tok;
        std::vector<rg::ResourceAccess> acc;
    };

} // namespace prog

template<>
struct redGrapes::trait::BuildProperties<prog::Token>
{
    template<typename Builder>
    static void build(Builder&, prog::Token const&)
    {
    }
};

template<>
struct redGrapes::trait::BuildProperties<prog::Bundle>
{
    template<typename Builder>
    static void build(Builder& b, prog::Bundle const& x)
    {
        for(auto const& a : x.acc)
            b.add_resource(a);
    }
};

namespace prog
{
    struct Val
    {
        Token tok{-7};
        uint64_t v = 0;
    };

    struct Fut
    {
        std::optional<rg::Future<void>> v;
        std::optional<rg::Future<uint64_t>> i;
        std::optional<rg::Future<Val>> o;

        bool ready() const
        {
            return v ? v->is_ready() : i ? i->is_ready() : o->is_ready();
        }
    };
    using FutP = std::unique_ptr<Fut>;

    struct Run
    {
        Program const& p;
        Serial ser;
        Model m; // reference model, advanced by the main operations
        Model obs; // observed state
        std::vector<int> runs;
        std::vector<int> ids;
        std::vector<HandleP> res;
        std::vector<int> uses; // of the handle, still to come
        std::vector<unsigned> res_id; // what the library calls them
        std::vector<std::optional<rg::scheduler::EventPtr>> ev;
        std::vector<char> ev_keep;
        std::vector<FutP> fut; // kept by main
        std::vector<int> helper_queue;
        bool helper_stop = false;
        size_t main_pc = 0;
        char const* phase = "";

        Run(Program const& p) : p(p), ser(serial(p)), m(p), obs(p)
        {
            runs.resize(p.tasks.size());
            ids.resize(p.tasks.size(), -1);
            res.resize(p.res.size());
            res_id.resize(p.res.size());
            uses.resize(p.res.size());
            for(auto& t : p.tasks)
            {
                for(auto& a : t.acc)
                    ++uses[a.res];
                for(auto& o : t.ops)
                    if(o.kind == OP_DEMOTE || o.kind == OP_BAD || o.kind == OP_BADCHILD)
                    {
                        for(auto& a : p.demotes[o.a].remove)
                            ++uses[a.res];
                        for(auto& a : p.demotes[o.a].add)
                            ++uses[a.res];
                    }
            }
            ev.resize(p.events.size());
            fut.resize(p.tasks.size());
            ev_keep.resize(p.events.size());
            for(auto& t : p.tasks)
                for(auto& o : t.ops)
                    if(o.kind == OP_YIELD)
                        ev_keep[o.a] = 1;
            for(auto& o : p.main)
                if(o.kind == OP_YIELD)
                    ev_keep[o.a] = 1;
        }
    };
    static Run* R;

    static void describe_hang(char* b, size_t n)
    {
        if(!R)
            return;
        size_t k = snprintf(b, n, "main at op %zu %s;", R->main_pc, R->phase);
        R->m.rest();
        for(size_t t = 0; t < R->p.tasks.size() && k < n - 80; ++t)
        {
            auto& o = R->obs.t[t];
            auto& x = R->m.t[t];
            if(o.submitted)
                k += snprintf(b + k, n - k, " T%zu:%s(expected %s)", t,
                              o.body_done ? "done" : o.started ? "started" : "waiting",
                              x.body_done ? "done" : x.started ? "started" : "waiting");
        }
        if(getenv("VERIF_DEBUG"))
        {
            vs::NoPoint np;
            k += vs::describe_threads(b + k, n - k);
            for(size_t e = 0; e < R->p.events.size(); ++e)
                k += snprintf(b + k, n - k, " E%zu[created=%d notified=%d]", e, R->obs.e[e].created, R->obs.e[e].notified);
        }
    }

    static void touch(int k, std::vector<HandleP> const& hs, bool again)
    {
        auto& t = R->p.tasks[k];
        std::vector<unsigned> el;
        for(size_t i = 0; i < t.acc.size(); ++i)
        {
            auto& a = t.acc[i];
            elements(R->p.res[a.res], a, el);
            for(size_t j = 0; j < el.size(); ++j)
            {
                Elem* e = hs[i]->elem(el[j]);
                auto& s = R->ser.seen[k][i][j];
                if(e->alive != Token::ALIVE)
                    pbt::fail("object-lifetime", "object of R%d is gone while T%d uses it", a.res, k);
                if(again)
                {
                    if((a.mode == M_READ || a.mode == M_WRITE) && e->v != s.after)
                        pbt::fail("isolation", "T%d (%s access to R%d) still running, but element %u changed under it",
                                  k, a.mode == M_READ ? "read" : "write", a.res, el[j]);
                    continue;
                }
                switch(a.mode)
                {
                case M_READ:
                    if(e->v != s.before)
                        pbt::fail("data", "T%d reads %llu from R%d element %u, serial execution yields %llu", k,
                                  (unsigned long long) e->v, a.res, el[j], (unsigned long long) s.before);
                    break;
                case M_WRITE:
                    {
                        uint64_t v = e->v;
                        if(v != s.before)
                            pbt::fail("data", "T%d finds %llu in R%d element %u, serial execution yields %llu", k,
                                      (unsigned long long) v, a.res, el[j], (unsigned long long) s.before);
                        if(j == 0)
                            vs::point();
                        e->v = f_write(v, k);
                        break;
                    }
                case M_AADD:
                    __atomic_fetch_add(&e->v, f_aadd(k), __ATOMIC_RELAXED);
                    break;
                case M_AMUL:
                    {
                        uint64_t v = __atomic_load_n(&e->v, __ATOMIC_RELAXED);
                        while(!__atomic_compare_exchange_n(&e->v, &v, v * f_amul(k), true, __ATOMIC_RELAXED,
                                                           __ATOMIC_RELAXED))
                            ;
                    }
                }
            }
        }
    }

    static void on_start(int k)
    {
        vs::NoPoint np;
        if(R->runs[k]++)
            pbt::fail("exactly-once", "body of T%d runs for the second time", k);
        if(!R->obs.t[k].submitted)
            pbt::fail("exactly-once", "body of T%d runs before its submission", k);
        for(int o : R->obs.space[R->p.tasks[k].parent + 1])
        {
            if(o == k)
                break;
            if(conflict(R->obs.t[o].acc, R->obs.t[k].acc) && !R->obs.complete(o))
            {
                char const* why = "its body has not finished";
                if(R->obs.t[o].body_done)
                {
                    why = "its children are not complete";
                    for(int e : R->obs.t[o].events)
                        if(!R->obs.e[e].notified)
                            why = "an event created in it was not reached";
                }
                pbt::fail("order", "T%d started although the conflicting earlier T%d is not complete: %s", k, o, why);
            }
        }
        R->obs.t[k].started = true;
    }

    static void check_place(int k, bool full)
    {
        auto bt = rg::backtrace();
        int c = k;
        size_t n = 0;
        for(; c >= 0; c = R->p.tasks[c].parent, ++n)
        {
            if(n >= bt.size())
                pbt::fail("backtrace", "backtrace in T%d has %zu entries, T%d is missing", k, bt.size(), c);
            char l[20];
            snprintf(l, sizeof l, "t%d", c);
            std::string got(bt[n].get().label.c_str());
            if(got != l)
                pbt::fail("backtrace", "entry %zu of the backtrace in T%d is '%s' instead of '%s'", n, k, got.c_str(), l);
            int id = (int) bt[n].get().task_id;
            if(R->ids[c] < 0)
                R->ids[c] = id;
            if(R->ids[c] != id)
                pbt::fail("backtrace", "T%d changed its id from %d to %d", c, R->ids[c], id);
        }
        if(bt.size() != n)
            pbt::fail("backtrace", "backtrace in T%d has %zu entries instead of %zu", k, bt.size(), n);
        if(full && rg::scope_depth() != n)
            pbt::fail("scope-depth", "scope depth in T%d is %u instead of %zu", k, rg::scope_depth(), n);
    }

    static bool g_describe;

    // these handles were used; after the last use nothing but the tasks keeps the resource
    static void used(std::vector<Acc> const& v)
    {
        for(auto& a : v)
        {
            HandleP last;
            {
                vs::NoPoint np;
                if(--R->uses[a.res] == 0 && R->p.drop && !g_describe)
                    last = std::move(R->res[a.res]);
            }
        }
    }

    static void create_resource(int r)
    {
        auto h = make_resource(R->p.res[r].kind, R->p.res[r].policy, r);
        {
            vs::NoPoint np;
            R->res[r] = h;
        }
        if(g_describe)
        {
            Acc a{};
            a.res = r;
            a.mode = M_READ;
            for(auto& h : a.hi)
                h = FULL;
            R->res_id[r] = make_access(*R->res[r], a).resource_id();
        }
    }

    static unsigned tags_of(int k)
    {
        return k * 5 % 16;
    }

    static std::string mode_text(Handle const& h, Acc const& a)
    {
        static char const* const names[] = {"write", "read", "atomicAdd", "atomicMul"};
        if(h.policy)
            return user_text(a);
        std::string io = std::string("{\"IOAccess\":\"") + names[a.mode] + "\"}";
        if(h.kind == R_IO)
            return io;
        std::string s = "{\"and\":[" + io + ",{\"and\":[";
        for(int d = 0; d < (h.kind == R_F1 ? 1 : 2); ++d)
        {
            auto hi = a.hi[d] == FULL ? std::numeric_limits<size_t>::max() : (size_t) a.hi[d];
            s += (d ? "," : "") + std::string("{\"area\":{\"begin\":") + std::to_string(a.lo[d]) + ",\"end\":"
                 + std::to_string(hi) + "}}";
        }
        return s + "]}]}";
    }

    // text: what the library says about task k
    static void check_text(int k, std::string const& raw, unsigned id, std::vector<Acc> const& acc, char const* when)
    {
        vs::NoPoint np;
        std::string s;
        for(char c : raw)
            if(!isspace((unsigned char) c))
                s += c;
        auto has = [&](std::string const& x)
        {
            if(s.find(x) == std::string::npos)
                pbt::fail("description", "%s, T%d: %s is missing in its description %s", when, k, x.c_str(), raw.c_str());
        };
        has("\"label\":\"t" + std::to_string(k) + "\"");
        has("\"id\":" + std::to_string(id) + ",");
        std::string tags;
        for(unsigned b = 0; b < 4; ++b)
            if(tags_of(k) >> b & 1)
                tags += (tags.empty() ? "" : ",") + std::to_string(b);
        has("\"schedulingTags\":[" + tags + "]");
        std::set<std::string> got, want;
        for(size_t i = 0; (i = s.find("{\"resourceID\":", i)) != std::string::npos;)
        {
            size_t e = i;
            int depth = 0;
            do
                depth += e >= s.size() ? -depth : s[e] == '{' ? 1 : s[e] == '}' ? -1 : 0;
            while(++e < s.size() && depth > 0);
            got.insert(s.substr(i, e - i));
            i = e;
        }
        for(auto& a : acc)
        {
            auto& r = R->p.res[a.res];
            want.insert("{\"resourceID\":" + std::to_string(R->res_id[a.res]) + ",\"scopeLevel\":"
                        + std::to_string(r.creator < 0 ? 0 : R->p.tasks[r.creator].depth + 1) + ",\"mode\":"
                        + mode_text(*R->res[a.res], a) + "}");
        }
        if(got != want)
        {
            std::string w;
            for(auto& x : want)
                w += " " + x;
            pbt::fail("description", "%s, T%d declared%s, described as %s", when, k, w.c_str(), raw.c_str());
        }
    }

#if SPDLOG_ACTIVE_LEVEL == SPDLOG_LEVEL_TRACE
    // every message is formatted; those about new tasks are compared
    struct Sink : spdlog::sinks::sink
    {
        void log(spdlog::details::log_msg const& m) override
        {
            vs::NoPoint np;
            static char const pre[] = "submit task ";
            std::string s(m.payload.data(), m.payload.size());
            auto l = s.find("\"label\" : \"t");
            if(!R || !g_describe || s.compare(0, sizeof pre - 1, pre) || l == std::string::npos)
                return;
            auto i = s.find("\"id\" : ");
            int k = atoi(s.c_str() + l + 12);
            if(k < (int) R->p.tasks.size() && i != std::string::npos)
                check_text(k, s, atoi(s.c_str() + i + 7), R->p.tasks[k].acc, "on submission");
        }
        void flush() override
        {
        }
        void set_pattern(std::string const&) override
        {
        }
        void set_formatter(std::unique_ptr<spdlog::formatter>) override
        {
        }
    };
#endif

    static void describe_task(int k)
    {
        auto bt = rg::backtrace();
        if(bt.empty())
            return; // reported elsewhere
        std::string s = fmt::format("{}", (rg::TaskProperties const&) bt[0].get());
        check_text(k, s, bt[0].get().task_id, R->obs.t[k].acc, "while running");
    }

    static rg::TaskProperties::Patch make_patch(Demote const& d, std::vector<HandleP> const& res)
    {
        rg::TaskProperties::Patch::Builder b;
        auto rm = [&]
        {
            for(auto& a : d.remove)
                b.remove_resources({make_access(*res[a.res], a)});
        };
        auto ad = [&]
        {
            for(auto& a : d.add)
                b.add_resources({make_access(*res[a.res], a)});
        };
        if(d.add_first)
        {
            ad();
            rm();
        }
        else
        {
            rm();
            ad();
        }
        return b;
    }

    static void submit(int k, bool keep, FutP& out);

    // futures may be moved at any time, also after the result was retrieved
    template<typename F>
    static void move_on(std::optional<F>& f, bool old_first)
    {
        if(!f)
            return;
        std::optional<F> other(std::move(*f));
        if(old_first)
            f.reset();
        std::optional<F> third(std::move(*other));
        f.reset();
        f.emplace(std::move(*third));
    }

    static void move_on(FutP& f, unsigned how)
    {
        if(how > 1)
            return;
        move_on(f->v, how);
        move_on(f->i, how);
        move_on(f->o, how);
    }

    static void get(int k, FutP& f)
    {
        move_on(f, k % 5);
        if(f->v)
            f->v->get();
        else if(f->i)
        {
            uint64_t v = f->i->get();
            if(v != f_result(k))
                pbt::fail("future-value", "future of T%d yields %llu instead of %llu", k, (unsigned long long) v,
                          (unsigned long long) f_result(k));
        }
        else
        {
            Val v = f->o->get();
            v.tok.check(k, "result");
            if(v.v != f_result(k))
                pbt::fail("future-value", "future of T%d yields a wrong object", k);
        }
        if(!R->obs.t[k].body_done)
            pbt::fail("future-early", "future of T%d returned before the task finished", k);
        move_on(f, (k + 1) % 3);
        f.reset();
    }

    static void query(int k, FutP& f)
    {
        bool before = R->obs.t[k].body_done;
        bool r = f->ready();
        if(r && !R->obs.t[k].body_done)
            pbt::fail("future-ready", "future of T%d claims to be ready before the task finished", k);
        (void) before;
    }

    static void refused_child(int k, Demote const& d, bool in_dtor)
    {
        std::vector<rg::ResourceAccess> acc;
        for(auto& a : d.add)
            acc.push_back(make_access(*R->res[a.res], a));
        bool thrown = false;
        try
        {
            auto b = rg::emplace_task(
                [k, t = Token(-1)](Token const&)
                { pbt::fail("refused-child", "a child of T%d runs although its accesses exceed those of T%d", k, k); },
                Token(-1));
            for(auto& a : acc)
                b.add_resource(a);
            if(!in_dtor)
                b.submit();
        }
        catch(std::exception const& x)
        {
            thrown = true;
        }
        if(!thrown)
            pbt::fail("refused-child", "T%d submitted a child whose accesses exceed its own: %s", k,
                      "the submission was accepted");
    }

    static void run_body(int k, std::vector<HandleP> const& hs)
    {
        on_start(k);
        auto& t = R->p.tasks[k];
        check_place(k, false);
        touch(k, hs, false);
        std::vector<std::pair<int, FutP>> futs;
        auto find = [&](int c) -> FutP&
        {
            for(auto& f : futs)
                if(f.first == c)
                    return f.second;
            if(R->fut[c])
                return R->fut[c]; // handed over by the main thread
            pbt::fail("internal", "no future");
        };
        for(unsigned pc = 0; pc < t.ops.size(); ++pc)
        {
            R->obs.t[k].pc = pc;
            Op const& o = t.ops[pc];
            switch(o.kind)
            {
            case OP_POINT:
                vs::point();
                break;
            case OP_CHILD:
                {
                    FutP f;
                    submit(o.a, o.b, f);
                    if(f)
                        futs.emplace_back(o.a, std::move(f));
                    break;
                }
            case OP_GET:
                {
                    FutP f = std::move(find(o.a));
                    get(o.a, f);
                }
                check_place(k, true);
                break;
            case OP_DROP:
                find(o.a).reset();
                break;
            case OP_READY:
                query(o.a, find(o.a));
                break;
            case OP_EVENT:
                {
                    R->obs.t[k].events.push_back(o.a);
                    auto e = rg::create_event();
                    if(!e)
                        pbt::fail("event", "no event could be created in T%d", k);
                    R->ev[o.a] = *e;
                    R->obs.e[o.a].created = true;
                    break;
                }
            case OP_NOTIFY:
                {
                    auto e = *R->ev[o.a];
                    if(!R->ev_keep[o.a])
                        R->ev[o.a].reset();
                    R->obs.e[o.a].notified = true;
                    e.notify();
                    break;
                }
            case OP_YIELD:
                rg::yield(*R->ev[o.a]);
                if(!R->obs.e[o.a].notified)
                    pbt::fail("yield-early", "T%d continued before the event E%d was reached", k, o.a);
                check_place(k, true);
                break;
            case OP_DEMOTE:
                {
                    auto& d = R->p.demotes[o.a];
                    auto patch = make_patch(d, R->res);
                    R->obs.t[k].acc = d.result;
                    try
                    {
                        rg::update_properties(patch);
                    }
                    catch(std::exception const& x)
                    {
                        pbt::fail("update-refused", "narrowing of the accesses of T%d was refused: %s", k, x.what());
                    }
                    used(d.remove);
                    used(d.add);
                    break;
                }
            case OP_BAD:
                {
                    auto& d = R->p.demotes[o.a];
                    auto patch = make_patch(d, R->res);
                    bool thrown = false;
                    try
                    {
                        rg::update_properties(patch);
                    }
                    catch(std::exception const& x)
                    {
                        thrown = true;
                    }
                    if(!thrown)
                        pbt::fail("update-accepted", "widening of the accesses of T%d was accepted", k);
                    used(d.remove);
                    used(d.add);
                    break;
                }
            case OP_BADCHILD:
                refused_child(k, R->p.demotes[o.a], o.b);
                used(R->p.demotes[o.a].remove);
                used(R->p.demotes[o.a].add);
                break;
            case OP_BACKTRACE:
                check_place(k, true);
                if(g_describe)
                    describe_task(k);
                break;
            case OP_RESOURCE:
                create_resource(o.a);
                break;
            default:
                break;
            }
        }
        R->obs.t[k].pc = t.ops.size();
        if(t.touch_end)
            touch(k, hs, true);
        futs.clear();
    }

    static void check_arg(int k, Token const& x)
    {
        x.check(k, "argument");
    }
    static void check_arg(int k, Bundle const& x)
    {
        x.tok.check(k, "argument");
    }
    static void check_arg(int, rg::ResourceAccess const&)
    {
    }
    static Elem const* addr(rg::ioresource::ReadGuard<Elem> const& g)
    {
        return &*g;
    }
    template<typename C>
    static Elem const* addr(rg::fieldresource::ReadGuard<C> const&)
    {
        return nullptr;
    }
    static void check_arg(int k, rg::ioresource::ReadGuard<Elem> const& g)
    {
        if(addr(g)->alive != Token::ALIVE)
            pbt::fail("object-lifetime", "guard argument of T%d refers to a released object", k);
    }
    template<typename C>
    static void check_arg(int, rg::fieldresource::ReadGuard<C> const&)
    {
    }

    template<typename Res>
    static Res make_result(int k)
    {
        if constexpr(std::is_same_v<Res, uint64_t>)
            return f_result(k);
        else
        {
            Val v;
            v.tok = Token(k);
            v.v = f_result(k);
            return v;
        }
    }

    template<typename Res>
    struct Body
    {
        int k;
        Token tok;
        std::vector<HandleP> hs;

        template<typename... A>
        Res operator()(A&&... a)
        {
            tok.check(k, "callable");
            (check_arg(k, a), ...);
            run_body(k, hs);
            tok.check(k, "callable");
            (check_arg(k, a), ...);
            if constexpr(std::is_void_v<Res>)
                R->obs.t[k].body_done = true;
            else
            {
                Res r = make_result<Res>(k);
                R->obs.t[k].body_done = true;
                return r;
            }
        }
    };

    template<typename B>
    static void add_list(B& b, std::vector<rg::ResourceAccess> const& v, size_t n)
    {
        switch(n)
        {
        case 0:
            b.resources({});
            break;
        case 1:
            b.resources({v[0]});
            break;
        case 2:
            b.resources({v[0], v[1]});
            break;
        case 3:
            b.resources({v[0], v[1], v[2]});
            break;
        default:
            b.resources({v[0], v[1], v[2], v[3]});
            for(size_t i = 4; i < n; ++i)
                b.add_resource(v[i]);
        }
    }

    template<typename F>
    static void set_fut(FutP& f, F&& x);
    template<>
    void set_fut(FutP& f, rg::Future<void>&& x)
    {
        f->v.emplace(std::move(x));
    }
    template<>
    void set_fut(FutP& f, rg::Future<uint64_t>&& x)
    {
        f->i.emplace(std::move(x));
    }
    template<>
    void set_fut(FutP& f, rg::Future<Val>&& x)
    {
        f->o.emplace(std::move(x));
    }

    // `from`: accesses from this index on are still to be declared
    template<typename B>
    static void finish(int k, bool keep, FutP& out, B&& b, std::vector<rg::ResourceAccess> const& acc, size_t from)
    {
        auto& t = R->p.tasks[k];
        char l[20];
        snprintf(l, sizeof l, "t%d", k);
        b.label(l);
        if(g_describe)
        {
            auto tg = tags_of(k);
            b.scheduling_tags(std::bitset<64>(tg & 5));
            b.scheduling_tags(std::bitset<64>(tg & 10));
        }
        if(t.stack_switching)
            b.enable_stack_switching();
        switch(from == 0 ? t.style : (int) ST_ADD)
        {
        case ST_LIST:
            add_list(b, acc, acc.size());
            break;
        case ST_MIXED:
            add_list(b, acc, acc.size() / 2);
            from = acc.size() / 2;
            [[fallthrough]];
        default:
            for(size_t i = from; i < acc.size(); ++i)
                b.add_resource(acc[i]);
        }
        R->obs.submit(k);
        if(keep)
        {
            out = std::make_unique<Fut>();
            set_fut(out, b.submit());
        }
        else if(t.in_ctor)
            ; // submitted by the destructor
        else
            b.submit();
    }

    template<typename Res>
    static void submit_plain(int k, bool keep, FutP& out, std::vector<HandleP> hs,
                             std::vector<rg::ResourceAccess> const& acc)
    {
        if(R->p.tasks[k].lvalue)
        {
            Body<Res> b{k, Token(k), hs};
            Token arg(k);
            finish(k, keep, out, rg::emplace_task(b, arg), acc, 0);
            b.tok.check(k, "callable variable of the creator");
            arg.check(k, "argument variable of the creator");
            if(b.hs.size() != hs.size())
                pbt::fail("argument-value", "callable variable of the creator of T%d was moved away", k);
            b.tok.k = -3;
            arg.k = -3;
        }
        else
            finish(k, keep, out, rg::emplace_task(Body<Res>{k, Token(k), std::move(hs)}, Token(k)), acc, 0);
    }

    static void submit(int k, bool keep, FutP& out)
    {
        auto& t = R->p.tasks[k];
        std::vector<HandleP> hs;
        std::vector<rg::ResourceAccess> acc;
        for(auto& a : t.acc)
        {
            hs.push_back(copy(R->res[a.res]));
            acc.push_back(make_access(*R->res[a.res], a));
        }
        int style = t.style;
        if(acc.empty() && (style == ST_GUARD || style == ST_ACCARG))
            style = ST_CUSTOM;
        if(style == ST_GUARD && (t.acc[0].mode > M_READ || hs[0]->policy))
            style = ST_ACCARG;
        using Bd = Body<uint64_t>;
        switch(style)
        {
        case ST_GUARD:
            {
                Acc a = t.acc[0];
                HandleP h = hs[0];
                bool rd = a.mode == M_READ, full = a.hi[0] == FULL;
                Bd b{k, Token(k), std::move(hs)};
                if(h->kind == R_IO)
                {
                    if(rd)
                        finish(k, keep, out, rg::emplace_task(std::move(b), h->io->read()), acc, 1);
                    else
                    {
                        auto g = h->io->write();
                        finish(k, keep, out, rg::emplace_task(std::move(b), std::move(g), Token(k)), acc, 1);
                    }
                }
                else if(h->kind == R_F1)
                {
                    std::array<size_t, 1> lo{a.lo[0]}, hi{a.hi[0]};
                    if(rd)
                        finish(k, keep, out,
                               rg::emplace_task(std::move(b), full ? h->f1->read() : h->f1->read().area(lo, hi)), acc, 1);
                    else
                        finish(k, keep, out,
                               rg::emplace_task(std::move(b), full ? h->f1->write() : h->f1->write().area(lo, hi)), acc, 1);
                }
                else
                {
                    std::array<size_t, 2> lo{a.lo[0], a.lo[1]}, hi{a.hi[0], a.hi[1]};
                    if(rd)
                        finish(k, keep, out,
                               rg::emplace_task(std::move(b), full ? h->f2->read() : h->f2->read().area(lo, hi)), acc, 1);
                    else
                        finish(k, keep, out,
                               rg::emplace_task(std::move(b), full ? h->f2->write() : h->f2->write().area(lo, hi)), acc, 1);
                }
                break;
            }
        case ST_ACCARG:
            {
                Bd b{k, Token(k), std::move(hs)};
                if(acc.size() == 1)
                    finish(k, keep, out, rg::emplace_task(std::move(b), rg::ResourceAccess(acc[0])), acc, 1);
                else
                    finish(k, keep, out, rg::emplace_task(std::move(b), rg::ResourceAccess(acc[0]), rg::ResourceAccess(acc[1])), acc, 2);
                break;
            }
        case ST_CUSTOM:
            {
                Bd b{k, Token(k), std::move(hs)};
                finish(k, keep, out, rg::emplace_task(std::move(b), Bundle{Token(k), acc}), acc, acc.size() + 1);
                break;
            }
        default:
            if(t.result == RES_VOID)
                submit_plain<void>(k, keep, out, std::move(hs), acc);
            else if(t.result == RES_INT)
                submit_plain<uint64_t>(k, keep, out, std::move(hs), acc);
            else
                submit_plain<Val>(k, keep, out, std::move(hs), acc);
        }
        used(t.acc);
    }

    static void compare(char const* where)
    {
        R->m.rest();
        for(size_t k = 0; k < R->p.tasks.size(); ++k)
        {
            auto& o = R->obs.t[k];
            auto& x = R->m.t[k];
            if(o.submitted != x.submitted)
                pbt::fail("rest-state", "%s: T%zu %s submitted", where, k, o.submitted ? "was" : "was not");
            if(o.started && !x.started)
                pbt::fail("rest-state", "%s: T%zu started although a conflicting predecessor is not complete", where, k);
            if(!o.started && x.started && getenv("VERIF_DEBUG"))
            {
                char b[2000];
                describe_hang(b, sizeof b);
                fprintf(stderr, "%s\n", b);
            }
            if(!o.started && x.started)
                pbt::fail("held-back", "%s: at rest, T%zu did not start although all its conflicting predecessors are "
                          "complete and workers are idle", where, k);
            if(o.body_done != x.body_done || (o.started && o.pc != x.pc))
                pbt::fail("rest-state", "%s: at rest, T%zu is at step %u%s instead of %u%s", where, k, o.pc,
                          o.body_done ? " (done)" : "", x.pc, x.body_done ? " (done)" : "");
            if(R->fut[k] && R->fut[k]->ready() != x.body_done)
                pbt::fail("future-ready", "%s: at rest, future of T%zu says ready=%d", where, k, !x.body_done);
        }
    }

    static void check_main_place()
    {
        if(!rg::backtrace().empty())
            pbt::fail("backtrace", "backtrace outside of tasks has %zu entries", rg::backtrace().size());
        if(rg::scope_depth() != 0)
            pbt::fail("scope-depth", "scope depth outside of tasks is %u", rg::scope_depth());
        if(rg::create_event())
            pbt::fail("event", "an event was created outside of tasks");
        bool thrown = false;
        try
        {
            rg::update_properties(rg::TaskProperties::Patch::Builder());
        }
        catch(std::exception const&)
        {
            thrown = true;
        }
        if(!thrown)
            pbt::fail("update-accepted", "update of properties outside of tasks was accepted");
    }

    static void check_all_complete(char const* what)
    {
        vs::NoPoint np;
        for(size_t k = 0; k < R->p.tasks.size(); ++k)
            if(R->obs.t[k].submitted && R->p.tasks[k].parent < 0 && !R->obs.complete(k))
                pbt::fail("barrier-early", "%s returned although T%zu is not complete", what, k);
    }

    void warm()
    {
#if SPDLOG_ACTIVE_LEVEL == SPDLOG_LEVEL_TRACE
        spdlog::set_default_logger(std::make_shared<spdlog::logger>("harness", std::make_shared<Sink>()));
        spdlog::set_level(spdlog::level::trace);
#else
        spdlog::set_level(spdlog::level::off);
#endif
        (void) rg::SingletonContext::get();
    }

    static void notify_ext(int e)
    {
        vs::wait_for([e] { return R->obs.e[e].created; });
        auto x = *R->ev[e];
        if(!R->ev_keep[e])
            R->ev[e].reset();
        R->obs.e[e].notified = true;
        x.notify();
    }

    void execute(Program const& p, RunOpts const& opt, vs::Config const& c, unsigned epoch, unsigned n_epochs)
    {
        Run run(p);
        R = &run;
        g_describe = opt.describe;
        vs::on_hang = describe_hang;
        arena::track_blocks = p.tracked;
        if(epoch == 0)
            vs::begin(c);
        rg::init(p.n_workers);
        for(size_t r = 0; r < p.res.size(); ++r)
            if(p.res[r].creator < 0)
                create_resource(r);

        std::thread helper;
        run.helper_queue.reserve(p.main.size() + 1);
        for(auto& o : p.main)
            if(o.kind == OP_NOTIFY && o.b && !helper.joinable())
                helper = std::thread(
                    []
                    {
                        size_t i = 0;
                        while(true)
                        {
                            vs::wait_for([&] { return R->helper_queue.size() > i || R->helper_stop; });
                            if(R->helper_queue.size() <= i)
                                break;
                            notify_ext(R->helper_queue[i++]);
                        }
                    });

        for(run.main_pc = 0; run.main_pc < p.main.size(); ++run.main_pc)
        {
            Op const& o = p.main[run.main_pc];
            switch(o.kind)
            {
            case OP_CHILD:
                run.m.submit(o.a);
                run.phase = "(submit)";
                submit(o.a, o.b, run.fut[o.a]);
                break;
            case OP_GET:
                run.phase = "(get)";
                get(o.a, run.fut[o.a]);
                break;
            case OP_DROP:
                run.fut[o.a].reset();
                break;
            case OP_READY:
                query(o.a, run.fut[o.a]);
                break;
            case OP_NOTIFY:
                run.phase = "(notify)";
                run.m.notify(o.a);
                if(o.b)
                    run.helper_queue.push_back(o.a);
                else
                    notify_ext(o.a);
                break;
            case OP_YIELD:
                run.phase = "(wait for event)";
                vs::wait_for([&] { return run.obs.e[o.a].created; });
                rg::yield(*run.ev[o.a]);
                if(!run.obs.e[o.a].notified)
                    pbt::fail("yield-early", "main continued before the event E%d was reached", o.a);
                break;
            case OP_BARRIER:
                run.phase = "(barrier)";
                rg::barrier();
                check_all_complete("barrier");
                break;
            case OP_QUIESCE:
                run.phase = "(rest)";
                vs::quiesce();
                compare("main");
                break;
            case OP_MAINMISC:
                check_main_place();
                break;
            }
        }
        run.phase = "(final barrier)";
        rg::barrier();
        check_all_complete("barrier");
        if(p.rebarrier)
            rg::barrier();
        for(size_t k = 0; k < p.tasks.size(); ++k)
            if(p.hold[k])
                get(k, run.fut[k]);
        if(helper.joinable())
        {
            run.helper_stop = true;
            helper.join();
        }
        run.phase = "(end)";
        for(size_t k = 0; k < p.tasks.size(); ++k)
            if(run.runs[k] != 1)
                pbt::fail("exactly-once", "T%zu ran %d times", k, run.runs[k]);
        for(size_t r = 0; r < p.res.size(); ++r)
            if(p.res[r].creator < 0 && run.res[r])
                for(unsigned i = 0; i < p.res[r].n_elem(); ++i)
                    if(run.res[r]->elem(i)->v != run.ser.final_[r][i])
                        pbt::fail("data", "final value of R%zu element %u is %llu, serial execution yields %llu", r, i,
                                  (unsigned long long) run.res[r]->elem(i)->v,
                                  (unsigned long long) run.ser.final_[r][i]);
        std::set<int> ids;
        for(int i : run.ids)
            if(i >= 0 && !ids.insert(i).second)
                pbt::fail("task-id", "two tasks share the id %d", i);
        for(auto& f : run.fut)
            f.reset();
        run.ev.clear();
        run.res.clear();
        vs::quiesce();
        if(n_tokens)
            pbt::fail("leak", "%ld callables, arguments or results are still alive after all tasks completed", live_tokens());
        if(n_elems)
            pbt::fail("leak", "%ld resource elements are still alive after the last handle and task are gone", live_elems());
        run.phase = "(finalize)";
        rg::finalize();
        if(opt.leaks && p.tracked && arena::live_blocks() && getenv("VERIF_DEBUG"))
            arena::dump_blocks();
        if(opt.leaks && p.tracked && arena::live_blocks())
            pbt::fail("leak", "%zu blocks (%zu bytes) were never handed back", arena::live_blocks(),
                      arena::live_block_bytes());
        if(epoch + 1 == n_epochs)
            vs::end();
        R = nullptr;
    }
} // namespace prog
