// P23: counts of any size.  Threads run freely here: the schedule is not controlled.
#include "big.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>

#include <spdlog/spdlog.h>

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <time.h>
#include <memory>
#include <optional>
#include <thread>
#include <vector>

#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace rg = redGrapes;

namespace big
{
    using pbt::Gen;
    using Res = rg::IOResource<int>;

    void warm()
    {
        spdlog::set_level(spdlog::level::off);
        (void) rg::SingletonContext::get();
    }

    namespace
    {
        enum
        {
            L_PREDS,
            L_SUCCS,
            L_CHILDREN,
            L_EVENTS,
            L_ACCESSES,
            L_RESOURCES,
            L_DEPTH,
            L_WAITS,
            L_FUTURES,
            L_CHAIN,
            L_UPDATES,
            L_255,
            L_32K,
            L_64K
        };
        std::atomic<uint64_t> progress;
        char const* volatile phase;

        void nap(unsigned us)
        {
            timespec t{0, us * 1000};
            syscall(SYS_nanosleep, &t, nullptr);
        }

        // every thread of this process except the calling one sleeps
        bool all_asleep()
        {
            bool r = true;
            int self = syscall(SYS_gettid);
            if(DIR* d = opendir("/proc/self/task"))
            {
                while(dirent* e = readdir(d))
                {
                    int tid = atoi(e->d_name);
                    if(!tid || tid == self)
                        continue;
                    char path[64], buf[256];
                    snprintf(path, sizeof path, "/proc/self/task/%d/stat", tid);
                    if(FILE* f = fopen(path, "r"))
                    {
                        size_t n = fread(buf, 1, sizeof buf - 1, f);
                        fclose(f);
                        buf[n] = 0;
                        char* p = strrchr(buf, ')');
                        r = r && p && p[1] && p[2] == 'S';
                    }
                }
                closedir(d);
            }
            return r;
        }

        double clock_s(clockid_t c)
        {
            timespec t;
            clock_gettime(c, &t);
            return t.tv_sec + t.tv_nsec * 1e-9;
        }

        // the program hangs if it makes no progress for a long time, although the machine leaves it the time to
        void watchdog()
        {
            std::thread(
                []
                {
                    uint64_t last = ~0ull;
                    unsigned ticks = 0, asleep = 0;
                    double cpu = 0, wall = 0;
                    while(true)
                    {
                        nap(100'000);
                        uint64_t p = progress;
                        if(p != last)
                        {
                            last = p;
                            ticks = asleep = 0;
                            cpu = clock_s(CLOCK_PROCESS_CPUTIME_ID);
                            wall = clock_s(CLOCK_MONOTONIC);
                            continue;
                        }
                        ++ticks;
                        asleep += all_asleep();
                        if((ticks >= 150 && asleep * 10 >= ticks * 8) || clock_s(CLOCK_PROCESS_CPUTIME_ID) - cpu > 25
                           || clock_s(CLOCK_MONOTONIC) - wall > 200)
                            pbt::fail("hang", "no progress any more: %s", phase);
                    }
                })
                .detach();
        }

        template<typename F>
        void wait(char const* what, F&& f)
        {
            phase = what;
            while(!f())
                nap(50);
            ++progress;
        }

        unsigned gen_count(Gen& g, unsigned max)
        {
            unsigned n;
            switch(g.weighted(1, 3, 1))
            {
            case 0:
                n = 1 + g.choose(100);
                break;
            case 1:
            {
                static unsigned const k[] = {7, 8, 15, 16, 17};
                n = 1u << k[g.choose(5)];
                if(g.coin(1, 2))
                    n = n - 3 + g.choose(7);
                break;
            }
            default:
                n = 1 + g.choose(140000);
            }
            while(n > max)
                n = n % 2 ? n / 2 : n / 2 - 1;
            if(n < 1)
                n = 1;
            return n;
        }

        // is suspended until it is told to go on, and holds its resources until then
        struct Gate
        {
            std::atomic<int> state{0};
            std::optional<rg::scheduler::EventPtr> ev;
            void body()
            {
                ev = *rg::create_event();
                auto e = *ev;
                state = 1;
                rg::yield(e);
                state = 3;
            }
            void open()
            {
                wait("a task does not start", [this] { return state.load() >= 1; });
                state = 2;
                ev->notify();
                ev.reset();
            }
        };

        // every worker took all tasks it was given so far from its queue
        void settle(unsigned nw)
        {
            auto n = std::make_shared<std::atomic<unsigned>>(0);
            unsigned k = 3 * nw;
            for(unsigned i = 0; i < k; ++i)
                rg::emplace_task([n] { ++*n; });
            wait("independent tasks do not run", [&] { return n->load() == k; });
        }

        struct Fan // N tasks on g resources, whose first user is a gate
        {
            unsigned n, groups;
            std::vector<Res> res;
            std::unique_ptr<Gate> gate = std::make_unique<Gate>();
            std::unique_ptr<std::atomic<uint8_t>[]> runs;
            std::atomic<unsigned> done{0};

            explicit Fan(unsigned n) : n(n), groups(1), runs(new std::atomic<uint8_t>[n]())
            {
                while(groups * groups < n)
                    ++groups;
                for(unsigned i = 0; i < groups; ++i)
                    res.emplace_back(0);
            }
            void emplace_gate()
            {
                auto b = rg::emplace_task([this] { gate->body(); }).enable_stack_switching();
                for(auto& r : res)
                    b.add_resource(r.write());
            }
            void emplace_readers(bool shared)
            {
                phase = "submission of tasks does not return";
                for(unsigned i = 0; i < n; ++i)
                {
                    rg::emplace_task(
                        [this, i](auto)
                        {
                            if(gate->state < 2)
                                pbt::fail("early", "task %u of %u starts before its predecessor is complete", i, n);
                            if(runs[i].fetch_add(1))
                                pbt::fail("twice", "task %u of %u runs twice", i, n);
                            ++done;
                            ++progress;
                        },
                        shared ? res[0].read() : res[i % groups].read());
                    ++progress;
                }
            }
            void check_all()
            {
                if(done != n)
                    pbt::fail("lost", "%u of %u tasks did run", done.load(), n);
            }
        };
    } // namespace

    void big_run(Gen& g)
    {
        progress = 0;
        unsigned nw = 1 + g.choose(4);
        unsigned kind = g.choose(11);
        static char const* const kinds[] = {"predecessors", "successors", "children", "events", "accesses", "resources", "levels",
                                            "waits", "futures", "successive tasks", "successive updates"};
        static unsigned const maxn[] = {70000, 70000, 140000, 140000, 1500, 200000, 700, 70000, 140000, 140000, 300};
        unsigned n = gen_count(g, maxn[kind]);
        g.desc("%u workers, %u %s\n", nw, n, kinds[kind]);
        g.count(L_PREDS + kind);
        g.count(L_255, n >= 255);
        g.count(L_32K, n >= 32767);
        g.count(L_64K, n >= 65535);
        if(n >= 255)
            g.nontrivial();
        if(kind < 2 && n > 3 && g.coin(2, 3))
            n -= 2 - kind; // that many tasks are outstanding together with the others
        uint64_t order = g.choose(1 << 16);
        auto rnd = [&order]
        {
            order = order * 6364136223846793005ull + 1442695040888963407ull;
            return (unsigned) (order >> 33);
        };
        phase = "init";
        watchdog();
        rg::init(nw);
        {
            switch(kind)
            {
            case 0: // one task behind many
            case 1: // many tasks behind one
            {
                Fan f(n);
                f.emplace_gate();
                f.emplace_readers(false);
                std::atomic<int> last{0};
                if(kind == 0)
                {
                    auto b = rg::emplace_task(
                        [&]
                        {
                            if(f.done != n)
                                pbt::fail("early", "task starts after %u of %u predecessors", f.done.load(), n);
                            ++last;
                        });
                    for(auto& r : f.res)
                        b.add_resource(r.write());
                }
                settle(nw);
                if(f.done || last)
                    pbt::fail("early", "task starts before its predecessor is complete");
                // all of them are outstanding when the barrier is reached, mostly
                std::thread opener(
                    [&]
                    {
                        nap(3000);
                        f.gate->open();
                        phase = "barrier does not return";
                    });
                rg::barrier();
                f.check_all();
                opener.join();
                if(kind == 0 && last != 1)
                    pbt::fail("lost", "the task behind %u others ran %d times", n, last.load());
                break;
            }
            case 2: // one task with many children
            {
                Res a(0);
                std::atomic<unsigned> done{0};
                std::atomic<int> after{0}, inner{0};
                bool two = rnd() % 2;
                rg::emplace_task(
                    [&](auto)
                    {
                        for(unsigned i = 0; i < n; ++i)
                        {
                            rg::emplace_task(
                                [&]
                                {
                                    if(two)
                                        rg::emplace_task([&] { ++inner; });
                                    ++done;
                                    ++progress;
                                });
                            ++progress;
                        }
                    },
                    a.write());
                rg::emplace_task(
                    [&](auto)
                    {
                        if(done != n || (two && inner != (int) n))
                            pbt::fail("early", "task starts after %u of %u children of its predecessor", done.load(), n);
                        ++after;
                    },
                    a.read());
                phase = "barrier does not return";
                rg::barrier();
                if(done != n || after != 1)
                    pbt::fail("lost", "%u of %u children and %d successors did run", done.load(), n, after.load());
                break;
            }
            case 3: // one task with many events
            {
                Res a(0);
                std::vector<std::optional<rg::scheduler::EventPtr>> ev(n);
                std::atomic<int> created{0}, after{0};
                std::atomic<unsigned> reached{0};
                rg::emplace_task(
                    [&](auto)
                    {
                        for(auto& e : ev)
                        {
                            e = rg::create_event();
                            ++progress;
                        }
                        created = 1;
                    },
                    a.write());
                rg::emplace_task(
                    [&](auto)
                    {
                        if(reached != n)
                            pbt::fail("early", "task starts after %u of %u events of its predecessor", reached.load(), n);
                        ++after;
                    },
                    a.read());
                wait("events are not created", [&] { return created == 1; });
                settle(nw);
                for(unsigned i = n; i > 1; --i)
                    std::swap(ev[i - 1], ev[rnd() % i]);
                unsigned by_task = rnd() % 3 ? 0 : n / 2;
                std::atomic<unsigned> done_by_task{0};
                // the last one by the main thread
                if(by_task)
                    rg::emplace_task(
                        [&]
                        {
                            for(unsigned i = 0; i < by_task; ++i)
                            {
                                ++reached;
                                ev[i]->notify();
                                ++progress;
                            }
                            done_by_task = 1;
                        });
                for(unsigned i = by_task; i + 1 < n; ++i)
                {
                    ++reached;
                    ev[i]->notify();
                    ++progress;
                }
                if(by_task)
                    wait("a task does not run", [&] { return done_by_task == 1; });
                settle(nw);
                if(after)
                    pbt::fail("early", "task starts before the last of %u events", n);
                ++reached;
                ev[n - 1]->notify();
                phase = "barrier does not return";
                rg::barrier();
                if(after != 1)
                    pbt::fail("lost", "the task behind %u events ran %d times", n, after.load());
                break;
            }
            case 4: // tasks with many accesses
            {
                std::vector<Res> res;
                for(unsigned i = 0; i < n; ++i)
                    res.emplace_back(0);
                Gate gate;
                std::atomic<unsigned> many{0}, single{0};
                {
                    auto b = rg::emplace_task([&] { gate.body(); }).enable_stack_switching();
                    for(auto& r : res)
                    {
                        b.add_resource(r.write());
                        ++progress;
                    }
                }
                for(auto& r : res)
                {
                    rg::emplace_task(
                        [&](auto w)
                        {
                            if(gate.state < 2)
                                pbt::fail("early", "task starts before a predecessor with %u accesses is complete", n);
                            ++*w;
                            ++single;
                            ++progress;
                        },
                        r.write());
                    ++progress;
                }
                {
                    auto b = rg::emplace_task(
                        [&]
                        {
                            if(single != n)
                                pbt::fail("early", "task starts after %u of %u predecessors", single.load(), n);
                            ++many;
                        });
                    for(auto& r : res)
                    {
                        b.add_resource(r.read());
                        ++progress;
                    }
                }
                settle(nw);
                gate.open();
                phase = "barrier does not return";
                rg::barrier();
                if(single != n || many != 1)
                    pbt::fail("lost", "%u of %u single and %u tasks with many accesses did run", single.load(), n, many.load());
                break;
            }
            case 5: // many resources
            {
                std::vector<Res> res;
                for(unsigned i = 0; i < n; ++i)
                {
                    res.emplace_back(i);
                    ++progress;
                }
                Gate gate;
                unsigned x = rnd() % n;
                std::vector<unsigned> same;
                for(unsigned d : {1u, 2u, 255u, 256u, 257u, 32768u, 65535u, 65536u, 65537u, 131072u})
                {
                    if(x + d < n)
                        same.push_back(x + d);
                    if(x >= d)
                        same.push_back(x - d);
                }
                std::atomic<unsigned> other{0}, after{0};
                rg::emplace_task([&](auto) { gate.body(); }, res[x].write()).enable_stack_switching();
                for(unsigned y : same)
                    rg::emplace_task(
                        [&, y](auto w)
                        {
                            if(*w != (int) y)
                                pbt::fail("value", "resource %u holds %d", y, *w);
                            ++other;
                        },
                        res[y].write());
                rg::emplace_task(
                    [&](auto w)
                    {
                        if(gate.state < 2)
                            pbt::fail("early", "task starts before its predecessor is complete");
                        ++after;
                    },
                    res[x].read());
                wait("tasks on other resources are held back", [&] { return other == same.size(); });
                settle(nw);
                gate.open();
                phase = "barrier does not return";
                rg::barrier();
                if(after != 1)
                    pbt::fail("lost", "successor did not run");
                break;
            }
            case 6: // deep nesting
            {
                Res outer(0), other(0);
                std::atomic<unsigned> levels{0};
                std::atomic<int> after{0};
                struct Nest
                {
                    unsigned n;
                    Res& outer;
                    Res& other;
                    std::atomic<unsigned>& levels;
                    std::vector<Res> inner{};
                    void level(unsigned d)
                    {
                        if(rg::scope_depth() != d)
                            pbt::fail("depth", "scope depth is %u at level %u", rg::scope_depth(), d);
                        if(rg::backtrace().size() != d)
                            pbt::fail("depth", "backtrace has %zu entries at level %u", rg::backtrace().size(), d);
                        ++levels;
                        ++progress;
                        // not declared by the parent: outermost, and of each level above
                        if(d % 16 == 1 || d > 250)
                        {
                            refuse(other, d);
                            for(size_t i = 0; i + 1 < inner.size(); i += 1 + inner.size() / 3)
                                refuse(inner[i], d);
                        }
                        if(d >= n)
                            return;
                        inner.emplace_back(0);
                        // one of the resources of this level, and the one which is handed down
                        rg::emplace_task([this, d](auto, auto) { level(d + 1); }, outer.write(), inner.back().write());
                    }
                    void refuse(Res& r, unsigned d)
                    {
                        bool refused = false;
                        try
                        {
                            rg::emplace_task([](auto) {}, r.write());
                        }
                        catch(std::runtime_error const&)
                        {
                            refused = true;
                        }
                        if(!refused)
                            pbt::fail("scope", "at level %u, a child with an access its parent does not have is accepted", d);
                    }
                } nest{n, outer, other, levels};
                nest.inner.reserve(n + 1);
                rg::emplace_task([&](auto) { nest.level(1); }, outer.write());
                rg::emplace_task(
                    [&](auto)
                    {
                        if(levels != n)
                            pbt::fail("early", "task starts after %u of %u levels", levels.load(), n);
                        ++after;
                    },
                    outer.read());
                phase = "barrier does not return";
                rg::barrier();
                if(after != 1)
                    pbt::fail("lost", "successor did not run");
                break;
            }
            case 7: // one task waits many times
            {
                Res a(0);
                std::atomic<unsigned> posted{0}, resumed{0}, notified{0};
                std::optional<rg::scheduler::EventPtr> slot;
                std::atomic<int> after{0};
                rg::emplace_task(
                    [&](auto)
                    {
                        for(unsigned i = 0; i < n; ++i)
                        {
                            auto e = *rg::create_event();
                            slot = e;
                            ++posted;
                            rg::yield(e);
                            if(notified <= i)
                                pbt::fail("early", "task continues before event %u of %u", i, n);
                            ++resumed;
                            ++progress;
                        }
                    },
                    a.write())
                    .enable_stack_switching();
                rg::emplace_task(
                    [&](auto)
                    {
                        if(resumed != n)
                            pbt::fail("early", "task starts after %u of %u events", resumed.load(), n);
                        ++after;
                    },
                    a.read());
                for(unsigned i = 0; i < n; ++i)
                {
                    phase = "a waiting task does not continue";
                    while(posted <= i)
                        std::this_thread::yield();
                    auto e = *slot;
                    slot.reset();
                    ++notified;
                    e.notify();
                }
                phase = "barrier does not return";
                rg::barrier();
                if(after != 1)
                    pbt::fail("lost", "successor did not run");
                break;
            }
            case 8: // many futures
            {
                std::atomic<unsigned> gone{0};
                auto make = [](unsigned i) { return rg::emplace_task([i] { return i * 3 + 1; }).submit(); };
                std::vector<decltype(make(0))> fut;
                fut.reserve(n);
                for(unsigned i = 0; i < n; ++i)
                {
                    fut.emplace_back(make(i));
                    ++progress;
                }
                phase = "a future does not become ready";
                std::vector<unsigned> idx(n);
                for(unsigned i = 0; i < n; ++i)
                    idx[i] = i;
                for(unsigned i = n; i > 1; --i)
                    std::swap(idx[i - 1], idx[rnd() % i]);
                for(unsigned i : idx)
                {
                    unsigned v = fut[i].get();
                    if(v != i * 3 + 1)
                        pbt::fail("value", "future %u yields %u", i, v);
                    ++progress;
                }
                fut.clear();
                phase = "barrier does not return";
                rg::barrier();
                break;
            }
            case 9: // a long chain
            {
                Res a(0);
                for(unsigned i = 0; i < n; ++i)
                {
                    rg::emplace_task(
                        [i, n](auto w)
                        {
                            if(*w != (int) i)
                                pbt::fail("order", "task %u of %u runs as number %d", i, n, *w);
                            ++*w;
                            ++progress;
                        },
                        a.write());
                    if(i % 1024 == 0)
                        ++progress;
                }
                phase = "barrier does not return";
                rg::barrier();
                int end = rg::emplace_task([](auto r) { return *r; }, a.read()).submit().get();
                if(end != (int) n)
                    pbt::fail("lost", "%d of %u tasks did run", end, n);
                break;
            }
            default: // one task gives up its accesses one by one
            {
                std::vector<Res> res;
                for(unsigned i = 0; i < n; ++i)
                    res.emplace_back(0);
                std::atomic<unsigned> step{0};
                std::atomic<unsigned> given_up{0}, done{0};
                std::unique_ptr<std::atomic<uint8_t>[]> up(new std::atomic<uint8_t>[n]());
                std::optional<rg::scheduler::EventPtr> ev;
                auto b = rg::emplace_task(
                             [&]
                             {
                                 auto e = *rg::create_event();
                                 ev = e;
                                 step = 1;
                                 rg::yield(e);
                                 for(unsigned i = 0; i + 1 < n; ++i)
                                 {
                                     up[i] = 1;
                                     rg::update_properties(rg::TaskProperties::Patch::Builder().remove_resources({res[i].write()}));
                                     ++progress;
                                 }
                                 ev = *rg::create_event();
                                 e = *ev;
                                 step = 2;
                                 rg::yield(e);
                                 up[n - 1] = 1;
                             })
                             .enable_stack_switching();
                for(auto& r : res)
                    b.add_resource(r.write());
                b.submit();
                for(unsigned i = 0; i < n; ++i)
                    rg::emplace_task(
                        [&, i](auto)
                        {
                            if(!up[i])
                                pbt::fail("early", "task on access %u of %u starts although it was not given up", i, n);
                            ++done;
                            ++progress;
                        },
                        res[i].read());
                wait("a task does not start", [&] { return step == 1; });
                settle(nw);
                auto e = *ev;
                e.notify();
                wait("accesses are not given up", [&] { return step == 2; });
                wait("tasks are held back after their predecessor gave up its access", [&] { return done == n - 1; });
                e = *ev;
                ev.reset();
                e.notify();
                phase = "barrier does not return";
                rg::barrier();
                if(done != n)
                    pbt::fail("lost", "%u of %u tasks did run", done.load(), n);
            }
            }
        }
        phase = "finalize does not return";
        rg::finalize();
    }
} // namespace big
