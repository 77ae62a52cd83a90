// see pbt.hpp.  Compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#    define _GNU_SOURCE 1
#endif
#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <sched.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// measuring the coverage of the library (tools/coverage.sh)
extern "C" int __llvm_profile_write_file(void) __attribute__((weak));

namespace pbt
{
    namespace
    {
        Shared* sh; // of this shard / this process
        std::vector<uint64_t> const* replay; // null: generate
        uint64_t rs, ss; // value / schedule rng states
        std::vector<std::pair<uint64_t, int>> const* dev_replay;
        bool g_verbose;

        uint64_t sm(uint64_t& s)
        {
            uint64_t z = (s += 0x9e3779b97f4a7c15ull);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }
        uint64_t mix2(uint64_t a, uint64_t b)
        {
            uint64_t s = a * 0x9e3779b97f4a7c15ull + b;
            sm(s);
            return sm(s);
        }
        double now()
        {
            return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
        }
        uint64_t fp;
        bool fp_set;
    } // namespace

    uint64_t Gen::choose(uint64_t n)
    {
        if(n == 0)
            n = 1;
        uint64_t v;
        uint32_t i = sh->n;
        if(replay)
            v = i < replay->size() ? (*replay)[i] : 0;
        else
            v = sm(rs);
        v %= n;
        if(i < MAX_CHOICES)
        {
            sh->choice[i] = v;
            sh->bound[i] = n;
            sh->n = i + 1;
        }
        else
            vs::fail(vs::O_DISCARD, "discard", "choice sequence too long");
        return v;
    }

    uint64_t Gen::log2val(unsigned bits)
    {
        unsigned b = choose(bits + 1);
        return b == 0 ? 0 : (1ull << (b - 1)) + choose(1ull << (b - 1));
    }

    unsigned Gen::weighted_n(unsigned const* w, unsigned n)
    {
        uint64_t t = 0;
        for(unsigned i = 0; i < n; ++i)
            t += w[i];
        uint64_t x = choose(t);
        for(unsigned i = 0; i < n; ++i)
        {
            if(x < w[i])
                return i;
            x -= w[i];
        }
        return 0;
    }

    void Gen::count(unsigned l, uint64_t n)
    {
        if(l < 64)
            __atomic_fetch_add(&sh->counters[l], n, __ATOMIC_RELAXED);
    }
    void Gen::nontrivial()
    {
        is_nontrivial = true;
    }
    void Gen::desc(char const* fmt, ...)
    {
        size_t k = strlen(sh->text);
        if(k >= MAX_TEXT - 2)
            return;
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(sh->text + k, MAX_TEXT - k, fmt, ap);
        va_end(ap);
    }
    void Gen::fingerprint(uint64_t x)
    {
        fp = mix2(fp, x);
        fp_set = true;
    }
    uint64_t Gen::sched_rnd()
    {
        return sm(ss);
    }

    vs::Config Gen::schedule()
    {
        vs::Config c;
        c.seed = sm(ss);
        unsigned w = sm(ss) % 100;
        c.strategy = w < 4    ? vs::S_NONPREEMPT
                     : w < 26 ? vs::S_FEW
                     : w < 54 ? vs::S_RANDOM
                     : w < 70 ? vs::S_PCT
                     : w < 78 ? vs::S_LOCATION
                              : vs::S_RACE;
        c.p_log2 = 1 + sm(ss) % 9;
        if(c.strategy == vs::S_RACE && c.p_log2 < 4)
            c.p_log2 += 4;
        c.plain_log2 = (sm(ss) % 3 == 0) ? 2 + sm(ss) % 4 : 31;
        c.changes = 1 + sm(ss) % 6;
        c.horizon_log2 = 8 + sm(ss) % 10;
        c.stall_log2 = (sm(ss) % 2) ? 4 + sm(ss) % 12 : 0;
        static unsigned const q[] = {400, 3000, 3000, 20000};
        c.quantum = q[sm(ss) % 4];
        c.spurious = sm(ss) % 4 == 0;
        if(dev_replay)
        {
            c.strategy = vs::S_REPLAY;
            c.deviations = *dev_replay;
            c.spurious = false;
        }
        return c;
    }

    void fail(char const* kind, char const* fmt, ...)
    {
        char buf[3500];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        vs::fail(vs::O_FAIL, kind, "%s", buf);
    }

    /* ------------------------------------------------------------------ running cases */
    namespace
    {
        Shared* new_shared()
        {
            void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if(p == MAP_FAILED)
            {
                perror("mmap");
                exit(3);
            }
            return (Shared*) p;
        }

        void child_case(Check const& c)
        {
            Gen g;
            g.is_nontrivial = false;
            g.verbose = g_verbose;
            sh->n = 0;
            sh->text[0] = 0;
            sh->rep.outcome = -1;
            sh->rep.n_dev = 0;
            fp = 0;
            fp_set = false;
            c.run(g);
            sh->rep.outcome = vs::O_OK;
            if(g.is_nontrivial)
            {
                sh->nontrivial++;
                uint64_t h = fp;
                if(!fp_set)
                    for(uint32_t i = 0; i < sh->n; ++i)
                        h = mix2(h, sh->choice[i]);
                if(sh->n_hash < 4096)
                    sh->hash[sh->n_hash++] = h;
                memcpy(sh->sample, sh->text, MAX_TEXT);
            }
            sh->done++;
        }

        // forks a child that runs `n` cases; returns outcome of the last one
        int run_child(Check const& c, unsigned n, std::function<void(unsigned)> const& prep, unsigned timeout)
        {
            vs::report = &sh->rep;
            sh->done = 0;
            sh->rep.outcome = -1;
            sh->rep.msg[0] = sh->rep.kind[0] = 0;
            fflush(stdout);
            fflush(stderr);
            pid_t pid = fork();
            if(pid == 0)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                vs::install_handlers();
                // time the case had, as the machine may be busy with other things; the alarm is for cases which just wait
                itimerval tv{};
                tv.it_value.tv_sec = timeout;
                setitimer(ITIMER_PROF, &tv, nullptr);
                alarm(timeout + 60);
                for(unsigned i = 0; i < n; ++i)
                {
                    prep(i);
                    child_case(c);
                }
                if(__llvm_profile_write_file)
                    __llvm_profile_write_file();
                _exit(0);
            }
            if(pid < 0)
            {
                perror("fork");
                usleep(100000);
                return vs::O_DISCARD;
            }
            int st = 0;
            while(waitpid(pid, &st, 0) < 0)
                ;
            if(WIFSIGNALED(st))
            {
                if(WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF)
                {
                    sh->rep.outcome = vs::O_TIMEOUT;
                    snprintf(sh->rep.kind, sizeof sh->rep.kind, "timeout");
                    snprintf(sh->rep.msg, sizeof sh->rep.msg, "no completion within %u s of processor time", timeout);
                }
                else if(WTERMSIG(st) == SIGKILL)
                    return vs::O_DISCARD; // out of memory or operator
                else if(sh->rep.outcome <= 0)
                {
                    sh->rep.outcome = vs::O_CRASH;
                    snprintf(sh->rep.kind, sizeof sh->rep.kind, "crash");
                    snprintf(sh->rep.msg, sizeof sh->rep.msg, "killed by signal %d", WTERMSIG(st));
                }
            }
            else if(WEXITSTATUS(st) != 0 && sh->rep.outcome <= 0)
            {
                sh->rep.outcome = vs::O_CRASH;
                snprintf(sh->rep.kind, sizeof sh->rep.kind, "exit");
                snprintf(sh->rep.msg, sizeof sh->rep.msg, "process ended with status %d", WEXITSTATUS(st));
            }
            return sh->rep.outcome;
        }

        bool is_failure(int o)
        {
            return o != vs::O_OK && o != vs::O_DISCARD;
        }

        struct Case
        {
            std::vector<uint64_t> ch;
            uint64_t sseed = 0;
            bool has_dev = false;
            std::vector<std::pair<uint64_t, int>> dev;
        };

        int run_one(Check const& c, Case const& k, unsigned timeout)
        {
            replay = &k.ch;
            dev_replay = k.has_dev ? &k.dev : nullptr;
            int o = run_child(
                c,
                1,
                [&](unsigned)
                {
                    ss = k.sseed;
                    sh->sseed = k.sseed;
                },
                timeout);
            replay = nullptr;
            dev_replay = nullptr;
            return o;
        }

        Case current()
        {
            Case k;
            k.ch.assign(sh->choice, sh->choice + sh->n);
            k.sseed = sh->sseed;
            return k;
        }

        std::string hexdump(std::vector<uint64_t> const& v)
        {
            std::ostringstream o;
            for(auto x : v)
                o << x << ' ';
            return o.str();
        }

        void write_replay(std::string const& path, Check const& c, Case const& k, Shared const* s, std::string note)
        {
            std::ofstream f(path);
            f << "property " << c.id << "\ncheck " << c.name << "\n";
            f << "sseed " << k.sseed << "\n";
            f << "choices " << k.ch.size() << " " << hexdump(k.ch) << "\n";
            if(k.has_dev)
            {
                f << "deviations " << k.dev.size();
                for(auto& d : k.dev)
                    f << " " << d.first << ":" << d.second;
                f << "\n";
            }
            f << "# outcome: " << s->rep.kind << ": " << s->rep.msg << "\n";
            f << "# " << note << "\n";
            std::istringstream t(s->text);
            std::string l;
            while(std::getline(t, l))
                f << "# | " << l << "\n";
        }

        bool read_replay(std::string const& path, Case& k, std::string& check)
        {
            std::ifstream f(path);
            if(!f)
                return false;
            std::string l;
            while(std::getline(f, l))
            {
                std::istringstream s(l);
                std::string w;
                s >> w;
                if(w == "check")
                    s >> check;
                else if(w == "sseed")
                    s >> k.sseed;
                else if(w == "choices")
                {
                    size_t n;
                    s >> n;
                    k.ch.resize(n);
                    for(auto& x : k.ch)
                        s >> x;
                }
                else if(w == "deviations")
                {
                    size_t n;
                    s >> n;
                    k.has_dev = true;
                    for(size_t i = 0; i < n; ++i)
                    {
                        uint64_t a;
                        char colon;
                        int b;
                        s >> a >> colon >> b;
                        k.dev.push_back({a, b});
                    }
                }
            }
            return true;
        }

        std::string want_kind; // kind of the failure that is being shrunk

        // does candidate fail? tries several schedules for concurrent checks; updates k.sseed on success
        bool still_fails(Check const& c, Case& k, unsigned tries, double deadline)
        {
            unsigned n = c.concurrent ? tries : 1;
            uint64_t orig = k.sseed;
            for(unsigned i = 0; i < n; ++i)
            {
                k.sseed = i == 0 ? orig : mix2(orig, i);
                if(is_failure(run_one(c, k, c.timeout_s)) && want_kind == sh->rep.kind)
                {
                    // the executed case may have used fewer choices
                    Case e = current();
                    k.ch = e.ch;
                    return true;
                }
                if(now() > deadline)
                    break;
            }
            k.sseed = orig;
            return false;
        }

        Case shrink(Check const& c, Case k, double budget)
        {
            double deadline = now() + budget;
            unsigned const tries = 12;
            bool progress = true;
            while(progress && now() < deadline)
            {
                progress = false;
                for(size_t len = std::max<size_t>(1, k.ch.size() / 2); len >= 1 && now() < deadline; len /= 2)
                {
                    for(size_t i = k.ch.size(); i-- > 0 && now() < deadline;)
                    {
                        if(i + len > k.ch.size())
                            continue;
                        Case t = k;
                        t.ch.erase(t.ch.begin() + i, t.ch.begin() + i + len);
                        if(t.ch.size() < k.ch.size() && still_fails(c, t, tries, deadline)
                           && t.ch.size() < k.ch.size())
                        {
                            k = t;
                            progress = true;
                        }
                        else if(len > 1)
                            i = i >= len / 2 ? i - len / 2 : 0;
                    }
                    if(len == 1)
                        break;
                }
                for(size_t i = 0; i < k.ch.size() && now() < deadline; ++i)
                {
                    if(k.ch[i] == 0)
                        continue;
                    for(uint64_t v : {uint64_t(0), k.ch[i] / 2, k.ch[i] - 1})
                    {
                        if(v >= k.ch[i])
                            continue;
                        Case t = k;
                        t.ch[i] = v;
                        if(still_fails(c, t, tries, deadline) && t.ch.size() <= k.ch.size())
                        {
                            k = t;
                            progress = true;
                            break;
                        }
                    }
                }
            }
            return k;
        }

        // schedule: from the recorded deviations of the last failing run to a minimal list
        Case shrink_schedule(Check const& c, Case k, double budget)
        {
            double deadline = now() + budget;
            if(!is_failure(run_one(c, k, c.timeout_s)))
                return k;
            Case d = k;
            d.has_dev = true;
            for(uint32_t i = 0; i < sh->rep.n_dev; ++i)
                d.dev.push_back({sh->rep.dev[i].step, sh->rep.dev[i].tid});
            if(!is_failure(run_one(c, d, c.timeout_s)))
                return k;
            for(size_t len = std::max<size_t>(1, d.dev.size() / 2); now() < deadline; len /= 2)
            {
                for(size_t i = 0; i + len <= d.dev.size() && now() < deadline;)
                {
                    Case t = d;
                    t.dev.erase(t.dev.begin() + i, t.dev.begin() + i + len);
                    if(is_failure(run_one(c, t, c.timeout_s)))
                        d = t;
                    else
                        i += len;
                }
                if(len == 1)
                    break;
            }
            return d;
        }

        std::string jesc(std::string const& s)
        {
            std::string o;
            for(unsigned char ch : s)
            {
                if(ch == '"' || ch == '\\')
                {
                    o += '\\';
                    o += ch;
                }
                else if(ch == '\n')
                    o += "\\n";
                else if(ch < 32 || ch > 126)
                    o += ' ';
                else
                    o += ch;
            }
            return o;
        }

        struct Totals
        {
            uint64_t evals = 0, nontrivial = 0, discards = 0, steps = 0, switches = 0;
            uint64_t counters[64] = {};
        };

        struct Ctl // shared between shards
        {
            std::atomic<int> stop;
            std::atomic<int> found; // shard index + 1
            std::atomic<uint64_t> next;
            Totals tot[64];
            int unconfirmed;
        };
    } // namespace

    static void reexec_without_aslr(char** argv)
    {
        int p = personality(0xffffffff);
        if(p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("PBT_REEXEC"))
        {
            if(personality(p | ADDR_NO_RANDOMIZE) != -1)
            {
                setenv("PBT_REEXEC", "1", 1);
                execv("/proc/self/exe", argv);
            }
        }
    }

    int main(int argc, char** argv, std::vector<Check> const& checks)
    {
        reexec_without_aslr(argv);
        std::string name = checks[0].name, tier = "quick", out, replay_file, replay_out = "replay.txt";
        uint64_t seed = 1, cases = 0;
        double tlimit = 0, shrink_s = 60;
        int shards = std::max(1, (int) sysconf(_SC_NPROCESSORS_ONLN));
        bool keep_going = false;
        int64_t only = -1;
        for(int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto nxt = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if(a == "--check")
                name = nxt();
            else if(a == "--tier")
                tier = nxt();
            else if(a == "--seed")
                seed = strtoull(nxt().c_str(), nullptr, 10);
            else if(a == "--cases")
                cases = strtoull(nxt().c_str(), nullptr, 10);
            else if(a == "--time")
                tlimit = atof(nxt().c_str());
            else if(a == "--shards")
                shards = atoi(nxt().c_str());
            else if(a == "--out")
                out = nxt();
            else if(a == "--replay")
                replay_file = nxt();
            else if(a == "--replay-out")
                replay_out = nxt();
            else if(a == "--shrink")
                shrink_s = atof(nxt().c_str());
            else if(a == "--keep-going")
                keep_going = true;
            else if(a == "--only")
                only = atoll(nxt().c_str());
            else
            {
                fprintf(stderr, "unknown argument %s\n", a.c_str());
                return 2;
            }
        }
        Case rk;
        if(!replay_file.empty() && !read_replay(replay_file, rk, name))
        {
            fprintf(stderr, "cannot read %s\n", replay_file.c_str());
            return 2;
        }
        Check const* cp = nullptr;
        for(auto& c : checks)
            if(name == c.name)
                cp = &c;
        if(!cp)
        {
            fprintf(stderr, "no check %s\n", name.c_str());
            return 2;
        }
        Check const& c = *cp;
        arena::init();
        if(c.warm)
            c.warm();

        if(!replay_file.empty())
        {
            sh = new_shared();
            g_verbose = true;
            int o = run_one(c, rk, 60);
            printf("%s\noutcome %d %s: %s (%llu steps, %llu switches)\n", sh->text, o, sh->rep.kind, sh->rep.msg,
                   (unsigned long long) sh->rep.steps, (unsigned long long) sh->rep.switches);
            return is_failure(o) ? 1 : 0;
        }

        if(!cases)
            cases = tier == "thorough" ? c.thorough_cases : c.quick_cases;
        if(tlimit <= 0)
            tlimit = tier == "thorough" ? c.thorough_s : c.quick_s;
        double t0 = now();
        Ctl* ctl = (Ctl*) mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void*) ctl, 0, sizeof(Ctl));
        if(shards > 64)
            shards = 64;
        std::vector<Shared*> shs(shards);
        std::vector<pid_t> pids(shards);
        std::vector<int> pipes(shards);
        std::vector<std::string> samples;
        cpu_set_t allowed;
        sched_getaffinity(0, sizeof allowed, &allowed);
        std::vector<int> cpus;
        for(int i = 0; i < CPU_SETSIZE; ++i)
            if(CPU_ISSET(i, &allowed))
                cpus.push_back(i);
        auto case_seed = [&](uint64_t i) { return mix2(seed * 0x51ed2701 + 77, i); };

        int violations = 0;
        std::string vmsg;
        Case vcase;
        Shared* confirm_sh = new_shared();
        std::set<uint64_t> hashes;
        int const max_rounds = 6;
        int unconfirmed = 0;
        uint64_t start_case = only >= 0 ? only : 0;
        if(only >= 0)
        {
            cases = only + 1;
            shards = 1;
        }
        ctl->next = start_case;
        std::string hashdir = replay_out + ".hashes";

        for(int round = 0; round < max_rounds; ++round)
        {
            ctl->stop = 0;
            ctl->found = 0;
            for(int s = 0; s < shards; ++s)
            {
                if(!shs[s])
                    shs[s] = new_shared();
                pid_t pid = fork();
                if(pid == 0)
                {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    cpu_set_t one;
                    CPU_ZERO(&one);
                    CPU_SET(cpus[s % cpus.size()], &one);
                    sched_setaffinity(0, sizeof one, &one);
                    sh = shs[s];
                    sh->n_hash = 0;
                    FILE* hf = fopen((hashdir + std::to_string(s)).c_str(), "ab");
                    Totals& T = ctl->tot[s];
                    while(!ctl->stop && now() - t0 < tlimit)
                    {
                        uint64_t b = ctl->next.fetch_add(c.batch);
                        if(b >= cases)
                            break;
                        unsigned n = (unsigned) std::min<uint64_t>(c.batch, cases - b);
                        sh->nontrivial = 0;
                        memset(sh->counters, 0, sizeof sh->counters);
                        sh->n_hash = 0;
                        sh->sample[0] = 0;
                        int o = run_child(
                            c,
                            n,
                            [&](unsigned i)
                            {
                                uint64_t cs = case_seed(b + i);
                                sh->case_no = b + i;
                                rs = cs;
                                ss = mix2(cs, 0xabcdef);
                                sh->sseed = ss;
                            },
                            c.timeout_s);
                        T.evals += sh->done;
                        T.nontrivial += sh->nontrivial;
                        T.steps += sh->rep.steps;
                        T.switches += sh->rep.switches;
                        for(int i = 0; i < 64; ++i)
                            T.counters[i] += sh->counters[i];
                        if(hf && sh->n_hash)
                            fwrite(sh->hash, 8, sh->n_hash, hf);
                        if(o == vs::O_DISCARD)
                            T.discards++;
                        if(is_failure(o))
                        {
                            T.evals++;
                            if(keep_going)
                            {
                                printf("case %llu: %s: %.300s\n", (unsigned long long) sh->case_no, sh->rep.kind, sh->rep.msg);
                                fflush(stdout);
                                continue;
                            }
                            int exp = 0;
                            if(ctl->found.compare_exchange_strong(exp, s + 1))
                            {
                                ctl->stop = 1;
                            }
                            break;
                        }
                    }
                    if(hf)
                        fclose(hf);
                    _exit(0);
                }
                pids[s] = pid;
            }
            for(int s = 0; s < shards; ++s)
            {
                int st;
                waitpid(pids[s], &st, 0);
            }
            for(int s = 0; s < shards; ++s)
                if(shs[s]->sample[0] && samples.size() < 4)
                    samples.push_back(shs[s]->sample);
            int f = ctl->found;
            if(!f)
                break;
            {
                cpu_set_t one;
                CPU_ZERO(&one);
                CPU_SET(cpus[0], &one);
                sched_setaffinity(0, sizeof one, &one);
            }
            // confirm three times
            sh = shs[f - 1];
            Case k = current();
            std::string kind = sh->rep.kind, msg = sh->rep.msg;
            uint64_t cno = sh->case_no;
            fprintf(stderr, "[%s] case %llu failed: %s: %s\n", c.name, (unsigned long long) cno, kind.c_str(), msg.c_str());
            sh = confirm_sh;
            int ok = 0;
            unsigned lim = kind == "timeout" ? 60 : c.timeout_s;
            for(int i = 0; i < 3; ++i)
                if(is_failure(run_one(c, k, lim)))
                    ++ok;
            if(ok < 3 && ok > 0)
                for(int i = 0; i < 9 && ok < 3; ++i)
                    if(is_failure(run_one(c, k, lim)))
                        ++ok;
            if(ok < 3)
            {
                ++unconfirmed;
                sched_setaffinity(0, sizeof allowed, &allowed);
                fprintf(stderr, "[%s] not reproducible (%d of 3): continuing\n", c.name, ok);
                continue;
            }
            violations = 1;
            want_kind = sh->rep.kind;
            Case best = k;
            if(kind != "timeout" && shrink_s > 0)
                best = shrink(c, k, shrink_s);
            Case fin = best;
            if(c.concurrent && kind != "timeout" && shrink_s > 0)
                fin = shrink_schedule(c, best, shrink_s / 3);
            int o = run_one(c, fin, lim);
            if(!is_failure(o))
            {
                fin = k;
                run_one(c, fin, lim);
            }
            vmsg = std::string(sh->rep.kind) + ": " + sh->rep.msg;
            write_replay(
                replay_out,
                c,
                fin,
                sh,
                "found as case " + std::to_string(cno) + " of seed " + std::to_string(seed) + " ("
                    + std::to_string(k.ch.size()) + " choices, shrunk to " + std::to_string(fin.ch.size()) + ")");
            fprintf(stderr, "[%s] minimal: %s\n%s\n", c.name, vmsg.c_str(), sh->text);
            break;
        }

        Totals T;
        for(int s = 0; s < shards; ++s)
        {
            T.evals += ctl->tot[s].evals;
            T.nontrivial += ctl->tot[s].nontrivial;
            T.discards += ctl->tot[s].discards;
            T.steps += ctl->tot[s].steps;
            T.switches += ctl->tot[s].switches;
            for(int i = 0; i < 64; ++i)
                T.counters[i] += ctl->tot[s].counters[i];
            std::string hn = hashdir + std::to_string(s);
            if(FILE* hf = fopen(hn.c_str(), "rb"))
            {
                uint64_t h;
                while(fread(&h, 8, 1, hf) == 1)
                    hashes.insert(h);
                fclose(hf);
                unlink(hn.c_str());
            }
        }
        double wall = now() - t0;
        printf("[%s] %llu cases, %llu non-trivial (%zu distinct), %llu discarded, %.1f s", c.name,
               (unsigned long long) T.evals, (unsigned long long) T.nontrivial, hashes.size(),
               (unsigned long long) T.discards, wall);
        for(size_t i = 0; i < c.labels.size() && i < 64; ++i)
            printf(", %s=%llu", c.labels[i], (unsigned long long) T.counters[i]);
        printf("\n");
        if(!out.empty())
        {
            std::ofstream f(out);
            f << "{\"property\":\"" << c.id << "\",\"tier\":\"" << tier << "\",\"seed\":" << seed
              << ",\"level\":\"exploration\",\"coverage\":{\"check\":\"" << c.name << "\",\"evaluations\":" << T.evals
              << ",\"distinct_nontrivial\":" << hashes.size() << ",\"discarded\":" << T.discards
              << ",\"unreproducible\":" << unconfirmed << ",\"rule\":\"" << jesc(c.rule) << "\"";
            if(c.concurrent)
                f << ",\"schedule_steps\":" << T.steps << ",\"context_switches\":" << T.switches;
            f << ",\"classes\":{";
            for(size_t i = 0; i < c.labels.size() && i < 64; ++i)
                f << (i ? "," : "") << "\"" << jesc(c.labels[i]) << "\":" << T.counters[i];
            f << "},\"samples\":[";
            for(size_t i = 0; i < samples.size(); ++i)
                f << (i ? "," : "") << "\"" << jesc(samples[i].substr(0, 2500)) << "\"";
            f << "]},\"assumptions\":[";
            for(size_t i = 0; i < c.assumptions.size(); ++i)
                f << (i ? "," : "") << "\"" << jesc(c.assumptions[i]) << "\"";
            f << "],\"wall_s\":" << wall << ",\"violations\":" << violations << "}\n";
        }
        if(violations)
        {
            printf("%s\n", vmsg.c_str());
            return 1;
        }
        if(T.evals == 0)
        {
            fprintf(stderr, "nothing was executed\n");
            return 3;
        }
        return 0;
    }
} // namespace pbt
