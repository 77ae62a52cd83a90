// Controlled scheduler for real threads: API used by the harnesses.  See DESIGN.md, section "vsched".
#pragma once
#include <cstdint>
#include <cstddef>
#include <utility>
#include <vector>

namespace vs
{
    enum Strategy
    {
        S_NONPREEMPT,  // switch only when the running thread blocks, spins or exceeds its quantum
        S_FEW,         // a few preemptions at log-uniform positions
        S_RANDOM,      // random walk
        S_PCT,         // priorities with change points
        S_LOCATION,    // random subset of code locations is preemption prone
        S_RACE,        // threads pause at a few code locations until others access the same memory
        S_REPLAY,      // explicit list of deviations from the default policy
        S_COUNT
    };

    struct Config
    {
        int strategy = S_NONPREEMPT;
        uint64_t seed = 1;
        unsigned p_log2 = 4; // preempt with probability 2^-p_log2 at atomic operations (random / location)
        unsigned plain_log2 = 31; // additional factor for plain accesses, 31 = never
        unsigned changes = 3; // number of preemptions / change points
        unsigned horizon_log2 = 12; // positions of preemptions are log-uniform below 2^horizon
        unsigned stall_log2 = 0; // 0: no stalls, else preempted threads stall for up to 2^n steps
        unsigned quantum = 3000;
        bool spurious = false; // spurious condition variable wake-ups and weak CAS failures
        uint64_t max_steps = 20'000'000;
        std::vector<std::pair<uint64_t, int>> deviations; // S_REPLAY
    };

    enum Outcome
    {
        O_OK = 0,
        O_FAIL = 1, // oracle failure
        O_HANG = 2, // deadlock: every thread blocked
        O_LIVELOCK = 3, // step limit
        O_CRASH = 4, // signal / assertion / terminate
        O_UAF = 5,
        O_TIMEOUT = 6, // real time backstop (set by the parent)
        O_DISCARD = 7,
    };

    // shared between the child that runs a case and its parent
    struct Report
    {
        int outcome;
        char kind[32];
        char msg[4000];
        uint64_t steps;
        uint64_t switches;
        uint64_t threads;
        uint64_t counters[64];
        uint64_t fingerprint;
        uint32_t n_dev;
        struct
        {
            uint64_t step;
            int32_t tid;
        } dev[20000];
    };

    extern Report* report; // set before begin()

    void install_handlers(); // crash handlers, in the child
    void begin(Config const&);
    void end();
    bool active();
    void point(); // explicit scheduling point

    // no scheduling points while alive (harness bookkeeping; must not block)
    struct NoPoint
    {
        NoPoint();
        ~NoPoint();
    };
    void block_until(bool (*pred)(void*), void* arg); // blocks without consuming steps
    void quiesce(); // returns when every other thread is blocked
    uint64_t steps();
    int self_id();
    size_t describe_threads(char* buf, size_t n);
    [[noreturn]] void fail(int outcome, char const* kind, char const* fmt, ...) __attribute__((format(printf, 3, 4)));

    // what to append to the report of a hang (harness state)
    extern void (*on_hang)(char* buf, size_t n);

    template<typename F>
    void wait_for(F f)
    {
        block_until([](void* p) { return (*(F*) p)(); }, &f);
    }
} // namespace vs

namespace arena
{
    extern bool track_blocks; // memory::Allocator served by the tracked arena
    void init(); // process start
    void* alloc(size_t n, size_t align);
    void free(void* p); // marks released, never reused; reports double free
    size_t live_blocks(); // blocks handed out through memory::Allocator and not yet returned (tracked mode)
    size_t live_block_bytes();
    void dump_blocks();
    size_t chunk_bytes(); // bytes currently mapped through hwloc (real mode)
    size_t chunk_count();
    size_t new_live(); // operator new balance (objects)
    size_t new_live_bytes();
    void check(void const* p, size_t n, bool write, void* pc);
} // namespace arena
