// Task programs: representation, reference model and generator.  No dependency on the library under test.
#pragma once
#include "../engine/pbt.hpp"

#include <cstdint>
#include <string>
#include <vector>

namespace prog
{
    enum Mode
    {
        M_WRITE,
        M_READ,
        M_AADD,
        M_AMUL
    };

    constexpr unsigned FULL = 0x7fffffff;
    constexpr unsigned EXT1 = 8; // elements of a 1D field
    constexpr unsigned EXT2X = 4, EXT2Y = 3; // extent of a 2D field

    struct Acc
    {
        int res;
        int mode;
        unsigned lo[2], hi[2]; // unused dimensions: [0, FULL)

        bool operator==(Acc const& o) const
        {
            return res == o.res && mode == o.mode && lo[0] == o.lo[0] && lo[1] == o.lo[1] && hi[0] == o.hi[0]
                   && hi[1] == o.hi[1];
        }
    };

    bool conflict(Acc const& a, Acc const& b);
    bool covers(Acc const& a, Acc const& b);
    bool conflict(std::vector<Acc> const& a, std::vector<Acc> const& b);

    enum ResKind
    {
        R_IO,
        R_F1,
        R_F2
    };

    struct ResDef
    {
        int kind;
        int creator; // task, or -1: created by the main thread
        int policy = 0; // 0: resource types of the library, 1 and 2: access policy supplied by the user
        unsigned n_elem() const
        {
            return kind == R_IO ? 1 : kind == R_F1 ? EXT1 : EXT2X * EXT2Y;
        }
    };

    // every element of `a` is covered by some access of `v`
    bool union_covers(ResDef const& r, std::vector<Acc> const& v, Acc const& a);

    enum OpKind
    {
        OP_NOP,
        OP_CHILD, // a = task, b = 1: keep the future
        OP_GET, // a = task
        OP_DROP, // a = task: discard the future
        OP_EVENT, // a = event: create
        OP_NOTIFY, // a = event, b = 1: through the helper thread (main only)
        OP_YIELD, // a = event: wait for it
        OP_DEMOTE, // a = index into demotes
        OP_BAD, // a = index into demotes: update that has to be rejected
        OP_BACKTRACE,
        OP_POINT,
        OP_RESOURCE, // a = resource: create a local one
        OP_BARRIER, // main
        OP_QUIESCE, // main
        OP_READY, // a = task: query readiness of the future
        OP_MAINMISC, // main: introspection outside of tasks
        OP_BADCHILD, // a = index into demotes: accesses of a child that has to be refused, b: 1 = by destruction
    };

    struct Op
    {
        int kind, a, b;
    };

    struct Demote
    {
        std::vector<Acc> remove, add;
        bool add_first;
        std::vector<Acc> result; // declared accesses afterwards
    };

    enum Style
    {
        ST_LIST, // .resources({...})
        ST_ADD, // .add_resource() for each
        ST_MIXED, // first half as list, rest single
        ST_GUARD, // guard arguments as far as possible, rest single
        ST_ACCARG, // ResourceAccess arguments
        ST_CUSTOM, // custom argument type
        ST_COUNT
    };

    enum ResultKind
    {
        RES_VOID,
        RES_INT,
        RES_OBJ
    };

    struct TaskDef
    {
        int parent; // -1: top level
        int depth;
        bool stack_switching;
        int style;
        int result;
        std::vector<Acc> acc;
        std::vector<Op> ops;
        bool in_ctor; // submitted by destruction of the builder instead of submit()
        bool lvalue; // callable passed as lvalue
        // derived
        bool touch_end; // data can be verified again when the body ends
    };

    struct EventDef
    {
        int creator;
        int notifier; // task, -1: main thread, -2: helper thread, via main
    };

    struct Program
    {
        unsigned n_workers;
        bool tracked;
        bool rebarrier;
        bool drop = false; // handles of resources are discarded after their last use
        std::vector<ResDef> res;
        std::vector<TaskDef> tasks;
        std::vector<EventDef> events;
        std::vector<Demote> demotes;
        std::vector<Op> main;
        std::vector<char> hold; // futures still held by main at the end (dropped after the final barrier)
    };

    // state of the reference model; also used for the observed state
    struct TState
    {
        bool submitted = false, started = false, body_done = false;
        int seq = 0; // submission number
        unsigned pc = 0;
        std::vector<Acc> acc;
        std::vector<int> children;
        std::vector<int> events;
    };

    struct EState
    {
        bool created = false, notified = false;
    };

    struct Model
    {
        Program const* p;
        std::vector<TState> t;
        std::vector<EState> e;
        std::vector<int> order; // submission order of all tasks (within a space it is the submission order)
        std::vector<std::vector<int>> space; // per parent + 1
        explicit Model(Program const& p);
        void grow();
        void submit(int task);
        bool complete(int task) const;
        bool startable(int task) const;
        void rest(); // run everything that can run
        bool run(int task); // advance a started body; true if anything changed
        void notify(int ev);
        bool all_complete() const; // every submitted top level task
    };

    struct Profile
    {
        unsigned max_tasks = 12;
        unsigned max_depth = 3;
        unsigned max_res = 4;
        unsigned w_child = 10, w_event = 6, w_yield = 4, w_demote = 0, w_bad = 0, w_get = 4, w_local = 2, w_bt = 0,
                 w_xget = 0, w_badchild = 0;
        unsigned p_future = 40; // percent of futures kept
        unsigned p_stack = 40; // percent of tasks with their own stack
        unsigned p_empty = 8; // percent of tasks without accesses
        unsigned p_conflict = 60; // tendency to use the same resource
        unsigned dup = 10; // percent: several accesses to the same resource
        bool styles = false; // vary how accesses are attached
        bool helper = false; // notify from a third thread
        bool results = false;
        unsigned w_barrier = 2, w_quiesce = 6, w_notify = 5, w_mget = 4, w_mdrop = 2, w_myield = 0, w_mmisc = 0;
        unsigned max_workers = 4;
        int tracked = -1; // -1: random
        unsigned epochs = 1;
        bool only_flat = false;
        bool lvalue = false;
        unsigned modes = 4;
        unsigned p_user = 12; // percent of resources with an access policy of the user
        unsigned p_drop = 20; // percent of programs which discard handles early
        unsigned p_blocker = 0; // percent of programs with a task which stays outstanding until the end
        bool light = false; // small number of accesses
    };

    Program generate(pbt::Gen& g, Profile const& pf);
    std::string describe(Program const& p);
    bool nontrivial_conflict(Program const& p);

    // serial execution in submission order: the values every task has to see
    struct Serial
    {
        struct Seen
        {
            uint64_t before, after;
        };
        // per task, per access, per covered element (row major over the covered elements)
        std::vector<std::vector<std::vector<Seen>>> seen;
        std::vector<std::vector<uint64_t>> final_; // per resource
    };
    Serial serial(Program const& p);
    // elements covered by an access
    void elements(ResDef const& r, Acc const& a, std::vector<unsigned>& out);
    inline uint64_t f_write(uint64_t v, int t)
    {
        return v * 1000003 + (uint64_t) (t + 1) * 7919;
    }
    inline uint64_t f_aadd(int t)
    {
        return (uint64_t) (t + 1) * 104729;
    }
    inline uint64_t f_amul(int t)
    {
        return (uint64_t) (2 * t + 3);
    }
    inline uint64_t f_result(int t)
    {
        return 0xfeed0000ull + (uint64_t) t * 31;
    }
} // namespace prog
