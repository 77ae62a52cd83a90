#include "units.hpp"

namespace units
{
    static uint64_t clk;
    uint64_t tick()
    {
        return ++clk;
    }
} // namespace units

using namespace units;

int main(int argc, char** argv)
{
    std::vector<char const*> const sc = {
        "sequentially consistent interleavings only: reorderings of relaxed atomics by the hardware are not simulated"};
    std::vector<char const*> const none = {};
#define PURE(id, name, fn, rule, ...) {id, name, bits_warm, fn, false, 200, 60, rule, {__VA_ARGS__}, none, 2000000000, 2000000000, 60, 600}
#define CONC(id, name, fn, rule, ...) {id, name, bits_warm, fn, true, 1, 60, rule, {__VA_ARGS__}, sc, 2000000000, 2000000000, 60, 600}
    return pbt::main(argc, argv,
        {
            CONC("P04", "queue", queue_run, "two consumers look into the queue at the same time, and one finds it empty before the end",
                 "pushes", "pops", "found_empty", "drained", "threads", "races"),
            PURE("P10", "access", access_run, "a conflict and an inclusion between different accesses occur",
                 "pairs", "conflicts", "inclusions", "strict_inclusions", "triples", "synchronising", "nonempty_areas"),
            CONC("P10", "resacc", resacc_run, "a conflict, an inclusion between different accesses, and accesses of different resources or types",
                 "accesses", "pairs", "conflicts", "inclusions", "foreign_pairs", "sets", "removed"),
            CONC("P11", "guards", guards_run, "two restrictions or more and both permitted and refused element accesses",
                 "restrictions", "refused_areas", "elements_inside", "elements_outside", "resources", "declared"),
            CONC("P12", "list", list_run, "a removal and an iteration overlap in time, or two threads append",
                 "pushes", "removes", "erases", "iterations", "visits", "copies", "threads", "removed_while_held", "from_handle", "assignments", "failed_allocations", "erased_by_anyone", "removal_races"),
            CONC("P12", "chunks", chunks_run, "two threads append at the same time",
                 "appends", "expecting_appends", "refused_appends", "erases", "iterations", "visits", "threads", "erased_while_held"),
            CONC("P13", "alloc", alloc_run, "more than one chunk used and a block released",
                 "allocations", "releases", "refused", "failed_chunks", "chunks", "threads", "cross_thread_releases"),
            CONC("P13", "alloc_api", allocapi_run, "blocks of two arenas or more, released by another thread",
                 "allocations", "releases", "refused", "failed_chunks", "chunks", "threads", "cross_thread_releases"),
            PURE("P14", "bits", bits_run, "a search with candidates of both states in a pool of more than 32 workers",
                 "sets", "gets", "searches", "found", "not_found", "above_32", "above_64"),
            CONC("P14", "claim", claim_run, "two threads claim workers of one pool",
                 "claims", "failed_claims", "releases", "threads", "above_32", "pool_api"),
            CONC("P27", "gpu_events", gpu_run, "an event is recycled while two threads are inside of the pool",
                 "allocations", "recycled", "releases", "passed_on", "threads", "overlaps"),
            CONC("P15", "condvar", cv_run, "a notification overlaps a wait",
                 "waits", "notifications", "first_notifications", "overlaps", "rest_states", "notifiers"),
        });
}
