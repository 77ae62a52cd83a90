#include "sys.hpp"

using namespace sys;

int main(int argc, char** argv)
{
    std::vector<char const*> const sc = {
        "sequentially consistent interleavings only: reorderings of relaxed atomics by the hardware are not simulated"};
    std::vector<char const*> const none = {};
#define CONC(id, name, fn, rule, ...) {id, name, warm, fn, true, 1, 120, rule, {__VA_ARGS__}, sc, 2000000000, 2000000000, 60, 600}
    return pbt::main(argc, argv,
        {
            {"P16", "tags_api", warm, tags_api_run, false, 200, 60, "a task belongs to a scheduler which is not the first one",
             {"calls", "refused", "not_first_scheduler", "wakes"}, none, 2000000000, 2000000000, 60, 600},
            CONC("P16", "tags", tags_run, "a task belongs to a scheduler which is not the first one",
                 "tasks", "refused", "not_first_scheduler", "activations", "pre_dependencies", "post_dependencies", "waits",
                 "rest_states", "nested", "own_queue"),
            CONC("P18", "spread", spread_run, "two tasks or more have to run at the same time",
                 "workers", "above_32_workers", "above_64_workers", "short_tasks", "submitted", "made_ready", "rounds"),
            CONC("P08", "narrow_race", narrow_race_run, "a task was behind an access which is given up and not held back otherwise",
                 "tasks", "updates", "released", "held", "nested"),
            CONC("P19", "steady", steady_run, "two tasks or more per repetition",
                 "tasks", "repetitions", "chunks", "workers", "nested", "more_workers_than_units", "long_runs"),
            CONC("P20", "requests", mpi_run, "the library reports two requests or more at once",
                 "requests", "batches", "multiple", "out_of_order", "polls", "rest_states", "complete_at_once"),
        });
}
