#include "sys.hpp"

int main(int argc, char** argv)
{
    return pbt::main(argc, argv,
        {{"P26", "properties", sys::props_warm, sys::props_run, true, 1, 120,
          "two tasks or more get properties from their arguments",
          {"tasks", "nested", "interleaved_builders", "moved_builders", "properties_by_argument", "updates", "refused_updates",
           "pauses", "parents_examined", "builders_handed_over"},
          {"sequentially consistent interleavings only: reorderings of relaxed atomics by the hardware are not simulated"},
          2000000000, 2000000000, 60, 600}});
}
