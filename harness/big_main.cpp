#include "big.hpp"

int main(int argc, char** argv)
{
    return pbt::main(argc, argv,
        {{"P23", "counts", big::warm, big::big_run, false, 1, 300, "255 or more of what is counted",
          {"predecessors", "successors", "children", "events", "accesses", "resources", "levels", "waits", "futures", "chain",
           "updates", "255_or_more", "32767_or_more", "65535_or_more"},
          {"threads run freely: interleavings are those which the machine happens to produce"},
          2000000000, 2000000000, 60, 600}});
}
