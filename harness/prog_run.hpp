#pragma once
#include "prog_model.hpp"

namespace prog
{
    // which end-of-run conditions are checked in addition to the ordering oracles
    struct RunOpts
    {
        bool leaks = false; // every block and object is released in the end
        bool describe = false; // textual descriptions of tasks are compared with what was declared
    };

    void warm();
    // executes the program on the library and compares with the model; fails the case on any departure
    void execute(Program const& p, RunOpts const& o, vs::Config const& c, unsigned epoch, unsigned n_epochs);
    // live objects of the harness (tokens, elements)
    long live_tokens();
    long live_elems();
} // namespace prog
