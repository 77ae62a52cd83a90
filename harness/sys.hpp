// Harnesses of the runtime as a whole, apart from the task programs.
#pragma once
#include "../engine/pbt.hpp"

#include <cstdint>

namespace sys
{
    void warm();
    void tags_api_run(pbt::Gen&);
    void tags_run(pbt::Gen&);
    void spread_run(pbt::Gen&);
    void narrow_race_run(pbt::Gen&);
    void steady_run(pbt::Gen&);
    void mpi_run(pbt::Gen&);
    void props_warm();
    void props_run(pbt::Gen&);
} // namespace sys
