// Harnesses of single components.
#pragma once
#include "../engine/pbt.hpp"

#include <cstdint>

namespace units
{
    uint64_t tick(); // logical clock of the harness, no scheduling point

    void access_run(pbt::Gen&);
    void resacc_run(pbt::Gen&);
    void guards_run(pbt::Gen&);
    void guards_warm();
    void list_run(pbt::Gen&);
    void chunks_run(pbt::Gen&);
    void alloc_run(pbt::Gen&);
    void allocapi_run(pbt::Gen&);
    void bits_warm();
    void bits_run(pbt::Gen&);
    void claim_run(pbt::Gen&);
    void cv_run(pbt::Gen&);
    void queue_run(pbt::Gen&);
    void gpu_run(pbt::Gen&);
} // namespace units
