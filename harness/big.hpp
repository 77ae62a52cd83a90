#pragma once
#include "../engine/pbt.hpp"

namespace big
{
    void warm();
    void big_run(pbt::Gen&);
} // namespace big
