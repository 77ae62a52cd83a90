// Configuration of the library under test, as a user program supplies it.
#pragma once
#ifdef VERIF_PROPS
#    include "../props_config.hpp"
#else

#include <redGrapes/scheduler/tag_match_property.hpp>
#include <redGrapes/task/property/label.hpp>

enum HarnessTags
{
    TAG_A,
    TAG_B,
    TAG_C,
    TAG_D,
};

#define REDGRAPES_TASK_PROPERTIES redGrapes::LabelProperty, redGrapes::scheduler::SchedulingTagProperties<HarnessTags>

#ifndef REDGRAPES_ALLOC_CHUNKSIZE
#    define REDGRAPES_ALLOC_CHUNKSIZE (64 * 1024)
#endif

// how long a waiting thread spins before it sleeps: short, so that both paths are exercised
#ifndef REDGRAPES_CONDVAR_TIMEOUT
#    define REDGRAPES_CONDVAR_TIMEOUT 3
#endif

template<>
struct fmt::formatter<HarnessTags>
{
    constexpr auto parse(format_parse_context& ctx)
    {
        return ctx.begin();
    }

    template<typename FormatContext>
    auto format(HarnessTags const& tag, FormatContext& ctx)
    {
        return fmt::format_to(ctx.out(), "{}", (int) tag);
    }
};
#endif
