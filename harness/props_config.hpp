// A task type composed of several properties which a user program brings along (P26).
#pragma once

#include <redGrapes/scheduler/tag_match_property.hpp>
#include <redGrapes/task/property/label.hpp>

#include <fmt/format.h>

#include <atomic>
#include <vector>

namespace props
{
    // an element which counts its lives
    struct Name
    {
        static std::atomic<int> live;
        int v;

        Name(int v) : v(v)
        {
            ++live;
        }

        Name(Name const& o) : v(o.v)
        {
            ++live;
        }

        Name& operator=(Name const&) = default;

        ~Name()
        {
            --live;
            v = -1;
        }
    };

    struct Weight
    {
        long weight = 0;
        unsigned weight_updates = 0;

        template<typename B>
        struct Builder
        {
            B& builder;

            Builder(B& b) : builder(b)
            {
            }

            B& add_weight(long w)
            {
                builder.task->weight += w;
                return builder;
            }
        };

        struct Patch
        {
            long weight_delta = 0;

            template<typename PB>
            struct Builder
            {
                PB& builder;

                Builder(PB& b) : builder(b)
                {
                }

                PB change_weight(long w)
                {
                    Patch& p = builder.patch;
                    p.weight_delta += w;
                    return builder;
                }
            };
        };

        void apply_patch(Patch const& p)
        {
            weight += p.weight_delta;
            ++weight_updates;
        }
    };

    struct Names
    {
        std::vector<Name> names;
        unsigned names_updates = 0;

        template<typename B>
        struct Builder
        {
            B& builder;

            Builder(B& b) : builder(b)
            {
            }

            B& add_name(int n)
            {
                builder.task->names.push_back(Name(n));
                return builder;
            }
        };

        struct Patch
        {
            std::vector<Name> more;

            template<typename PB>
            struct Builder
            {
                PB& builder;

                Builder(PB& b) : builder(b)
                {
                }

                PB another_name(int n)
                {
                    Patch& p = builder.patch;
                    p.more.push_back(Name(n));
                    return builder;
                }
            };
        };

        void apply_patch(Patch const& p)
        {
            for(auto& n : p.more)
                names.push_back(n);
            ++names_updates;
        }
    };

    struct Level
    {
        int level = -1;
        unsigned level_updates = 0;

        template<typename B>
        struct Builder
        {
            B& builder;

            Builder(B& b) : builder(b)
            {
            }

            B& set_level(int l)
            {
                builder.task->level = l;
                return builder;
            }
        };

        struct Patch
        {
            int to = -1;

            template<typename PB>
            struct Builder
            {
                PB& builder;

                Builder(PB& b) : builder(b)
                {
                }

                PB change_level(int l)
                {
                    Patch& p = builder.patch;
                    p.to = l;
                    return builder;
                }
            };
        };

        void apply_patch(Patch const& p)
        {
            if(p.to >= 0)
                level = p.to;
            ++level_updates;
        }
    };

    enum Tag
    {
        TAG_FIRST
    };
} // namespace props

template<>
struct fmt::formatter<props::Weight>
{
    constexpr auto parse(format_parse_context& ctx)
    {
        return ctx.begin();
    }

    template<typename C>
    auto format(props::Weight const& w, C& ctx) const
    {
        return fmt::format_to(ctx.out(), "\"weight\" : {}", w.weight);
    }
};

template<>
struct fmt::formatter<props::Names>
{
    constexpr auto parse(format_parse_context& ctx)
    {
        return ctx.begin();
    }

    template<typename C>
    auto format(props::Names const& w, C& ctx) const
    {
        return fmt::format_to(ctx.out(), "\"names\" : {}", w.names.size());
    }
};

template<>
struct fmt::formatter<props::Level>
{
    constexpr auto parse(format_parse_context& ctx)
    {
        return ctx.begin();
    }

    template<typename C>
    auto format(props::Level const& w, C& ctx) const
    {
        return fmt::format_to(ctx.out(), "\"level\" : {}", w.level);
    }
};

template<>
struct fmt::formatter<props::Tag>
{
    constexpr auto parse(format_parse_context& ctx)
    {
        return ctx.begin();
    }

    template<typename C>
    auto format(props::Tag const& t, C& ctx) const
    {
        return fmt::format_to(ctx.out(), "{}", (int) t);
    }
};

#define REDGRAPES_TASK_PROPERTIES                                                                                     \
    props::Weight, redGrapes::LabelProperty, props::Names, redGrapes::scheduler::SchedulingTagProperties<props::Tag>, \
        props::Level
#ifndef REDGRAPES_ALLOC_CHUNKSIZE
#    define REDGRAPES_ALLOC_CHUNKSIZE (64 * 1024)
#endif
#ifndef REDGRAPES_CONDVAR_TIMEOUT
#    define REDGRAPES_CONDVAR_TIMEOUT 3
#endif
