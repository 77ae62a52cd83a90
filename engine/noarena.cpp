// Stand-in for arena.cpp where threads run freely: memory is not tracked.
#include "vsched.hpp"

#include <cstdlib>

namespace arena
{
    bool track_blocks;
    void init()
    {
    }
    void* alloc(size_t n, size_t)
    {
        return malloc(n);
    }
    void free(void* p)
    {
        ::free(p);
    }
    void check(void const*, size_t, bool, void*)
    {
    }
} // namespace arena

extern "C"
{
    int hwloc_set_cpubind(void*, void*, int)
    {
        return 0;
    }
    int hwloc_set_membind(void*, void*, int, int)
    {
        return 0;
    }
}
