// Tracked memory: operator new/delete and (optionally) memory::Allocator blocks live in a never reused arena with a
// shadow map, so every instrumented access to released memory is reported.  hwloc's allocation functions are
// replaced by accounted mmap calls.  Compiled WITHOUT instrumentation.
#include "vsched.hpp"

#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <execinfo.h>
#include <sys/types.h>
#include <unistd.h>

namespace arena
{
    bool track_blocks;

    namespace
    {
        constexpr size_t SIZE = 4ull << 30;
        char* base;
        unsigned char* shadow; // one byte per 8 bytes: 0 never handed out, 1 live, 2 released
        std::atomic<size_t> pos{0};
        std::atomic<size_t> nblk{0}, nblk_bytes{0}, nnew{0}, nnew_bytes{0};

        struct Hdr
        {
            uint64_t magic;
            uint64_t size;
        };
        constexpr uint64_t MAGIC = 0xA11CA7EDull;

        struct Chunk
        {
            char* p;
            size_t n;
        };
        Chunk chunks[200000];
        size_t nchunks, chunk_total;
    } // namespace

    void init()
    {
        if(base)
            return;
        base = (char*) mmap(
            nullptr,
            SIZE,
            PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
            -1,
            0);
        shadow = (unsigned char*) mmap(
            nullptr,
            SIZE / 8,
            PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
            -1,
            0);
        if(base == MAP_FAILED || shadow == MAP_FAILED)
        {
            fprintf(stderr, "arena: mmap failed\n");
            _exit(3);
        }
    }

    static inline bool inside(void const* p)
    {
        return (uintptr_t) p - (uintptr_t) base < SIZE;
    }

    void* alloc(size_t n, size_t align)
    {
        if(!base)
            init();
        if(align < 16)
            align = 16;
        size_t need = n + sizeof(Hdr) + align + 16;
        need = (need + 15) & ~size_t(15);
        size_t o = pos.fetch_add(need);
        if(o + need > SIZE)
            return nullptr;
        uintptr_t a = (uintptr_t) base + o + sizeof(Hdr);
        a = (a + align - 1) & ~(uintptr_t) (align - 1);
        Hdr* h = (Hdr*) (a - sizeof(Hdr));
        h->magic = MAGIC;
        h->size = n;
        size_t s = (a - (uintptr_t) base) / 8;
        memset(shadow + s, 1, (n + 7) / 8);
        return (void*) a;
    }

    void free(void* p)
    {
        if(!p)
            return;
        Hdr* h = (Hdr*) ((uintptr_t) p - sizeof(Hdr));
        size_t s = ((uintptr_t) p - (uintptr_t) base) / 8;
        if(h->magic != MAGIC || shadow[s] == 0)
            vs::fail(vs::O_UAF, "bad-free", "release of %p which is no start of an allocated block", p);
        if(shadow[s] == 2)
            vs::fail(vs::O_UAF, "double-free", "block %p released twice", p);
        memset(shadow + s, 2, (h->size + 7) / 8);
    }

    static size_t size_of(void* p)
    {
        return ((Hdr*) ((uintptr_t) p - sizeof(Hdr)))->size;
    }

    void check(void const* p, size_t n, bool write, void* pc)
    {
        if(!inside(p) || n == 0)
            return;
        size_t s = ((uintptr_t) p - (uintptr_t) base) / 8;
        size_t e = ((uintptr_t) p + n - 1 - (uintptr_t) base) / 8;
        for(; s <= e; ++s)
            if(shadow[s] != 1)
                vs::fail(
                    vs::O_UAF,
                    shadow[s] == 2 ? "use-after-free" : "out-of-bounds",
                    "%s of %zu bytes at %p (%s memory) pc=%p",
                    write ? "write" : "read",
                    n,
                    p,
                    shadow[s] == 2 ? "released" : "unallocated",
                    pc);
    }

    // where the blocks which are still alive were allocated (VERIF_DEBUG)
    struct Site
    {
        void* p;
        size_t n;
        void* bt[14];
    };
    static Site sites[100000];
    static std::atomic<size_t> nsites{0};
    static bool const debug = getenv("VERIF_DEBUG");

    void dump_blocks()
    {
        for(size_t i = 0; i < nsites && i < 100000; ++i)
            if(shadow[((uintptr_t) sites[i].p - (uintptr_t) base) / 8] == 1)
            {
                fprintf(stderr, "live block %p of %zu bytes:\n", sites[i].p, sites[i].n);
                backtrace_symbols_fd(sites[i].bt, 14, 2);
            }
    }

    size_t live_blocks()
    {
        return nblk;
    }
    size_t live_block_bytes()
    {
        return nblk_bytes;
    }
    size_t chunk_bytes()
    {
        return chunk_total;
    }
    size_t chunk_count()
    {
        return nchunks;
    }
    size_t new_live()
    {
        return nnew;
    }
    size_t new_live_bytes()
    {
        return nnew_bytes;
    }
} // namespace arena

void* operator new(size_t n)
{
    void* p = arena::alloc(n, 16);
    if(!p)
        throw std::bad_alloc();
    arena::nnew++;
    arena::nnew_bytes += n;
    return p;
}
void* operator new[](size_t n)
{
    return operator new(n);
}
void* operator new(size_t n, std::align_val_t a)
{
    void* p = arena::alloc(n, (size_t) a);
    if(!p)
        throw std::bad_alloc();
    arena::nnew++;
    arena::nnew_bytes += n;
    return p;
}
void* operator new[](size_t n, std::align_val_t a)
{
    return operator new(n, a);
}
void* operator new(size_t n, std::nothrow_t const&) noexcept
{
    void* p = arena::alloc(n, 16);
    if(p)
    {
        arena::nnew++;
        arena::nnew_bytes += n;
    }
    return p;
}
void operator delete(void* p) noexcept
{
    if(!p)
        return;
    if(!arena::inside(p))
    {
        ::free(p);
        return;
    }
    arena::nnew--;
    arena::nnew_bytes -= arena::size_of(p);
    arena::free(p);
}
void operator delete[](void* p) noexcept
{
    operator delete(p);
}
void operator delete(void* p, size_t) noexcept
{
    operator delete(p);
}
void operator delete[](void* p, size_t) noexcept
{
    operator delete(p);
}
void operator delete(void* p, std::align_val_t) noexcept
{
    operator delete(p);
}
void operator delete[](void* p, std::align_val_t) noexcept
{
    operator delete(p);
}
void operator delete(void* p, size_t, std::align_val_t) noexcept
{
    operator delete(p);
}
void operator delete(void* p, std::nothrow_t const&) noexcept
{
    operator delete(p);
}

/* memory::Allocator, linked with -Wl,--wrap */
namespace
{
    struct Block
    {
        uintptr_t ptr;
        size_t len;
    };
} // namespace

extern "C"
{
    Block __real__ZN9redGrapes6memory9Allocator8allocateEm(void* self, size_t n) __attribute__((weak));
    void __real__ZN9redGrapes6memory9Allocator10deallocateENS0_5BlockE(void* self, Block b) __attribute__((weak));

    Block __wrap__ZN9redGrapes6memory9Allocator8allocateEm(void* self, size_t n)
    {
        if(!arena::track_blocks)
            return __real__ZN9redGrapes6memory9Allocator8allocateEm(self, n);
        void* p = arena::alloc(n, 64);
        if(p)
        {
            arena::nblk++;
            arena::nblk_bytes += n;
            if(arena::debug)
            {
                size_t i = arena::nsites++;
                if(i < 100000)
                {
                    arena::sites[i] = {p, n, {}};
                    backtrace(arena::sites[i].bt, 14);
                }
            }
        }
        return Block{(uintptr_t) p, n};
    }

    void __wrap__ZN9redGrapes6memory9Allocator10deallocateENS0_5BlockE(void* self, Block b)
    {
        if(!arena::inside((void*) b.ptr))
        {
            __real__ZN9redGrapes6memory9Allocator10deallocateENS0_5BlockE(self, b);
            return;
        }
        arena::nblk--;
        arena::nblk_bytes -= arena::size_of((void*) b.ptr);
        arena::free((void*) b.ptr);
    }

    /* hwloc: no binding, accounted mappings */
    int hwloc_set_cpubind(void*, void*, int)
    {
        return 0;
    }
    int hwloc_set_membind(void*, void*, int, int)
    {
        return 0;
    }
    void* hwloc_alloc_membind(void*, size_t len, void*, int, int)
    {
        size_t n = (len + 4095) & ~size_t(4095);
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(p == MAP_FAILED)
            return nullptr;
        if(arena::nchunks < sizeof(arena::chunks) / sizeof(arena::chunks[0]))
            arena::chunks[arena::nchunks++] = {(char*) p, n};
        arena::chunk_total += n;
        return p;
    }
    int hwloc_free(void*, void* p, size_t len)
    {
        size_t n = (len + 4095) & ~size_t(4095);
        for(size_t i = arena::nchunks; i-- > 0;)
            if(arena::chunks[i].p == p)
            {
                // releases exactly the pages the caller names, like the real function
                size_t m = n < arena::chunks[i].n ? n : arena::chunks[i].n;
                arena::chunk_total -= m;
                madvise(p, m, MADV_DONTNEED);
                mprotect(p, m, PROT_NONE); // never reused: a late access faults
                if(m == arena::chunks[i].n)
                    arena::chunks[i] = arena::chunks[--arena::nchunks];
                else
                {
                    arena::chunks[i].p += m;
                    arena::chunks[i].n -= m;
                }
                return 0;
            }
        vs::fail(vs::O_UAF, "bad-free", "hwloc_free(%p, %zu): not a live mapping", p, len);
    }
}
