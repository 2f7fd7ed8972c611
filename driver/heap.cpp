/*
 * Counts what is allocated and hasn't been freed, by anything in the program.
 */
#include <atomic>
#include <cerrno>
#include <cstddef>
#include <cstdlib>
#include <malloc.h>

static std::atomic<long> blocks(0), bytes(0);

extern "C" {
    void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t);
    void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);

    static void *took(void *p) { if (p) { blocks++; bytes += malloc_usable_size(p); } return p; }
    static void gave(void *p) { if (p) { blocks--; bytes -= malloc_usable_size(p); } }

    void *malloc(size_t n) { return took(__libc_malloc(n)); }
    void *calloc(size_t n, size_t m) { return took(__libc_calloc(n, m)); }
    void free(void *p) { gave(p); __libc_free(p); }
    void *realloc(void *p, size_t n)
    {
        long had = p ? (long)malloc_usable_size(p) : 0;
        void *q = __libc_realloc(p, n);
        if (q || n == 0) { if (p) { blocks--; bytes -= had; } }
        return took(q);
    }
    void *memalign(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
    void *aligned_alloc(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
    int posix_memalign(void **p, size_t a, size_t n) { *p = took(__libc_memalign(a, n)); return *p ? 0 : ENOMEM; }

    long heap_blocks(void) { return blocks; }
    long heap_bytes(void) { return bytes; }
}
