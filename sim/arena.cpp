#include "arena.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
#include <cstdio>
#include <sys/mman.h>
#include <unistd.h>
namespace arena {
bool active = false;
long fail_at = 0;
unsigned long nalloc = 0, nfailed = 0, live_bytes = 0;
static char *base = nullptr, *cur = nullptr, *end_ = nullptr;
static const size_t SPAN = 1ull << 36;
struct FreeNode { FreeNode *next; };
static FreeNode *bins[4096];
void init(uint64_t offset) {
    base = (char *)mmap((void *)0x200000000000ull, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) { perror("arena"); _exit(2); }
    cur = base + 4096 + (offset & ~63ull);
    end_ = base + SPAN;
    memset(bins, 0, sizeof bins);
}
static inline size_t cls(size_t n) { return (n + 63) / 64; } // 64-byte classes (bins up to 256 KB)
static void *take(size_t n, size_t al) {
    nalloc++;
    if (fail_at > 0 && --fail_at == 0) { nfailed++; throw std::bad_alloc(); }
    if (n == 0) n = 1;
    size_t c = cls(n);
    live_bytes += c * 64;
    if (al <= 64 && c < 4096 && bins[c]) { FreeNode *f = bins[c]; bins[c] = f->next; return f; }
    // header in front holds the class (64 bytes, keeps 64-byte alignment)
    char *p = cur;
    if (al > 64) p = (char *)((((uintptr_t)p + 64 + al - 1) & ~(uintptr_t)(al - 1)) - 64);
    if (p + 64 + c * 64 > end_) { nfailed++; throw std::bad_alloc(); }
    *(size_t *)p = c;
    cur = p + 64 + c * 64;
    return p + 64;
}
static inline bool mine(void *p) { return base && p >= base && p < end_; }
static void give(void *p) {
    size_t c = *(size_t *)((char *)p - 64);
    live_bytes -= c * 64;
    if (c < 4096) { memset(p, 0xDB, c * 64); FreeNode *f = (FreeNode *)p; f->next = bins[c]; bins[c] = f; }
    else madvise((void *)(((uintptr_t)p + 4095) & ~4095ull), (c * 64) & ~4095ull ? ((c * 64 - 4096) & ~4095ull) : 0, MADV_DONTNEED);
}
} // namespace arena
namespace arena { bool (*only)(const void *) = nullptr; }
#define CALLER __builtin_return_address(0)
static void *anew(size_t n, size_t al, const void *ra) {
    if (arena::active && (!arena::only || arena::only(ra))) return arena::take(n, al);
    void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void adel(void *p) noexcept {
    if (!p) return;
    if (arena::mine(p)) arena::give(p);
    else free(p);
}
void *operator new(size_t n) { return anew(n, 16, CALLER); }
void *operator new[](size_t n) { return anew(n, 16, CALLER); }
void *operator new(size_t n, std::align_val_t a) { return anew(n, (size_t)a, CALLER); }
void *operator new[](size_t n, std::align_val_t a) { return anew(n, (size_t)a, CALLER); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return anew(n, 16, CALLER); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return anew(n, 16, CALLER); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { adel(p); }
void operator delete[](void *p) noexcept { adel(p); }
void operator delete(void *p, size_t) noexcept { adel(p); }
void operator delete[](void *p, size_t) noexcept { adel(p); }
void operator delete(void *p, std::align_val_t) noexcept { adel(p); }
void operator delete[](void *p, std::align_val_t) noexcept { adel(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { adel(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { adel(p); }
