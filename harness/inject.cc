// Allocation faults: malloc and friends interposed for the release driver (the library's calls bind to the executable's).
#include <cstddef>
#include <cstdlib>
#include <cerrno>
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*);
}
struct Inject { bool on; long count, fail_at; bool sticky; long live, failed; };
__thread Inject g_inject = {false, 0, 0, false, 0, 0};
Inject* inject_state() { return &g_inject; }
static inline bool fails() {
    Inject& g = g_inject; if (!g.on) return false; ++g.count;
    if (g.fail_at && (g.sticky ? g.count >= g.fail_at : g.count == g.fail_at)) { ++g.failed; return true; }
    return false;
}
extern "C" {
void* malloc(size_t n) { if (fails()) { errno = ENOMEM; return nullptr; } void* p = __libc_malloc(n); if (g_inject.on && p) ++g_inject.live; return p; }
void* calloc(size_t a, size_t b) { if (fails()) { errno = ENOMEM; return nullptr; } void* p = __libc_calloc(a, b); if (g_inject.on && p) ++g_inject.live; return p; }
void* realloc(void* q, size_t n) { if (fails()) { errno = ENOMEM; return nullptr; } void* p = __libc_realloc(q, n); if (g_inject.on && p && !q) ++g_inject.live; return p; }
void free(void* p) { if (p && g_inject.on) --g_inject.live; __libc_free(p); }
}
