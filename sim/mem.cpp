// Memory held by the server: every allocation made by its own code (not by the harness, which runs
// at depth > 0) is entered in a table with its size, and leaves it when it is freed by anybody.
#include <sys/mman.h>

#include <new>

#include "world.h"

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

namespace sim {
MemUse MU;
int mem_off = 0;
namespace {
struct Slot {
    uintptr_t p;
    size_t n;
};
constexpr size_t NSLOT = 1u << 22;
Slot* tab;
size_t used;
inline size_t home(uintptr_t p) { return (size_t)(mix64(p) & (NSLOT - 1)); }
void too_much(size_t n) {
    MU.on = false;
    Harness h;
    violation("memory_unbounded", "the server holds %lld bytes of memory for %d open connections (asking for %zu more); the bound is %lld", (long long)MU.live, K.open_accepted, n,
              (long long)MU.bound());
    finish_run();
}
void on_malloc(const volatile void* p, size_t n) {
    if (!MU.on || !sim_thread || !K.active || K.depth || mem_off) return;
    if (!p || used > NSLOT / 2) return;
    size_t i = home((uintptr_t)p);
    while (tab[i].p > 1) i = (i + 1) & (NSLOT - 1);
    if (!tab[i].p) used++;
    tab[i] = {(uintptr_t)p, n};
    MU.live += (i64)n;
    if (MU.live > MU.peak) MU.peak = MU.live;
    if (MU.live > MU.bound()) too_much(n);
}
void on_free(const volatile void* p) {
    if (!tab || !MU.on || !sim_thread || !p) return;
    size_t i = home((uintptr_t)p);
    while (tab[i].p) {
        if (tab[i].p == (uintptr_t)p) {
            MU.live -= (i64)tab[i].n;
            tab[i].p = 1;
            return;
        }
        i = (i + 1) & (NSLOT - 1);
    }
}
}  // namespace
static i64 rest_peak = 0;
// what is held between two turns of the serving loop
void mem_at_rest() {
    if (!tab || !MU.on) return;
    i64 over = MU.live - MU.base - (i64)K.open_accepted * (256 * 1024 + 2 * MU.biggest);
    rest_peak = std::max(rest_peak, over);
    if (over > 1024 * 1024) {
        MU.on = false;
        violation("memory_unbounded", "between two events the server holds %lld bytes of memory for %d open connections", (long long)(MU.live - MU.base), K.open_accepted);
        finish_run();
    }
}
i64 MemUse::bound() const { return base + 24 * 1024 * 1024 + (i64)K.open_accepted * 512 * 1024 + 6 * biggest; }
void mem_setup() {
    if (!S->g.get("mem")) return;
    tab = (Slot*)mmap(nullptr, NSLOT * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (tab == MAP_FAILED) {
        tab = nullptr;
        return;
    }
    static bool hooked = false;
    if (!hooked) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    hooked = true;
    MU.on = true;
}
// No memory for one connection: allocations the server makes from a read, a write or the accept of a
// connection marked for it until it turns to something else may fail.
// Only what is big enough to be somebody's data: a server which cannot even get a map node has no way
// to go on. OpenSSL's own allocations are left alone: libcrypto 3.0 does not recover from all of them.
bool alloc_fails(size_t n) {
    static u64 count;
    Conn* c = K.busy_with;
    if (!c || !sim_thread || !K.active || K.depth || mem_off || n < 1024) return false;
    if (!(c->peer->victim() & 8) || !K.faulty()) return false;
    if (!K.roll((int)S->g.get("p_alloc"), 0xa110c, ++count)) return false;
    MemOff mo;
    fault(F_ALLOC);
    ev_hash("alloc", c->id, n);
    tracef("conn %d: an allocation of %zu bytes fails", c->id, n);
    return true;
}
// the server and everything it owned is gone
void mem_done() {
    if (!tab || !MU.on) return;
    MU.on = false;
    if (getenv("SIM_MEM")) fprintf(stderr, "memory: rest %lld, peak %lld, left %lld, %zu connections\n", (long long)rest_peak, (long long)MU.peak, (long long)MU.live, K.conns.size());
    if (MU.live > MU.base + 192 * 1024)
        violation("memory_kept", "the server has ended and still holds %lld bytes of memory, after %zu connections", (long long)MU.live, K.conns.size());
    if (getenv("SIM_MEM")) {
        std::map<size_t, int> h;
        for (size_t i = 0; i < NSLOT; i++)
            if (tab[i].p > 1) h[tab[i].n]++;
        for (auto& [n, k] : h) fprintf(stderr, "  %d of %zu\n", k, n);
    }
}
}  // namespace sim

extern "C" {
void* __real__Znwm(size_t);
void* __wrap__Znwm(size_t n) {
    if (sim::K.busy_with && sim::alloc_fails(n)) throw std::bad_alloc();
    return __real__Znwm(n);
}
}
