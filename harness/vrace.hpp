// Happens-before check of memory accesses, for vsched.cpp: the sources of the repository (and the harness, not this
// file) are compiled with -fsanitize=thread and linked with the functions below instead of the sanitizer's library.
// Two accesses of one byte by different threads, at least one of them a write, that no synchronisation orders are a
// race (except of single bytes: a flag is written in one step, what comes of it is decided by the recorded history): the access is not a step the others see happen at once, whatever the schedule that was run made of it.
#include <sys/mman.h>
#include <link.h>
void (*vs_on_race)(const char*) = 0;
namespace {
typedef unsigned u32; typedef unsigned char u8; typedef unsigned long long u64;
enum { TH = 64, CELLS = 6, SLOTS = 1 << 20, DEEP = 5 };
struct Vc { u32 c[TH]; };
struct Cell { u32 pc[DEEP]; u32 clk; u8 tid, mask, w, used; };
struct Slot { u64 key; Cell c[CELLS]; };
Slot* shadow = 0; Vc* vcs = 0; unsigned long base_ = 0;
thread_local int quiet_ = 0;
struct Quiet { Quiet() { ++quiet_; } ~Quiet() { --quiet_; } };
enum { STACK = 512 };
struct Stk { int n; void* pc[STACK]; };
Stk* stks = 0;
struct Sync { void* key; Vc vc; Sync* next; };
Sync** syncs = 0;
void* pages(size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? 0 : p; }
u8* arena = 0; size_t arena_n = 0;
void race_start() {
    shadow = (Slot*)pages(sizeof(Slot) * (size_t)SLOTS); vcs = (Vc*)pages(sizeof(Vc) * TH); stks = (Stk*)pages(sizeof(Stk) * TH); syncs = (Sync**)pages(sizeof(Sync*) * 65536); arena = (u8*)pages(arena_n = 256u << 20);
    Dl_info i; if (dladdr((void*)race_start, &i)) base_ = (unsigned long)i.dli_fbase;
    for (int t = 0; t < TH; ++t) vcs[t].c[t] = 1;
}
Sync* sync_of(void* k, bool make) {
    unsigned h = (unsigned)(((u64)k >> 3) * 2654435761u) & 65535;
    for (Sync* s = syncs[h]; s; s = s->next) if (s->key == k) return s;
    if (!make || arena_n < sizeof(Sync)) return 0;
    Sync* s = (Sync*)arena; arena += sizeof(Sync); arena_n -= sizeof(Sync); s->key = k; s->next = syncs[h]; syncs[h] = s; return s;
}
bool watching() { return shadow && on && self_ >= 0 && self_ < TH; }
void join(Vc& a, const Vc& b) { for (int i = 0; i < TH; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void acquire(void* k) { if (!watching()) return; Sync* s = sync_of(k, false); if (s) join(vcs[self_], s->vc); }
void release(void* k) { if (!watching()) return; Sync* s = sync_of(k, true); if (s) { join(s->vc, vcs[self_]); ++vcs[self_].c[self_]; } }
void race_create(int child) { if (!watching() || child >= TH) return; u32 own = vcs[child].c[child]; join(vcs[child], vcs[self_]); vcs[child].c[child] = own > vcs[child].c[child] ? own : vcs[child].c[child]; ++vcs[self_].c[self_]; }
void race_join(int t) { if (watching() && t < TH) join(vcs[self_], vcs[t]); }
Slot* slot(u64 g, bool make) {
    for (u32 i = 0; i < 64; ++i) { Slot& s = shadow[(g + i * 7) & (SLOTS - 1)]; if (s.key == g + 1) return &s; if (!s.key) { if (!make) return 0; s.key = g + 1; return &s; } }
    return 0;
}
void report(const Cell& a, const Cell& b) {
    char t[400]; int n = snprintf(t, sizeof t, "%s", a.w ? "W" : "R");
    for (int k = 0; k < DEEP; ++k) n += snprintf(t + n, sizeof t - n, ",%x", a.pc[k]);
    n += snprintf(t + n, sizeof t - n, " %s", b.w ? "W" : "R");
    for (int k = 0; k < DEEP; ++k) n += snprintf(t + n, sizeof t - n, ",%x", b.pc[k]);
    if (vs_on_race) { Quiet q; vs_on_race(t); }
}
void touch(unsigned long a, unsigned n, bool w, void* pc) {
    if (!watching() || quiet_ || n == 1) return;
    Vc& me = vcs[self_];
    while (n) {
        u64 g = a >> 3; unsigned off = a & 7, k = 8 - off < n ? 8 - off : n; u8 mask = (u8)(((1u << k) - 1) << off);
        Slot* s = slot(g, true);
        if (s) {
            Cell* best = 0;
            for (int i = 0; i < CELLS; ++i) {
                Cell& c = s->c[i];
                if (!c.used) { if (!best) best = &c; continue; }
                if (c.tid == self_) { if ((c.mask & ~mask) == 0 && (w || !c.w)) { if (!best || best->used) best = &c; } continue; }
                if ((c.mask & mask) && (w || c.w) && c.clk > me.c[c.tid]) {
                    Cell b; memset(&b, 0, sizeof b); b.w = w; b.pc[0] = (u32)((unsigned long)pc - base_); Stk& st = stks[self_];
                    for (int j = 1; j < DEEP; ++j) b.pc[j] = st.n - j >= 0 && st.n - j < STACK ? (u32)((unsigned long)st.pc[st.n - j] - base_) : 0;
                    c.clk = 0; report(c, b);
                }
                if ((c.mask & ~mask) == 0 && w && c.clk <= me.c[c.tid]) c.used = 0, best = best ? best : &c;
            }
            if (!best) { best = &s->c[0]; for (int i = 1; i < CELLS; ++i) if (s->c[i].clk < best->clk) best = &s->c[i]; }
            best->used = 1; best->tid = self_; best->mask = mask; best->w = w; best->clk = me.c[self_]; best->pc[0] = (u32)((unsigned long)pc - base_); Stk& st = stks[self_];
            for (int j = 1; j < DEEP; ++j) best->pc[j] = st.n - j >= 0 && st.n - j < STACK ? (u32)((unsigned long)st.pc[st.n - j] - base_) : 0;
        }
        a += k; n -= k;
    }
}
void forget(unsigned long a, size_t n) {
    if (!shadow || !on) return;
    if (n > (8u << 20)) n = 8u << 20;
    for (u64 g = a >> 3; g <= (a + n - 1) >> 3 && n; ++g) { Slot* s = slot(g, false); if (s) memset(s->c, 0, sizeof s->c); }
}
void race_barrier() { if (watching()) for (int i = 0; i < TH; ++i) join(vcs[self_], vcs[i]); }
void race_stack() {                     // the stack of a new thread is new memory
    pthread_attr_t at; void* p; size_t n;
    if (!watching() || pthread_getattr_np(pthread_self(), &at)) return;
    if (!pthread_attr_getstack(&at, &p, &n)) { unsigned long hi = (unsigned long)p + n, lo = hi - (n < (256u << 10) ? n : (256u << 10)); forget(lo, hi - lo); }
    pthread_attr_destroy(&at);
}
} // namespace
VsQuiet::VsQuiet() { ++quiet_; }
VsQuiet::~VsQuiet() { --quiet_; }
#define PC __builtin_return_address(0)
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); size_t malloc_usable_size(void*);
void* malloc(size_t n) { return __libc_malloc(n); }
void* calloc(size_t n, size_t m) { return __libc_calloc(n, m); }
void free(void* p) { if (p && shadow) forget((unsigned long)p, malloc_usable_size(p)); __libc_free(p); }
void* realloc(void* p, size_t n) { if (p && shadow) forget((unsigned long)p, malloc_usable_size(p)); return __libc_realloc(p, n); }
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (watching()) { Stk& s = stks[self_]; if (s.n >= 0 && s.n < STACK) s.pc[s.n] = pc; ++s.n; } }
void __tsan_func_exit() { if (watching()) { Stk& s = stks[self_]; if (s.n > 0) --s.n; } }
#define RW(N) void __tsan_read##N(void* a) { touch((unsigned long)a, N, false, PC); } void __tsan_write##N(void* a) { touch((unsigned long)a, N, true, PC); } \
    void __tsan_volatile_read##N(void* a) { touch((unsigned long)a, N, false, PC); } void __tsan_volatile_write##N(void* a) { touch((unsigned long)a, N, true, PC); } \
    void __tsan_unaligned_read##N(void* a) { touch((unsigned long)a, N, false, PC); } void __tsan_unaligned_write##N(void* a) { touch((unsigned long)a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { touch((unsigned long)a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { touch((unsigned long)a, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) touch((unsigned long)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { touch((unsigned long)p, 8, false, PC); }
// atomic operations order what comes before them and what comes after them
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* a, int) { acquire((void*)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##B##_store(volatile T* a, T v, int) { release((void*)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { acquire((void*)a); release((void*)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { acquire((void*)a); release((void*)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { acquire((void*)a); release((void*)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { acquire((void*)a); release((void*)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { acquire((void*)a); release((void*)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { acquire((void*)a); release((void*)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { acquire((void*)a); release((void*)a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { acquire((void*)a); release((void*)a); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { acquire((void*)a); release((void*)a); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int, int) { acquire((void*)a); release((void*)a); __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, u8) AT(16, unsigned short) AT(32, u32) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
static int (*guard_a)(long long*) = 0; static void (*guard_r)(long long*) = 0;
int __cxa_guard_acquire(long long* g) { if (!guard_a) guard_a = (int (*)(long long*))dlsym(RTLD_NEXT, "__cxa_guard_acquire"); acquire(g); return guard_a(g); }
void __cxa_guard_release(long long* g) { if (!guard_r) guard_r = (void (*)(long long*))dlsym(RTLD_NEXT, "__cxa_guard_release"); release(g); guard_r(g); }
int epoll_ctl(int fd, int op, int f, epoll_event* e) { release((void*)(0x100000L + fd)); return syscall(SYS_epoll_ctl, fd, op, f, e); }
// boost::call_once: what it needs is in a library that is not compiled with this
#define ENTER "_ZN5boost13thread_detail17enter_once_regionERNS_9once_flagE"
#define COMMIT "_ZN5boost13thread_detail18commit_once_regionERNS_9once_flagE"
bool vs_enter_once(void* f) __asm__(ENTER); void vs_commit_once(void* f) __asm__(COMMIT);
bool vs_enter_once(void* f) { static bool (*real)(void*) = 0; if (!real) real = (bool (*)(void*))dlsym(RTLD_NEXT, ENTER); bool r = real(f); acquire(f); return r; }
void vs_commit_once(void* f) { static void (*real)(void*) = 0; if (!real) real = (void (*)(void*))dlsym(RTLD_NEXT, COMMIT); release(f); real(f); }
// the parts of containers that are in the C++ library: changing a tree or a list changes its head
#define REALLY(T, N, ARGS) static T (*real) ARGS = 0; if (!real) real = (T (*) ARGS)dlsym(RTLD_NEXT, N)
#define TREE_ADD "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"
#define TREE_DEL "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"
void vs_tree_add(bool l, void* x, void* p, void* h) __asm__(TREE_ADD); void* vs_tree_del(void* x, void* h) __asm__(TREE_DEL);
void vs_tree_add(bool l, void* x, void* p, void* h) { REALLY(void, TREE_ADD, (bool, void*, void*, void*)); touch((unsigned long)h + 8, 8, true, PC); real(l, x, p, h); }
void* vs_tree_del(void* x, void* h) { REALLY(void*, TREE_DEL, (void*, void*)); touch((unsigned long)h + 8, 8, true, PC); return real(x, h); }
#define LIST_ADD "_ZNSt8__detail15_List_node_base7_M_hookEPS0_"
#define LIST_DEL "_ZNSt8__detail15_List_node_base9_M_unhookEv"
void vs_list_add(void* x, void* p) __asm__(LIST_ADD); void vs_list_del(void* x) __asm__(LIST_DEL);
void vs_list_add(void* x, void* p) { REALLY(void, LIST_ADD, (void*, void*)); touch((unsigned long)p, 16, true, PC); real(x, p); }
void vs_list_del(void* x) { REALLY(void, LIST_DEL, (void*)); touch((unsigned long)x, 16, true, PC); real(x); }
}
