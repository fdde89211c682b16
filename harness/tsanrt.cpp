#include "tsanrt.h"
#include <atomic>
#include <fcntl.h>
#include <mutex>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <unistd.h>

void (*vh_access)(int, const void*, size_t) = nullptr;
size_t (*vh_split)(size_t) = nullptr;
uint64_t vh_access_count = 0;

// Shared mappings: one byte per 4 KiB page, in tables of 1 GiB each.
static uint8_t* g_l1[1 << 17];
static std::mutex g_mx;

static void reg_set(void* p, size_t n, uint8_t v)
{
    std::lock_guard<std::mutex> l(g_mx);
    uintptr_t a = (uintptr_t)p >> 12, e = ((uintptr_t)p + n + 4095) >> 12;
    for (; a < e; a++) {
        uint8_t*& t = g_l1[(a >> 18) & 0x1ffff];
        if (!t) {
            if (!v) continue;
            t = (uint8_t*)mmap(nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        }
        t[a & 0x3ffff] = v;
    }
}
static inline bool is_shared(const void* p)
{
    uintptr_t a = (uintptr_t)p >> 12;
    const uint8_t* t = g_l1[(a >> 18) & 0x1ffff];
    return t && t[a & 0x3ffff];
}
bool vh_is_shared(const void* p) { return is_shared(p); }
static inline void acc(int kind, const void* p, size_t n)
{
    if (!vh_access || !is_shared(p)) return;
    vh_access_count++;
    vh_access(kind, p, n);
}

extern "C" {
#define RW(n) \
    void __tsan_read##n(void* p) { acc(VH_READ, p, n); } \
    void __tsan_write##n(void* p) { acc(VH_WRITE, p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(n) \
    void __tsan_unaligned_read##n(void* p) { acc(VH_READ, p, n); } \
    void __tsan_unaligned_write##n(void* p) { acc(VH_WRITE, p, n); }
URW(2) URW(4) URW(8) URW(16)
#define VRW(n) \
    void __tsan_volatile_read##n(void* p) { acc(VH_READ, p, n); } \
    void __tsan_volatile_write##n(void* p) { acc(VH_WRITE, p, n); }
VRW(1) VRW(2) VRW(4) VRW(8) VRW(16)
void __tsan_read_range(void* p, size_t n) { acc(VH_READ, p, n); }
void __tsan_write_range(void* p, size_t n) { acc(VH_WRITE, p, n); }
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit(void*) { }
void __tsan_vptr_update(void**, void*) { }
void __tsan_vptr_read(void**) { }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) { }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { acc(VH_ATOMIC_LOAD, (const void*)a, sizeof(T)); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { acc(VH_ATOMIC_STORE, (const void*)a, sizeof(T)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { acc(VH_ATOMIC_STORE, (const void*)a, sizeof(T)); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { acc(VH_ATOMIC_STORE, (const void*)a, sizeof(T)); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { acc(VH_ATOMIC_STORE, (const void*)a, sizeof(T)); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { acc(VH_ATOMIC_STORE, (const void*)a, sizeof(T)); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { acc(VH_ATOMIC_STORE, (const void*)a, sizeof(T)); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { acc(VH_ATOMIC_STORE, (const void*)a, sizeof(T)); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { acc(VH_ATOMIC_STORE, (const void*)a, sizeof(T)); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { acc(VH_ATOMIC_STORE, (const void*)a, sizeof(T)); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) { acc(VH_ATOMIC_STORE, (const void*)a, sizeof(T)); __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ---- link-time wrappers (only references from the library objects are redirected)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);

void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (vh_access && n) {
        if (vh_is_shared(s)) { vh_access_count++; vh_access(VH_READ, s, n); }
        if (vh_is_shared(d)) {
            vh_access_count++;
            vh_access(VH_WRITE, d, n);
            size_t h = n > 1 && vh_split ? vh_split(n) : 0;
            if (h > 0 && h < n) {
                __real_memcpy(d, s, h);
                vh_access(VH_WRITE_MID, d, n);
                __real_memcpy((char*)d + h, (const char*)s + h, n - h);
                return d;
            }
        }
        // a reader may be stopped in the middle of a copy as well
        else if (vh_is_shared(s) && n > 1 && vh_split) {
            size_t h = vh_split(n);
            if (h > 0 && h < n) {
                __real_memcpy(d, s, h);
                vh_access(VH_READ, (const char*)s + h, n - h);
                __real_memcpy((char*)d + h, (const char*)s + h, n - h);
                return d;
            }
        }
    }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (vh_access && n) { if (vh_is_shared(s)) vh_access(VH_READ, s, n); if (vh_is_shared(d)) vh_access(VH_WRITE, d, n); }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (vh_access && n && vh_is_shared(d)) vh_access(VH_WRITE, d, n);
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
    if (vh_access && n) { if (vh_is_shared(a)) vh_access(VH_READ, a, n); else if (vh_is_shared(b)) vh_access(VH_READ, b, n); }
    return __real_memcmp(a, b, n);
}
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o)
{
    void* p = __real_mmap(a, n, pr, fl, fd, o);
    if (p != MAP_FAILED && (fl & MAP_SHARED)) reg_set(p, n, 1);
    return p;
}
int __wrap_munmap(void* a, size_t n)
{
    reg_set(a, n, 0);
    return __real_munmap(a, n);
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o)
{
    if (vh_access) vh_access(VH_SYSCALL_R, (void*)(uintptr_t)o, n);
    return __real_pread(fd, b, n, o);
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o)
{
    if (vh_access) vh_access(VH_SYSCALL_W, (void*)(uintptr_t)o, n);
    return __real_pwrite(fd, b, n, o);
}
}
