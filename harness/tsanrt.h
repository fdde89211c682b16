// Access-level observation of the library: its objects are compiled with -fsanitize=thread and linked
// against this runtime instead of libtsan, so that every load, store, atomic and memcpy on a shared
// mapping (MAP_SHARED regions it creates) calls vh_access(). No source hooks are needed.
#pragma once
#include <cstddef>
#include <cstdint>
enum VhAccess { VH_READ = 1, VH_WRITE, VH_WRITE_MID, VH_ATOMIC_LOAD, VH_ATOMIC_STORE, VH_SYSCALL_W, VH_SYSCALL_R };
// Called before the access. addr is the address in the shared mapping (or the file offset for system calls).
extern void (*vh_access)(int kind, const void* addr, size_t size);
// If set, returns how many bytes of a copy into shared memory are written before VH_WRITE_MID is reported.
extern size_t (*vh_split)(size_t size);
bool vh_is_shared(const void* p);
extern uint64_t vh_access_count; // accesses to shared mappings seen
