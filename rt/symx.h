// Harness API. Under the engine these are builtins; natively (replay) they are implemented in native_rt.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint8_t symx_u8(const char* name);
uint16_t symx_u16(const char* name);
uint32_t symx_u32(const char* name);
uint64_t symx_u64(const char* name);
bool symx_bool(const char* name);
/// value in [lo, hi]
uint64_t symx_range(const char* name, uint64_t lo, uint64_t hi);
void symx_bytes(void* p, uint64_t n, const char* name);
void symx_assume(bool c);
void symx_assert(bool c, const char* msg);
/// vacuity witness: the driver demands that every listed label is reached on a feasible path
void symx_reach(const char* label);
/// states reaching the same merge point with the same control state are joined (ITE)
void symx_merge(uint64_t tag);
/// like symx_merge, but only identical states are joined (their path conditions are or-ed)
void symx_join(uint64_t tag);
/// from here on a fatal termination of the code under test is the expected outcome
void symx_expect_fatal(const char* label);
void symx_no_fatal(void);
void symx_shared(const void* p, uint64_t n);
void symx_unshare(void);
void symx_race(const void* p, uint64_t n);
int symx_spawn(void (*fn)(void*), void* arg, int flags); // flags bit 0: may crash at any shared access
void symx_run(void);
void symx_yield(void);
uint64_t symx_concrete(uint64_t v);
void symx_note(const char* name, uint64_t v);
bool symx_native(void);
bool symx_crashed(int tid);
int symx_tid(void);
void symx_atomic_begin(void);
void symx_atomic_end(void);
void symx_allow_deadlock(void);
void symx_poison(const void* p, uint64_t n);
void symx_unpoison(const void* p, uint64_t n);
[[noreturn]] void symx_exit(void);
void symx_main(void);
}
#define CHECK(c, msg) symx_assert((c), (msg))
