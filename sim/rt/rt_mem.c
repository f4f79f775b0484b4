/* memcpy & co. of the whole program: the ranges they touch are checked like ordinary accesses of the code under test. */
#include <stddef.h>
#include <stdint.h>
extern void sim_range(const void* p, size_t n, int write, const void* pc);
extern _Bool sim_active(void);
static inline void copy_fwd(char* d, const char* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static inline void copy_bwd(char* d, const char* s, size_t n) { d += n - 1; s += n - 1; __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void* memcpy(void* restrict d, const void* restrict s, size_t n)
{
    if (n && sim_active()) { sim_range(s, n, 0, __builtin_return_address(0)); sim_range(d, n, 1, __builtin_return_address(0)); }
    copy_fwd(d, s, n);
    return d;
}
void* memmove(void* d, const void* s, size_t n)
{
    if (!n) return d;
    if (sim_active()) { sim_range(s, n, 0, __builtin_return_address(0)); sim_range(d, n, 1, __builtin_return_address(0)); }
    if ((uintptr_t)d - (uintptr_t)s >= n) copy_fwd(d, s, n); else copy_bwd(d, s, n);
    return d;
}
void* memset(void* d, int c, size_t n)
{
    if (n && sim_active()) sim_range(d, n, 1, __builtin_return_address(0));
    void* p = d;
    __asm__ volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(c) : "memory");
    return d;
}
