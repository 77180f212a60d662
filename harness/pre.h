/* Forced include for the library's sources: the time-stamp counter comes from
   the virtual kernel. */
#include <stdint.h>
#if defined(__x86_64__) || defined(__i386__)
#include <x86intrin.h>
int64_t vk_rdtsc(void);
#undef __rdtsc
#define __rdtsc() ((uint64_t)vk_rdtsc())
#endif
