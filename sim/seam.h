/* Force-included before the code under test: persistence instructions become simulator events. */
#pragma once
#ifdef __cplusplus
#include <immintrin.h>
extern "C" {
#endif
void sim_clflush(const void *p);
void sim_sfence(void);
void sim_pause(void);
unsigned long sim_copy_chunk(void);
#ifdef __cplusplus
}
#endif
#define _mm_clflush(p) sim_clflush((const void *)(p))
#define _mm_clflushopt(p) sim_clflush((const void *)(p))
#define _mm_clwb(p) sim_clflush((const void *)(p))
#define _mm_sfence() sim_sfence()
#define _mm_mfence() sim_sfence()
#define _mm_pause() sim_pause()
#define __builtin_ia32_clflush(p) sim_clflush((const void *)(p))
#define __builtin_ia32_clflushopt(p) sim_clflush((const void *)(p))
#define __builtin_ia32_clwb(p) sim_clflush((const void *)(p))
#define __builtin_ia32_sfence() sim_sfence()
#define __builtin_ia32_mfence() sim_sfence()
#define __builtin_ia32_pause() sim_pause()
#define pmem_clflushopt(p) sim_clflush((const void *)(p))
#define pmem_clwb(p) sim_clflush((const void *)(p))
#define PMAP_COPY_CHUNK sim_copy_chunk()
