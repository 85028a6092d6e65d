/* forced into the units of the hardware generator: the instruction is answered by the preloaded script */
#ifndef VF_RDRAND_H
#define VF_RDRAND_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#if defined(__x86_64__) || defined(__i386__)
#include <stdint.h>
#include <immintrin.h>
#ifdef __cplusplus
extern "C" {
#endif
extern int vf_rdrand64(unsigned long long *);
extern int vf_rdrand32(unsigned int *);
extern int vf_rdrand16(unsigned short *);
#ifdef __cplusplus
}
#endif
#define _rdrand64_step(p) vf_rdrand64((unsigned long long *)(p))
#define _rdrand32_step(p) vf_rdrand32((unsigned int *)(p))
#define _rdrand16_step(p) vf_rdrand16((unsigned short *)(p))
#define __builtin_ia32_rdrand64_step(p) vf_rdrand64((unsigned long long *)(p))
#define __builtin_ia32_rdrand32_step(p) vf_rdrand32((unsigned int *)(p))
#endif
#endif
