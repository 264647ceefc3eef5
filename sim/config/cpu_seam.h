/*
 * Put in front of the files of /repo that ask the processor what it can do or
 * draw from its random generator: the instructions become calls into the
 * simulator, which answers for the simulated processor.
 */
#ifndef SIM_CPU_SEAM_H
#define SIM_CPU_SEAM_H
#include <cpuid.h>
#include <immintrin.h>
int sim_seam_get_cpuid(unsigned int, unsigned int *, unsigned int *, unsigned int *, unsigned int *);
int sim_seam_get_cpuid_count(unsigned int, unsigned int, unsigned int *, unsigned int *, unsigned int *, unsigned int *);
unsigned int sim_seam_get_cpuid_max(unsigned int, unsigned int *);
void sim_seam_cpuid(unsigned int, unsigned int, unsigned int *, unsigned int *, unsigned int *, unsigned int *);
int sim_seam_cpu_supports(const char *);
int sim_seam_rdrand(void *, int);
#define __get_cpuid sim_seam_get_cpuid
#define __get_cpuid_count sim_seam_get_cpuid_count
#define __get_cpuid_max sim_seam_get_cpuid_max
#undef __cpuid
#undef __cpuid_count
#define __cpuid(l, a, b, c, d) sim_seam_cpuid((l), 0, &(a), &(b), &(c), &(d))
#define __cpuid_count(l, s, a, b, c, d) sim_seam_cpuid((l), (s), &(a), &(b), &(c), &(d))
#define __builtin_cpu_supports(x) sim_seam_cpu_supports(x)
#define __builtin_cpu_init() ((void)0)
#define _rdrand16_step(p) sim_seam_rdrand((p), 2)
#define _rdrand32_step(p) sim_seam_rdrand((p), 4)
#define _rdrand64_step(p) sim_seam_rdrand((p), 8)
#endif
