// Force-included into the code under test when it is built for the simulator:
// turns the CPU spin hint into a scheduling point.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
void sim_pause(void);
#ifdef __cplusplus
}
#endif
#include <immintrin.h>
#undef _mm_pause
#define _mm_pause() sim_pause()
#define __builtin_ia32_pause() sim_pause()
