// Stands in for the CPU probe (src/platform.cc): the harness decides which ISA level the dispatcher sees.
#include "common.h"
#include <stdlib.h>
#include <string.h>

// order matters: index = level number used everywhere in /verif
struct VfLevel { const char* name; int isa; int crc; };
extern "C" const VfLevel vf_levels[] = {
	{"sse2", ISA_LEVEL_SSE2, 0},
	{"ssse3", ISA_LEVEL_SSSE3, 0},
	{"sse41", ISA_LEVEL_SSE41 | ISA_FEATURE_POPCNT, 1},
	{"avx", ISA_LEVEL_AVX, 1},
	{"avx2", ISA_LEVEL_AVX2, 1},
	{"avx2v", ISA_LEVEL_AVX2, 2},
	{"avx3", ISA_LEVEL_AVX3, 2},
	{"vbmi2", ISA_LEVEL_VBMI2 | ISA_FEATURE_EVEX512, 2},
	{0, 0, 0}
};
extern "C" { int vf_isa = ISA_LEVEL_SSE2, vf_crc = 0; void (*vf_probe_hook)(int) = 0; }

static void from_env() {
#ifdef VF_ENV_PROBE
	const char* e = getenv("VF_ISA");
	for(int i = 0; e && vf_levels[i].name; i++)
		if(!strcmp(e, vf_levels[i].name)) { vf_isa = vf_levels[i].isa; vf_crc = vf_levels[i].crc; }
#endif
}
namespace RapidYenc {
	int cpu_supports_isa() { from_env(); if(vf_probe_hook) vf_probe_hook(0); return vf_isa; }
	int cpu_supports_crc_isa() { from_env(); if(vf_probe_hook) vf_probe_hook(1); return vf_crc; }
}
