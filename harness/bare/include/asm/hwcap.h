// values as in Linux's uapi headers
#pragma once
#ifdef __aarch64__
#define HWCAP_FP (1 << 0)
#define HWCAP_ASIMD (1 << 1)
#define HWCAP_AES (1 << 3)
#define HWCAP_PMULL (1 << 4)
#define HWCAP_SHA1 (1 << 5)
#define HWCAP_SHA2 (1 << 6)
#define HWCAP_CRC32 (1 << 7)
#elif defined(__arm__)
#define HWCAP_NEON (1 << 12)
#define HWCAP_VFPv4 (1 << 16)
#define HWCAP2_AES (1 << 0)
#define HWCAP2_PMULL (1 << 1)
#define HWCAP2_CRC32 (1 << 4)
#endif
