#pragma once
#include <stdint.h>
struct riscv_hwprobe { int64_t key; uint64_t value; };
#define RISCV_HWPROBE_KEY_BASE_BEHAVIOR 3
#define RISCV_HWPROBE_KEY_IMA_EXT_0 4
#define RISCV_HWPROBE_EXT_ZBC (1 << 7)
#define RISCV_HWPROBE_EXT_ZBKC (1 << 9)
