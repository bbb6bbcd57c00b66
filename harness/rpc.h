// What explorer (rpc.cc) and executor (bare/exec.cc) share; little-endian
#pragma once
enum { OP_DECODE = 1, OP_DECODE_END, OP_ENCODE, OP_CRC, OP_SHIFT, OP_MUL, OP_COMBINE, OP_ZEROS, OP_UNZERO, OP_2POW, OP_256POW };
struct Ctl { uint32_t req, done, op, nguards; uint64_t a[8], r[4]; uint32_t isa[4]; uint64_t guard[64]; };
