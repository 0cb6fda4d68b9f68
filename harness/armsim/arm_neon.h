/* A stand-in for the compiler's <arm_neon.h>: the intrinsics used by the ARM
 * implementations, written from the Arm Architecture Reference Manual, so that
 * those source files can be compiled and run on this machine (little endian). */
#ifndef ARMSIM_NEON_H_
#define ARMSIM_NEON_H_
#include <stdint.h>
#include <string.h>
typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef uint64_t uint64x2_t __attribute__((vector_size(16)));
#define AS static inline __attribute__((unused))
/* how many instructions of each family were executed */
extern unsigned long armsim_aes, armsim_sha;
static const uint8_t armsim_sbox[256] = {
	0x63, 0x7c, 0x77, 0x7b, 0xf2, 0x6b, 0x6f, 0xc5, 0x30, 0x01, 0x67, 0x2b, 0xfe, 0xd7, 0xab, 0x76,
	0xca, 0x82, 0xc9, 0x7d, 0xfa, 0x59, 0x47, 0xf0, 0xad, 0xd4, 0xa2, 0xaf, 0x9c, 0xa4, 0x72, 0xc0,
	0xb7, 0xfd, 0x93, 0x26, 0x36, 0x3f, 0xf7, 0xcc, 0x34, 0xa5, 0xe5, 0xf1, 0x71, 0xd8, 0x31, 0x15,
	0x04, 0xc7, 0x23, 0xc3, 0x18, 0x96, 0x05, 0x9a, 0x07, 0x12, 0x80, 0xe2, 0xeb, 0x27, 0xb2, 0x75,
	0x09, 0x83, 0x2c, 0x1a, 0x1b, 0x6e, 0x5a, 0xa0, 0x52, 0x3b, 0xd6, 0xb3, 0x29, 0xe3, 0x2f, 0x84,
	0x53, 0xd1, 0x00, 0xed, 0x20, 0xfc, 0xb1, 0x5b, 0x6a, 0xcb, 0xbe, 0x39, 0x4a, 0x4c, 0x58, 0xcf,
	0xd0, 0xef, 0xaa, 0xfb, 0x43, 0x4d, 0x33, 0x85, 0x45, 0xf9, 0x02, 0x7f, 0x50, 0x3c, 0x9f, 0xa8,
	0x51, 0xa3, 0x40, 0x8f, 0x92, 0x9d, 0x38, 0xf5, 0xbc, 0xb6, 0xda, 0x21, 0x10, 0xff, 0xf3, 0xd2,
	0xcd, 0x0c, 0x13, 0xec, 0x5f, 0x97, 0x44, 0x17, 0xc4, 0xa7, 0x7e, 0x3d, 0x64, 0x5d, 0x19, 0x73,
	0x60, 0x81, 0x4f, 0xdc, 0x22, 0x2a, 0x90, 0x88, 0x46, 0xee, 0xb8, 0x14, 0xde, 0x5e, 0x0b, 0xdb,
	0xe0, 0x32, 0x3a, 0x0a, 0x49, 0x06, 0x24, 0x5c, 0xc2, 0xd3, 0xac, 0x62, 0x91, 0x95, 0xe4, 0x79,
	0xe7, 0xc8, 0x37, 0x6d, 0x8d, 0xd5, 0x4e, 0xa9, 0x6c, 0x56, 0xf4, 0xea, 0x65, 0x7a, 0xae, 0x08,
	0xba, 0x78, 0x25, 0x2e, 0x1c, 0xa6, 0xb4, 0xc6, 0xe8, 0xdd, 0x74, 0x1f, 0x4b, 0xbd, 0x8b, 0x8a,
	0x70, 0x3e, 0xb5, 0x66, 0x48, 0x03, 0xf6, 0x0e, 0x61, 0x35, 0x57, 0xb9, 0x86, 0xc1, 0x1d, 0x9e,
	0xe1, 0xf8, 0x98, 0x11, 0x69, 0xd9, 0x8e, 0x94, 0x9b, 0x1e, 0x87, 0xe9, 0xce, 0x55, 0x28, 0xdf,
	0x8c, 0xa1, 0x89, 0x0d, 0xbf, 0xe6, 0x42, 0x68, 0x41, 0x99, 0x2d, 0x0f, 0xb0, 0x54, 0xbb, 0x16
};
AS uint8x16_t vld1q_u8(const uint8_t * p) { uint8x16_t r; memcpy(&r, p, 16); return r; }
AS uint8x8_t vld1_u8(const uint8_t * p) { uint8x8_t r; memcpy(&r, p, 8); return r; }
AS uint32x4_t vld1q_u32(const uint32_t * p) { uint32x4_t r; memcpy(&r, p, 16); return r; }
AS uint64x2_t vld1q_u64(const uint64_t * p) { uint64x2_t r; memcpy(&r, p, 16); return r; }
AS void vst1q_u8(uint8_t * p, uint8x16_t a) { memcpy(p, &a, 16); }
AS void vst1_u8(uint8_t * p, uint8x8_t a) { memcpy(p, &a, 8); }
AS void vst1q_u32(uint32_t * p, uint32x4_t a) { memcpy(p, &a, 16); }
AS uint8x16_t vdupq_n_u8(uint8_t v) { uint8x16_t r; memset(&r, v, 16); return r; }
AS uint32x4_t vdupq_n_u32(uint32_t v) { return (uint32x4_t){ v, v, v, v }; }
AS uint32x4_t vdupq_laneq_u32(uint32x4_t a, const int l) { return vdupq_n_u32(a[l]); }
AS uint32_t vgetq_lane_u32(uint32x4_t a, const int l) { return a[l]; }
AS uint8x16_t veorq_u8(uint8x16_t a, uint8x16_t b) { return a ^ b; }
AS uint8x16_t vandq_u8(uint8x16_t a, uint8x16_t b) { return a & b; }
AS uint8x16_t vorrq_u8(uint8x16_t a, uint8x16_t b) { return a | b; }
AS uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
AS uint8x16_t vaddq_u8(uint8x16_t a, uint8x16_t b) { return a + b; }
AS uint32x4_t vaddq_u32(uint32x4_t a, uint32x4_t b) { return a + b; }
AS uint64x2_t vaddq_u64(uint64x2_t a, uint64x2_t b) { return a + b; }
AS uint32x4_t vreinterpretq_u32_u8(uint8x16_t a) { return (uint32x4_t)a; }
AS uint8x16_t vreinterpretq_u8_u32(uint32x4_t a) { return (uint8x16_t)a; }
AS uint64x2_t vreinterpretq_u64_u8(uint8x16_t a) { return (uint64x2_t)a; }
AS uint8x16_t vreinterpretq_u8_u64(uint64x2_t a) { return (uint8x16_t)a; }
AS uint8x16_t vcombine_u8(uint8x8_t lo, uint8x8_t hi) { uint8x16_t r; memcpy(&r, &lo, 8); memcpy((uint8_t *)&r + 8, &hi, 8); return r; }
AS uint8x16_t vextq_u8(uint8x16_t a, uint8x16_t b, const int n) { uint8x16_t r; int i; for (i = 0; i < 16; i++) r[i] = n + i < 16 ? a[n + i] : b[n + i - 16]; return r; }
AS uint8x16_t vrev32q_u8(uint8x16_t a) { uint8x16_t r; int i; for (i = 0; i < 16; i++) r[i] = a[i ^ 3]; return r; }
AS uint8x16_t vrev64q_u8(uint8x16_t a) { uint8x16_t r; int i; for (i = 0; i < 16; i++) r[i] = a[i ^ 7]; return r; }
/* AESE: AddRoundKey, ShiftRows, SubBytes */
AS uint8x16_t vaeseq_u8(uint8x16_t d, uint8x16_t k) { uint8x16_t r, x = d ^ k; int i; __atomic_fetch_add(&armsim_aes, 1, __ATOMIC_RELAXED); for (i = 0; i < 16; i++) r[i] = armsim_sbox[x[5 * i % 16]]; return r; }
/* AESMC: MixColumns */
AS uint8_t armsim_x2(uint8_t v) { return (uint8_t)(v << 1) ^ (v & 0x80 ? 0x1b : 0); }
AS uint8x16_t vaesmcq_u8(uint8x16_t a) { uint8x16_t r; int i; __atomic_fetch_add(&armsim_aes, 1, __ATOMIC_RELAXED); for (i = 0; i < 16; i++) { const int c = i & ~3; uint8_t p = a[i], q = a[c | ((i + 1) & 3)]; r[i] = armsim_x2(p) ^ armsim_x2(q) ^ q ^ a[c | ((i + 2) & 3)] ^ a[c | ((i + 3) & 3)]; } return r; }
/* SHA-256 */
AS uint32_t armsim_ror(uint32_t v, int n) { return v >> n | v << (32 - n); }
AS uint32x4_t armsim_sha256hash(uint32x4_t x, uint32x4_t y, uint32x4_t w, int part1) {
	int e; __atomic_fetch_add(&armsim_sha, 1, __ATOMIC_RELAXED);
	for (e = 0; e < 4; e++) {
		uint32_t ch = (y[0] & (y[1] ^ y[2])) ^ y[2], maj = (x[0] & x[1]) | ((x[0] | x[1]) & x[2]);
		uint32_t t = y[3] + (armsim_ror(y[0], 6) ^ armsim_ror(y[0], 11) ^ armsim_ror(y[0], 25)) + ch + w[e];
		uint32_t nx = t + x[3], ny = t + (armsim_ror(x[0], 2) ^ armsim_ror(x[0], 13) ^ armsim_ror(x[0], 22)) + maj;
		x = (uint32x4_t){ ny, x[0], x[1], x[2] };
		y = (uint32x4_t){ nx, y[0], y[1], y[2] };
	}
	return part1 ? x : y;
}
AS uint32x4_t vsha256hq_u32(uint32x4_t abcd, uint32x4_t efgh, uint32x4_t wk) { return armsim_sha256hash(abcd, efgh, wk, 1); }
AS uint32x4_t vsha256h2q_u32(uint32x4_t efgh, uint32x4_t abcd, uint32x4_t wk) { return armsim_sha256hash(abcd, efgh, wk, 0); }
AS uint32x4_t vsha256su0q_u32(uint32x4_t a, uint32x4_t b) {
	uint32x4_t t = { a[1], a[2], a[3], b[0] }, r; int e; __atomic_fetch_add(&armsim_sha, 1, __ATOMIC_RELAXED);
	for (e = 0; e < 4; e++) r[e] = (armsim_ror(t[e], 7) ^ armsim_ror(t[e], 18) ^ t[e] >> 3) + a[e];
	return r;
}
AS uint32_t armsim_s1(uint32_t v) { return armsim_ror(v, 17) ^ armsim_ror(v, 19) ^ v >> 10; }
AS uint32x4_t vsha256su1q_u32(uint32x4_t x, uint32x4_t b, uint32x4_t c) {
	uint32x4_t t = { b[1], b[2], b[3], c[0] }, r; __atomic_fetch_add(&armsim_sha, 1, __ATOMIC_RELAXED);
	r[0] = armsim_s1(c[2]) + x[0] + t[0]; r[1] = armsim_s1(c[3]) + x[1] + t[1];
	r[2] = armsim_s1(r[0]) + x[2] + t[2]; r[3] = armsim_s1(r[1]) + x[3] + t[3];
	return r;
}
#undef AS
#endif
