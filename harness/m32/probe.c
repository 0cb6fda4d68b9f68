/* Do 32-bit programs work here, and are our own SHA-256 and AES right? */
#include "vh.h"
int main(void) {
	uint8_t h[32], k[32], x[16] = { 0 }, o[16]; int i;
	static const uint8_t abc[4] = { 0xba, 0x78, 0x16, 0xbf }, f128[4] = { 0x69, 0xc4, 0xe0, 0xd8 }, f256[4] = { 0x8e, 0xa2, 0xb7, 0xca };
	o_sha256((uint8_t *)"abc", 3, h); if (memcmp(h, abc, 4) || h[31] != 0xad) return 2;
	for (i = 0; i < 32; i++) k[i] = i;
	for (i = 0; i < 16; i++) x[i] = i * 17;
	{ EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); int l; EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), NULL, k, NULL); EVP_EncryptUpdate(c, o, &l, x, 16); if (memcmp(o, f128, 4) || o[15] != 0x5a) return 3;
	  EVP_EncryptInit_ex(c, EVP_aes_256_ecb(), NULL, k, NULL); EVP_EncryptUpdate(c, o, &l, x, 16); if (memcmp(o, f256, 4) || o[15] != 0x89) return 4; }
	printf("%d\n", (int)sizeof(size_t) * 8); return 0;
}
