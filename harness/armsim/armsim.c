/* The simulated processor of the "arm" build: it has the AES and SHA-256 instructions
 * unless told otherwise. */
unsigned long armsim_hwcap = 8 | 64;
unsigned long armsim_aes, armsim_sha;
unsigned long armsim_getauxval(unsigned long type) { return type == 16 ? armsim_hwcap : 0; }
