"""Independent implementation of FORMAT (hashlib + libcrypto through ctypes)."""
import ctypes, ctypes.util, hashlib, hmac, os, struct

_lib = ctypes.CDLL(ctypes.util.find_library("crypto") or "libcrypto.so.3")
_lib.EVP_CIPHER_CTX_new.restype = ctypes.c_void_p
_lib.EVP_aes_256_ctr.restype = ctypes.c_void_p
_lib.EVP_EncryptInit_ex.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p]
_lib.EVP_EncryptUpdate.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.POINTER(ctypes.c_int), ctypes.c_char_p, ctypes.c_int]
_lib.EVP_CIPHER_CTX_free.argtypes = [ctypes.c_void_p]


class CTR:
    def __init__(self, key, nonce=0):
        self.c = _lib.EVP_CIPHER_CTX_new()
        assert _lib.EVP_EncryptInit_ex(self.c, _lib.EVP_aes_256_ctr(), None, key, struct.pack(">QQ", nonce, 0)) == 1

    def update(self, data):
        out = ctypes.create_string_buffer(len(data) + 16)
        n = ctypes.c_int(0)
        assert _lib.EVP_EncryptUpdate(self.c, out, ctypes.byref(n), data, len(data)) == 1
        return out.raw[:n.value]

    def __del__(self):
        _lib.EVP_CIPHER_CTX_free(self.c)


def aesctr(key, data):
    c = CTR(key)
    return b"".join(c.update(data[i:i + (1 << 24)]) for i in range(0, len(data), 1 << 24))


def kdf(pw, salt, logN, r, p):
    return hashlib.scrypt(pw, salt=salt, n=1 << logN, r=r, p=p, maxmem=2**31 - 1, dklen=64)


def header(salt, logN, r, p, version=0, magic=b"scrypt"):
    h = magic + bytes([version, logN & 255]) + struct.pack(">II", r, p) + salt
    return h + hashlib.sha256(h).digest()[:16]


def encode(pw, data, logN=10, r=1, p=1, salt=None):
    salt = os.urandom(32) if salt is None else salt
    dk = kdf(pw, salt, logN, r, p)
    h = header(salt, logN, r, p)
    h += hmac.new(dk[32:], h, hashlib.sha256).digest()
    f = h + aesctr(dk[:32], data)
    return f + hmac.new(dk[32:], f, hashlib.sha256).digest()


class Bad(Exception):
    pass


def decode(pw, f):
    """Returns (data, logN, r, p, salt) or raises Bad."""
    if len(f) < 128:
        raise Bad("only %d bytes" % len(f))
    if f[:6] != b"scrypt":
        raise Bad("magic")
    if f[6] != 0:
        raise Bad("version")
    logN, r, p, salt = f[7], *struct.unpack(">II", f[8:16]), f[16:48]
    if hashlib.sha256(f[:48]).digest()[:16] != f[48:64]:
        raise Bad("checksum")
    dk = kdf(pw, salt, logN, r, p)
    if hmac.new(dk[32:], f[:64], hashlib.sha256).digest() != f[64:96]:
        raise Bad("header HMAC")
    if hmac.new(dk[32:], f[:-32], hashlib.sha256).digest() != f[-32:]:
        raise Bad("final HMAC")
    return aesctr(dk[:32], f[96:-32]), logN, r, p, salt


def params(f):
    return (f[7],) + struct.unpack(">II", f[8:16])
