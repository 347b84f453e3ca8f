"""Shared by the checks of the block cipher modes: the implementation and the model side by side."""
from .engine import Mismatch, same_bytes
from .ref import gost as ref
from .target import new_cipher

N = {'kuznechik': 16, 'magma': 8}
ALGS = ('kuznechik', 'magma')
DEFAULT_IV = {
    ('kuznechik', 'CBC'): bytes.fromhex('1234567890abcef0a1b2c3d4e5f0011223344556677889901213141516171819'),
    ('kuznechik', 'CFB'): bytes.fromhex('1234567890abcef0a1b2c3d4e5f0011223344556677889901213141516171819'),
    ('kuznechik', 'OFB'): bytes.fromhex('1234567890abcef0a1b2c3d4e5f0011223344556677889901213141516171819'),
    ('kuznechik', 'CTR'): bytes.fromhex('1234567890abcef0'),
    ('magma', 'CBC'): bytes.fromhex('1234567890abcdef234567890abcdef134567890abcdef12'),
    ('magma', 'CFB'): bytes.fromhex('1234567890abcdef234567890abcdef1'),
    ('magma', 'OFB'): bytes.fromhex('1234567890abcdef234567890abcdef1'),
    ('magma', 'CTR'): bytes.fromhex('12345678'),
}
PAD2_FINDING = 'pad-mode-2-extra-block'


def pad_of(mode, pad):
    return pad if mode in ('ECB', 'CBC') else None


def pair(alg, key, mode, iv=None, pad=None, default_iv=False):
    """(implementation object, model object)."""
    impl = new_cipher(alg, key, mode, None if default_iv else iv, pad)
    if default_iv:
        iv = DEFAULT_IV.get((alg, mode))
    return impl, ref.Mode(alg, key, mode, iv, pad or 1)


def check_encrypt(rec, impl, model, data, what):
    """impl.encrypt(data) against the standard; tolerates exactly the one listed deviation."""
    n = model.n
    got = impl.encrypt(data)
    plain = bytes(data)
    if model.mode in ('ECB', 'CBC') and model.pad_mode == 2 and (len(plain) % n or not plain):
        before = model.reg
        want = model.encrypt(plain)
        if bytes(got) != want:
            model.reg = before
            deviant = model.raw(ref.pad(plain, n, 2) + bytes(n), True)
            if bytes(got) != deviant:
                raise Mismatch('%s: got %s, the standard says %s' % (what, bytes(got).hex(), want.hex()))
            rec.known_finding(PAD2_FINDING, what)
        same_bytes(got, bytes(got), what)
        return got
    same_bytes(got, model.encrypt(plain), what)
    return got
