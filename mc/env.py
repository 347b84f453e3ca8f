"""The environment seam: every request for operating-system randomness goes through here.

install() must run before the library is imported.  A check drives the seam
with `script(answers)`: the enumerated environment answers are given out one
request after another and every request is recorded.
"""
import hashlib
import os
import random

_REAL = os.urandom


class Entropy:
    def __init__(self):
        self.answer = None          # callable(size, index) -> bytes, or None for a counter stream
        self.requests = []
        self.count = 0

    def reset(self, answer=None):
        self.answer = answer
        self.requests = []
        self.count = 0

    def __call__(self, size):
        index = self.count
        self.count += 1
        self.requests.append(size)
        if self.answer is None:
            return stream(index, size)
        return self.answer(size, index)


def stream(index, size):
    """Default deterministic answer number `index`: every answer is fresh, non-zero and below 2^(8 size - 2)."""
    out = b''
    block = 0
    while len(out) < size:
        out += hashlib.sha256(b'entropy %d %d' % (index, block)).digest()
        block += 1
    out = bytearray(out[:size])
    if out:
        out[0] = out[0] & 0x1f | 0x10
    return bytes(out)


ENTROPY = Entropy()


def fake_urandom(size):
    return ENTROPY(size)


def install():
    os.urandom = fake_urandom
    random._urandom = fake_urandom
    if hasattr(os, 'getrandom'):
        os.getrandom = lambda size, flags=0: ENTROPY(size)
    import secrets  # noqa: F401  (so that it is loaded with the seam in place)


def scripted(answers, fallback=stream):
    """Answer request i with answers[i] (callable(size) / bytes / exception); then with fallback."""
    def answer(size, index):
        if index < len(answers):
            item = answers[index]
            if isinstance(item, BaseException):
                raise item
            return item(size) if callable(item) else item
        return fallback(index, size)
    return answer


def pattern(label, size):
    """Deterministic data bytes: pattern() depends on the label and VERIF_SEED only."""
    seed = os.environ.get('VERIF_SEED', '1')
    out = b''
    block = 0
    while len(out) < size:
        out += hashlib.sha256(('%s|%s|%d' % (seed, label, block)).encode()).digest()
        block += 1
    return out[:size]


def block_shapes(n, dense=False):
    """Values of a block which a shortcut or a comparison inside the library would react to."""
    base = pattern('block shapes', n)
    half = n // 2
    out = {'zeros': bytes(n), 'ones': b'\xff' * n, 'one': bytes(n - 1) + b'\x01', 'top bit': b'\x80' + bytes(n - 1),
           'low half zero': base[:half] + bytes(n - half), 'high half zero': bytes(half) + base[half:],
           'low half ones': base[:half] + b'\xff' * (n - half), 'equal halves': base[:half] * 2, 'spaces': b' ' * n,
           'last byte zero': base[:-1] + bytes(1), 'first byte zero': bytes(1) + base[1:], 'count': bytes(range(n)), 'text zeros': b'0' * n}
    if dense:
        for pos in range(n):
            for val in (0, 1, 0x80, 0xff):
                out['byte %d is %d' % (pos, val)] = base[:pos] + bytes([val]) + base[pos + 1:]
            out['zeros but byte %d' % pos] = bytes(pos) + b'\x5a' + bytes(n - pos - 1)
    return out
