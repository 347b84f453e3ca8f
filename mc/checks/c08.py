"""C08: HMAC equals its definition over Streebog for every key of 0..64 bytes and every message."""
from ..engine import same, same_bytes
from ..env import pattern
from ..ref import gost as ref
from ..target import new_hmac

BOUNDS = {
    'quick': {'keys': 'every length 0..64; every (byte position, 8 values) of 64-, 32- and 1-byte keys; constant keys; zero bytes at either end of keys of every length',
              'messages': 'every length 0..200, sparse up to 4097, 65601, 65537 blocks; 8 lengths for every key length',
              'forms': 'data given to new(), to update(), bytes and bytearray'},
    'thorough': {'keys': 'every length; every (byte position, value) of 64- and 33-byte keys',
                 'messages': 'every length 0..1300, sparse up to 70000; 24 lengths for every key length', 'forms': 'as quick'},
}
ASSUMPTIONS = []


def one(rec, bits, key, data):
    with rec.case(lambda: {'bits': bits, 'key': key, 'data': data}):
        want = ref.hmac(bits, key, data)
        kind = bytes if len(data) % 2 else bytearray
        first = new_hmac(bits, kind(key), kind(data))
        same_bytes(first.digest(), want, 'data given to new()')
        second = new_hmac(bits, kind(key))
        second.update(kind(data))
        same(second.hexdigest(), want.hex(), 'hexdigest')
        rec.state((bits, key, data))
        rec.step(3)
        rec.trace(2)
        rec.outcome(want.hex()[:12])
        rec.sample({'bits': bits, 'key length': len(key), 'message length': len(data)})


def grid(rec, bits, key_sizes, sizes):
    for key_size in key_sizes:
        for size in sizes:
            one(rec, bits, pattern('C08 key %d' % key_size, key_size), pattern('C08 %d' % size, size))


def blocks_at_once(rec, bits, blocks):
    key = pattern('C08 bkey', 40)
    data = pattern('C08 blocks', 4099)
    data = (data * (64 * blocks // 4099 + 1))[:64 * blocks + 3]
    with rec.case(lambda: {'bits': bits, 'message length': len(data)}, 300):
        same_bytes(new_hmac(bits, key, bytearray(data)).digest(), ref.hmac(bits, key, data), 'HMAC')
        rec.step(blocks)
        rec.trace()
        rec.state((bits, blocks))


def key_bytes(rec, bits, key_size, first, last, values):
    for pos in range(first, last):
        for val in values:
            key = bytearray(pattern('C08 kb', key_size))
            key[pos] = val
            one(rec, bits, bytes(key), pattern('C08 kbd', 40))


def constant_keys(rec, bits):
    for fill in (0, 0x36, 0x5c, 0x80, 0xff):
        for size in (1, 31, 32, 33, 63, 64):
            for length in (0, 1, 64):
                one(rec, bits, bytes([fill]) * size, bytes([fill]) * length)
    for tail in range(0, 64, 3):                # keys that end in zero bytes, and their stripped forms
        key = pattern('C08 strip', 64 - tail) + bytes(tail)
        one(rec, bits, key, b'message')


def key_ends(rec, bits, first, last):
    """Keys of every length that start or end with zero bytes."""
    for size in range(first, last):
        key = pattern('C08 ends', size)
        for zeros in (1, 2, size // 2):
            for shape in (bytes(zeros) + key[zeros:], key[:-zeros] + bytes(zeros), bytes(zeros) + key[2 * zeros:] + bytes(zeros)):
                if len(shape) == size:
                    one(rec, bits, shape, b'ends')


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    sizes = (0, 1, 32, 63, 64, 65, 127, 128) if not deep else tuple(
        sorted({0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 190, 191, 192, 193, 255, 256, 257, 320}))
    for bits in (256, 512):
        for key_size in range(65):
            out.append(('%d key length %d' % (bits, key_size), grid, (bits, [key_size], sizes)))
        top = 1300 if deep else 200
        for begin in range(0, top, 40):
            out.append(('%d lengths %d..' % (bits, begin), grid, (bits, [32], range(begin, begin + 40))))
        sparse = [511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097] + ([16384, 65535, 65536, 70000] if deep else [65601])
        for size in sparse:
            out.append(('%d length %d' % (bits, size), grid, (bits, [64, 20], [size])))
        values = range(256) if deep else (0, 1, 0x36, 0x5c, 0x6a, 0x7f, 0x80, 0xff)
        for key_size in (64, 33) if deep else (64, 32, 1):
            for pos in range(0, key_size, 8):
                out.append(('%d key of %d byte %d..' % (bits, key_size, pos), key_bytes,
                            (bits, key_size, pos, min(pos + 8, key_size), tuple(values))))
        out.append(('%d message of 65537 blocks' % bits, blocks_at_once, (bits, 65537)))
        for first in range(1, 65, 16):
            out.append(('%d key ends %d..' % (bits, first), key_ends, (bits, first, first + 16)))
        out.append(('%d constant keys' % bits, constant_keys, (bits,)))
    return out
