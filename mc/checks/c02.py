"""C02: one-shot ECB/CBC/CFB/OFB/CTR = GOST R 34.13-2015 for all lengths, IV sizes and paddings."""
from ..engine import Mismatch, same_bytes
from ..env import block_shapes, pattern
from ..modes import ALGS, N, check_encrypt, pair, pad_of
from ..ref import gost as ref

BOUNDS = {
    'quick': {'lengths': '0..6 blocks byte by byte, then 255/256/257, 511..513, 1023..1025, 4095..4097, 65541 bytes; one call of 65537 blocks per cipher, mode and direction',
              'iv': 'z = 1..4 (byte by byte), 5..8, 16, 17, 32, 33, 65 blocks and the default one; every (byte position, value class)',
              'padding': 'both procedures', 'contents': 'seeded, zeros, ones, 0x80-and-zeros tails',
              'driven blocks': 'plaintext chosen so that the input or the output of the block cipher, or the ciphertext, has one of 13 shapes, or equals an earlier plaintext, ciphertext or vector block, in each of 4 blocks, z = 1..3'},
    'thorough': {'lengths': '0..24 blocks byte by byte, then up to 70000 bytes; one call of 65537 blocks (CTR: 131073)',
                 'iv': 'z = 1..8 (byte by byte), up to 257 blocks and the default one; every (byte position, value)',
                 'padding': 'both procedures', 'contents': 'as quick', 'driven blocks': 'as quick with every (byte position, value class), in each of 6 blocks'},
}
ASSUMPTIONS = ['an empty message under padding procedure 1 becomes one zero block (library behaviour, not in the standard)']
CONFIGS = [('ECB', 1), ('ECB', 2), ('CBC', 1), ('CBC', 2), ('CFB', None), ('OFB', None), ('CTR', None)]


def shot(rec, alg, mode, pad, key, iv, data, default_iv=False, kind=bytearray):
    desc = {'cipher': alg, 'mode': mode, 'pad': pad, 'key': key, 'iv': 'default' if default_iv else iv,
            'data': data, 'type': kind.__name__}
    with rec.case(desc):
        pad = pad_of(mode, pad)
        impl, model = pair(alg, key, mode, None if iv is None else kind(iv), pad, default_iv)
        got = check_encrypt(rec, impl, model, kind(data), 'encrypt')
        impl2, model2 = pair(alg, key, mode, None if iv is None else kind(iv), pad, default_iv)
        back = impl2.decrypt(kind(got))
        same_bytes(back, model2.decrypt(bytes(got)), 'decrypt')
        if bytes(back[:len(data)]) != bytes(data) or any(back[len(data) + (pad == 2):]):
            raise Mismatch('decrypt(encrypt(data)) is not data and its padding: %s' % bytes(back).hex())
        if pad is None and len(got) != len(data):
            raise Mismatch('ciphertext of %d bytes for %d bytes' % (len(got), len(data)))
        # the deciphering transformation of arbitrary data (not only of ciphertexts the library made)
        whole = bytes(data)[:len(data) - len(data) % N[alg]] if pad else bytes(data)
        impl3, model3 = pair(alg, key, mode, None if iv is None else kind(iv), pad, default_iv)
        same_bytes(impl3.decrypt(kind(whole)), model3.decrypt(whole), 'decrypt of arbitrary data')
        rec.state((alg, mode, pad, iv, default_iv, kind.__name__, data))
        rec.step(3)
        rec.trace(3)
        rec.outcome((mode, len(got) - len(data)))
        rec.sample({'cipher': alg, 'mode': mode, 'pad': pad, 'iv_blocks': len(iv or b'') // N[alg],
                    'length': len(data)})


def whole(rec, alg, mode, z, encrypt, blocks):
    """One call of very many blocks and five bytes."""
    key = pattern('C02 whole %s' % alg, 32)
    iv = iv_for(alg, mode, z)
    data = pattern('C02 whole', 4099)
    size = blocks * N[alg] + (5 if mode in ('CFB', 'OFB', 'CTR') else 0)
    data = (data * (size // len(data) + 1))[:size]
    impl, model = pair(alg, key, mode, iv, pad_of(mode, 1))
    with rec.case(lambda: {'cipher': alg, 'mode': mode, 'z': z, 'encrypt': encrypt, 'bytes': size}):
        if encrypt:
            check_encrypt(rec, impl, model, bytearray(data), 'encrypt')
        else:
            same_bytes(impl.decrypt(bytearray(data)), model.decrypt(data), 'decrypt')
        rec.state((alg, mode, z, encrypt, blocks))
        rec.step(blocks)
        rec.trace()


def content(name, size, n):
    if name == 'zeros':
        return bytes(size)
    if name == 'ones':
        return b'\xff' * size
    if name == 'marks':
        return (b'\x80' + bytes(n - 1)) * (size // n) + (b'\x80' + bytes(n - 1))[:size % n]
    return pattern('C02 ' + name, size)


def iv_for(alg, mode, z, tag=''):
    if mode == 'ECB':
        return None
    return pattern('C02 iv %s' % tag, N[alg] // 2 if mode == 'CTR' else N[alg] * z)


def lengths(rec, alg, mode, pad, z, sizes, name):
    key = pattern('C02 key %s %s' % (alg, name), 32)
    for size in sizes:
        shot(rec, alg, mode, pad, key, iv_for(alg, mode, z), content(name, size, N[alg]),
             kind=bytes if size % 3 == 0 else bytearray)


def defaults(rec, alg, mode, pad, sizes):
    key = pattern('C02 dkey %s' % alg, 32)
    for size in sizes:
        shot(rec, alg, mode, pad, key, None, pattern('C02 default', size), default_iv=True)


def iv_bytes(rec, alg, mode, z, values):
    key = pattern('C02 ivkey %s' % alg, 32)
    base = iv_for(alg, mode, z)
    data = pattern('C02 ivdata', N[alg] * (z + 1) + 3)
    for pos in range(len(base)):
        for val in values:
            iv = bytearray(base)
            iv[pos] = val
            shot(rec, alg, mode, 1, key, bytes(iv), data if pad_of(mode, 1) is None else data[:-3])
    for fill in (0, 255):
        shot(rec, alg, mode, 1, key, bytes([fill]) * len(base), data)


def driven(rec, alg, mode, pad, z, count, dense):
    """Messages in which one block meets a chosen value at a chosen place of the mode."""
    n = N[alg]
    key = pattern('C02 driven %s' % alg, 32)
    cipher = ref.cipher(alg, key)
    xor = lambda a, b: bytes(x ^ y for x, y in zip(a, b))
    base = pattern('C02 driven data', n * count)
    shapes = block_shapes(n, dense)
    for at in range(count):
        names = list(shapes) + ['block %d' % i for i in range(at)] + ['cipher %d' % i for i in range(at)] + ['vector %d' % i for i in range(z if mode != 'CTR' else 0)]
        for name in names:
            for place in ('input', 'output', 'ciphertext', 'vector'):
                iv = iv_for(alg, mode, z)
                if place == 'vector' and (mode in ('ECB', 'CTR') or at >= z):
                    continue
                model = pair(alg, key, mode, iv, pad)[1]
                head = base[:at * n]
                done = model.raw(head, True) if head else b''
                words = name.split()
                if words[0] == 'block' and words[1].isdigit():
                    value = base[int(words[1]) * n:][:n]
                elif words[0] == 'cipher':
                    value = done[int(words[1]) * n:][:n]
                elif words[0] == 'vector':
                    if iv is None:
                        continue
                    value = iv[int(words[1]) * n:][:n]
                else:
                    value = shapes[name]
                if place == 'vector':
                    iv = iv[:at * n] + (value if mode == 'CBC' else cipher.decrypt(value)) + iv[at * n + n:]
                    block = base[at * n:at * n + n]
                else:
                    zero = model.raw(bytes(n), True)      # the gamma, or the encryption of the feedback alone
                    if mode in ('CFB', 'OFB', 'CTR'):
                        block = {'input': value, 'output': xor(zero, value), 'ciphertext': zero}[place]
                    else:
                        feedback = cipher.decrypt(zero) if mode == 'CBC' else bytes(n)
                        block = xor(feedback, {'input': value, 'output': cipher.decrypt(value), 'ciphertext': cipher.decrypt(feedback)}[place])
                data = head + block + base[at * n + n:]
                shot(rec, alg, mode, pad or 1, key, iv, data)


def jobs(tier):
    out = []
    deep = tier == 'thorough'
    for alg in ALGS:
        n = N[alg]
        dense = list(range(0, n * (24 if deep else 6) + 2))
        sparse = [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]
        if deep:
            sparse += [8191, 8192, 16384, 65535, 65536, 70000]
        for mode, pad in CONFIGS:
            zs = range(1, 9 if deep else 5) if mode in ('CBC', 'CFB', 'OFB') else (1,)
            for z in zs:
                tag = '%s %s pad %s z %d' % (alg, mode, pad, z)
                out.append((tag + ' dense', lengths, (alg, mode, pad, z, dense, 'seeded')))
                if z in (1, 3):
                    out.append((tag + ' long a', lengths, (alg, mode, pad, z, sparse[:9], 'seeded')))
                    for size in sparse[9:]:
                        out.append((tag + ' long %d' % size, lengths, (alg, mode, pad, z, [size], 'seeded')))
            if mode in ('CBC', 'CFB', 'OFB'):
                for z in (5, 6, 7, 8, 16, 17, 32, 33, 65) + ((128, 129, 255, 256, 257) if deep else ()):
                    sizes = [(z - 1) * n, z * n, (z + 1) * n + 3, (2 * z + 1) * n]
                    out.append(('%s %s pad %s register of %d' % (alg, mode, pad, z), lengths, (alg, mode, pad, z, sizes, 'seeded')))
            if pad != 2:
                out.append(('%s %s pad %s 64 KiB' % (alg, mode, pad), lengths, (alg, mode, pad, 2, [65541], 'seeded')))
            for name in ('zeros', 'ones', 'marks'):
                out.append(('%s %s pad %s %s' % (alg, mode, pad, name), lengths,
                            (alg, mode, pad, 2, dense if deep else dense[::3] + [n, 2 * n, 3 * n], name)))
            if mode != 'ECB':
                out.append(('%s %s pad %s default iv' % (alg, mode, pad), defaults,
                            (alg, mode, pad, dense[:5 * n:1 if deep else 3])))
        for mode in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR'):
            for encrypt in (True, False):
                blocks = 131073 if deep and mode == 'CTR' else 65537
                out.append(('%s %s %s of %d blocks' % (alg, mode, 'encryption' if encrypt else 'decryption', blocks), whole, (alg, mode, 2, encrypt, blocks)))
        for mode, pad in CONFIGS:
            for z in ((1, 2, 3) if mode in ('CBC', 'CFB', 'OFB') else (1,)):
                out.append(('%s %s pad %s driven z %d' % (alg, mode, pad, z), driven, (alg, mode, pad, z, 6 if deep else 4, deep)))
        for mode in ('CBC', 'CFB', 'OFB', 'CTR'):
            for z in ((1, 2, 3) if mode != 'CTR' else (1,)):
                values = range(256) if deep else (0, 1, 0x0a, 0x20, 0x7f, 0x80, 0xfe, 0xff)
                out.append(('%s %s iv bytes z %d' % (alg, mode, z), iv_bytes, (alg, mode, z, tuple(values))))
    return out
