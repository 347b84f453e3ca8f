"""C05: MAC = CMAC of GOST R 34.13-2015 for every message, chunking and tag size."""
from .. import kinds, marathon, middle
from ..engine import System, explore, fp, same, same_bytes
from ..env import block_shapes, pattern
from ..modes import ALGS, N
from ..ref import gost as ref
from ..target import new_mac

BOUNDS = {
    'quick': {'lengths': '0..8 blocks byte by byte, sparse up to 4097, 65539, one update of 65537 blocks', 'tag sizes': '1..n, as bytes and as hexadecimal digits',
              'subkeys': 'keys for all 4 combinations of the two top bits',
              'chunkings': 'every 2-cut of 0..3 blocks+1, every composition of 9 bytes, every partition of 5 blocks',
              'histories': 'all up to 4 (magma) or 3 (kuznechik) operations over update of 0, 1, n-1, n, n+1, 2n bytes, digest, hexdigest',
              'middle of a message': 'digests of every size after every length 0..3n+1, then every length 0..2n+1',
              'driven blocks': 'a block chosen so that the input of the block cipher or the chaining value has one of 13 shapes (or equals a subkey, or an earlier value), in each of 3 blocks and the last one',
              'long life of one object': 'every 4-call word in one life of 5000 calls; 66000 updates of one block and of one byte'},
    'thorough': {'lengths': '0..40 blocks byte by byte, sparse up to 70000, one update of 65537 blocks', 'tag sizes': '1..n', 'subkeys': 'as quick',
                 'chunkings': 'every 2-cut of 0..8 blocks, every 3-cut of 2 blocks+1, every composition of 13 bytes, every partition of 9 blocks',
                 'histories': 'all up to 5 (magma) or 4 (kuznechik) operations',
                 'driven blocks': 'as quick with every (byte position, value class), in each of 5 blocks',
                 'long life of one object': 'every 5-call word, 40000 calls; 200000 updates'},
}
ASSUMPTIONS = []


def subkey_keys(alg):
    """One key for each combination of the top bits of E(0) and of K1."""
    out = {}
    index = 0
    while len(out) < 4:
        key = pattern('C05 subkey %s %d' % (alg, index), 32)
        e = ref.cipher(alg, key)
        n = N[alg]
        k1 = ref.cmac_subkeys(e)[0]
        out.setdefault((e.encrypt(bytes(n))[0] >> 7, k1[0] >> 7), key)
        index += 1
    return out


class Mac(System):
    def __init__(self, rec, alg):
        self.rec, self.alg, self.n = rec, alg, N[alg]
        self.secret = pattern('C05 key', 32)
        self.e = ref.cipher(alg, self.secret)
        n = self.n
        self.sizes = {'0': 0, '1': 1, 'n-': n - 1, 'n': n, 'n+': n + 1, '2n': 2 * n}

    def start(self):
        return {'impl': new_mac(self.alg, self.secret), 'data': b''}

    def key(self, bundle):
        return fp(bundle['impl'])

    def enabled(self, bundle):
        return list(self.sizes) + ['digest', 'hexdigest', 'short']

    def apply(self, bundle, op):
        impl = bundle['impl']
        if op in self.sizes:
            piece = pattern('C05 piece %s' % op, self.sizes[op])
            impl.update(bytearray(piece))
            bundle['data'] += piece
            return
        want = ref.cmac(self.e, bundle['data'])
        if op == 'digest':
            same_bytes(impl.digest(self.n), want, 'digest')
        elif op == 'short':
            same_bytes(impl.digest(1), want[:1], 'digest(1)')
            same(impl.hexdigest(1), want[:1].hex(), 'hexdigest(1)')
        else:
            same(impl.hexdigest(self.n // 2), want[:self.n // 2].hex(), 'hexdigest')
        self.rec.outcome(len(bundle['data']))

    def observe(self, bundle):
        want = ref.cmac(self.e, bundle['data'])
        same_bytes(bundle['impl'].digest(self.n), want, 'digest of %d bytes' % len(bundle['data']))
        same_bytes(bundle['impl'].digest(self.n), want, 'digest asked twice')


def histories(rec, alg, depth, first):
    explore(rec, Mac(rec, alg), depth, prefix=(first,), tree_depth=2)


def lengths(rec, alg, key, sizes, fill, name):
    n = N[alg]
    e = ref.cipher(alg, key)
    for size in sizes:
        data = pattern('C05 %d' % size, size) if fill is None else bytes([fill]) * size
        with rec.case(lambda: {'cipher': alg, 'key': key, 'key class': name, 'data': data}):
            want = ref.cmac(e, data)
            one = new_mac(alg, key, data=data)
            same_bytes(one.digest(n), want, 'data given to new()')
            two = new_mac(alg, key)
            two.update(bytearray(data))
            for tag in range(1, n + 1):
                same_bytes(two.digest(tag), want[:tag], 'digest(%d)' % tag)
                same(two.hexdigest(tag), want[:tag].hex(), 'hexdigest(%d)' % tag)
            rec.state((alg, key, data))
            rec.step(2 * n + 1)
            rec.trace(2)
            rec.outcome(want.hex())
            rec.sample({'cipher': alg, 'key class': str(name), 'length': size})


def cuts(rec, alg, key, size, parts):
    """Every way of cutting `size` bytes into `parts` pieces (empty pieces included)."""
    n = N[alg]
    data = pattern('C05 cuts %d' % size, size)
    want = ref.cmac(ref.cipher(alg, key), data)
    for first in range(size + 1):
        for second in (range(first, size + 1) if parts == 3 else (size,)):
            with rec.case(lambda: {'cipher': alg, 'data': data, 'cuts': [first, second]}):
                mac = new_mac(alg, key, data=data[:first])
                mac.update(data[first:second])
                if parts == 3:
                    mac.update(bytearray(data[second:]))
                same_bytes(mac.digest(n), want, 'in pieces')
                rec.state((alg, size, first, second))
                rec.step(parts)
                rec.trace()


def compositions(rec, alg, unit, count):
    n = N[alg]
    key = pattern('C05 ckey', 32)
    data = pattern('C05 comp', unit * count)
    want = ref.cmac(ref.cipher(alg, key), data)
    for mask in range(1 << (count - 1)):
        with rec.case(lambda: {'cipher': alg, 'unit': unit, 'cut mask': bin(mask)}):
            mac = new_mac(alg, key)
            begin = 0
            for i in range(1, count + 1):
                if i == count or mask >> (i - 1) & 1:
                    mac.update(data[begin * unit:i * unit])
                    begin = i
                    rec.step()
            same_bytes(mac.digest(n), want, 'in pieces')
            rec.state((alg, unit, mask))
            rec.trace()


def independent(rec, alg):
    """Data position sensitivity: every byte of a 3-block message at every value class, each block aligned or not."""
    n = N[alg]
    key = pattern('C05 ikey', 32)
    e = ref.cipher(alg, key)
    for size in (3 * n, 3 * n - 1, 2 * n + 1):
        for pos in range(size):
            for val in (0, 1, 0x80, 0xff):
                data = bytearray(pattern('C05 ind', size))
                data[pos] = val
                with rec.case(lambda: {'cipher': alg, 'data': bytes(data)}):
                    same_bytes(new_mac(alg, key, data=bytes(data)).digest(n), ref.cmac(e, data), 'mac')
                    rec.state((alg, bytes(data)))
                    rec.step()
                    rec.trace()


def driven(rec, alg, name, key, count, dense):
    """Messages in which the chaining value, or the input of the block cipher, takes a chosen value."""
    n = N[alg]
    e = ref.cipher(alg, key)
    xor = lambda a, b: bytes(x ^ y for x, y in zip(a, b))
    base = pattern('C05 driven', n * count)
    shapes = dict(block_shapes(n, dense))
    k1, k2 = ref.cmac_subkeys(e)
    shapes.update({'L': e.encrypt(bytes(n)), 'K1': bytes(k1), 'K2': bytes(k2), 'K1 xor K2': xor(k1, k2)})
    for at in range(count):
        chain = bytes(n)
        for i in range(at):
            chain = e.encrypt(xor(chain, base[i * n:i * n + n]))
        for shape, value in shapes.items():
            for place, block in (('input', xor(value, chain)), ('output', xor(e.decrypt(value), chain)),
                                 ('last input', xor(xor(value, chain), k1)), ('last output', xor(xor(e.decrypt(value), chain), k1))):
                last = place.startswith('last')
                for tail in ((0,) if last else (n, 1, n - 1)):
                    data = base[:at * n] + block + pattern('C05 driven tail', tail)
                    with rec.case(lambda: {'cipher': alg, 'key class': name, 'block': at, 'driven': place, 'shape': shape, 'data': data}):
                        want = ref.cmac(e, data)
                        if place == 'last output' and want != value:
                            raise AssertionError('the last block was not driven')
                        same_bytes(new_mac(alg, key, data=data).digest(n), want, 'data given to new()')
                        two = new_mac(alg, key)
                        two.update(bytearray(data[:at * n + n]))
                        two.update(bytearray(data[at * n + n:]))
                        same_bytes(two.digest(n), want, 'in two pieces')
                        same(two.hexdigest(n), want.hex(), 'hexdigest')
                        rec.state((alg, key, data))
                        rec.step(4)
                        rec.trace(2)
                        rec.outcome(place)


def far(rec, alg, first, big):
    """A short update, a very long one, a short one."""
    n = N[alg]
    key = pattern('C05 fkey', 32)
    parts = (pattern('C05 far head', first), (pattern('C05 far', 4096) * (big // 4096 + 1))[:big], pattern('C05 far tail', n + 1))
    with rec.case(lambda: {'cipher': alg, 'update sizes': [len(p) for p in parts]}):
        mac = new_mac(alg, key)
        for part in parts:
            mac.update(bytearray(part))
            rec.step()
        same_bytes(mac.digest(n), ref.cmac(ref.cipher(alg, key), b''.join(parts)), 'mac')
        rec.state((alg, first, big))
        rec.trace()


def walk(rec, alg, calls, piece):
    """A life of updates of `piece` bytes; digests now and then."""
    n = N[alg]
    key = pattern('C05 wkey', 32)
    e = ref.cipher(alg, key)
    k1, k2 = ref.cmac_subkeys(e)
    xor = lambda a, b: bytes(x ^ y for x, y in zip(a, b))
    mac, state, rest = new_mac(alg, key), bytes(n), b''
    data = pattern('C05 walk', 61 * piece)
    for call in range(1, calls + 1):
        part = data[call % 61 * piece:][:piece]
        with rec.case(lambda: {'cipher': alg, 'updates': call, 'bytes each': piece}):
            mac.update(bytearray(part))
            rest += part
            while len(rest) > n:
                state, rest = e.encrypt(xor(state, rest[:n])), rest[n:]
            if call % 997 == 0 or call & (call - 1) == 0 or call & (call + 1) == 0 or call == calls:
                last = xor(rest, k1) if len(rest) == n else xor((rest + b'\x80').ljust(n, b'\0'), k2)
                same_bytes(mac.digest(n), e.encrypt(xor(state, last)), 'digest after %d updates' % call)
                rec.state((alg, piece, call))
                rec.trace()
            rec.step()
    rec.note('longest history', calls)


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for alg in ALGS:
        n = N[alg]
        dense = list(range((40 if deep else 8) * n + 2))
        sparse = [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]
        sparse += [65535, 65536, 70000] if deep else [65539]
        for name, key in sorted(subkey_keys(alg).items()):
            for fill in (None, 0, 255):
                out.append(('%s subkeys %s fill %s' % (alg, name, fill), lengths,
                            (alg, key, dense if fill is None else dense[:2 * n + 2], fill, name)))
        for name, key in sorted(subkey_keys(alg).items()):
            out.append(('%s driven %s' % (alg, name), driven, (alg, name, key, 5 if deep else 3, deep)))
        for size in sparse:
            out.append(('%s length %d' % (alg, size), lengths, (alg, pattern('C05 long', 32), [size], None, 'long')))
        key = pattern('C05 cutkey', 32)
        for size in range((8 if deep else 3) * n + 2):
            out.append(('%s 2-cuts of %d' % (alg, size), cuts, (alg, key, size, 2)))
        if deep:
            for size in range(2 * n + 2):
                out.append(('%s 3-cuts of %d' % (alg, size), cuts, (alg, key, size, 3)))
        else:
            out.append(('%s 3-cuts of n+1' % alg, cuts, (alg, key, n + 1, 3)))
        out.append(('%s byte compositions' % alg, compositions, (alg, 1, 13 if deep else 9)))
        out.append(('%s block partitions' % alg, compositions, (alg, n, 9 if deep else 5)))
        out.append(('%s odd partitions' % alg, compositions, (alg, n // 2 + 1, 9 if deep else 6)))
        out.append(('%s positions' % alg, independent, (alg,)))
        for first in (1, n - 1, n, n + 1):
            for big in (1023, 4097) + ((65537,) if deep or first == n - 1 else ()):
                out.append(('%s far %d %d' % (alg, first, big), far, (alg, first, big)))
        depth = (5 if alg == 'magma' else 4) if deep else (4 if alg == 'magma' else 3)
        for op in Mac(None, alg).enabled(None):
            out.append(('%s histories from %s' % (alg, op), histories, (alg, depth, op)))
        for piece in (n, 1):
            out.append(('%s walk of %d' % (alg, piece), walk, (alg, 200000 if deep else 66000, piece)))
        out.append(('%s far 1 65537 blocks' % alg, far, (alg, 1, 65537 * n)))
    for alg in ALGS:
        out += middle.jobs(middle.Mac, (alg,), 6 * N[alg] if deep else 3 * N[alg] + 2, 8, range(2 * N[alg] + 2))
    for kind in [kinds.Mac(alg, first) for alg in ('magma', 'kuznechik') for first in (3, 0)]:
        out.append(('%s long life' % kind.name, marathon.life, (kind, 5 if deep else 4, 40000 if deep else 5000, (), False, False, True)))
    return out
