"""C04: CTR counts consecutively with full carry; no keystream block is ever used twice."""
import itertools

from .. import kinds, marathon
from ..engine import Mismatch, System, explore, fp, same_bytes
from ..env import pattern
from ..inject import find, put
from ..modes import ALGS, N, pair
from ..ref import gost as ref

BOUNDS = {
    'quick': {'histories': 'all up to 4 (magma) or 3 (kuznechik) operations over encrypt/decrypt of 0, 1, n-1, n, n+1, 2n bytes and reading the counter',
              'walks': '66000 blocks in calls of 1..257 blocks and with partial calls',
              'lengths': 'every pair of call lengths 0..2n+3, 0..2n+1 in all directions, every triple 0..n',
              'carries': 'every byte boundary of the counter (injected), two blocks across it',
              'long life of one object': 'every 4-call word in one life of 5000 calls'},
    'thorough': {'histories': 'all up to 5 operations', 'walks': '200000 blocks', 'lengths': 'pairs up to 4n+3, triples as quick in two directions',
                 'carries': 'every bit boundary of the counter (injected), four blocks across it',
                 'long life of one object': 'every 5-call word, 40000 calls'},
}
ASSUMPTIONS = ['injected counters stand for the states a walk of that many blocks reaches (walked up to the bound above)']


class Ctr(System):
    def __init__(self, rec, alg):
        self.rec, self.alg, self.n = rec, alg, N[alg]
        self.secret = pattern('C04 key', 32)
        self.iv = pattern('C04 iv', self.n // 2)
        self.sizes = {'0': 0, '1b': 1, 'n-': self.n - 1, 'n': self.n, 'n+': self.n + 1, '2n': 2 * self.n}

    def start(self):
        impl, model = pair(self.alg, self.secret, 'CTR', self.iv)
        return {'impl': impl, 'model': model, 'used': set()}

    def key(self, bundle):
        return fp(bundle['impl'])

    def enabled(self, bundle):
        return [d + s for s in self.sizes for d in 'ED'] + ['counter']

    def apply(self, bundle, op):
        impl, model = bundle['impl'], bundle['model']
        if op == 'counter':
            shown = impl.counter
            same_bytes(shown, model.counter(), 'counter')
            if isinstance(shown, bytearray):        # the caller does what it likes with it
                shown[:] = bytes([0xff]) * len(shown)
            return
        data = pattern('C04 data %s' % op, self.sizes[op[1:]])
        out = (impl.encrypt if op[0] == 'E' else impl.decrypt)(bytearray(data))
        want = model.encrypt(data) if op[0] == 'E' else model.decrypt(data)
        same_bytes(out, want, op)
        gamma = ref.xor(out, data)
        for i in range(0, len(gamma), self.n):
            block = gamma[i:i + self.n]
            if len(block) >= 4:
                if any(block == u[:len(block)] for u in bundle['used']):
                    raise Mismatch('keystream block %s used twice' % block.hex())
                bundle['used'].add(block + bytes(self.n - len(block)))
        self.rec.outcome((op, len(out)))

    def observe(self, bundle):
        same_bytes(bundle['impl'].counter, bundle['model'].counter(), 'counter')
        probe = bytes(self.n + 1)
        same_bytes(bundle['impl'].encrypt(bytearray(probe)), bundle['model'].encrypt(probe), 'probe')


def histories(rec, alg, depth, first):
    explore(rec, Ctr(rec, alg), depth, prefix=(first,), tree_depth=3)


def walk(rec, alg, total, partial, iv_fill):
    """One long stream, cut into calls; the counter value and every block against the model."""
    n = N[alg]
    secret = pattern('C04 walk', 32)
    iv = pattern('C04 walk iv', n // 2) if iv_fill is None else bytes([iv_fill]) * (n // 2)
    impl, model = pair(alg, secret, 'CTR', iv)
    done, call = 0, 0
    seen = set()
    while done < total:
        blocks = (1, 3, 16, 63, 64, 129, 257)[call % 7]
        size = blocks * n - (n // 2 + 1 if partial and call % 2 else 0)
        with rec.case(lambda: {'cipher': alg, 'iv': iv, 'blocks so far': done, 'call of bytes': size}):
            gamma = bytes(impl.encrypt(bytearray(size)))
            same_bytes(gamma, model.encrypt(bytes(size)), 'keystream')
            same_bytes(impl.counter, model.counter(), 'counter')
            for i in range(0, size - n + 1, n):
                block = gamma[i:i + n]
                if block in seen:
                    raise Mismatch('keystream block used twice')
                seen.add(block)
            rec.step(blocks)
            rec.state((alg, iv_fill, done))
        done += blocks
        call += 1
    rec.trace()
    rec.outcome(impl.counter.hex())


def faithful(alg, secret, iv, places, start):
    """An injected object equals, attribute by attribute, one that walked there."""
    n = N[alg]
    walked = pair(alg, secret, 'CTR', iv)[0]
    walked.encrypt(bytearray(5 * n))
    jumped = pair(alg, secret, 'CTR', iv)[0]
    for place in places:
        put(jumped, place, start + 5, n)
    return fp(walked) is not None and fp(walked) == fp(jumped)


def carries(rec, alg, step, blocks):
    """Start just below every carry boundary."""
    n = N[alg]
    secret = pattern('C04 carry', 32)
    iv = pattern('C04 carry iv', n // 2)
    places = None
    for bit in range(step, 8 * n // 2 + 1, step):
        for iv_bytes in (iv, b'\xff' * (n // 2), b'\x00' * (n // 2 - 1) + b'\xff'):
            with rec.case(lambda: {'cipher': alg, 'carry out of bit': bit, 'iv': iv_bytes}):
                impl, model = pair(alg, secret, 'CTR', iv_bytes)
                start = int.from_bytes(iv_bytes + bytes(n // 2), 'big')
                places = find(impl, [(None, start, n)] + [
                    (lambda o: o.encrypt(bytearray(n)), start + i, n) for i in (1, 2)])
                if not places or not faithful(alg, secret, iv_bytes, places, start):
                    rec.note('injection not possible')
                    rec.step()
                    continue
                value = (start + (1 << bit) - 2) % (1 << 8 * n)
                for place in places:
                    put(impl, place, value, n)
                model.reg = value.to_bytes(n, 'big')
                same_bytes(impl.counter, model.counter(), 'counter')
                for i in range(blocks):
                    same_bytes(impl.encrypt(bytearray(n)), model.encrypt(bytes(n)), 'block %d' % i)
                    same_bytes(impl.counter, model.counter(), 'counter after block %d' % i)
                    rec.state((alg, bit, iv_bytes, i))
                    rec.step()
                rec.trace()
                rec.note('carry boundaries')
                rec.sample({'cipher': alg, 'bit': bit, 'iv': iv_bytes.hex()})


def partitions(rec, alg, total):
    """Every set of block-aligned cut points: the same stream as one call."""
    n = N[alg]
    secret, iv = pattern('C04 p', 32), pattern('C04 piv', n // 2)
    data = pattern('C04 pdata', total * n + 3)
    want = pair(alg, secret, 'CTR', iv)[1].encrypt(data)
    for mask in range(1 << total):
        with rec.case(lambda: {'cipher': alg, 'cut mask': bin(mask)}):
            impl = pair(alg, secret, 'CTR', iv)[0]
            out, begin = b'', 0
            for i in range(total + 1):
                if i == total or mask >> i & 1:
                    end = (i + 1) * n if i < total else len(data)
                    out += bytes((impl.encrypt if i & 1 else impl.decrypt)(bytearray(data[begin:end])))
                    begin = end
            same_bytes(out, want, 'stream in several calls')
            rec.state((alg, mask))
            rec.step(bin(mask).count('1') + 1)
            rec.trace()


def lengths(rec, alg, ways, tops, firsts):
    """Every combination of call lengths, byte by byte."""
    n = N[alg]
    secret, iv = pattern('C04 lengths', 32), pattern('C04 lengths iv', n // 2)
    for sizes in itertools.product(firsts, *(range(top + 1) for top in tops)):
        for way in ways:
            with rec.case(lambda: {'cipher': alg, 'calls': ['%s%d' % (d, s) for d, s in zip(way, sizes)]}):
                impl, model = pair(alg, secret, 'CTR', iv)
                for direction, size in zip(way, sizes):
                    data = pattern('C04 lengths data', size)
                    call = impl.encrypt if direction == 'E' else impl.decrypt
                    same_bytes(call(bytearray(data)), model.encrypt(data), '%s of %d bytes' % (direction, size))
                    same_bytes(impl.counter, model.counter(), 'counter')
                same_bytes(impl.encrypt(bytes(n + 1)), model.encrypt(bytes(n + 1)), 'probe')
                rec.state((alg, way, sizes))
                rec.step(len(sizes) + 1)
                rec.trace()


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for alg in ALGS:
        n = N[alg]
        for first in range(0, (4 if deep else 2) * n + 1, 4):
            out.append(('%s lengths %d..' % (alg, first), lengths, (alg, ('EE', 'ED', 'DE', 'DD'), (2 * n + 1,), range(first, first + 4))))
        for first in range(n + 1):
            out.append(('%s three lengths %d..' % (alg, first), lengths, (alg, ('EDE', 'DED') if deep else ('EDE',), (n, n), (first,))))
    out.append(('magma walk', walk, ('magma', 200000 if deep else 66000, False, None)))
    out.append(('kuznechik walk', walk, ('kuznechik', 200000 if deep else 66000, False, None)))
    for alg in ALGS:
        for partial in (False, True):
            for fill in (0, 255):
                out.append(('%s walk partial %s iv %d' % (alg, partial, fill), walk, (alg, 1500, partial, fill)))
        out.append(('%s carries' % alg, carries, (alg, 1 if deep else 8, 4 if deep else 3)))
        out.append(('%s partitions' % alg, partitions, (alg, 9 if deep else 7)))
        for op in Ctr(None, alg).enabled(None):
            out.append(('%s histories from %s' % (alg, op), histories, (alg, 5 if deep else 4 if alg == 'magma' else 3, op)))
    for kind in [k for k in kinds.ciphers() if k.mode == 'CTR']:
        out.append(('%s long life' % kind.name, marathon.life, (kind, 5 if deep else 4, 40000 if deep else 5000, (), False, False, True)))
    return out
