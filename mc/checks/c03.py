"""C03: block-aligned calls chain: any history of encrypt/decrypt calls is one long stream."""
from .. import kinds, marathon
from ..engine import System, explore, fp, same_bytes
from ..env import pattern
from ..modes import ALGS, N, check_encrypt, pad_of, pair

BOUNDS = {
    'quick': {'objects': '2 ciphers x ECB/CBC (2 paddings)/CFB/OFB x IV of 1..3 blocks (5, 9 over the smaller alphabet)',
              'operations': 'encrypt/decrypt of 0, 1, 2, 3 blocks, reading iv, and a final partial call',
              'histories': 'all up to 3 operations (4 for magma over a smaller alphabet), every partition of 6 blocks; one block, then one call of 63..1025 (z=2: 64 KiB) blocks, then more',
              'long life of one object': 'every 3-call word in one life of 3000 calls; 66000 one-block calls'},
    'thorough': {'objects': 'as quick plus IV of 4 and 5 blocks', 'operations': 'as quick',
                 'histories': 'all up to 4 operations (6 for magma over a smaller alphabet), every partition of 10 blocks',
                 'long life of one object': 'every 4-call word, 20000 calls; 200000 one-block calls'},
}
ASSUMPTIONS = ['a call whose data is not block-aligned ends a CFB/OFB stream (GOST R 34.13 partial last block)']


class Stream(System):
    def __init__(self, rec, alg, mode, pad, z, wide=True):
        self.rec, self.alg, self.mode, self.pad, self.z = rec, alg, mode, pad_of(mode, pad), z
        self.key = lambda b: (fp(b['impl']), b['ended']) if fp(b['impl']) else None
        self.secret = pattern('C03 key', 32)
        self.iv = None if mode == 'ECB' else pattern('C03 iv', N[alg] * z)
        n = N[alg]
        self.sizes = {'0': 0, '1': n, '2': 2 * n, '3': 3 * n} if wide else {'1': n, '2': 2 * n}
        self.partial = {'1/2': n // 2, '1+': n + 1, '3-': 3 * n - 1} if wide else {'1+': n + 1}

    def start(self):
        impl, model = pair(self.alg, self.secret, self.mode, self.iv, self.pad)
        return {'impl': impl, 'model': model, 'pos': 0, 'ended': False}

    def enabled(self, bundle):
        if bundle['ended']:
            return ()
        ops = [d + s for s in self.sizes for d in 'ED']
        if self.mode != 'ECB':
            ops.append('iv')
        ops += [d + s for s in self.partial for d in 'ED' if not (d == 'D' and self.pad)]
        if self.pad == 2:               # padding itself is C02's subject
            ops = [o for o in ops if o != 'E0' and not (o[0] == 'E' and o[1:] in self.partial)]
        return ops

    def apply(self, bundle, op):
        impl, model = bundle['impl'], bundle['model']
        if op == 'iv':
            same_bytes(impl.iv, model.iv(), 'iv')
            return
        name = op[1:]
        size = self.sizes.get(name, self.partial.get(name))
        data = pattern('C03 data %s' % op, size)
        if name in self.partial and not self.pad:
            bundle['ended'] = True
        if op[0] == 'E':
            out = check_encrypt(self.rec, impl, model, bytearray(data), op)
        else:
            out = impl.decrypt(bytearray(data))
            same_bytes(out, model.decrypt(data), op)
        self.rec.outcome((self.mode, len(out)))

    def observe(self, bundle):
        impl, model = bundle['impl'], bundle['model']
        if self.mode != 'ECB' and not bundle['ended']:
            same_bytes(impl.iv, model.iv(), 'iv')
            same_bytes(impl.iv, model.iv(), 'iv read twice')
        if not bundle['ended']:         # the whole register shows up over the next z blocks
            probe = bytes(N[self.alg] * (self.z + 1))
            same_bytes(impl.decrypt(bytearray(probe)), model.decrypt(probe), 'decrypt probe')
            if not self.pad:
                probe = probe[:N[self.alg]]
                same_bytes(impl.encrypt(bytearray(probe)), model.encrypt(probe), 'encrypt probe')


def histories(rec, alg, mode, pad, z, depth, first, wide=True):
    explore(rec, Stream(rec, alg, mode, pad, z, wide), depth, prefix=(first,), tree_depth=2)


def compositions(total):
    if total == 0:
        yield ()
    for head in range(1, total + 1):
        for tail in compositions(total - head):
            yield (head,) + tail


def partitions(rec, alg, mode, z, blocks):
    """Every way of cutting a message of `blocks` blocks into calls gives the one-shot result."""
    n = N[alg]
    secret = pattern('C03 pkey', 32)
    iv = None if mode == 'ECB' else pattern('C03 piv', n * z)
    plain = pattern('C03 plain', n * blocks)
    want = pair(alg, secret, mode, iv, 1)[1].encrypt(plain)
    for cut in compositions(blocks):
        with rec.case(lambda: {'cipher': alg, 'mode': mode, 'z': z, 'calls in blocks': cut}):
            enc = pair(alg, secret, mode, iv, pad_of(mode, 1))[0]
            dec = pair(alg, secret, mode, iv, pad_of(mode, 1))[0]
            out, back, pos = b'', b'', 0
            for size in cut:
                out += bytes(enc.encrypt(bytearray(plain[pos * n:(pos + size) * n])))
                back += bytes(dec.decrypt(bytearray(want[pos * n:(pos + size) * n])))
                pos += size
            same_bytes(out, want, 'encryption in several calls')
            same_bytes(back, plain, 'decryption in several calls')
            rec.state((alg, mode, z, cut))
            rec.step(2 * len(cut))
            rec.trace(2)


def far(rec, alg, mode, pad, z, blocks):
    """A one-block call, a very long call, a call of two blocks and the register, in both directions."""
    n = N[alg]
    secret = pattern('C03 fkey', 32)
    iv = None if mode == 'ECB' else pattern('C03 fiv', n * z)
    big = (pattern('C03 far', 4096) * (blocks * n // 4096 + 1))[:blocks * n]
    for encrypt in (True, False):
        impl, model = pair(alg, secret, mode, iv, pad_of(mode, pad))
        for index, data in enumerate((pattern('C03 far head', n), big, pattern('C03 far tail', 2 * n))):
            with rec.case(lambda: {'cipher': alg, 'mode': mode, 'z': z, 'encrypt': encrypt, 'call': index, 'bytes': len(data)}):
                if encrypt:
                    check_encrypt(rec, impl, model, bytearray(data), 'call %d' % index)
                else:
                    same_bytes(impl.decrypt(bytearray(data)), model.decrypt(data), 'call %d' % index)
                if mode != 'ECB':
                    same_bytes(impl.iv, model.iv(), 'iv')
                rec.state((alg, mode, z, encrypt, index, blocks))
                rec.step()
        rec.trace()


def walk(rec, alg, mode, z, calls, backwards):
    """A life of one-block calls, all in one direction but for one in 50 (backwards: only decryption)."""
    n = N[alg]
    secret = pattern('C03 wkey', 32)
    iv = None if mode == 'ECB' else pattern('C03 wiv', n * z)
    impl, model = pair(alg, secret, mode, iv, pad_of(mode, 1))
    data = pattern('C03 walk', n * 61)
    for call in range(calls):
        block = data[call % 61 * n:][:n]
        forwards = backwards == (call % 50 == 7)
        with rec.case(lambda: {'cipher': alg, 'mode': mode, 'z': z, 'one-block calls before': call, 'encrypt': forwards}):
            if forwards:
                same_bytes(impl.encrypt(bytearray(block)), model.encrypt(block), 'encrypt')
            else:
                same_bytes(impl.decrypt(bytearray(block)), model.decrypt(block), 'decrypt')
            rec.step()
    rec.state((alg, mode, z, calls, backwards))
    rec.trace()
    rec.note('longest history', calls)


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for alg in ALGS:
        for mode, pad in (('ECB', 1), ('ECB', 2), ('CBC', 1), ('CBC', 2), ('CFB', None), ('OFB', None)):
            zs = (1,) if mode == 'ECB' else (1, 2, 3, 4, 5) if deep else (1, 2, 3)
            for z in zs:
                depth = 4 if deep else 3
                names = Stream(None, alg, mode, pad, z).enabled({'ended': False})
                for op in names:
                    out.append(('%s %s pad %s z %d from %s' % (alg, mode, pad, z, op), histories,
                                (alg, mode, pad, z, depth, op)))
                if alg == 'magma':
                    for op in Stream(None, alg, mode, pad, z, False).enabled({'ended': False}):
                        out.append(('%s %s pad %s z %d narrow from %s' % (alg, mode, pad, z, op), histories,
                                    (alg, mode, pad, z, depth + (2 if deep else 1), op, False)))
                if pad in (1, None):
                    out.append(('%s %s z %d partitions' % (alg, mode, z), partitions,
                                (alg, mode, z, 10 if deep else 6)))
        for mode in ('ECB', 'CBC', 'CFB', 'OFB'):
            for z in (1, 2) if mode != 'ECB' else (1,):
                for blocks in (63, 65, 257, 1025) + ((65536 // N[alg] + 1,) if deep or z == 2 else ()):
                    out.append(('%s %s z %d far %d' % (alg, mode, z, blocks), far, (alg, mode, 1, z, blocks)))
        for mode in ('ECB', 'CBC', 'CFB', 'OFB'):
            for backwards in (False, True):
                out.append(('%s %s walk %s' % (alg, mode, 'of decryptions' if backwards else 'of encryptions'), walk, (alg, mode, 2, 200000 if deep else 66000, backwards)))
        for mode in ('CBC', 'CFB', 'OFB'):
            for z in (5, 9):
                for op in Stream(None, alg, mode, 1, z, False).enabled({'ended': False}):
                    out.append(('%s %s long register %d from %s' % (alg, mode, z, op), histories, (alg, mode, 1, z, 3, op, False)))
                out.append(('%s %s long register %d partitions' % (alg, mode, z), partitions, (alg, mode, z, z + 2 if z < 6 else 8)))
    for kind in [k for k in kinds.ciphers((1, 2, 3)) if k.mode != 'CTR']:
        out.append(('%s long life' % kind.name, marathon.life, (kind, 4 if deep else 3, 20000 if deep else 3000, (), False, False, True)))
    return out
