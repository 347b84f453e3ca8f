"""C07: hash objects: update/copy/reset/digest histories behave like message concatenation."""
from .. import kinds, marathon, middle
from ..engine import Mismatch, System, explore, fp, same, same_bytes
from ..env import pattern
from ..ref import gost as ref
from ..target import new_hash

BOUNDS = {
    'quick': {'objects': 'two live objects A and B per hash size, A created with or without data',
              'operations': 'update of 0, 1, 63, 64, 65, 128 bytes, digest, hexdigest, reset on either, copy in both directions',
              'histories': 'all up to 3 operations, up to 4 over a smaller alphabet (merged states beyond 2)',
              'partitions': 'every 2-cut of 0..200 bytes, every partition of 6 blocks and of 7 half-blocks; 1..100 bytes, then one update of up to 65537, then more',
              'middle of a message': 'digests, copies, resets after every length 0..130, then 1, 64 or as many bytes as fill the block',
              'long life of one object': 'every 4-call word in one life of 5000 calls, with and without reset; 66000 one-byte updates, empty updates, copies of copies, resets; 8000 digests'},
    'thorough': {'objects': 'as quick', 'operations': 'as quick plus update of 2, 62, 127, 129, 192 bytes',
                 'histories': 'all up to 4 operations, up to 6 over a smaller alphabet',
                 'partitions': 'every 2-cut of 0..400 bytes, every 3-cut of 130, every partition of 10 blocks',
                 'long life of one object': 'every 5-call word, 40000 calls; as quick with 66000 digests'},
}
ASSUMPTIONS = ['memoised reference digests']
_MEMO = {}


def model_digest(bits, data):
    key = bits, data
    if key not in _MEMO:
        if len(_MEMO) > 20000:
            _MEMO.clear()
        _MEMO[key] = ref.streebog(bits, data)
    return _MEMO[key]


class Pair(System):
    def __init__(self, rec, bits, sizes, two=True, initial=None):
        self.rec, self.bits, self.sizes, self.two, self.initial = rec, bits, sizes, two, initial

    def start(self):
        impl = new_hash(self.bits) if self.initial is None else new_hash(self.bits, data=self.initial)
        return {'A': impl, 'a': self.initial or b'', 'B': None, 'b': None}

    def key(self, bundle):
        marks = fp(bundle['A'], bundle['B'])
        return None if marks is None else (marks, bundle['a'], bundle['b'])

    def enabled(self, bundle):
        ops = ['A+%d' % s for s in self.sizes] + ['A.digest', 'A.hex', 'A.reset']
        if self.two:
            ops.append('B=A.copy')
            if bundle['B'] is not None:
                ops += ['B+%d' % s for s in self.sizes] + ['B.digest', 'B.hex', 'B.reset', 'A=B.copy']
        return ops

    def apply(self, bundle, op):
        who = op[0]
        impl, low = bundle[who], who.lower()
        if op[1] == '+':
            data = pattern('C07 %s' % op, int(op[2:]))
            result = impl.update(data if len(data) & 1 else bytearray(data))
            if result is not None:
                raise Mismatch('update returned %r' % result)
            bundle[low] += data
        elif op.endswith('digest'):
            same_bytes(impl.digest(), model_digest(self.bits, bundle[low]), op)
        elif op.endswith('hex'):
            same(impl.hexdigest(), model_digest(self.bits, bundle[low]).hex(), op)
        elif op.endswith('reset'):
            impl.reset()
            bundle[low] = b''
        else:
            source = 'A' if who == 'B' else 'B'
            copied = bundle[source].copy()
            if copied is bundle[source]:
                raise Mismatch('copy() returned the object itself')
            if type(copied) is not type(bundle[source]):
                raise Mismatch('copy() returned %r' % type(copied))
            bundle[who], bundle[low] = copied, bundle[source.lower()]
        self.rec.outcome((who, len(bundle[low] or b'')))

    def observe(self, bundle):
        for who in 'BA':
            impl = bundle[who]
            if impl is not None:
                want = model_digest(self.bits, bundle[who.lower()])
                same_bytes(impl.digest(), want, '%s.digest of %d bytes' % (who, len(bundle[who.lower()])))
                same(impl.hexdigest(), want.hex(), '%s.hexdigest' % who)


def histories(rec, bits, sizes, depth, prefix, initial=None):
    explore(rec, Pair(rec, bits, sizes, True, initial), depth, prefix=prefix, tree_depth=2)


def single(rec, bits, sizes, depth, prefix):
    explore(rec, Pair(rec, bits, sizes, False), depth, prefix=prefix, tree_depth=1)


def cuts(rec, bits, size, parts=2):
    data = pattern('C07 cuts %d' % size, size)
    want = ref.streebog(bits, data)
    for first in range(size + 1):
        for second in (range(first, size + 1) if parts == 3 else (size,)):
            with rec.case(lambda: {'bits': bits, 'data': data, 'cuts': [first, second]}):
                if first & 1:
                    obj = new_hash(bits, data=data[:first])
                else:
                    obj = new_hash(bits)
                    obj.update(data[:first])
                obj.update(data[first:second])
                if parts == 3:
                    obj.update(data[second:])
                same_bytes(obj.digest(), want, 'digest in pieces')
                rec.state((bits, size, first, second))
                rec.step(parts)
                rec.trace()


def partitions(rec, bits, unit, count):
    data = pattern('C07 parts', unit * count)
    want = ref.streebog(bits, data)
    for mask in range(1 << (count - 1)):
        with rec.case(lambda: {'bits': bits, 'unit': unit, 'cut mask': bin(mask)}):
            obj = new_hash(bits)
            begin = 0
            for i in range(1, count + 1):
                if i == count or mask >> (i - 1) & 1:
                    obj.update(bytearray(data[begin * unit:i * unit]))
                    begin = i
                    rec.step()
            same_bytes(obj.digest(), want, 'digest in pieces')
            rec.state((bits, unit, mask))
            rec.trace()


def trickle(rec, bits, size, chunk):
    """The whole message in equal small updates, a digest after every update."""
    data = pattern('C07 trickle', size)
    obj = new_hash(bits)
    for pos in range(0, size, chunk):
        with rec.case(lambda: {'bits': bits, 'chunk': chunk, 'fed': pos + chunk}):
            obj.update(data[pos:pos + chunk])
            same_bytes(obj.digest(), ref.streebog(bits, data[:pos + chunk]), 'digest')
            rec.state((bits, chunk, pos))
            rec.step(2)
    rec.trace()


def far(rec, bits, first, big):
    """A short update, a very long one, a short one, then a copy that goes on: digests all the way."""
    parts = (pattern('C07 far head', first), (pattern('C07 far', 4096) * (big // 4096 + 1))[:big], pattern('C07 far tail', 70))
    obj, fed, model = new_hash(bits), b'', []
    for index, part in enumerate(parts):
        with rec.case(lambda: {'bits': bits, 'update sizes': [len(p) for p in parts[:index + 1]]}):
            obj.update(bytearray(part) if index != 1 or first & 1 else part)
            fed += part
            if index:
                twin = obj.copy()
                want = ref.streebog(bits, fed)
                same_bytes(obj.digest(), want, 'digest')
                same_bytes(twin.digest(), want, 'digest of a copy')
                twin.update(parts[2])
                same_bytes(twin.digest(), ref.streebog(bits, fed + parts[2]), 'digest of a copy that went on')
            rec.state((bits, first, big, index))
            rec.step(3)
            rec.outcome(len(fed))
    rec.trace()


def many(rec, bits, what, calls):
    """The same cheap call very many times in one life (or in one line of copies)."""
    data = pattern('C07 many', 61 * 64)
    obj, model, rest = new_hash(bits), ref.Streebog(bits), b''
    for call in range(1, calls + 1):
        part = data[call % 61 * 64:][:0 if what in ('empty', 'reset') else 64 if what == 'digest' and call % 64 == 0 else 1]
        with rec.case(lambda: {'bits': bits, 'kind of life': what, 'calls': call}):
            if what == 'copy':
                old, obj = obj, obj.copy()
                if call % 3 == 0:
                    old.update(b'left behind')
            elif what == 'reset':
                obj.reset()
            obj.update(part)
            rest += part
            while len(rest) >= 64:
                model.block(rest[:64])
                rest = rest[64:]
            if call % 997 == 0 or call & (call - 1) == 0 or call & (call + 1) == 0 or call == calls or what == 'digest':
                snap = ref.Streebog(bits)
                snap.__dict__.update(model.__dict__)
                same_bytes(obj.digest(), snap.final(rest), 'digest after %d calls' % call)
                rec.state((bits, what, call))
                rec.trace()
            rec.step()
    rec.note('longest history', calls)


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    wide = (0, 1, 63, 64, 65, 128) + ((2, 62, 127, 129, 192) if deep else ())
    narrow = (1, 63, 64)
    for bits in (256, 512):
        for initial in (None, b'', b'x' * 64, b'y' * 65):
            names = Pair(None, bits, wide).enabled({'B': None})
            for op in names:
                out.append(('%d pair %s from %s' % (bits, initial and len(initial), op), histories,
                            (bits, wide, (4 if deep else 3) if initial is None else (3 if deep else 2), (op,), initial))
                           if initial != b'' else
                           ('%d pair empty from %s' % (bits, op), histories, (bits, wide, 2, (op,), initial)))
        names = Pair(None, bits, narrow).enabled({'B': None})
        for op in names:
            out.append(('%d narrow pair from %s' % (bits, op), histories, (bits, narrow, 6 if deep else 4, (op,))))
            out.append(('%d single from %s' % (bits, op), single, (bits, (0,) + narrow, 6 if deep else 4, (op,)))
                       if op != 'B=A.copy' else ('%d single from 0' % bits, single,
                                                 (bits, (0,) + narrow, 6 if deep else 4, ('A+0',))))
        step = 4
        for size in range(0, 401 if deep else 201, 1 if deep else step):
            out.append(('%d 2-cuts of %d' % (bits, size), cuts, (bits, size)))
        for size in (63, 64, 65, 127, 128, 129, 191, 193):
            if not (deep or size % step == 0):
                out.append(('%d 2-cuts of %d' % (bits, size), cuts, (bits, size)))
        if deep:
            out.append(('%d 3-cuts' % bits, cuts, (bits, 130, 3)))
        out.append(('%d block partitions' % bits, partitions, (bits, 64, 10 if deep else 6)))
        out.append(('%d half-block partitions' % bits, partitions, (bits, 32, 11 if deep else 7)))
        out.append(('%d odd partitions' % bits, partitions, (bits, 37, 9 if deep else 6)))
        for first in (1, 63, 64, 65, 100):
            for big in (4095, 65536, 65537) + ((131099, 1 << 20) if deep else ()):
                out.append(('%d far %d %d' % (bits, first, big), far, (bits, first, big)))
        for chunk in (1, 7, 63, 64, 65, 100):
            out.append(('%d trickle %d' % (bits, chunk), trickle, (bits, 260 if not deep else 900, chunk)))
    for bits in (256, 512):
        out += middle.jobs(middle.Hash, (bits,), 260 if deep else 131, 8, (0, 1, 31, 64, 65) if deep else (1, 64))
    for kind in [kinds.Hash(bits, first) for bits in (256, 512) for first in (5, 0)]:
        out.append(('%s long life' % kind.name, marathon.life, (kind, 5 if deep else 4, 40000 if deep else 5000, (), False, False, True)))
    for bits in (256, 512):
        for what in ('byte', 'empty', 'copy', 'reset', 'digest'):
            out.append(('%d many %s' % (bits, what), many, (bits, what, 8000 if what == 'digest' and not deep else 66000)))
        out.append(('%d long life without reset' % bits, marathon.life, (kinds.Hash(bits), 5 if deep else 4, 20000 if deep else 4000, ('reset',))))
    return out
