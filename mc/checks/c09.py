"""C09: HMAC objects: update/copy/reset/digest/clear histories behave like keyed concatenation."""
from .. import kinds, marathon, middle
from ..engine import Mismatch, System, explore, fp, same, same_bytes
from ..env import pattern
from ..ref import gost as ref
from ..target import new_hmac

BOUNDS = {
    'quick': {'objects': 'two live objects A and B, keys of 0, 32, 64 bytes',
              'operations': 'update of 0, 1, 63, 64, 65 bytes, digest, hexdigest, reset on either, copy both ways',
              'histories': 'all up to 3 operations, up to 4 over a smaller alphabet',
              'partitions': 'every 2-cut of 0..130 bytes (512 bits: of selected lengths), every partition of 5 blocks',
              'middle of a message': 'digests, copies, resets, clearing a copy after every length 0..130, then 1, 64 or as many bytes as fill the block',
              'long life of one object': 'every 3-call word in one life of 1500 calls, with and without reset; 66000 one-byte updates, empty updates, copies of copies, 20000 resets, 4000 digests'},
    'thorough': {'objects': 'keys of 0, 1, 32, 63, 64 bytes', 'operations': 'as quick',
                 'histories': 'all up to 4 operations, up to 5 over a smaller alphabet',
                 'partitions': 'every 2-cut of 0..200, every partition of 9 blocks',
                 'long life of one object': 'every 4-call word, 20000 calls; up to three times the long lives of the quick tier'},
}
ASSUMPTIONS = ['memoised reference codes']
_MEMO = {}


def model_mac(bits, key, data):
    ident = bits, key, data
    if ident not in _MEMO:
        if len(_MEMO) > 20000:
            _MEMO.clear()
        _MEMO[ident] = ref.hmac(bits, key, data)
    return _MEMO[ident]


class Pair(System):
    def __init__(self, rec, bits, key_size, sizes):
        self.rec, self.bits, self.sizes = rec, bits, sizes
        self.secret = pattern('C09 key', key_size)

    def start(self):
        return {'A': new_hmac(self.bits, bytearray(self.secret)), 'a': b'', 'B': None, 'b': None}

    def key(self, bundle):
        marks = fp(bundle['A'], bundle['B'])
        return None if marks is None else (marks, bundle['a'], bundle['b'])

    def enabled(self, bundle):
        ops = ['A+%d' % s for s in self.sizes] + ['A.digest', 'A.hex', 'A.reset', 'B=A.copy']
        if bundle['B'] is not None:
            ops += ['B+%d' % s for s in self.sizes] + ['B.digest', 'B.hex', 'B.reset', 'A=B.copy', 'B.clear']
        return ops

    def apply(self, bundle, op):
        who = op[0]
        impl, low = bundle[who], who.lower()
        if op[1] == '+':
            data = pattern('C09 %s' % op, int(op[2:]))
            impl.update(data if len(data) & 1 else bytearray(data))
            bundle[low] += data
        elif op.endswith('digest'):
            same_bytes(impl.digest(), model_mac(self.bits, self.secret, bundle[low]), op)
        elif op.endswith('hex'):
            same(impl.hexdigest(), model_mac(self.bits, self.secret, bundle[low]).hex(), op)
        elif op.endswith('reset'):
            impl.reset()
            bundle[low] = b''
        elif op.endswith('clear'):
            impl.clear()                # clearing a copy must leave the original alone
            bundle[who] = bundle[low] = None
        else:
            source = 'A' if who == 'B' else 'B'
            copied = bundle[source].copy()
            if copied is bundle[source]:
                raise Mismatch('copy() returned the object itself')
            bundle[who], bundle[low] = copied, bundle[source.lower()]
        self.rec.outcome((who, len(bundle[low] or b'')))

    def observe(self, bundle):
        for who in 'BA':
            impl = bundle[who]
            if impl is not None:
                want = model_mac(self.bits, self.secret, bundle[who.lower()])
                same_bytes(impl.digest(), want, '%s.digest of %d bytes' % (who, len(bundle[who.lower()])))
                same_bytes(impl.digest(), want, '%s.digest asked twice' % who)


def histories(rec, bits, key_size, sizes, depth, prefix):
    explore(rec, Pair(rec, bits, key_size, sizes), depth, prefix=prefix, tree_depth=2)


def cuts(rec, bits, size):
    key = pattern('C09 ckey', 40)
    data = pattern('C09 cuts', size)
    want = ref.hmac(bits, key, data)
    for cut in range(size + 1):
        with rec.case(lambda: {'bits': bits, 'data': data, 'cut': cut}):
            obj = new_hmac(bits, key, data[:cut])
            obj.update(data[cut:])
            same_bytes(obj.digest(), want, 'in two pieces')
            rec.state((bits, size, cut))
            rec.step(2)
            rec.trace()


def partitions(rec, bits, unit, count):
    key = pattern('C09 pkey', 64)
    data = pattern('C09 parts', unit * count)
    want = ref.hmac(bits, key, data)
    for mask in range(1 << (count - 1)):
        with rec.case(lambda: {'bits': bits, 'unit': unit, 'cut mask': bin(mask)}):
            obj = new_hmac(bits, key)
            begin = 0
            for i in range(1, count + 1):
                if i == count or mask >> (i - 1) & 1:
                    obj.update(bytearray(data[begin * unit:i * unit]))
                    begin = i
                    rec.step()
            same_bytes(obj.digest(), want, 'in pieces')
            rec.state((bits, unit, mask))
            rec.trace()


def far(rec, bits, first, big):
    """A short update, a very long one, a short one, then reset and the same again."""
    key = pattern('C09 fkey', 33)
    parts = (pattern('C09 far head', first), (pattern('C09 far', 4096) * (big // 4096 + 1))[:big], pattern('C09 far tail', 70))
    want = ref.hmac(bits, key, b''.join(parts))
    obj = new_hmac(bits, key)
    for turn in range(2):
        with rec.case(lambda: {'bits': bits, 'update sizes': [len(p) for p in parts], 'turn': turn}):
            for part in parts:
                obj.update(bytearray(part) if turn else part)
                rec.step()
            same_bytes(obj.copy().digest(), want, 'digest of a copy')
            same_bytes(obj.digest(), want, 'digest')
            obj.reset()
            rec.state((bits, first, big, turn))
            rec.trace()
            rec.outcome(want.hex()[:16])


def many(rec, bits, what, calls):
    """The same cheap call very many times in one life (or in one line of copies)."""
    key = pattern('C09 mkey', 33)
    data = pattern('C09 many', 61)
    obj, model, rest = new_hmac(bits, key), ref.Streebog(bits), b''
    model.block(bytes(b ^ 0x36 for b in key.ljust(64, b'\0')))
    outer = bytes(b ^ 0x5c for b in key.ljust(64, b'\0'))
    for call in range(1, calls + 1):
        part = data[call % 61:][:0 if what in ('empty', 'reset') else 1]
        with rec.case(lambda: {'bits': bits, 'kind of life': what, 'calls': call}):
            if what == 'copy':
                old, obj = obj, obj.copy()
                if call % 3 == 0:
                    old.update(b'left behind')
            elif what == 'reset':
                obj.reset()
            obj.update(part)
            rest += part
            while len(rest) >= 64:
                model.block(rest[:64])
                rest = rest[64:]
            if call % 997 == 0 or call & (call - 1) == 0 or call & (call + 1) == 0 or call == calls or what == 'digest':
                snap = ref.Streebog(bits)
                snap.__dict__.update(model.__dict__)
                same_bytes(obj.digest(), ref.streebog(bits, outer + snap.final(rest)), 'digest after %d calls' % call)
                rec.state((bits, what, call))
                rec.trace()
            rec.step()
    rec.note('longest history', calls)


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for bits in (256, 512):
        for key_size in (0, 1, 32, 63, 64) if deep else (0, 32, 64):
            sizes = (0, 1, 63, 64, 65)
            for op in Pair(None, bits, key_size, sizes).enabled({'B': None}):
                out.append(('%d key %d from %s' % (bits, key_size, op), histories,
                            (bits, key_size, sizes, 4 if deep else 3, (op,))))
        for op in Pair(None, bits, 32, (1, 64)).enabled({'B': None}):
            out.append(('%d narrow from %s' % (bits, op), histories, (bits, 32, (1, 64), 5 if deep else 4, (op,))))
        for size in range(0, 201) if deep else range(0, 131) if bits == 256 else (1, 2, 63, 64, 65, 127, 128, 130):
            out.append(('%d 2-cuts of %d' % (bits, size), cuts, (bits, size)))
        for first in (1, 63, 64):
            for big in (4095, 65537) + ((1 << 18,) if deep else ()):
                out.append(('%d far %d %d' % (bits, first, big), far, (bits, first, big)))
        for unit in (64, 32, 21):
            out.append(('%d partitions of %d' % (bits, unit), partitions, (bits, unit, 9 if deep else 5)))
    for bits in (256, 512):
        out += middle.jobs(middle.Hmac, (bits,), 195 if deep else 131, 4, (0, 1, 31, 64, 65) if deep else (1, 64))
    for kind in [kinds.Hmac(bits, size) for bits in (256, 512) for size in (32, 64)]:
        out.append(('%s long life' % kind.name, marathon.life, (kind, 4 if deep else 3, 20000 if deep else 1500, (), False, False, True)))
    for bits in (256, 512):
        for what in ('byte', 'empty', 'copy', 'reset', 'digest'):
            out.append(('%d many %s' % (bits, what), many, (bits, what, {'digest': 4000, 'reset': 20000}.get(what, 66000) * (1 if not deep or what == 'byte' else 3))))
        out.append(('%d long life without reset' % bits, marathon.life, (kinds.Hmac(bits), 5 if deep else 4, 20000 if deep else 1500, ('reset',))))
    return out
