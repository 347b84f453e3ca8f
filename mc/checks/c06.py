"""C06: Streebog-256/512 of every message is the digest of GOST R 34.11-2012."""
from ..engine import fp, same, same_bytes
from ..env import pattern
from ..inject import find, put
from ..ref import gost as ref
from ..target import new_hash

BOUNDS = {
    'quick': {'lengths': '0..700 byte by byte, 127..130 blocks, around every power of two up to 2^14, 65536, 131099, 65537 blocks; 66000 blocks in one object',
              'contents': 'every (byte position, value) of a block (256-bit) / 16 values (512-bit), constant fills',
              'inner states': 'about 120 shapes of the state (and, by an injected length register, of the round key) at both stages of each of the 12 rounds',
              'carries': 'sum register: a carry out of every bit of the block; length register: out of every byte (injected)'},
    'thorough': {'lengths': '0..4200 byte by byte, around every power of two up to 2^18, 200000 blocks in one object',
                 'contents': 'every (byte position, value) of a 1-, 2-block message for both sizes',
                 'inner states': 'about 500 shapes', 'carries': 'as quick, and a carry out of every bit of the length register (injected)'},
}
ASSUMPTIONS = ['injected length registers stand for the states an (unwalkable) longer stream reaches']


def one(rec, bits, data, how):
    with rec.case(lambda: {'bits': bits, 'length': len(data), 'data': data, 'how': how}):
        want = ref.streebog(bits, data)
        if how == 'new':
            obj = new_hash(bits, data=data)
        else:
            obj = new_hash(bits)
            obj.update(bytearray(data))
        same_bytes(obj.digest(), want, 'digest')
        same(obj.hexdigest(), want.hex(), 'hexdigest')
        rec.state((bits, data))
        rec.step(2)
        rec.trace()
        rec.outcome(want.hex()[:16])
        rec.sample({'bits': bits, 'length': len(data), 'digest': want.hex()})


def lengths(rec, bits, sizes, fill):
    for size in sizes:
        data = pattern('C06 %d' % size, size) if fill is None else bytes([fill]) * size
        one(rec, bits, data, 'new' if size & 1 else 'update')


def positions(rec, bits, base, first, last, values):
    for pos in range(first, last):
        for val in values:
            data = bytearray(pattern('C06 pos', base))
            data[pos] = val
            one(rec, bits, bytes(data), 'new')


def sigma(rec, bits, step):
    """Two blocks whose sum carries out of exactly the chosen bit, alone and as a full ripple."""
    for bit in range(0, 512, step):
        ripple = ((1 << 512) - (1 << bit)).to_bytes(64, 'little')
        single = (1 << bit).to_bytes(64, 'little')
        one(rec, bits, ripple + single, 'new')
        one(rec, bits, single + single + b'tail', 'new')
        if bit % 8 == 0:
            one(rec, bits, (b'\xff' * (bit // 8 + 1)).ljust(64, b'\0') + b'\x01', 'new')


def walk(rec, bits, blocks, check_at):
    """One object, one block per update; digests at chosen lengths."""
    obj, model = new_hash(bits), ref.Streebog(bits)
    for i in range(1, blocks + 1):
        block = pattern('C06 walk %d' % (i % 50), 64)
        with rec.case(lambda: {'bits': bits, 'blocks': i}):
            obj.update(block)
            model.block(block)
            if i in check_at or i == blocks:
                snap = ref.Streebog(bits)
                snap.__dict__.update(model.__dict__)
                same_bytes(obj.digest(), snap.final(b''), 'digest after %d blocks' % i)
                rec.trace()
                rec.state((bits, i))
            rec.step()


def one_update(rec, bits, size):
    data = pattern('C06 big', 4096) * (size // 4096 + 1)
    one(rec, bits, data[:size], 'update')
    with rec.case(lambda: {'bits': bits, 'constructor data': 3, 'update': size}):
        obj = new_hash(bits, data=b'abc')
        obj.update(bytearray(data[:size]))
        same_bytes(obj.digest(), ref.streebog(bits, b'abc' + data[:size]), 'digest')
        rec.step(2)
        rec.trace()
        rec.state((bits, size, 'abc'))


def blocks_at_once(rec, bits, blocks):
    data = pattern('C06 blocks', 4099)
    data = (data * (64 * blocks // 4099 + 1))[:64 * blocks + 3]
    with rec.case(lambda: {'bits': bits, 'one update of': len(data)}, 300):
        obj = new_hash(bits)
        obj.update(bytearray(data))
        same_bytes(obj.digest(), ref.streebog(bits, data), 'digest')
        rec.step(blocks)
        rec.trace()
        rec.state((bits, blocks))


def shapes64(dense):
    """States of 8 x 8 bytes a table slip or a shortcut would react to."""
    base = pattern('C06 shapes', 64)
    out = [bytes(64), b'\xff' * 64, bytes(range(64)), base[:32] * 2, base[:8] * 8, b''.join(base[i:i + 1] * 8 for i in range(8))]
    out += [bytes([v]) * 64 for v in (1, 0x20, 0x30, 0x80, 0x7f)] + [bytes(c) for c in ref.C]
    for i in range(8):
        out.append(base[:8 * i] + bytes(8) + base[8 * i + 8:])                                  # a zero row
        out.append(bytes(8 * i) + base[8 * i:8 * i + 8] + bytes(56 - 8 * i))                    # nothing but a row
        out.append(bytes(0 if j % 8 == i else base[j] for j in range(64)))                      # a zero column
        out.append(bytes(base[j] if j % 8 == i else 0 for j in range(64)))
        out.append(base[:8 * i] + b'\xff' * 8 + base[8 * i + 8:])
    for pos in range(0, 64, 1 if dense else 3):
        for val in (1, 0x80, 0xff) if dense else (1 << pos % 8,):
            out.append(bytes(pos) + bytes([val]) + bytes(63 - pos))
        out += [bytes(pos) + base[pos:], base[pos:] + bytes(pos)]
        if dense:
            out += [b'\xff' * pos + base[pos:], base[:pos] + bytes(1) + base[pos + 1:]]
    return sorted(set(out))


def _undo_table():
    """Inverse of the linear transformation, by elimination over GF(2)."""
    rows = [[ref.A[63 - i], 1 << i] for i in range(64)]      # image of bit i
    for bit in range(64):
        pivot = next(j for j in range(bit, 64) if rows[j][0] >> bit & 1)
        rows[bit], rows[pivot] = rows[pivot], rows[bit]
        for j in range(64):
            if j != bit and rows[j][0] >> bit & 1:
                rows[j][0] ^= rows[bit][0]
                rows[j][1] ^= rows[bit][1]
    return [row[1] for row in rows]


def undo_lps(state, undo):
    out = bytearray(64)
    inv = bytes(ref.PI.index(v) for v in range(256))
    for i in range(8):
        value, back = int.from_bytes(state[8 * i:8 * i + 8], 'little'), 0
        for bit in range(64):
            if value >> bit & 1:
                back ^= undo[bit]
        for j, v in enumerate(back.to_bytes(8, 'little')):
            out[8 * j + i] = inv[v]
    return bytes(out)


def inner(rec, bits, turn, dense):
    """The state before round `turn` of the first block takes every shape, before the substitution and before the transposition."""
    undo = _undo_table()
    if ref._lps(undo_lps(bytes(range(64)), undo)) != bytes(range(64)):
        raise AssertionError('LPS is not inverted')
    keys = [ref._lps(ref.Streebog(bits).h)]
    for c in ref.C:
        keys.append(ref._lps(ref._x(keys[-1], c)))
    inv = bytes(ref.PI.index(v) for v in range(256))
    for shape in shapes64(dense):
        for state in (shape, shape.translate(inv)):
            for i in range(turn, -1, -1):
                state = ref._x(keys[i], state)
                if i:
                    state = undo_lps(state, undo)
            one(rec, bits, state + b'next', 'new')


def inner_keys(rec, bits, turn, dense):
    """Step `turn` of the key schedule meets every shape, before the substitution and before the transposition: the length register is chosen for that."""
    undo = _undo_table()
    inv = bytes(ref.PI.index(v) for v in range(256))
    places = registers(bits)
    if not places:
        rec.note('injection not possible')
        rec.step()
        rec.trace()
        return
    block = pattern('C06 inj', 64)
    for shape in shapes64(dense):
        for state in (shape, shape.translate(inv)):
            for i in range(turn, 0, -1):
                state = undo_lps(ref._x(state, ref.C[i - 1]), undo)
            obj, model = new_hash(bits), ref.Streebog(bits)
            obj.update(block)
            model.block(block)
            # the input of the first LPS of the schedule is h xor n
            model.n = int.from_bytes(ref._x(state, model.h), 'little')
            with rec.case(lambda: {'bits': bits, 'length register': hex(model.n)}):
                for place in places:
                    put(obj, place, model.n, 64)
                obj.update(block)
                model.block(block)
                same_bytes(obj.digest(), model.final(b''), 'digest')
                rec.state((bits, turn, shape, state))
                rec.step(3)
                rec.trace()


def registers(bits):
    """Where the length register lives, if putting a value there has the effect of walking there."""
    block = pattern('C06 inj', 64)

    def advance(obj):
        obj.update(block)
    places = list(find(new_hash(bits), [(advance, 512 * i, 64) for i in (1, 2, 3)]))
    if not places:
        return []
    walked, jumped = new_hash(bits), new_hash(bits)
    for _ in range(2):
        walked.update(block)
        jumped.update(block)
    for place in places:
        put(jumped, place, 1024, 64)
    return places if fp(walked) is not None and fp(walked) == fp(jumped) else []


def counter_carry(rec, bits, step):
    """The length register just below every carry, by injection into an equivalent object."""
    block = pattern('C06 inj', 64)
    places = registers(bits)
    if not places:
        rec.note('injection not possible')
        rec.step()
        rec.trace()
        return
    for bit in range(10, 512, step):
        with rec.case(lambda: {'bits': bits, 'length register': '2^%d - 512' % bit}):
            obj, model = new_hash(bits), ref.Streebog(bits)
            obj.update(block)
            model.block(block)
            value = ((1 << bit) - 512) % (1 << 512)
            for place in places:
                put(obj, place, value, 64)
            model.n = value
            for _ in range(2):
                obj.update(block)
                model.block(block)
            obj.update(b'end')
            same_bytes(obj.digest(), model.final(b'end'), 'digest')
            rec.state((bits, bit))
            rec.step(4)
            rec.trace()
            rec.note('length carries')


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for bits in (256, 512):
        top = 4200 if deep else 700
        for begin in range(0, top, 70 if not deep else 100):
            sizes = list(range(begin, min(begin + (70 if not deep else 100), top)))
            out.append(('%d lengths %d..' % (bits, begin), lengths, (bits, sizes, None)))
        for fill in (0, 1, 0x80, 255):
            out.append(('%d fill %d' % (bits, fill), lengths, (bits, list(range(0, 200 if deep else 135)), fill)))
        sparse = []
        for power in range(10, 19 if deep else 15):
            sparse += [(1 << power) - 1, 1 << power, (1 << power) + 1]
        sparse += [64 * b + r for b in (127, 128, 129, 130, 255, 256, 257) for r in (0, 63)]
        for size in sorted(set(sparse)):
            out.append(('%d length %d' % (bits, size), lengths, (bits, [size], None)))
        values = tuple(range(256)) if deep or bits == 256 else tuple(range(0, 256, 17))
        for pos in range(0, 64, 4):
            out.append(('%d positions %d..' % (bits, pos), positions, (bits, 64, pos, pos + 4, values)))
        for pos in range(0, 128 if deep else 0, 4):
            out.append(('%d two-block positions %d..' % (bits, pos), positions, (bits, 128, pos, pos + 4, values)))
        out.append(('%d positions of 63' % bits, positions, (bits, 63, 0, 63, tuple(range(0, 256, 51)))))
        out.append(('%d sigma carries' % bits, sigma, (bits, 1 if deep else 3)))
        marks = {1, 2, 127, 128, 129, 255, 256, 257, 8191, 8192, 16383, 16384, 32767, 32768, 32769, 65535, 65536, 65537}
        out.append(('%d walk' % bits, walk, (bits, 200000 if deep else 66000, marks)))
        out.append(('%d length carries' % bits, counter_carry, (bits, 1 if deep else 2)))
        for turn in range(12):
            out.append(('%d inner states %d' % (bits, turn), inner, (bits, turn, deep)))
            out.append(('%d inner keys %d' % (bits, turn), inner_keys, (bits, turn, deep)))
        for size in (65536, 131099):
            out.append(('%d one update of %d' % (bits, size), one_update, (bits, size)))
        out.append(('%d one update of 65537 blocks' % bits, blocks_at_once, (bits, 65537)))
        if deep:
            out.append(('%d one update of 2 MiB' % bits, one_update, (bits, 2 << 20)))
    return out
