"""C01: both block ciphers are the bijections of GOST R 34.12-2015, for every key and block."""
from ..engine import same_bytes
from ..env import pattern
from ..ref import gost as ref
from ..target import G, new_cipher

BOUNDS = {
    'quick': {'keys': 'every (byte position, value) of a 32-byte key; all keys of weight 0, 1, 255, 256',
              'blocks': 'every (byte position, value) of a block over 2 bases; all blocks of weight 0, 1, n-1, n',
              'inner states': 'every stage of every round and key schedule step x about 130 shaped states (Kuznechik), 190 boundary words (Magma)',
              'magma carries': '8 key words x 26 boundary words x 26 boundary halves',
              'chains': '1200 iterated encryptions and back, per cipher'},
    'thorough': {'keys': 'as quick over 4 bases, plus all keys of weight 2',
                 'blocks': 'as quick over 8 bases, plus all blocks of weight 2',
                 'inner states': 'as quick, all stages of the key schedule, 4 Magma keys',
                 'magma carries': '8 key words x 60 boundary words x 60 boundary halves',
                 'chains': '30000 iterated encryptions and back, per cipher'},
}
ASSUMPTIONS = ['bytes outside the varied positions are fixed by VERIF_SEED']
SIZE = {'kuznechik': 16, 'magma': 8}


def raw(alg, key):
    cls = {'kuznechik': 'GOST34122015Kuznechik', 'magma': 'GOST34122015Magma'}[alg]
    return getattr(G.gostcipher, cls)(bytearray(key))


def one(rec, alg, key, block, obj=None, model=None, via='raw'):
    """Encrypt and decrypt one block on the implementation and on the model."""
    with rec.case(lambda: {'cipher': alg, 'key': key, 'block': block, 'via': via}):
        obj = obj or (raw(alg, key) if via == 'raw' else new_cipher(alg, key, 'ECB'))
        model = model or ref.cipher(alg, key)
        want = model.encrypt(bytes(block))
        got = obj.encrypt(bytearray(block))
        same_bytes(got, want, 'encrypt')
        back = obj.decrypt(bytearray(want))
        same_bytes(back, block, 'decrypt(encrypt(block))')
        other = obj.decrypt(bytearray(block))
        same_bytes(other, model.decrypt(bytes(block)), 'decrypt')
        rec.state((alg, key, block))
        rec.step(3)
        rec.trace()
        rec.outcome(got.hex())
        rec.sample({'cipher': alg, 'key': key.hex(), 'block': block.hex(), 'result': got.hex()})


def keys_by_byte(rec, alg, base, first, last):
    block = pattern('C01 block %s %s' % (alg, base), SIZE[alg])
    for pos in range(first, last):
        for val in range(256):
            key = bytearray(pattern('C01 key %s' % base, 32))
            key[pos] = val
            one(rec, alg, bytes(key), block, via='raw' if val & 1 else 'ecb')


def sparse(size, weight):
    """All byte strings of `size` bytes with the given number of one bits, and their complements."""
    bits = size * 8
    full = (1 << bits) - 1
    out = []
    if weight == 0:
        out = [0]
    elif weight == 1:
        out = [1 << i for i in range(bits)]
    else:
        out = [1 << i | 1 << j for i in range(bits) for j in range(i)]
    return [v.to_bytes(size, 'big') for v in out] + [(full ^ v).to_bytes(size, 'big') for v in out]


def keys_sparse(rec, alg, weight, part, parts):
    block = pattern('C01 sparse block %s' % alg, SIZE[alg])
    for key in sparse(32, weight)[part::parts]:
        one(rec, alg, key, block)


def blocks_by_byte(rec, alg, base):
    key = {'zero': bytes(32)}.get(base) or pattern('C01 bkey %s' % base, 32)
    obj, model = raw(alg, key), ref.cipher(alg, key)
    for pos in range(SIZE[alg]):
        for val in range(256):
            block = bytearray(pattern('C01 block %s' % base, SIZE[alg]))
            block[pos] = val
            one(rec, alg, key, bytes(block), obj, model)
    for weight in (0, 1):
        for block in sparse(SIZE[alg], weight):
            one(rec, alg, key, block, obj, model)


def blocks_pairs(rec, alg, part, parts):
    key = pattern('C01 pair key', 32)
    obj, model = raw(alg, key), ref.cipher(alg, key)
    for block in sparse(SIZE[alg], 2)[part::parts]:
        one(rec, alg, key, block, obj, model)


def ecb_many(rec, alg, blocks):
    """One ECB call over many different blocks equals the block permutation applied to each."""
    for case in range(4):
        key = pattern('C01 ecb %s %d' % (alg, case), 32)
        model = ref.cipher(alg, key)
        data = pattern('C01 ecb data %d' % case, SIZE[alg] * blocks)
        parts = [data[i:i + SIZE[alg]] for i in range(0, len(data), SIZE[alg])]
        with rec.case(lambda: {'cipher': alg, 'key': key, 'blocks': blocks}):
            obj = new_cipher(alg, key, 'ECB')
            want = b''.join(model.encrypt(p) for p in parts)
            same_bytes(obj.encrypt(bytearray(data)), want, 'ECB encrypt of %d blocks' % blocks)
            same_bytes(obj.decrypt(bytearray(want)), data, 'ECB decrypt of %d blocks' % blocks)
            rec.state((alg, key, blocks))
            rec.step(2 * blocks)
            rec.trace(2)


def chain(rec, alg, length, base):
    """x -> E(x) iterated, then back with D: the walk retraces itself."""
    key = pattern('C01 chain %s' % base, 32)
    obj, model = raw(alg, key), ref.cipher(alg, key)
    x = bytes(SIZE[alg])
    walk = [x]
    for i in range(length):
        with rec.case(lambda: {'cipher': alg, 'key': key, 'iteration': i, 'block': x}):
            got = bytes(obj.encrypt(bytearray(x)))
            same_bytes(got, model.encrypt(x), 'encrypt')
            rec.state((alg, x))
            rec.step()
            x = got
            walk.append(x)
    for i in range(length, 0, -1):
        with rec.case(lambda: {'cipher': alg, 'key': key, 'back from': i, 'block': walk[i]}):
            same_bytes(obj.decrypt(bytearray(walk[i])), walk[i - 1], 'decrypt')
            rec.step()
    rec.trace()


def boundary_words(count):
    out = [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x800000,
           0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xff00ff00,
           0x00ff00ff, 0xffff0000, 0x80808080, 0x7f7f7f7f, 0x01010101, 0xfefefefe]
    i = 0
    while len(out) < count:
        word = 1 << (i % 32)
        for cand in (word, 0xffffffff ^ word, (0xffffffff << (i % 32)) & 0xffffffff):
            if cand not in out and len(out) < count:
                out.append(cand)
        i += 1
        if i > 200:
            break
    return out[:count]


def magma_carry(rec, word_no, count):
    words = boundary_words(count)
    for word in words:
        key = bytearray(pattern('C01 carry', 32))
        key[4 * word_no:4 * word_no + 4] = word.to_bytes(4, 'big')
        key = bytes(key)
        obj, model = raw('magma', key), ref.cipher('magma', key)
        for half in words:
            block = pattern('C01 half', 4) + half.to_bytes(4, 'big')
            one(rec, 'magma', key, block, obj, model)


def shapes16():
    """Byte patterns a shortcut, a table slip or a padding slip inside a round would react to."""
    base = pattern('C01 shapes', 16)
    out = [bytes(16), b'\xff' * 16, bytes(range(16)), base[:8] * 2, base[:8] + base[7::-1], base[:4] * 4, base[:2] * 8]
    out += [bytes([v]) * 16 for v in (1, 0x80, 0xfc, 0x7f)]
    for pos in range(16):
        out += [bytes(pos) + bytes([v]) + bytes(15 - pos) for v in (1, 0x80, 0xff)]
        out.append(b'\xff' * pos + b'\x7f' + b'\xff' * (15 - pos))
        if pos:
            out += [bytes(pos) + base[pos:], base[pos:] + bytes(pos), b'\xff' * pos + base[pos:]]
            out.append(base[:pos] + bytes(1) + base[pos + 1:])
    return sorted(set(out))


def undo_ls(value):
    block = ref._apply(ref._LINV_TAB, value.to_bytes(16, 'big')).to_bytes(16, 'big')
    return int.from_bytes(block.translate(ref._PI_INV), 'big')


def stages(state):
    """Values before the substitution that put `state` at each stage of S and the 16 steps of L."""
    yield 'before S', int.from_bytes(state, 'big')
    for step in range(17):
        back = state
        for _ in range(step):
            back = ref._r_inv(back)
        yield 'after %d steps of L' % step, int.from_bytes(back.translate(ref._PI_INV), 'big')


def kuznechik_inner(rec, turn, first, step):
    """The state inside round `turn` takes every shape at every stage; encryption and decryption pass through it."""
    key = pattern('C01 inner key %d' % first, 32)
    obj, model = raw('kuznechik', key), ref.cipher('kuznechik', key)
    for shape in shapes16()[first::step]:
        for _, value in stages(shape):
            for i in range(turn, -1, -1):
                value ^= model.keys[i]
                if i:
                    value = undo_ls(value)
            one(rec, 'kuznechik', key, value.to_bytes(16, 'big'), obj, model)


def kuznechik_schedule(rec, turn, every):
    """The state inside step `turn` of the key schedule takes every shape."""
    block = pattern('C01 schedule block', 16)
    const = [ref._apply(ref._L_TAB, (i + 1).to_bytes(16, 'big')) for i in range(32)]
    other = int.from_bytes(pattern('C01 schedule', 16), 'big')

    def master(k1, k2):
        for i in range(turn - 1, -1, -1):
            k1, k2 = k2, k1 ^ ref._ls(k2 ^ const[i])
        return k1.to_bytes(16, 'big') + k2.to_bytes(16, 'big')
    for shape in shapes16():
        picked = [value ^ const[turn] for index, (_, value) in enumerate(stages(shape)) if every or index in (0, 1, 2, 9, 17)]
        for k1 in picked:
            one(rec, 'kuznechik', master(k1, other), block)
        plain = int.from_bytes(shape, 'big')
        for k1, k2 in ((plain, other), (other, plain), (plain, plain), (plain, plain ^ 1)):
            one(rec, 'kuznechik', master(k1, k2), block)


_INV_T = [[row.index(v) for v in range(16)] for row in ref.MAGMA_PI]


def magma_t(value):
    t = 0
    for i in range(8):
        t |= ref.MAGMA_PI[i][value >> 4 * i & 15] << 4 * i
    return (t << 11 | t >> 21) & 0xffffffff


def magma_t_inverse(value):
    t = (value >> 11 | value << 21) & 0xffffffff
    out = 0
    for i in range(8):
        out |= _INV_T[i][t >> 4 * i & 15] << 4 * i
    return out


def magma_inner(rec, turn, count, base):
    """The halves, the sum, the substituted word and the new half of round `turn` take every boundary word."""
    key = pattern('C01 magma inner %d' % base, 32)
    obj, model = raw('magma', key), ref.cipher('magma', key)
    words = boundary_words(count)
    words += [n << 4 * i for i in range(8) for n in range(16)]
    words += [0xffffffff ^ (n << 4 * i) for i in range(8) for n in range(1, 16, 7)]
    mask = 0xffffffff
    other = int.from_bytes(pattern('C01 magma half', 4), 'big')
    k = model.keys[turn]
    states = set()
    for word in words:
        for left in (other, 0, mask, word):
            states |= {(left, word), (left, (word - k) & mask), (left, (magma_t_inverse(word) - k) & mask)}
        for right in (other, 0, mask):
            states.add((word ^ magma_t(right + k & mask), right))
    for left, right in sorted(states):
        for i in range(turn - 1, -1, -1):
            left, right = right ^ magma_t(left + model.keys[i] & mask), left
        one(rec, 'magma', key, (left << 32 | right).to_bytes(8, 'big'), obj, model)


def jobs(tier):
    out = []
    for turn in range(9):
        for part in range(2):
            out.append(('kuznechik inside round %d part %d' % (turn, part), kuznechik_inner, (turn, part, 2)))
    for turn in range(32):
        out.append(('kuznechik inside schedule step %d' % turn, kuznechik_schedule, (turn, tier == 'thorough')))
        for base in range(4 if tier == 'thorough' else 1):
            out.append(('magma inside round %d base %d' % (turn, base), magma_inner, (turn, 60 if tier == 'thorough' else 26, base)))
    deep = tier == 'thorough'
    for base in range(4 if deep else 1):
        for pos in range(0, 32, 2):
            out.append(('kuznechik keys base %d byte %d' % (base, pos), keys_by_byte,
                        ('kuznechik', base, pos, pos + 2)))
        for pos in range(0, 32, 8):
            out.append(('magma keys base %d byte %d' % (base, pos), keys_by_byte, ('magma', base, pos, pos + 8)))
    for alg in SIZE:
        for weight in (0, 1):
            out.append(('%s keys weight %d' % (alg, weight), keys_sparse, (alg, weight, 0, 1)))
        for base in ['zero', 0] + list(range(1, 7) if deep else ()):
            out.append(('%s blocks base %s' % (alg, base), blocks_by_byte, (alg, base)))
        for blocks in (2, 3, 17, 300) + ((5000,) if deep else ()):
            out.append(('%s ecb %d blocks' % (alg, blocks), ecb_many, (alg, blocks)))
        for base in range(1 if not deep else 4):
            out.append(('%s chain %d' % (alg, base), chain, (alg, 30000 if deep else 1200, base)))
        if deep:
            for part in range(32):
                out.append(('%s keys weight 2 part %d' % (alg, part), keys_sparse, (alg, 2, part, 32)))
            for part in range(8):
                out.append(('%s blocks weight 2 part %d' % (alg, part), blocks_pairs, (alg, part, 8)))
    for word in range(8):
        out.append(('magma carry word %d' % word, magma_carry, (word, 60 if deep else 26)))
    return out
