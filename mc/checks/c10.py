"""C10: PBKDF2 keys equal the definition for every password, salt, count, length and call history."""
from .. import env, kinds, marathon
from ..engine import System, explore, fp, same, same_bytes
from ..env import pattern
from ..ref import gost as ref
from ..target import G

BOUNDS = {
    'quick': {'passwords': 'every length 0..64', 'salts': 'every length 1..70, 127..129, 255..257, 1000, 4096, the default (random) one',
              'iterations': '1..13, around the powers of two up to 257, 999, 1001, 1024, 4097, the default 1000', 'contents': 'constant passwords and salts of 0, 0x36, 0x5c, 0x80, 0xff; zero bytes at either end of passwords and salts of every length', 'key length': '1..200, 255..257, 260 and 1030 blocks',
              'histories': 'all up to 3 calls of derive/hexderive/salt',
              'long life of one object': 'every 4-call word in one life of 1500 calls; 10000 derivations of changing size'},
    'thorough': {'passwords': 'every length 0..64', 'salts': 'every length 1..200, 1000',
                 'iterations': '1..60, 1000, 4096', 'key length': '1..700, 1030 and 65537 blocks',
                 'histories': 'all up to 5 calls',
                 'long life of one object': 'every 5-call word, 10000 calls; 40000 derivations of changing size'},
}
ASSUMPTIONS = ['block numbers above the walked ones (2^10 blocks, thorough: 2^16) use the same 4-byte encoding']


def make(password, salt, count):
    kwargs = {}
    if salt is not None:
        kwargs['salt'] = salt
    if count is not None:
        kwargs['counter'] = count
    return G.gostpbkdf.new(password, **kwargs)


def one(rec, password, salt, count, size):
    with rec.case(lambda: {'password': password, 'salt': salt, 'iterations': count, 'dk_len': size}):
        kind = bytes if size & 1 else bytearray
        env.ENTROPY.reset()
        obj = make(kind(password), None if salt is None else kind(salt), count)
        real_salt = env.stream(0, 32) if salt is None else salt
        same_bytes(obj.salt, real_salt, 'salt')
        want = ref.pbkdf2(password, real_salt, 1000 if count is None else count, size)
        same_bytes(obj.derive(size), want, 'derive')
        if count is not None and count * size < 4000:
            same(obj.hexderive(size), want.hex(), 'hexderive')
            same_bytes(obj.derive(size), want, 'derive asked again')
        rec.state((password, salt, count, size))
        rec.step(2)
        rec.trace()
        rec.outcome(want.hex()[:12])
        rec.sample({'password': len(password), 'salt': salt and len(salt), 'iterations': count, 'dk_len': size})


def passwords(rec, sizes):
    for size in sizes:
        one(rec, pattern('C10 pw %d' % size, size), b'salt', 2, 33)
    for size in sizes:
        one(rec, b'p' * size, pattern('C10 s', 16), 3, 65)
        one(rec, bytes(size), pattern('C10 s', 16), 1, 64)


def salts(rec, sizes):
    for size in sizes:
        one(rec, b'password', pattern('C10 salt %d' % size, size), 2, 70)
        one(rec, b'password', bytes(size), 1, 64)


def counts(rec, values, size):
    for count in values:
        one(rec, pattern('C10 cpw', 12), pattern('C10 cs', 20), count, size)


def constant(rec):
    for fill in (0, 1, 0x36, 0x5c, 0x80, 0xff):
        for size in (1, 8, 32, 63, 64):
            one(rec, bytes([fill]) * size, bytes([fill]) * size, 2, 33)
            one(rec, bytes([fill]) * size, b'salt' + bytes(size), 1, 33)
            one(rec, b'password' + bytes(size % 56), bytes([fill]) * size, 1, 33)


def sizes(rec, values):
    for size in values:
        one(rec, pattern('C10 lpw', 9), pattern('C10 ls', 33), 1 + size % 2, size)


def position(rec):
    for pos in range(64):
        for val in (0, 0xff):
            pw = bytearray(pattern('C10 pos', 64))
            pw[pos] = val
            one(rec, bytes(pw), b'NaCl', 1, 32)
    for pos in range(40):
        salt = bytearray(pattern('C10 pos', 40))
        salt[pos] ^= 0x80
        one(rec, b'pw', bytes(salt), 1, 32)


def ends(rec, first, last):
    """Passwords and salts of every length that start or end with zero bytes."""
    for size in range(first, last):
        data = pattern('C10 ends', size)
        for zeros in (1, size // 2):
            for shape in (bytes(zeros) + data[zeros:], data[:-zeros] + bytes(zeros)):
                if zeros and len(shape) == size:
                    one(rec, shape, b'ends', 1, 32)
                    one(rec, b'ends', shape, 1, 31)


class Calls(System):
    SIZES = {'1': 1, '32': 32, '64': 64, '65': 65, '130': 130}

    def __init__(self, rec):
        self.rec = rec

    def start(self):
        return {'impl': make(bytearray(b'secret'), bytearray(b'saltsalt'), 2)}

    def key(self, bundle):
        return fp(bundle['impl'])

    def enabled(self, bundle):
        return ['d' + s for s in self.SIZES] + ['h32', 'h65', 'salt', 'salt!']

    def apply(self, bundle, op):
        impl = bundle['impl']
        if op[:4] == 'salt':
            got = impl.salt
            same_bytes(got, b'saltsalt', 'salt')
            return
        size = int(op[1:])
        want = self.want(size)
        if op[0] == 'd':
            same_bytes(impl.derive(size), want, op)
        else:
            same(impl.hexderive(size), want.hex(), op)
        self.rec.outcome(op)

    @staticmethod
    def want(size):
        if size not in _WANT:
            _WANT[size] = ref.pbkdf2(b'secret', b'saltsalt', 2, size)
        return _WANT[size]

    def observe(self, bundle):
        same_bytes(bundle['impl'].derive(33), self.want(33), 'derive at the end')
        same_bytes(bundle['impl'].salt, b'saltsalt', 'salt at the end')


_WANT = {}


def histories(rec, depth, first):
    system = Calls(rec)
    system.merge = False
    explore(rec, system, depth, prefix=(first,))


def many_derives(rec, calls):
    """Very many derivations of changing sizes from one object."""
    password, salt = pattern('C10 mpw', 20), pattern('C10 msalt', 9)
    whole = ref.pbkdf2(password, salt, 1, 130)
    obj = make(bytearray(password), salt, 1)
    for call in range(calls):
        size = (1, 64, 20, 65, 2, 32, 130)[call % 7] if call % 5 == 0 else call % 64 + 1
        with rec.case(lambda: {'derivations before': call, 'dk_len': size}):
            same_bytes(obj.derive(size), whole[:size], 'derive')
            rec.step()
    rec.state(('many', calls))
    rec.trace()
    rec.note('longest history', calls)


def blocks_at_once(rec, blocks):
    """A derived key whose block numbers fill two bytes and more."""
    password, salt = pattern('C10 bpw', 20), pattern('C10 bsalt', 9)
    with rec.case({'blocks': blocks}, 3600):
        got = make(bytearray(password), salt, 1).derive(64 * blocks + 1)
        same_bytes(got, ref.pbkdf2(password, salt, 1, 64 * blocks + 1), 'derive')
        rec.step(blocks)
        rec.trace()
        rec.state(('blocks', blocks))


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for begin in range(0, 65, 5):
        out.append(('passwords %d..' % begin, passwords, (range(begin, min(begin + 5, 65)),)))
    top = 200 if deep else 70
    for begin in range(1, top + 1, 5):
        out.append(('salts %d..' % begin, salts, (range(begin, begin + 5),)))
    out.append(('salts long', salts, ((127, 128, 129, 255, 256, 257, 1000, 4096),)))
    for count in range(1, 61 if deep else 13):
        out.append(('iterations %d' % count, counts, ((count,), 70)))
    for count in (13, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 999, 1001, 1024):
        out.append(('iterations %d' % count, counts, ((count,), 40)))
    out.append(('constant contents', constant, ()))
    out.append(('iterations default', counts, ((None,), 64)))
    out.append(('iterations 4097', counts, ((4097,), 64)))
    out.append(('many derivations', many_derives, (40000 if deep else 10000,)))
    if deep:
        out.append(('65537 blocks', blocks_at_once, (65537,)))
        out.append(('iterations 65537', counts, ((65537,), 20)))
    top = 700 if deep else 200
    for begin in range(1, top + 1, 10):
        out.append(('lengths %d..' % begin, sizes, (range(begin, begin + 10),)))
    for size in (255, 256, 257, 260 * 64 - 1) + (1030 * 64 + 5,):
        out.append(('length %d' % size, sizes, ((size,),)))
    out.append(('default salt', lambda rec: [one(rec, b'pw', None, 2, s) for s in (1, 32, 65, 130)], ()))
    out.append(('positions', position, ()))
    for first in range(1, 65, 16):
        out.append(('ends %d..' % first, ends, (first, first + 16)))
    for op in Calls(None).enabled(None):
        out.append(('histories from %s' % op, histories, (5 if deep else 3, op)))
    for kind in [kinds.Pbkdf(1, 11), kinds.Pbkdf(2, 64)]:
        out.append(('%s long life' % kind.name, marathon.life, (kind, 5 if deep else 4, 10000 if deep else 1500, (), False, False, True)))
    return out
