"""C11: the random generator's output is the hash sequence of R 1323565.1.006 for every seed and history."""
from .. import env, kinds, marathon
from ..engine import System, explore, expect_error, fp, same_bytes
from ..env import pattern
from ..ref import gost as ref
from ..target import G

BOUNDS = {
    'quick': {'output sizes': '0..200, sparse up to 4097, 16321, 65601, 65537 blocks', 'seed sizes': '1..62 (32, 40, 48 in depth)',
              'seed contents': 'every (byte position, 3 values) for the three named sizes, all-ones, default (random)',
              'histories': 'all up to 4 calls of random, reset(seed), reset(other seed), reset(), clear',
              'long life of one object': 'every 5-call word in one life of 4000 calls, 5000 calls without reset'},
    'thorough': {'output sizes': '0..1100, sparse up to 70000', 'seed sizes': '1..62',
                 'seed contents': 'every (byte position, value)', 'histories': 'all up to 6 calls',
                 'long life of one object': 'every 6-call word, 40000 calls, 70000 without reset'},
}
ASSUMPTIONS = ['the generator rejects (and never uses) an all-zero seed; see C12']


def make(size, seed, size_s=None):
    kwargs = {}
    if seed is not None:
        kwargs['rand_k'] = seed
    if size_s is not None:
        kwargs['size_s'] = size_s
    return G.gostrandom.new(size, **kwargs)


def one(rec, size, seed, size_s, calls):
    with rec.case(lambda: {'rand_size': size, 'seed': seed, 'size_s': size_s, 'calls': calls}):
        kind = bytes if size & 1 else bytearray
        env.ENTROPY.reset()
        obj = make(size, None if seed is None else kind(seed), size_s)
        real = env.stream(0, size_s or 48) if seed is None else seed
        start = 0
        for call in range(calls):
            want, start = ref.prng(real, start, size)
            same_bytes(obj.random(), want, 'call %d of random()' % call)
            rec.step()
        rec.state((size, seed, size_s, calls))
        rec.trace()
        rec.outcome(size)
        rec.sample({'rand_size': size, 'size_s': size_s, 'calls': calls})


def sizes(rec, values, calls):
    for size in values:
        one(rec, size, pattern('C11 seed', 48), 48, calls)
        one(rec, size, pattern('C11 seed', 32), 32, calls)


def seed_sizes(rec, values):
    for size_s in values:
        one(rec, 100, pattern('C11 sz %d' % size_s, size_s), size_s, 3)
        one(rec, 64, b'\xff' * size_s, size_s, 2)
        one(rec, 64, None, size_s, 2)


def seed_bytes(rec, size_s, values):
    for pos in range(size_s):
        for val in values:
            seed = bytearray(pattern('C11 sb', size_s))
            seed[pos] = val
            one(rec, 65, bytes(seed), size_s, 1)
    for pos in range(size_s):
        seed = bytearray(size_s)
        seed[pos] = 1
        one(rec, 64, bytes(seed), size_s, 2)
        seed[pos] = 0x80
        one(rec, 64, bytes(seed), size_s, 1)


def defaults(rec):
    for size in (0, 1, 63, 64, 65, 200):
        one(rec, size, None, None, 3)
        one(rec, size, pattern('C11 dflt', 48), None, 3)


def long_run(rec, size_s, blocks):
    """Many single-block calls on one object: the counter inside walks through its byte boundaries."""
    seed = pattern('C11 long', size_s)
    obj = make(64, bytearray(seed), size_s)
    for i in range(1, blocks + 1):
        with rec.case(lambda: {'seed': seed, 'block number': i}):
            same_bytes(obj.random(), ref.prng_block(seed, i), 'block %d' % i)
            rec.step()
            rec.state((size_s, i))
    rec.trace()


class Life(System):
    SEEDS = {'k': 'one', 'j': 'two'}

    def __init__(self, rec, size, size_s):
        self.rec, self.size, self.size_s = rec, size, size_s

    def start(self):
        env.ENTROPY.reset()
        seed = pattern('C11 first', self.size_s)
        own = bytearray(seed)
        return {'impl': make(self.size, own, self.size_s), 'seed': seed, 'pos': 0, 'asked': 0, 'own': own}

    def key(self, bundle):
        marks = fp(bundle['impl'])
        return None if marks is None else (marks, bundle['asked'], bytes(bundle['own']))

    def enabled(self, bundle):
        return ['random', 'reset k', 'reset j', 'reset', 'reset own', 'clear']

    def apply(self, bundle, op):
        impl = bundle['impl']
        if op == 'random':
            if bundle['seed'] is None:
                expect_error('random', 'the seed value is zero', impl.random, 'random() after clear()')
            else:
                want, bundle['pos'] = ref.prng(bundle['seed'], bundle['pos'], self.size)
                same_bytes(impl.random(), want, 'random()')
        elif op == 'clear':
            impl.clear()
            bundle['seed'] = None
        elif op == 'reset':
            impl.reset()
            bundle['seed'] = env.stream(bundle['asked'], self.size_s)
            bundle['asked'] += 1
            bundle['pos'] = 0
        elif op == 'reset own':
            # the caller's one buffer, first rewritten where it stands
            own = bundle['own']
            own[0] ^= 1
            own[-1] ^= 0x80
            impl.reset(own)
            bundle['seed'], bundle['pos'] = bytes(own), 0
        else:
            seed = pattern('C11 ' + op, self.size_s)
            impl.reset(bytearray(seed))
            bundle['seed'], bundle['pos'] = seed, 0
        self.rec.outcome((op, bundle['pos']))

    def observe(self, bundle):
        self.apply(bundle, 'random')
        self.apply(bundle, 'random')


def histories(rec, size, size_s, depth, first):
    explore(rec, Life(rec, size, size_s), depth, prefix=(first,), tree_depth=3)


def blocks_at_once(rec, size_s, blocks):
    """One output whose block numbers fill two bytes and more."""
    seed = pattern('C11 blocks', size_s)
    with rec.case({'seed': seed, 'blocks': blocks}, 600):
        obj = make(64 * blocks - 5, bytearray(seed), size_s)
        same_bytes(obj.random(), ref.prng(seed, 0, 64 * blocks - 5)[0], 'random()')
        rec.step(blocks)
        rec.trace()
        rec.state((size_s, blocks))


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    top = 1100 if deep else 200
    for begin in range(0, top, 20):
        out.append(('sizes %d..' % begin, sizes, (range(begin, begin + 20), 3)))
    for size in (255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097) + ((16384, 65535, 65536, 70000) if deep else (16321, 65601)):
        out.append(('size %d' % size, sizes, ((size,), 2)))
    for begin in range(1, 63, 4):
        out.append(('seed sizes %d..' % begin, seed_sizes, (range(begin, min(begin + 4, 63)),)))
    for size_s in (32, 40, 48):
        out.append(('seed bytes %d' % size_s, seed_bytes, (size_s, range(256) if deep else (0, 0x7f, 0xff))))
        out.append(('long run %d' % size_s, long_run, (size_s, 66000 if deep and size_s == 48 else 5000)))
    for size_s, blocks in ((48, 65537), (61, 65535)):
        out.append(('%d blocks, seed of %d' % (blocks, size_s), blocks_at_once, (size_s, blocks)))
    out.append(('defaults', defaults, ()))
    for size_s in (32, 40, 48):
        for size in (1, 64, 70, 128):
            if not deep and size_s == 40 and size != 70:
                continue
            for op in Life(None, 0, 0).enabled(None):
                out.append(('life %d/%d from %s' % (size, size_s, op), histories,
                            (size, size_s, 6 if deep else 4, op)))
    for kind in [kinds.Prng(70, 32), kinds.Prng(64, 48), kinds.Prng(130, 40)]:
        out.append(('%s long life' % kind.name, marathon.life, (kind, 6 if deep else 5, 40000 if deep else 4000, (), False, False, True)))
    for size in (1, 64, 70):
        out.append(('long life of %d bytes without reset' % size, marathon.life, (kinds.Prng(size, 32), 1, 70000 if deep else 5000, ('reset', 'reset system'))))
    return out
