"""C12: the generator never repeats or outlives its counter and never runs on a zero seed."""
from .. import env
from ..engine import Mismatch, System, explore, expect_error, fp, same_bytes
from ..env import pattern
from ..inject import find, put
from ..ref import gost as ref
from ..target import error_class
from .c11 import make

BOUNDS = {
    'quick': {'exhaustion': 'one-byte counter walked completely for 14 output sizes, the two-byte counter for one; larger counters entered by injection below every byte boundary and the limit',
              'after exhaustion': 'all histories up to 2 calls of random/reset(seed)/reset()/clear; up to 3 with refused resets among them',
              'zero seeds': 'every seed size 1..62, explicit, via reset, and as answer of the system'},
    'thorough': {'exhaustion': 'as quick for every output size 1..700 step 7',
                 'after exhaustion': 'all histories up to 5 calls, 4 with refused resets among them', 'zero seeds': 'as quick'},
}
ASSUMPTIONS = ['injected counters stand for the states a walk of that many blocks reaches',
               'either documented error (limit exceeded, zero seed) is accepted once the counter is used up']


def refuse(func, what):
    """Must raise GOSTRandomError, whichever of its documented messages applies."""
    exc = expect_error('random', None, func, what)
    if not any(t in str(exc) for t in ('exceeded the limit value of the counter', 'the seed value is zero')):
        raise Mismatch('%s: undocumented message %r' % (what, str(exc)))


def run_out(rec, size, size_s, total):
    """Call random() until the counter of `total` blocks is used up, and on."""
    seed = pattern('C12 seed', size_s)
    per_call = -(-size // 64)
    obj = make(size, bytearray(seed), size_s)
    seen = set()
    used = 0
    call = 0
    while used + per_call <= total:
        with rec.case(lambda: {'rand_size': size, 'size_s': size_s, 'call': call, 'blocks used': used}):
            got = bytes(obj.random())
            want, used_next = ref.prng(seed, used, size)
            same_bytes(got, want, 'random()')
            for i in range(0, size - 63, 64):
                if got[i:i + 64] in seen:
                    raise Mismatch('an output block was repeated')
                seen.add(got[i:i + 64])
            rec.step(per_call)
            rec.state((size, size_s, used))
        used += per_call
        call += 1
    for extra in range(3):
        with rec.case(lambda: {'rand_size': size, 'size_s': size_s, 'call past the limit': extra}):
            refuse(obj.random, 'random() with %d of %d blocks left' % (total - used, total))
            rec.step()
            rec.outcome('refused')
    with rec.case(lambda: {'rand_size': size, 'size_s': size_s, 'history': 'reset after exhaustion'}):
        if per_call <= total:
            obj.reset(bytearray(seed))
            same_bytes(obj.random(), ref.prng(seed, 0, size)[0], 'random() after exhaustion and reset')
    rec.trace()
    rec.sample({'rand_size': size, 'size_s': size_s, 'blocks': used})


class After(System):
    """All short histories of a generator whose one-byte counter is nearly used up."""
    def __init__(self, rec, size, left, fails=False):
        self.rec, self.size, self.left, self.fails = rec, size, left, fails
        self.per_call = -(-size // 64)

    def start(self):
        env.ENTROPY.reset()
        seed = pattern('C12 after', 62)
        obj = make(self.size, bytearray(seed), 62)
        bundle = {'impl': obj, 'seed': seed, 'used': 0, 'asked': 0, 'failed': False}
        while bundle['used'] + self.per_call <= 255 - self.left:
            obj.random()
            bundle['used'] += self.per_call
        return bundle

    def key(self, bundle):
        marks = fp(bundle['impl'])
        return None if marks is None else (marks, bundle['asked'], bundle['used'], bundle['failed'])

    def enabled(self, bundle):
        return ['random', 'reset seed', 'reset', 'clear'] + (['short seed', 'no seed type', 'no randomness'] if self.fails else [])

    def apply(self, bundle, op):
        impl = bundle['impl']
        if op == 'random':
            if bundle['seed'] is None or bundle['used'] + self.per_call > 255:
                bundle['seed'] = None
                refuse(impl.random, 'random() after the end')
                self.rec.outcome('refused')
            else:
                want, bundle['used'] = ref.prng(bundle['seed'], bundle['used'], self.size)
                if bundle['failed']:            # a generator which gives up after a refused call does not repeat itself (see C24)
                    try:
                        got = impl.random()
                    except error_class('random'):
                        bundle['seed'] = None
                        return
                else:
                    got = impl.random()
                same_bytes(got, want, 'random()')
                self.rec.outcome('value')
        elif op in ('short seed', 'no seed type'):
            expect_error('random', 'invalid seed value', lambda: impl.reset(bytearray(7) if op == 'short seed' else 'seed'), 'reset with an invalid seed')
            bundle['failed'] = True
        elif op == 'no randomness':
            def broken(size, index):
                raise NotImplementedError('no randomness')
            env.ENTROPY.answer = broken
            try:
                impl.reset()
            except NotImplementedError:
                pass
            else:
                raise Mismatch('reset() without randomness was accepted')
            finally:
                env.ENTROPY.answer = None
            bundle['asked'] = env.ENTROPY.count
            bundle['failed'] = True
        elif op == 'clear':
            impl.clear()
            bundle['seed'] = None
        elif op == 'reset':
            impl.reset()
            bundle['seed'] = env.stream(bundle['asked'], 62)
            bundle['asked'] = env.ENTROPY.count
            bundle['used'] = 0
            bundle['failed'] = False
        else:
            impl.reset(pattern('C12 new', 62))
            bundle['seed'], bundle['used'], bundle['failed'] = pattern('C12 new', 62), 0, False

    def observe(self, bundle):
        self.apply(bundle, 'random')
        self.apply(bundle, 'random')


def after(rec, size, left, depth, fails=False):
    explore(rec, After(rec, size, left, fails), depth, tree_depth=1)


def zero_seed(rec, size_s):
    zero = bytes(size_s)
    for size in (1, 64, 130):
        with rec.case(lambda: {'size_s': size_s, 'rand_size': size}):
            refuse(make(size, zero, size_s).random, 'explicit zero seed')
            env.ENTROPY.reset(lambda n, i: bytes(n))
            refuse(make(size, None, size_s).random, 'the system answers with zeros')
            obj = make(size, pattern('C12 z', size_s), size_s)
            obj.random()
            obj.reset()
            refuse(obj.random, 'reset(), the system answers with zeros')
            obj.reset(bytearray(zero))
            refuse(obj.random, 'reset(zero seed)')
            refuse(obj.random, 'reset(zero seed), asked twice')
            obj.reset(pattern('C12 z', size_s))
            same_bytes(obj.random(), ref.prng(pattern('C12 z', size_s), 0, size)[0], 'reset to a good seed')
            obj.clear()
            refuse(obj.random, 'after clear()')
            env.ENTROPY.reset()
            rec.step(7)
            rec.state((size_s, size))
            rec.trace()
            rec.outcome('refused')


def boundaries(rec, size_s):
    """Enter just below every byte boundary of the counter and below its end."""
    seed = pattern('C12 inj', size_s)
    width = 63 - size_s
    base = int.from_bytes(seed + bytes(width), 'big')

    def advance(obj):
        obj.random()
    probe = make(64, bytearray(seed), size_s)
    places = find(probe, [(None, base, 63)] + [(advance, base + i, 63) for i in (1, 2, 3)])
    usable = False
    if places:
        walked, jumped = make(64, bytearray(seed), size_s), make(64, bytearray(seed), size_s)
        for _ in range(7):
            walked.random()
        for place in places:
            put(jumped, place, base + 7, 63)
        usable = fp(walked) is not None and fp(walked) == fp(jumped)
    if not usable:
        rec.note('injection not possible')
        rec.step()
        rec.trace()
        return
    last = (1 << 8 * width) - 1
    marks = sorted({(1 << 8 * i) - 2 for i in range(1, width + 1)} | {last - 1, last - 2, last, (1 << 8 * width - 1) - 2})
    for mark in marks:
        if mark < 0:
            continue
        with rec.case(lambda: {'size_s': size_s, 'blocks used': mark}):
            obj = make(64, bytearray(seed), size_s)
            for place in places:
                put(obj, place, base + mark, 63)
            for number in range(mark + 1, mark + 5):
                if number > last:
                    refuse(obj.random, 'block number %d' % number)
                    rec.outcome('refused')
                else:
                    same_bytes(obj.random(), ref.prng_block(seed, number), 'block number %d' % number)
                    rec.outcome('value')
                rec.step()
            rec.state((size_s, mark))
            rec.trace()
            rec.note('injected boundaries')


def no_counter(rec):
    """size_s = 63 leaves no counter at all: nothing can be produced without repeating."""
    with rec.case('size_s = 63'):
        obj = make(64, pattern('C12 63', 63), 63)
        refuse(obj.random, 'first call')
        refuse(obj.random, 'second call')
        rec.step(2)
        rec.state('63')
        rec.trace()


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    exact = (1, 63, 64, 65, 127, 128, 129, 64 * 5 + 1, 64 * 100, 64 * 254, 64 * 255, 64 * 254 + 1, 64 * 255 + 1, 64 * 256)
    for size in sorted(set(exact) | (set(range(1, 700, 7)) if deep else set())):
        out.append(('run out %d' % size, run_out, (size, 62, 255)))
    out.append(('run out two bytes', run_out, (64 * 3, 61, 65535)))
    for size in (64, 100):
        for left in (0, 1, 2):
            out.append(('after the end %d/%d' % (size, left), after, (size, left, 5 if deep else 2)))
        for left in (0, 1, 2, 254):
            out.append(('with refused calls %d/%d' % (size, left), after, (size, left, 4 if deep else 3, True)))
    for size_s in range(1, 63):
        out.append(('zero seed %d' % size_s, zero_seed, (size_s,)))
        if size_s in (32, 40, 48) or size_s % 7 == 5 or size_s > 58 or deep:
            out.append(('boundaries %d' % size_s, boundaries, (size_s,)))
    out.append(('no counter', no_counter, ()))
    return out
