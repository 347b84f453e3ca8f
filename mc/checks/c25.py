"""C25: defaults come from the system's randomness, in full length, fresh each time, and only when needed."""
import itertools

from .. import env, sig
from ..engine import Mismatch, System, expect_error, explore, fp, same, same_bytes
from ..env import pattern
from ..ref import gost as ref
from ..target import G
from .. import kinds

BOUNDS = {
    'quick': {'histories': 'all sequences of up to 4 calls over 9 calls that use or do not use system randomness',
              'answers': 'salt, seed and nonce answers with every single byte set in turn, all zero, all ones', 'faults': 'failure (two exceptions) of every request of every history of up to 3 calls, and after 1, 2, 5 unusable nonces',
              'seed sizes': '1..62', 'objects': '600 defaults alive at once, all distinct'},
    'thorough': {'histories': 'up to 5 calls', 'answers': 'every value of every byte', 'faults': 'histories of up to 4 calls', 'seed sizes': '1..62', 'objects': '600 defaults alive at once, all distinct'},
}
ASSUMPTIONS = ['the operating system answers with the requested number of bytes or raises OSError or NotImplementedError, as os.urandom does']

ERRORS = {'OSError': OSError(5, 'no entropy'), 'NotImplementedError': NotImplementedError('no source of randomness')}

CURVE = {32: sig.C256[0], 64: sig.C512[0]}


class Calls(System):
    """Fresh objects made one after another; every request is predicted by the model."""
    OPS = ('pbkdf', 'pbkdf salt', 'prng 32', 'prng 48 default', 'prng 5', 'prng seed', 'reset', 'reset seed', 'random')
    SIGN = ('sign 32', 'sign 32 nonce', 'sign 64')

    def __init__(self, rec, ops, fault=None, error='OSError'):
        self.rec, self.ops, self.fault, self.error = rec, ops, fault, error

    def start(self):
        def answer(size, index):
            if index == self.fault:
                raise ERRORS[self.error]
            return env.stream(index, size)
        env.ENTROPY.reset(answer)
        return {'asked': [], 'prng': None, 'seed': None, 'used': 0, 'size': 0, 'failed': False, 'signers': {}}

    def enabled(self, bundle):
        return [op for op in self.ops if bundle['prng'] is not None or op not in ('reset', 'reset seed', 'random')]

    def key(self, bundle):
        return None

    def want(self, bundle, size):
        """Predict one request; returns the answer, or None if it will fail."""
        index = len(bundle['asked'])
        bundle['asked'].append(size)
        return None if index == self.fault else env.stream(index, size)

    def attempt(self, answer, call):
        if answer is not None:
            return call()
        try:
            call()
        except (OSError, NotImplementedError):
            return None
        raise Mismatch('the call succeeded although the system had no randomness')

    def apply(self, bundle, op):
        words = op.split()
        if words[0] == 'pbkdf':
            if op == 'pbkdf':
                salt = self.want(bundle, 32)
                obj = self.attempt(salt, lambda: G.gostpbkdf.new(bytearray(b'password'), counter=1))
            else:
                salt = pattern('C25 salt', 9)
                obj = G.gostpbkdf.new(bytearray(b'password'), salt=bytearray(salt), counter=1)
            if obj is not None:
                same_bytes(obj.salt, salt, 'salt')
                same_bytes(obj.derive(33), kinds._pbkdf(b'password', salt, 1, 33), 'derived key')
                same_bytes(obj.salt, salt, 'salt')
                obj.hexderive(3)
        elif words[0] == 'prng':
            size = 48 if 'default' in words else 40 if 'seed' in words else int(words[1])
            kwargs = {} if 'default' in words else {'size_s': size}
            if 'seed' in words:
                seed = pattern('C25 seed', size)
                obj = G.gostrandom.new(70, rand_k=bytearray(seed), **kwargs)
            else:
                seed = self.want(bundle, size)
                obj = self.attempt(seed, lambda: G.gostrandom.new(70, **kwargs))
            if obj is not None:
                bundle.update(prng=obj, seed=seed, used=0, size=size)
        elif op == 'reset':
            seed = self.want(bundle, bundle['size'])
            self.attempt(seed, bundle['prng'].reset)
            if seed is None:
                bundle['prng'] = None
            else:
                bundle.update(seed=seed, used=0)
        elif op == 'reset seed':
            bundle.update(seed=pattern('C25 reset', bundle['size']), used=0)
            bundle['prng'].reset(bytearray(bundle['seed']))
        elif op == 'random':
            want, bundle['used'] = kinds._prng(bundle['seed'], bundle['used'], 70)
            same_bytes(bundle['prng'].random(), want, 'random()')
        else:
            size = int(words[1])
            if size not in bundle['signers']:
                bundle['signers'][size] = sig.full(CURVE[size])[0]
            impl = bundle['signers'][size]
            d, e = sig.num(12345, size), sig.num(777, size)
            if 'nonce' in words:
                nonce = sig.num(99, size)
                got = impl.sign(bytearray(d), bytearray(e), bytearray(nonce))
            else:
                nonce = self.want(bundle, size)
                got = self.attempt(nonce, lambda: impl.sign(bytearray(d), bytearray(e)))
            if got is not None:
                pair = kinds._sign(CURVE[size], 12345, 777, int.from_bytes(nonce, 'big'))
                same_bytes(got, sig.pack(pair, size), 'signature')
        same(env.ENTROPY.requests, bundle['asked'], 'requests for system randomness after %s' % op)
        self.rec.outcome(op)

    def observe(self, bundle):
        if bundle['prng'] is not None:
            self.apply(bundle, 'random')
            self.apply(bundle, 'random')


def retry_fails(rec):
    """The first answer is unusable as a nonce and the second request fails: signing fails."""
    for size, name in CURVE.items():
        impl, model, _ = sig.full(name)
        for first in (bytes(size), b'\xff' * size, sig.num(model.q, size)):
            for count in (1, 2, 5):
                for error in ERRORS:
                    with rec.case(lambda: {'curve': name, 'answer': first, 'times': count, 'then': error}):
                        env.ENTROPY.reset(env.scripted([first] * count + [ERRORS[error]]))
                        try:
                            impl.sign(bytearray(sig.num(12345, size)), bytearray(sig.num(777, size)))
                        except (OSError, NotImplementedError):
                            pass
                        else:
                            raise Mismatch('the call succeeded although the system had no randomness')
                        same(env.ENTROPY.requests, [size] * (count + 1), 'requests')
                        rec.step()
                        rec.trace()
                        rec.state((name, first, count, error))


def histories(rec, ops, depth, first, fault=None, error='OSError'):
    explore(rec, Calls(rec, ops, fault, error), depth, prefix=(first,))


def answers(rec, what, size, values, positions):
    """Every byte of the answer is used: single-byte answers, all zero, all ones."""
    variants = [bytes(size), b'\xff' * size]
    for pos in positions:
        for value in values:
            item = bytearray(size)
            item[pos] = value
            variants.append(bytes(item))
    for answer in variants:
        with rec.case(lambda: {'what': what, 'size': size, 'system answer': answer}):
            env.ENTROPY.reset(lambda n, index: answer if index == 0 else env.stream(index, n))
            if what == 'salt':
                obj = G.gostpbkdf.new(bytearray(b'p'), counter=1)
                same_bytes(obj.salt, answer, 'salt')
                same_bytes(obj.derive(8), ref.pbkdf2(b'p', answer, 1, 8), 'derived key')
            elif what in ('seed', 'reset'):
                if what == 'seed':
                    obj = G.gostrandom.new(20, size_s=size)
                else:
                    obj = G.gostrandom.new(20, rand_k=bytearray(pattern('C25 first', size)), size_s=size)
                    obj.reset()
                if any(answer):
                    same_bytes(obj.random(), ref.prng(answer, 0, 20)[0], 'random()')
                else:
                    expect_error('random', 'the seed value is zero', obj.random, 'random() on an all-zero system seed')
            else:
                name = CURVE[size]
                impl, model, _ = sig.full(name)
                value = int.from_bytes(answer, 'big')
                good = 0 < value < model.q
                used = value if good else int.from_bytes(env.stream(1, size), 'big')
                got = impl.sign(bytearray(sig.num(12345, size)), bytearray(sig.num(777, size)))
                same_bytes(got, sig.pack(model.sign(12345, 777, used), size), 'signature')
                same(env.ENTROPY.requests, [size] * (1 if good else 2), 'requests')
            if what != 'nonce':
                same(env.ENTROPY.requests, [32 if what == 'salt' else size], 'requests')
            rec.step(2)
            rec.trace()
            rec.state((what, size, answer))


def seed_sizes(rec):
    for size in range(1, 63):
        for reset in (False, True):
            with rec.case({'size_s': size, 'reset': reset}):
                env.ENTROPY.reset()
                obj = G.gostrandom.new(65, size_s=size)
                if reset:
                    obj.reset()
                same_bytes(obj.random(), ref.prng(env.stream(int(reset), size), 0, 65)[0], 'random()')
                same(env.ENTROPY.requests, [size] * (1 + reset), 'requests')
                rec.step(2)
                rec.trace()
                rec.state((size, reset))


def many(rec, what, count):
    """A long series of objects: each takes its own answer."""
    env.ENTROPY.reset()
    for index in range(count):
        with rec.case({'what': what, 'object number': index}):
            if what == 'salt':
                same_bytes(G.gostpbkdf.new(bytearray(b'p')).salt, env.stream(index, 32), 'salt')
            elif what == 'nonce':
                impl, model, size = sig.full(CURVE[32])
                got = impl.sign(bytearray(sig.num(12345, size)), bytearray(sig.num(777, size)))
                used = int.from_bytes(env.stream(index, size), 'big')
                same_bytes(got, sig.pack(model.sign(12345, 777, used), size), 'signature')
            elif what == 'reset':
                if index == 0:
                    obj = G.gostrandom.new(8, size_s=40)
                else:
                    obj.reset()
                same_bytes(obj.random(), ref.prng(env.stream(index, 40), 0, 8)[0], 'random()')
            else:
                obj = G.gostrandom.new(8)
                same_bytes(obj.random(), ref.prng(env.stream(index, 48), 0, 8)[0], 'random()')
            same(len(env.ENTROPY.requests), index + 1, 'requests')
            rec.step()
            rec.state((what, index))
    rec.trace()


def silent(rec):
    """Nothing else asks for randomness."""
    env.ENTROPY.reset()
    for kind in kinds.catalogue():
        if 'system' in kind.name:
            continue
        with rec.case({'object': kind.name}):
            bundle = kind.make(kinds.Give())
            for op in kind.ops:
                if 'system' not in op:
                    kind.run(bundle, op, kinds.Give())
            same(env.ENTROPY.requests, [], 'requests for system randomness')
            rec.step()
            rec.trace()
            rec.state(kind.name)


def jobs(tier):
    deep = tier == 'thorough'
    out = [('seed sizes', seed_sizes, ()), ('nothing else asks', silent, ()), ('many salts', many, ('salt', 1200 if deep else 600)), ('many seeds', many, ('seed', 1200 if deep else 600)),
           ('many resets', many, ('reset', 1200 if deep else 600)), ('many nonces', many, ('nonce', 300 if deep else 70)), ('failing retries', retry_fails, ())]
    ops = Calls.OPS
    firsts = [op for op in ops if op not in ('reset', 'reset seed', 'random')]
    for first in firsts:
        out.append(('histories from %s' % first, histories, (ops, 5 if deep else 4, first)))
        for fault in range(4 if deep else 3):
            for error in ERRORS:
                out.append(('%s at %d, histories from %s' % (error, fault, first), histories, (ops, 4 if deep else 3, first, fault, error)))
    small = Calls.SIGN + ('pbkdf', 'prng 32')
    for first in small:
        out.append(('histories with signatures from %s' % first, histories, (small, 3 if deep else 2, first)))
        for fault in range(2):
            for error in ERRORS:
                out.append(('%s at %d, with signatures from %s' % (error, fault, first), histories, (small, 3 if deep else 2, first, fault, error)))
    values = list(range(1, 256)) if deep else (1, 0x80)
    for what, size in (('salt', 32), ('seed', 32), ('seed', 40), ('seed', 48), ('seed', 62), ('reset', 32), ('reset', 48)):
        for part in range(2):
            out.append(('answers %s %d %d' % (what, size, part), answers, (what, size, values, range(part, size, 2))))
    for size in (32, 64):
        for part in range(4):
            if deep or size == 32:
                picked = range(part, size, 4)
            else:
                picked = [p for i, p in enumerate((0, 1, 31, 32, 62, 63)) if i % 4 == part]
            out.append(('answers nonce %d %d' % (size, part), answers, ('nonce', size, (1, 0x80) if not deep else (1, 2, 0x55, 0x80, 0xff), picked)))
    return out
