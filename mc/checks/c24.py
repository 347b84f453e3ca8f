"""C24: a call that fails changes nothing: later results are as if it had not been made."""
import copy

from .. import env, kinds, marathon, sig
from ..engine import Mismatch, System, explore, expect_error, fp
from ..env import pattern
from ..target import G
from .c21 import find_secrets

BOUNDS = {
    'quick': {'objects': 'every kind of object', 'failures': 'every rejected call of the object, rejected constructors of its kind, failing system randomness',
              'histories': 'all up to 3 operations and failures (2 for key derivation and signatures), full probe after each',
              'long life of one object': 'every pair of calls (with arguments of special values too) and rejected calls in one life'},
    'thorough': {'objects': 'every kind with more variants', 'failures': 'as quick', 'histories': 'all up to 4 (3 for key derivation, 2 for signatures)',
                 'long life of one object': 'every 3-call word, 2000 calls'},
}
ASSUMPTIONS = ['a ciphering or MAC object that was given data of a wrong type may instead have lost its key entirely',
               'system randomness fails by raising OSError']


def failed_constructors(kind):
    """Constructor calls of the same kind that must be refused."""
    key = pattern('C24 key', 32)
    cipher = G.gostcipher
    if isinstance(kind, (kinds.Cipher, kinds.Mac)):
        yield 'cipher', lambda: cipher.new(kind.alg, key[1:], cipher.MODE_ECB)
        yield 'cipher', lambda: cipher.new(kind.alg, key, cipher.MODE_CBC, init_vect=b'1')
        yield 'cipher', lambda: cipher.new(kind.alg, key, cipher.MODE_CTR, init_vect=b'1')
        yield 'cipher', lambda: cipher.new(kind.alg, key, cipher.MODE_ECB, pad_mode=0)
        yield 'cipher', lambda: cipher.new(kind.alg, key, cipher.MODE_MAC, data='x')
        yield 'cipher', lambda: cipher.new('x', key, cipher.MODE_ECB)
        yield 'cipher', lambda: cipher.new(kind.alg, key, 4)
    elif isinstance(kind, kinds.Hmac):
        yield 'hmac', lambda: G.gosthmac.new(kinds.HMAC_NAME[kind.bits], bytes(65))
        yield 'hmac', lambda: G.gosthmac.new('x', key)
        yield 'hmac', lambda: G.gosthmac.new(kinds.HMAC_NAME[kind.bits], key, data='x')
    elif isinstance(kind, kinds.Hash):
        yield 'hash', lambda: G.gosthash.new('x')
        yield 'hash', lambda: G.gosthash.new(kinds.HASH_NAME[kind.bits], data='x')
    elif isinstance(kind, kinds.Pbkdf):
        yield 'pbkdf', lambda: G.gostpbkdf.new(bytes(65))
        yield 'pbkdf', lambda: G.gostpbkdf.new(key, salt='x')
    elif isinstance(kind, kinds.Prng):
        yield 'random', lambda: G.gostrandom.new(kind.size, rand_k=b'1', size_s=kind.size_s)
        yield 'random', lambda: G.gostrandom.new(kind.size, rand_k='1', size_s=kind.size_s)
    elif isinstance(kind, kinds.Signature):
        bad = dict(sig.CURVES[kind.curve])
        bad['y'] ^= 1
        yield 'signature', lambda: G.gostsignature.new(sig.mode(kind.size), bad)
    elif isinstance(kind, kinds.Oid):
        yield 'oid', lambda: G.gostoid.ObjectIdentifier('x').octet
        yield 'oid', lambda: G.gostoid.ObjectIdentifier('3.1').octet


class Broken(OSError):
    pass


def no_entropy(size, index):
    raise Broken('no entropy')


class Failing(System):
    def __init__(self, rec, kind):
        self.rec, self.kind = rec, kind
        self.entropy = isinstance(kind, (kinds.Prng, kinds.Signature))

    def start(self):
        env.ENTROPY.reset()
        bundle = self.kind.make(kinds.Give())
        bundle.maybe = False        # a wrong type was rejected: the key may be gone
        return bundle

    def key(self, bundle):
        marks = fp(bundle.impl)
        return None if marks is None else (marks, env.ENTROPY.count, bundle.maybe)

    def enabled(self, bundle):
        if bundle.maybe:
            return ()
        return list(self.kind.ops) + ['!' + name for name in self.kind.fails] + ['!new'] + (['!entropy'] if self.entropy else [])

    def apply(self, bundle, op):
        kind = self.kind
        if op == '!new':
            count = env.ENTROPY.count
            for error, call in failed_constructors(kind):
                expect_error(error, None, call, 'constructor')
            if env.ENTROPY.count != count:
                env.ENTROPY.count = count
        elif op == '!entropy':
            self.starve(bundle)
        elif op.startswith('!'):
            kind.fail(bundle, op[1:])
            if kind.dies_on_failure and op in ('!bad plaintext', '!bad ciphertext', '!bad data'):
                bundle.maybe = True
        else:
            kind.run(bundle, op, kinds.Give())
        self.rec.outcome(op)

    def starve(self, bundle):
        """An operation that needs system randomness while there is none."""
        impl, kind = bundle.impl, self.kind
        count = env.ENTROPY.count
        env.ENTROPY.answer = no_entropy
        try:
            if isinstance(kind, kinds.Prng):
                impl.reset()
            else:
                impl.sign(bytearray(sig.num(9, kind.size)), bytearray(sig.num(3, kind.size)))
        except OSError:
            pass
        else:
            raise Mismatch('the call succeeded without system randomness')
        finally:
            env.ENTROPY.answer = None
            env.ENTROPY.count = count

    def observe(self, bundle):
        if bundle.maybe:
            self.observe_maybe(bundle)
            return
        for op in self.kind.ops:
            self.kind.run(bundle, op, kinds.Give())

    def observe_maybe(self, bundle):
        """Either nothing has happened, or the key is gone."""
        kind = self.kind
        left = find_secrets([bundle.impl], kind.secrets())
        if not left:
            self.rec.note('objects that lost their key')
            return
        self.rec.note('objects that kept their key')
        for op in kind.ops:
            kind.run(bundle, op, kinds.Give())


def histories(rec, kind, depth):
    explore(rec, Failing(rec, kind), depth, tree_depth=1 if not isinstance(kind, kinds.Signature) else 0)


def constructor_faults(rec):
    """No object comes out of a constructor whose system randomness fails, and the next one is fine."""
    for kind in (kinds.Pbkdf(1, 11, False), kinds.Prng(20, 40, False), kinds.Prng(64, 32, False)):
        for before in range(3):
            for failures in range(1, 4):
                with rec.case({'object': kind.name, 'objects made before': before, 'failures': failures}):
                    env.ENTROPY.reset()
                    made = [kind.make(kinds.Give()) for _ in range(before)]
                    for _ in range(failures):
                        count = env.ENTROPY.count
                        env.ENTROPY.answer = no_entropy
                        try:
                            if isinstance(kind, kinds.Pbkdf):
                                G.gostpbkdf.new(bytearray(b'password'))
                            else:
                                G.gostrandom.new(20)
                        except OSError:
                            pass
                        else:
                            raise Mismatch('an object was made without system randomness')
                        finally:
                            env.ENTROPY.answer = None
                            env.ENTROPY.count = count
                        rec.step()
                    made.append(kind.make(kinds.Give()))
                    for bundle in made:
                        for op in kind.ops[:2]:
                            kind.run(bundle, op, kinds.Give())
                            rec.step()
                    rec.trace()
                    rec.state((kind.name, before, failures))


def jobs(tier):
    deep = tier == 'thorough'
    out = [('constructor faults', constructor_faults, ())]
    for kind in kinds.catalogue(deep):
        slow = isinstance(kind, (kinds.Pbkdf, kinds.Signature))
        depth = (2 if slow else 3) + (1 if deep and not isinstance(kind, kinds.Signature) else 0)
        if isinstance(kind, kinds.Signature) and kind.size == 64 and not deep:
            depth = 1
        out.append((kind.name, histories, (kind, depth)))
    for kind in [k for k in kinds.catalogue(deep) if k.fails and not k.dies_on_failure]:
        slow = isinstance(kind, (kinds.Pbkdf, kinds.Signature))
        out.append(('%s long life' % kind.name, marathon.life, (kind, 3 if deep and not slow else 2, 0 if slow else 2000 if deep else 400, (), True, False, True)))
    return out
