"""Catalogue of every kind of library object with its operations, each paired with its model.

A Kind is explored by the cross-cutting checks (metadata, caller buffers,
clearing, independence, failed calls).  An operation is a function
op(bundle, give) that calls the implementation, compares with the model and
advances the model; `give(data)` makes the byte argument handed to the library.
"""
import copy
from functools import lru_cache

from . import env, sig
from .engine import Mismatch, expect_error, same, same_bytes
from .env import pattern
from .modes import DEFAULT_IV, N, pad_of, pair
from .ref import gost as ref
from .ref.params import CURVES, OID_NAMES
from .target import G, HASH_NAME, HMAC_NAME, mode_const, new_cipher, pad_const

KEY_LABEL = 'kinds key'


class Give:
    """Makes the byte arguments, remembers them and the results, and can destroy both."""

    def __init__(self, make=bytearray):
        self.make = make
        self.given = []
        self.results = []

    def __call__(self, data):
        obj = self.make(data)
        self.given.append((obj, bytes(data)))
        return obj

    def result(self, value):
        if isinstance(value, bytearray):
            self.results.append(value)
        return value

    def check(self):
        for obj, data in self.given:
            if bytes(obj) != data:
                raise Mismatch('an argument of the caller was modified: %s became %s'
                               % (data.hex()[:80], bytes(obj).hex()[:80]))
        for index, value in enumerate(self.results):
            for obj, _ in self.given:
                if value is obj:
                    raise Mismatch('a result is the argument object itself')
            for other in self.results[:index]:
                if value is other:
                    raise Mismatch('the same result object was handed out twice')

    def poison(self):
        """Overwrite and empty everything the caller owns."""
        for obj in [o for o, _ in self.given] + self.results:
            if isinstance(obj, bytearray):
                for i in range(len(obj)):
                    obj[i] = 0x5a
                del obj[:]
        self.given = []
        self.results = []


class Bundle:
    impl = None
    model = None


class Kind:
    """ops: name -> op; fails: name -> (op); secret: what must be gone after clear()."""
    name = ''
    ops = ()
    fails = ()
    probes = ()                 # further operations, with arguments of special values
    can_clear = False
    can_copy = False
    dies_on_failure = False     # a rejected call may erase the key of the object

    def make(self, give, label=''):
        """A fresh bundle; `label` selects other secrets."""
        raise NotImplementedError

    def run(self, bundle, op, give):
        getattr(self, 'op_' + op)(bundle, give)

    def meta(self, impl):
        """(attribute, value, expected) of everything constant."""
        return []

    def secrets(self, label=''):
        return []


def oid_meta(obj, dotted):
    oid = obj.oid
    return [('str(oid)', str(oid), dotted), ('oid.name', oid.name, OID_NAMES[dotted]),
            ('oid.digit', oid.digit, tuple(int(p) for p in dotted.split('.'))),
            ('oid.octet', bytes(oid.octet), ref.oid_der(tuple(int(p) for p in dotted.split('.'))))]


class Cipher(Kind):
    can_clear = True
    dies_on_failure = True
    OID = {'kuznechik': '1.2.643.7.1.1.5.2', 'magma': '1.2.643.7.1.1.5.1'}

    def __init__(self, alg, mode, z=1, pad=1, default=False):
        self.alg, self.mode, self.z, self.pad, self.default = alg, mode, z, pad_of(mode, pad), default
        self.name = '%s %s %s%s' % (alg, mode, 'default IV' if default else 'z=%d' % z, ' pad %d' % pad if self.pad else '')
        self.n = N[alg]
        self.ops = ('E1', 'D2') if mode == 'ECB' else ('E1', 'E2', 'D1', 'counter' if mode == 'CTR' else 'iv')
        if mode == 'CTR':
            self.ops += ('Epart',)
        self.probes = ('Ezero', 'Dzero') + (() if self.pad else ('Enone', 'Dnone'))
        self.fails = ('bad plaintext', 'bad ciphertext')

    def key(self, label=''):
        return pattern(KEY_LABEL + label, 32)

    def iv(self):
        if self.mode == 'ECB':
            return None
        if self.default:
            return DEFAULT_IV[(self.alg, self.mode)]
        if self.mode == 'CTR':
            return b'\xff' * (self.n // 2 - 1) + b'\xfe'
        return pattern('kinds iv', self.n * self.z)

    def make(self, give, label=''):
        bundle = Bundle()
        kwargs = {}
        if self.iv() is not None and not self.default:
            kwargs['init_vect'] = give(self.iv())
        if self.pad:
            kwargs['pad_mode'] = pad_const(self.pad)
        bundle.impl = G.gostcipher.new(self.alg, give(self.key(label)), mode_const(self.mode), **kwargs)
        bundle.model = ref.Mode(self.alg, self.key(label), self.mode, self.iv(), self.pad or 1)
        return bundle

    def crypt(self, bundle, give, encrypt, size, data=None):
        if data is None:
            data = pattern('kinds %s %d' % ('E' if encrypt else 'D', size), size)
        if encrypt:
            got = give.result(bundle.impl.encrypt(give(data)))
            same_bytes(got, bundle.model.encrypt(data), 'encrypt of %d bytes' % size)
        else:
            got = give.result(bundle.impl.decrypt(give(data)))
            same_bytes(got, bundle.model.decrypt(data), 'decrypt of %d bytes' % size)

    def op_E1(self, b, give):
        self.crypt(b, give, True, self.n)

    def op_E2(self, b, give):
        self.crypt(b, give, True, 2 * self.n)

    def op_Epart(self, b, give):
        self.crypt(b, give, True, self.n + 3)

    def op_D1(self, b, give):
        self.crypt(b, give, False, self.n)

    def op_D2(self, b, give):
        self.crypt(b, give, False, 2 * self.n)

    def op_Ezero(self, b, give):
        self.crypt(b, give, True, self.n, bytes(self.n))

    def op_Dzero(self, b, give):
        self.crypt(b, give, False, self.n, bytes(self.n))

    def op_Enone(self, b, give):
        self.crypt(b, give, True, 0)

    def op_Dnone(self, b, give):
        self.crypt(b, give, False, 0)

    def op_iv(self, b, give):
        same_bytes(give.result(b.impl.iv), b.model.iv(), 'iv')

    def op_counter(self, b, give):
        same_bytes(give.result(b.impl.counter), b.model.counter(), 'counter')

    def fail(self, bundle, name):
        impl = bundle.impl
        if name == 'bad plaintext':
            expect_error('cipher', 'invalid plaintext data', lambda: impl.encrypt('text'), name)
        else:
            expect_error('cipher', 'invalid ciphertext data', lambda: impl.decrypt([1, 2]), name)

    def meta(self, impl):
        return [('block_size', impl.block_size, self.n)] + oid_meta(impl, self.OID[self.alg])

    def secrets(self, label=''):
        key = self.key(label)
        return [('the key', key)] + [('round key %d' % i, k) for i, k in enumerate(round_keys(self.alg, key))]


@lru_cache(None)
def round_keys(alg, key):
    return tuple(bytes(k) for k in ref.cipher(alg, key).round_keys())


_CMAC_AT = {}


@lru_cache(100000)
def _cmac(alg, key, data):
    """The reference MAC; continues from the last message when this one extends it."""
    e = ref.cipher(alg, key)
    n = e.block_size
    fed, state = _CMAC_AT.get((alg, key), (b'', bytes(n)))
    if len(fed) >= len(data) or not data.startswith(fed):
        fed, state = b'', bytes(n)
    full = max(len(data) - 1, 0) // n
    for i in range(len(fed) // n, full):
        state = e.encrypt(ref.xor(state, data[i * n:i * n + n]))
    _CMAC_AT[(alg, key)] = data[:full * n], state
    last, (k1, k2) = data[full * n:], _subkeys(alg, key)
    if len(last) == n:
        return e.encrypt(ref.xor(state, ref.xor(last, k1)))
    return e.encrypt(ref.xor(state, ref.xor(last + b'\x80' + bytes(n - len(last) - 1), k2)))


@lru_cache(None)
def _subkeys(alg, key):
    return ref.cmac_subkeys(ref.cipher(alg, key))


class Mac(Kind):
    can_clear = True
    dies_on_failure = True

    def __init__(self, alg, first=3):
        self.alg = alg
        self.n = N[alg]
        self.first = first
        self.name = '%s MAC' % alg + (' without data' if not first else '')
        self.ops = ('up1', 'upn', 'up2', 'digest', 'hexdigest')
        self.probes = ('up none', 'up zero', 'digest 1')
        self.fails = ('bad data', 'size 0', 'size too big')

    key = Cipher.key

    def make(self, give, label=''):
        bundle = Bundle()
        bundle.model = pattern('kinds mac 0', self.first)
        data = {'data': give(bundle.model)} if self.first else {}
        bundle.impl = G.gostcipher.new(self.alg, give(self.key(label)), G.gostcipher.MODE_MAC, **data)
        bundle.secret = self.key(label)
        return bundle

    def run(self, b, op, give):
        if op == 'up none':
            self.up(b, give, 0)
        elif op == 'up zero':
            self.up(b, give, self.n, bytes(self.n))
        elif op == 'digest 1':
            same_bytes(give.result(b.impl.digest(1)), _cmac(self.alg, b.secret, b.model)[:1], 'digest(1)')
        else:
            Kind.run(self, b, op, give)

    def up(self, b, give, size, data=None):
        if data is None:
            data = pattern('kinds mac %d' % size, size)
        b.impl.update(give(data))
        b.model += data

    def op_up1(self, b, give):
        self.up(b, give, 1)

    def op_upn(self, b, give):
        self.up(b, give, self.n)

    def op_up2(self, b, give):
        self.up(b, give, 2 * self.n - 3)

    def op_digest(self, b, give):
        want = _cmac(self.alg, b.secret, b.model)
        same_bytes(give.result(b.impl.digest(self.n)), want, 'digest of %d bytes' % len(b.model))
        same_bytes(give.result(b.impl.digest(3)), want[:3], 'digest(3)')

    def op_hexdigest(self, b, give):
        same(b.impl.hexdigest(self.n // 2), _cmac(self.alg, b.secret, b.model)[:self.n // 2].hex(), 'hexdigest')

    def fail(self, bundle, name):
        impl = bundle.impl
        if name == 'bad data':
            expect_error('cipher', 'invalid text data', lambda: impl.update('text'), name)
        else:
            size = 0 if name == 'size 0' else self.n + 1
            expect_error('cipher', 'invalid message authentication code size', lambda: impl.digest(size), name)

    def meta(self, impl):
        return [('block_size', impl.block_size, self.n)] + oid_meta(impl, Cipher.OID[self.alg])

    def secrets(self, label=''):
        key = self.key(label)
        out = [('the key', key)] + [('round key %d' % i, k) for i, k in enumerate(round_keys(self.alg, key))]
        return out + [('MAC subkey %d' % i, k) for i, k in enumerate(ref.cmac_subkeys(ref.cipher(self.alg, key)))]


_HASH_AT = {}


@lru_cache(100000)
def _hash(bits, data):
    """The reference digest; continues from the last message when this one extends it."""
    ident = bits, data[:64]
    fed, state = _HASH_AT.get(ident, (b'', None))
    model = ref.Streebog(bits)
    if state and data.startswith(fed):
        model.__dict__.update(state)
    else:
        fed = b''
    full = len(data) // 64
    for i in range(len(fed) // 64, full):
        model.block(data[i * 64:i * 64 + 64])
    if full:
        if len(_HASH_AT) > 1000:
            _HASH_AT.clear()
        _HASH_AT[ident] = data[:full * 64], dict(model.__dict__)
    return model.final(data[full * 64:])


@lru_cache(100000)
def _hmac(bits, key, data):
    key = key + bytes(64 - len(key))
    return _hash(bits, bytes(b ^ 0x5c for b in key) + _hash(bits, bytes(b ^ 0x36 for b in key) + data))


class Hash(Kind):
    can_copy = True

    def __init__(self, bits, first=5):
        self.bits = bits
        self.first = first
        self.name = 'streebog%d' % bits + (' without data' if not first else '')
        self.ops = ('up1', 'up64', 'up100', 'digest', 'hexdigest', 'reset')
        self.probes = ('up none', 'up zero')
        self.fails = ('bad data',)

    def make(self, give, label=''):
        bundle = Bundle()
        bundle.model = pattern('kinds hash 0' + label, self.first)
        data = {'data': give(bundle.model)} if self.first else {}
        bundle.impl = G.gosthash.new(HASH_NAME[self.bits], **data)
        return bundle

    def want(self, b):
        return _hash(self.bits, b.model)

    def run(self, b, op, give):
        if op == 'up none':
            self.up(b, give, 0)
        elif op == 'up zero':
            self.up(b, give, 64, bytes(64))
        else:
            Kind.run(self, b, op, give)

    def up(self, b, give, size, data=None):
        if data is None:
            data = pattern('kinds hash %d' % size, size)
        b.impl.update(give(data))
        b.model += data

    def op_up1(self, b, give):
        self.up(b, give, 1)

    def op_up64(self, b, give):
        self.up(b, give, 64)

    def op_up100(self, b, give):
        self.up(b, give, 100)

    def op_digest(self, b, give):
        same_bytes(give.result(b.impl.digest()), self.want(b), 'digest of %d bytes' % len(b.model))

    def op_hexdigest(self, b, give):
        same(b.impl.hexdigest(), self.want(b).hex(), 'hexdigest of %d bytes' % len(b.model))

    def op_reset(self, b, give):
        b.impl.reset()
        b.model = b''

    def fail(self, bundle, name):
        expect_error('hash', 'invalid data value', lambda: bundle.impl.update('text'), name)

    def meta(self, impl):
        return [('digest_size', impl.digest_size, self.bits // 8), ('block_size', impl.block_size, 64),
                ('name', impl.name, HASH_NAME[self.bits]), ('len(digest())', len(impl.digest()), self.bits // 8),
                ('len(hexdigest())', len(impl.hexdigest()), self.bits // 4)] \
            + oid_meta(impl, '1.2.643.7.1.1.2.2' if self.bits == 256 else '1.2.643.7.1.1.2.3')


class Hmac(Hash):
    can_clear = True

    def __init__(self, bits, key_size=32, first=5):
        Hash.__init__(self, bits, first)
        self.key_size = key_size
        self.name = 'HMAC %d key %d' % (bits, key_size) + (' without data' if not first else '')

    def key(self, label=''):
        return pattern(KEY_LABEL + label, self.key_size)

    def make(self, give, label=''):
        bundle = Bundle()
        bundle.secret = self.key(label)
        bundle.model = pattern('kinds hash 0', self.first)
        data = {'data': give(bundle.model)} if self.first else {}
        bundle.impl = G.gosthmac.new(HMAC_NAME[self.bits], give(bundle.secret), **data)
        return bundle

    def want(self, b):
        return _hmac(self.bits, b.secret, b.model)

    def fail(self, bundle, name):
        expect_error('hmac', 'invalid data value', lambda: bundle.impl.update('text'), name)

    def meta(self, impl):
        return [('digest_size', impl.digest_size, self.bits // 8), ('block_size', impl.block_size, 64),
                ('name', impl.name, HMAC_NAME[self.bits]), ('len(digest())', len(impl.digest()), self.bits // 8),
                ('len(hexdigest())', len(impl.hexdigest()), self.bits // 4)] \
            + oid_meta(impl, '1.2.643.7.1.1.4.1' if self.bits == 256 else '1.2.643.7.1.1.4.2')

    def secrets(self, label=''):
        key = self.key(label)
        full = key + bytes(64 - len(key))
        return [('the key', key), ('the inner pad', bytes(b ^ 0x36 for b in full)),
                ('the outer pad', bytes(b ^ 0x5c for b in full))]


@lru_cache(None)
def _pbkdf(password, salt, count, size):
    return ref.pbkdf2(password, salt, count, size)


class Pbkdf(Kind):
    can_clear = True

    def __init__(self, count=2, size=11, salt=True):
        self.count, self.size, self.explicit = count, size, salt
        self.name = 'PBKDF2 %d iterations, %d byte password%s' % (count, size, '' if salt else ', system salt')
        self.ops = ('derive20', 'derive65', 'hexderive', 'salt')
        self.probes = ('derive1', 'derive64')
        self.fails = ('too long',)

    def key(self, label=''):
        return pattern('kinds password' + label, self.size)

    def make(self, give, label=''):
        bundle = Bundle()
        bundle.secret = self.key(label)
        kwargs = {}
        bundle.model = pattern('kinds salt', 17)
        if self.explicit:
            kwargs['salt'] = give(bundle.model)
        else:
            index = env.ENTROPY.count
            bundle.model = env.stream(index, 32)
        bundle.impl = G.gostpbkdf.new(give(bundle.secret), counter=self.count, **kwargs)
        return bundle

    def derive(self, b, give, size):
        want = _pbkdf(b.secret, b.model, self.count, 65)[:size]
        same_bytes(give.result(b.impl.derive(size)), want, 'derive(%d)' % size)

    def op_derive20(self, b, give):
        self.derive(b, give, 20)

    def op_derive1(self, b, give):
        self.derive(b, give, 1)

    def op_derive64(self, b, give):
        self.derive(b, give, 64)

    def op_derive65(self, b, give):
        self.derive(b, give, 65)

    def op_hexderive(self, b, give):
        same(b.impl.hexderive(33), _pbkdf(b.secret, b.model, self.count, 65)[:33].hex(), 'hexderive(33)')

    def op_salt(self, b, give):
        same_bytes(give.result(b.impl.salt), b.model, 'salt')

    def fail(self, bundle, name):
        expect_error('pbkdf', 'invalid size of the derived key', lambda: bundle.impl.derive((2 ** 32 - 1) * 64 + 1), name)
        expect_error('pbkdf', 'invalid size of the derived key', lambda: bundle.impl.hexderive(2 ** 40), name)

    def secrets(self, label=''):
        key = self.key(label)
        full = key + bytes(64 - len(key))
        return [('the password', key), ('the inner pad', bytes(b ^ 0x36 for b in full)),
                ('the outer pad', bytes(b ^ 0x5c for b in full))]


@lru_cache(None)
def _prng(seed, used, size):
    return ref.prng(seed, used, size)


class Prng(Kind):
    can_clear = True

    def __init__(self, size=70, size_s=32, seed=True):
        self.size, self.size_s, self.explicit = size, size_s, seed
        self.name = 'generator of %d bytes, %d byte %s seed' % (size, size_s, 'explicit' if seed else 'system')
        self.ops = ('random', 'reset', 'reset system')
        self.probes = ('reset first', 'reset ones')
        self.fails = ('short seed', 'seed of wrong type', 'long seed')

    def key(self, label=''):
        return pattern('kinds seed' + label, self.size_s)

    def make(self, give, label=''):
        bundle = Bundle()
        bundle.used = 0
        if self.explicit:
            bundle.seed = self.key(label)
            bundle.impl = G.gostrandom.new(self.size, rand_k=give(bundle.seed), size_s=self.size_s)
        else:
            bundle.seed = env.stream(env.ENTROPY.count, self.size_s)
            bundle.impl = G.gostrandom.new(self.size, size_s=self.size_s)
        return bundle

    def run(self, bundle, op, give):
        if op == 'random':
            want, bundle.used = _prng(bundle.seed, bundle.used, self.size)
            same_bytes(give.result(bundle.impl.random()), want, 'random()')
        elif op in ('reset', 'reset first', 'reset ones'):
            bundle.seed = {'reset': pattern('kinds new seed', self.size_s), 'reset first': self.key(), 'reset ones': b'\xff' * self.size_s}[op]
            bundle.used = 0
            bundle.impl.reset(give(bundle.seed))
        else:
            bundle.seed, bundle.used = env.stream(env.ENTROPY.count, self.size_s), 0
            bundle.impl.reset()

    def fail(self, bundle, name):
        bad = {'short seed': bytearray(self.size_s - 1), 'long seed': pattern('kinds long seed', self.size_s + 1), 'seed of wrong type': 'x' * self.size_s}[name]
        expect_error('random', 'invalid seed value', lambda: bundle.impl.reset(bad), name)

    def secrets(self, label=''):
        return [('the seed', self.key(label))]


SIGN_D, SIGN_E, SIGN_K = 'kinds d', 'kinds e', 'kinds k'


@lru_cache(None)
def _sign_values(name, label):
    model = ref.Curve(CURVES[name])
    d = sig.rand_int(SIGN_D + label, model.q)
    e = sig.rand_int(SIGN_E, model.q)
    k = sig.rand_int(SIGN_K, model.q)
    return model, d, e, k, model.sign(d, e, k), model.mul(d)


@lru_cache(None)
def _sign(name, d, e, k):
    return ref.Curve(CURVES[name]).sign(d, e, k)


@lru_cache(None)
def _public(name, d):
    return ref.Curve(CURVES[name]).mul(d)


class Signature(Kind):
    def __init__(self, curve):
        self.curve = curve
        self.size = sig.SIZE[curve]
        self.name = 'signature ' + curve
        self.ops = ('sign', 'sign system', 'verify', 'verify wrong', 'public')
        self.probes = ('sign zero', 'sign other', 'verify zero', 'verify other', 'verify swapped', 'public other')
        self.fails = ('bad key', 'bad digest', 'bad nonce', 'zero nonce', 'bad signature', 'bad public key', 'public of bad key',
                      'nonce q', 'zero key', 'public key off the curve', 'public of zero key')

    def make(self, give, label=''):
        bundle = Bundle()
        bundle.label = label
        bundle.impl = sig.full(self.curve)[0]
        return bundle

    def run(self, bundle, op, give):
        impl, size = bundle.impl, self.size
        model, d, e, k, pair_, pub = _sign_values(self.curve, bundle.label)
        num = lambda v: give(sig.num(v, size))
        if op == 'sign':
            same_bytes(give.result(impl.sign(num(d), num(e), num(k))), sig.pack(pair_, size), 'signature')
        elif op == 'sign system':
            want = _sign(self.curve, d, e, int.from_bytes(env.stream(env.ENTROPY.count, size), 'big'))
            same_bytes(give.result(impl.sign(num(d), num(e))), sig.pack(want, size), 'signature with a system nonce')
        elif op in self.probes:
            self.probe(bundle, op, give)
        elif op == 'verify':
            same(impl.verify(give(sig.pack(pub, size)), num(e), give(sig.pack(pair_, size))), True, 'verify')
        elif op == 'verify wrong':
            bad = sig.pack((pair_[0], pair_[1] ^ 1), size)
            same(impl.verify(give(sig.pack(pub, size)), num(e), give(bad)), False, 'verify of a wrong signature')
        else:
            same_bytes(give.result(impl.public_key_generate(num(d))), sig.pack(pub, size), 'public key')

    def probe(self, bundle, op, give):
        impl, size = bundle.impl, self.size
        model, d, e, k, pair_, pub = _sign_values(self.curve, bundle.label)
        num = lambda v: give(sig.num(v, size))
        d2, e2, k2 = d % 1000003 + 2, (1 << 8 * size) - 1, model.q - 2
        if op == 'sign zero':
            same_bytes(give.result(impl.sign(num(d), num(0), num(k))), sig.pack(_sign(self.curve, d, 0, k), size), 'signature of a digest of zeros')
        elif op == 'sign other':
            same_bytes(give.result(impl.sign(num(d2), num(e2), num(k2))), sig.pack(_sign(self.curve, d2, e2, k2), size), 'signature of a digest of ones with another key')
        elif op == 'verify zero':
            same(impl.verify(give(sig.pack(pub, size)), num(0), give(sig.pack(_sign(self.curve, d, 0, k), size))), True, 'verify with a digest of zeros')
        elif op == 'verify other':
            good = give(sig.pack(_sign(self.curve, d2, e2, k2), size))
            same(impl.verify(give(sig.pack(_public(self.curve, d2), size)), num(e2), good), True, 'verify with another key')
        elif op == 'verify swapped':
            same(impl.verify(give(sig.pack(_public(self.curve, d2), size)), num(e), give(sig.pack(pair_, size))), False, 'verify with the wrong key')
        else:
            same_bytes(give.result(impl.public_key_generate(num(d2))), sig.pack(_public(self.curve, d2), size), 'another public key')

    def fail(self, bundle, name):
        impl, size = bundle.impl, self.size
        model, d, e, k, pair_, pub = _sign_values(self.curve, bundle.label)
        num = lambda v: bytearray(sig.num(v, size))
        good, key = bytearray(sig.pack(pair_, size)), bytearray(sig.pack(pub, size))
        call, text = {
            'bad key': (lambda: impl.sign(num(d)[1:], num(e), num(k)), 'invalid private key value'),
            'bad digest': (lambda: impl.sign(num(d), num(e)[1:], num(k)), 'invalid digest value'),
            'bad nonce': (lambda: impl.sign(num(d), num(e), 'x'), 'invalid random value'),
            'zero nonce': (lambda: impl.sign(num(d), num(e), num(0)), 'invalid random value'),
            'bad signature': (lambda: impl.verify(key, num(e), good[1:]), 'invalid signature value'),
            'bad public key': (lambda: impl.verify(key[1:], num(e), good), 'invalid public key value'),
            'nonce q': (lambda: impl.sign(num(d), num(e), num(model.q)), 'invalid random value'),
            'zero key': (lambda: impl.sign(num(0), num(e), num(k)), 'invalid private key value'),
            'public key off the curve': (lambda: impl.verify(bytearray(sig.pack((pub[0], pub[1] ^ 1), size)), num(e), good), 'invalid public key value'),
            'public of zero key': (lambda: impl.public_key_generate(num(0)), 'invalid private key'),
            'public of bad key': (lambda: impl.public_key_generate(num(d)[1:]), 'invalid private key'),
        }[name]
        expect_error('signature', text, call, name)

    def meta(self, impl):
        return oid_meta(impl, '1.2.643.7.1.1.1.1' if self.size == 32 else '1.2.643.7.1.1.1.2')

    def secrets(self, label=''):
        model, d, e, k, pair_, pub = _sign_values(self.curve, label)
        return [('the private key', sig.num(d, self.size)), ('the nonce', sig.num(k, self.size))]


class ToySignature(Signature):
    """Signatures over a toy curve (guarded hook): the same code, far fewer steps."""

    def __init__(self, index):
        self.params = sig.toys((11, 13))[index]
        self.size = 32 if index % 2 else 64
        self.curve = 'toy %d' % index
        self.name = 'signature over ' + sig.toy_id(self.params)
        self.ops = ('sign', 'verify', 'public')

    def make(self, give, label=''):
        bundle = Bundle()
        bundle.impl, model = sig.toy(self.params, self.size)
        q = model.q
        d = q // 2 if label else q - 2
        for k in range(3, q):
            pair_ = model.sign(d, 5, k)
            if pair_:
                break
        bundle.values = model, d, 5, k, pair_, model.mul(d)
        return bundle

    def run(self, bundle, op, give):
        impl, size = bundle.impl, self.size
        model, d, e, k, pair_, pub = bundle.values
        num = lambda v: give(sig.num(v, size))
        if op == 'sign':
            same_bytes(impl.sign(num(d), num(e), num(k)), sig.pack(pair_, size), 'signature')
        elif op == 'verify':
            same(impl.verify(give(sig.pack(pub, size)), num(e), give(sig.pack(pair_, size))), True, 'verify')
        else:
            same_bytes(impl.public_key_generate(num(d)), sig.pack(pub, size), 'public key')


class Oid(Kind):
    def __init__(self, dotted):
        self.dotted = dotted
        self.name = 'OID ' + dotted
        self.ops = ('str', 'name', 'digit', 'octet')
        self.fails = ()

    def make(self, give, label=''):
        bundle = Bundle()
        bundle.impl = G.gostoid.ObjectIdentifier(self.dotted)
        return bundle

    def run(self, bundle, op, give):
        arcs = tuple(int(p) for p in self.dotted.split('.'))
        if op == 'str':
            same(str(bundle.impl), self.dotted, 'str')
        elif op == 'name':
            same(bundle.impl.name, OID_NAMES.get(self.dotted, ''), 'name')
        elif op == 'digit':
            same(bundle.impl.digit, arcs, 'digit')
        else:
            same_bytes(give.result(bundle.impl.octet), ref.oid_der(arcs), 'octet')


SHAPES = {
    'zero': lambda data: bytes(len(data)), 'ones': lambda data: b'\xff' * len(data),
    'equal bytes': lambda data: data[:1] * len(data), 'equal ends': lambda data: data[:-1] + data[:1],
    'equal halves': lambda data: (data[:len(data) // 2] * 2).ljust(len(data), b'\1'), 'palindrome': lambda data: (data[:len(data) // 2] + data[:(len(data) + 1) // 2][::-1]),
    'equal words': lambda data: (data[:4] * len(data))[:len(data)], 'zero end': lambda data: data[:-2] + bytes(2)[:len(data)],
    'zero start': lambda data: bytes(2) + data[2:], 'zero-led words': lambda data: bytes(b if i % 4 else 0 for i, b in enumerate(data)),
    'zero-ended words': lambda data: bytes(b if i % 4 != 3 else 0 for i, b in enumerate(data)), 'text': lambda data: b'0123456789abcdef'[:len(data)] * (len(data) // 16) + b'x' * (len(data) % 16),
}


def shaped(kind, shape):
    """The same kind of object with secrets of a special form."""
    class Shaped(type(kind)):
        def key(self, label=''):
            return SHAPES[shape](super().key(label))
    out = copy.copy(kind)
    out.__class__ = Shaped
    out.name = '%s, %s key' % (kind.name, shape)
    return out


def ciphers(zs=(1, 2)):
    out = []
    for alg in ('magma', 'kuznechik'):
        out += [Cipher(alg, 'ECB'), Cipher(alg, 'CTR')]
        out += [Cipher(alg, mode, z) for mode in ('CBC', 'CFB', 'OFB') for z in zs]
    out += [Cipher('magma', 'CTR', default=True), Cipher('magma', 'CBC', default=True), Cipher('kuznechik', 'CFB', default=True), Cipher('kuznechik', 'OFB', default=True)]
    return out


def catalogue(deep=False):
    """Every kind; `deep` adds variants."""
    out = ciphers((1, 2, 3) if deep else (1, 2))
    out += [Mac('magma'), Mac('kuznechik'), Hash(256), Hash(512)]
    out += [Hmac(bits, size) for bits in (256, 512) for size in ((1, 32, 63, 64) if deep else (32, 64))]
    out += [Mac('magma', 0), Mac('kuznechik', 0), Hash(256, 0), Hash(512, 0), Hmac(256, 64, 0), Hmac(512, 32, 0)]
    out += [Pbkdf(2, 11), Pbkdf(1, 64), Pbkdf(3, 20, False), Prng(70, 32), Prng(64, 48), Prng(130, 62), Prng(20, 40, False)]
    out += [Signature(name) for name in (CURVES if deep else (sig.C256[0], sig.C512[0]))]
    out += [Oid('1.2.643.7.1.1.2.2'), Oid('2.999.16384.3')]
    return out
