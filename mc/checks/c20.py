"""C20: the caller's buffers are never modified, never kept, and bytes and bytearray mean the same."""
import copy
import itertools
import os

from .. import env, kinds, sig
from ..engine import Mismatch, System, explore, expect_error, fp, same, same_bytes
from ..env import pattern
from ..ref import gost as ref
from ..target import G

BOUNDS = {
    'quick': {'objects': 'every kind of object', 'arguments': 'bytes, bytearray, alternating; with and without overwriting and emptying every argument and result after every call; one reused buffer per size',
              'histories': 'all up to 3 operations (2 for signatures and key derivation); single calls with arguments up to 16384 bytes',
              'curve parameters': 'every standard curve (both forms) and the toy curves, the dictionary changed in every entry and in 4 ways as a whole after the object was created'},
    'thorough': {'objects': 'every kind with more variants', 'arguments': 'as quick', 'histories': 'all up to 4 operations (2 for signatures, 3 for key derivation)', 'curve parameters': 'as quick with more toy curves'},
}
ASSUMPTIONS = ['arguments are bytes and bytearray objects, the documented byte objects']


class Alternating:
    def __init__(self):
        self.count = 0

    def __call__(self, data):
        self.count += 1
        return bytes(data) if self.count % 2 else bytearray(data)


class Reuse:
    """The caller keeps one buffer per size and refills it for every call."""

    def __init__(self):
        self.buffers = {}

    def __call__(self, data):
        data = bytes(data)
        buf = self.buffers.setdefault(len(data), bytearray(len(data)))
        buf[:] = data
        return buf


class Buffers(System):
    def __init__(self, rec, kind, style):
        self.rec, self.kind, self.style = rec, kind, style

    def give(self):
        if self.style == 'reuse':
            return kinds.Give(Reuse())
        return kinds.Give({'bytes': bytes, 'bytearray': bytearray, 'poison': bytearray,
                           'mixed': Alternating()}[self.style])

    def settle(self, bundle):
        if self.style == 'reuse':               # only the newest filling of a buffer is the caller's
            latest = {}
            for obj, data in bundle.give.given:
                latest[id(obj)] = (obj, data)
            bundle.give.given = list(latest.values())
        bundle.give.check()
        if self.style == 'poison':
            bundle.give.poison()

    def start(self):
        env.ENTROPY.reset()
        give = self.give()
        if self.style == 'reuse':
            first = kinds.Give(bytearray)       # two arguments of one call must not share a buffer
            bundle = self.kind.make(first)
            first.check()
            first.poison()
        else:
            bundle = self.kind.make(give)
        bundle.give = give
        bundle.shadow = None
        self.settle(bundle)
        return bundle

    def key(self, bundle):
        marks = fp(bundle.impl, bundle.shadow and bundle.shadow.impl)
        return None if marks is None else (marks, env.ENTROPY.count)

    def enabled(self, bundle):
        return list(self.kind.ops) + ['copy']

    def apply(self, bundle, op):
        if self.style == 'reuse' and isinstance(self.kind, kinds.Signature):
            bundle.give = kinds.Give(bytearray)
        if op == 'copy':
            shadow = kinds.Bundle()
            shadow.__dict__.update(bundle.__dict__)
            shadow.impl = bundle.impl.copy() if self.kind.can_copy else copy.deepcopy(bundle.impl)
            shadow.model = copy.deepcopy(bundle.model)
            bundle.shadow = shadow
        else:
            self.kind.run(bundle, op, bundle.give)
        self.settle(bundle)
        self.rec.outcome(self.style)

    def observe(self, bundle):
        count = env.ENTROPY.count
        for each in (bundle.shadow, bundle):
            if each is None:
                continue
            if isinstance(self.kind, kinds.Signature):
                continue
            env.ENTROPY.count = count
            give = kinds.Give(bytearray)
            for op in self.kind.ops:
                self.kind.run(each, op, give)
                give.check()


def histories(rec, kind, style, depth):
    tree = 0 if isinstance(kind, kinds.Signature) else 1
    explore(rec, Buffers(rec, kind, style), depth, tree_depth=tree)


def types(rec):
    """Every argument position, every combination of bytes and bytearray, gives one result."""
    makes = (bytes, bytearray)

    def every(what, count, call, want=None):
        results = []
        for combo in itertools.product(makes, repeat=count):
            with rec.case(lambda: {'call': what, 'argument types': [m.__name__ for m in combo]}):
                env.ENTROPY.reset()
                got = call(*combo)
                results.append(bytes(got) if isinstance(got, bytearray) else got)
                same(results[-1], results[0], what)
                rec.step()
                rec.trace()
                rec.state((what, combo))

    key, data = pattern('C20 key', 32), pattern('C20 data', 48)
    for alg in ('magma', 'kuznechik'):
        size = 8 if alg == 'magma' else 16
        for mode in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR'):
            iv = pattern('C20 iv', size // 2 if mode == 'CTR' else 2 * size)
            const = getattr(G.gostcipher, 'MODE_' + mode)
            for op in ('encrypt', 'decrypt'):
                def call(a, b, c, d):
                    kwargs = {} if mode == 'ECB' else {'init_vect': b(iv)}
                    obj = G.gostcipher.new(alg, a(key), const, **kwargs)
                    return bytes(getattr(obj, op)(c(data))) + bytes(getattr(obj, op)(d(data[:size])))
                every('%s %s %s' % (alg, mode, op), 4, call)
        def mac(a, b, c, d):
            obj = G.gostcipher.new(alg, a(key), G.gostcipher.MODE_MAC, data=b(data[:5]))
            obj.update(c(data))
            obj.update(d(data[:9]))
            return obj.digest(8)
        every('%s MAC' % alg, 4, mac)
    for bits in (256, 512):
        def digest(a, b, c):
            obj = G.gosthash.new('streebog%d' % bits, data=a(data))
            obj.update(b(data))
            obj.update(c(data[:7]))
            return obj.digest()
        every('streebog%d' % bits, 3, digest)
        for size in (0, 20, 64):
            def hmac(a, b, c):
                obj = G.gosthmac.new('HMAC_GOSTR3411_2012_%d' % bits, a(pattern('C20 hkey', size)), data=b(data))
                obj.update(c(data))
                return obj.digest()
            every('HMAC %d key %d' % (bits, size), 3, hmac)
    every('PBKDF2', 2, lambda a, b: G.gostpbkdf.new(a(key), salt=b(data), counter=2).derive(40))
    def prng(a, b):
        obj = G.gostrandom.new(70, rand_k=a(key), size_s=32)
        first = bytes(obj.random())
        obj.reset(b(data[:32]))
        return first + bytes(obj.random())
    every('generator', 2, prng)
    for name in (sig.C256[0], sig.C512[0]):
        impl, model, size = sig.full(name)
        d, e, k = 12345, 1 << 77, 9
        pair = model.sign(d, e, k)
        every('sign ' + name, 3, lambda a, b, c: impl.sign(a(sig.num(d, size)), b(sig.num(e, size)), c(sig.num(k, size))))
        every('sign with a system nonce ' + name, 2, lambda a, b: impl.sign(a(sig.num(d, size)), b(sig.num(e, size))))
        pub = sig.pack(model.mul(d), size)
        every('verify ' + name, 3, lambda a, b, c: impl.verify(a(pub), b(sig.num(e, size)), c(sig.pack(pair, size))))
        every('public key ' + name, 1, lambda a: impl.public_key_generate(a(sig.num(d, size))))


def large(rec, what, size):
    """Long arguments: left alone, not kept, and bytes and bytearray give one result."""
    key, iv, data = pattern('C20 lkey', 32), pattern('C20 liv', 32), (pattern('C20 large', 4096) * (size // 4096 + 1))[:size]
    kind, _, rest = what.partition(' ')

    def call(give):
        if kind in ('magma', 'kuznechik'):
            n = 8 if kind == 'magma' else 16
            if rest == 'MAC':
                obj = G.gostcipher.new(kind, give(key), G.gostcipher.MODE_MAC, data=give(data))
                return [obj.digest(n), obj.update(give(data)), obj.digest(n)]
            kwargs = {} if rest == 'ECB' else {'init_vect': give(iv[:n // 2] if rest == 'CTR' else iv[:2 * n])}
            obj = G.gostcipher.new(kind, give(key), getattr(G.gostcipher, 'MODE_' + rest), **kwargs)
            return [give.result(obj.encrypt(give(data))), give.result(obj.decrypt(give(data)))]
        if kind == 'hash':
            obj = G.gosthash.new(rest, data=give(data))
            return [obj.digest(), obj.update(give(data)), obj.copy().digest()]
        if kind == 'hmac':
            obj = G.gosthmac.new(rest, give(key), data=give(data))
            return [obj.digest(), obj.update(give(data)), obj.copy().digest()]
        obj = G.gostpbkdf.new(give(key), salt=give(data), counter=1)
        return [give.result(obj.derive(40)), give.result(obj.salt)]

    results = []
    for make in (bytes, bytearray):
        with rec.case(lambda: {'call': what, 'bytes': size, 'arguments': make.__name__}):
            give = kinds.Give(make)
            results.append([bytes(v) if isinstance(v, bytearray) else v for v in call(give)])
            give.check()
            same(results[-1], results[0], what)
            rec.step(2)
            rec.trace()
            rec.state((what, size, make))
            rec.outcome((kind, size))


def wide(rec, alg, mode, z):
    """Every number of blocks (and some bytes) with a vector of z blocks, as bytes and as bytearray, call after call."""
    n = 8 if alg == 'magma' else 16
    key, iv = pattern('C20 wide key', 32), pattern('C20 wide iv', z * n)
    for blocks in range(2 * z + 3):
        for way in ('encrypt', 'decrypt'):
            for extra in (0, 3) if mode in ('CFB', 'OFB') else (0,):
                data = pattern('C20 wide data', blocks * n + extra)
                results = []
                for types_ in itertools.product((bytes, bytearray), repeat=3):
                    with rec.case(lambda: {'cipher': alg, 'mode': mode, 'vector of blocks': z, 'call': way, 'bytes': len(data),
                                           'vector, data, data of a call before': [t.__name__ for t in types_]}):
                        obj = G.gostcipher.new(alg, bytes(key), getattr(G.gostcipher, 'MODE_' + mode), init_vect=types_[0](iv))
                        out = [bytes(getattr(obj, way)(types_[2](data[:blocks * n]))), bytes(getattr(obj, way)(types_[1](data)))]
                        results.append(out)
                        same(out, results[0], way)
                        rec.step(2)
                        rec.trace()
                        rec.state((alg, mode, z, blocks, way, extra, types_))


def rejected(rec):
    """A call that is refused leaves the arguments alone too."""
    cipher = G.gostcipher
    key, iv, data = pattern('C20 rkey', 32), pattern('C20 riv', 16), pattern('C20 rdata', 40)
    name = sig.C256[0]
    impl, model, size = sig.full(name)
    num = lambda v: sig.num(v, size)
    cases = [
        ('cipher', lambda g: cipher.new('kuznechik', g(key), 77)),
        ('cipher', lambda g: cipher.new('des', g(key), cipher.MODE_ECB)),
        ('cipher', lambda g: cipher.new('magma', g(key[:31]), cipher.MODE_ECB)),
        ('cipher', lambda g: cipher.new('magma', g(key), cipher.MODE_CBC, init_vect=g(iv[:7]))),
        ('cipher', lambda g: cipher.new('magma', g(key), cipher.MODE_CTR, init_vect=g(iv))),
        ('cipher', lambda g: cipher.new('magma', g(key), cipher.MODE_ECB, pad_mode=5)),
        ('cipher', lambda g: cipher.new('magma', g(key), cipher.MODE_MAC, data='x')),
        ('hmac', lambda g: G.gosthmac.new('HMAC_GOSTR3411_2012_256', g(bytes(65)))),
        ('hmac', lambda g: G.gosthmac.new('HMAC', g(key))),
        ('hmac', lambda g: G.gosthmac.new('HMAC_GOSTR3411_2012_256', g(key), data='x')),
        ('hash', lambda g: G.gosthash.new('streebog256', data='x')),
        ('pbkdf', lambda g: G.gostpbkdf.new(g(key), salt='salt')),
        ('pbkdf', lambda g: G.gostpbkdf.new(g(b'\x11' * 65), salt=g(iv))),
        ('random', lambda g: G.gostrandom.new(32, rand_k=g(key[:31]), size_s=32)),
        ('signature', lambda g: impl.sign(g(key[:31]), g(key))),
        ('signature', lambda g: impl.sign(g(key), g(key[:31]))),
        ('signature', lambda g: impl.sign(g(num(5)), g(key), g(bytes(32)))),
        ('signature', lambda g: impl.sign(g(num(5)), g(key), g(b'\xff' * 32))),
        ('signature', lambda g: impl.verify(g(key), g(key), g(key))),
        ('signature', lambda g: impl.verify(g(key + key), g(key), g(key))),
        ('signature', lambda g: impl.verify(g(b'\xff' * 64), g(key), g(key + key))),
        ('signature', lambda g: impl.public_key_generate(g(bytes(32)))),
        ('signature', lambda g: impl.public_key_generate(g(key[:3]))),
    ]
    for index, (kind, call) in enumerate(cases):
        for make in (bytes, bytearray):
            with rec.case({'rejected call': index, 'kind': kind, 'arguments': make.__name__}):
                give = kinds.Give(make)
                expect_error(kind, None, lambda: call(give), 'rejected call')
                give.check()
                rec.step()
                rec.trace()
                rec.state((index, make))


WRECKS = {
    'emptied': lambda d, other: d.clear(), 'all zero': lambda d, other: d.update({k: 0 for k in d}),
    'every entry one more': lambda d, other: d.update({k: v + 1 for k, v in d.items()}),
    'replaced by another curve': lambda d, other: (d.clear(), d.update(other)),
}


def parameters(rec, label, params, other, size):
    """The dictionary of curve parameters is left alone, and what becomes of it later changes nothing."""
    os.environ['GOSTCRYPTO_MC_SMALL_CURVES'] = '1'
    model = ref.Curve(params)
    q = model.q
    d, k = (q - 2, 2) if q < 1000 else (sig.rand_int('C20 d', q), 5)
    e = 3 + q * (q < 1000)
    num = lambda v: bytearray(sig.num(v, size))
    pub, pair = sig.pack(model.mul(d), size), model.sign(d, e, k)
    for name in list(WRECKS) + sorted(params):
        with rec.case(lambda: {'curve': label, 'dictionary of the caller': name if name in WRECKS else 'entry %s is changed' % name}):
            mine = dict(params)
            impl = G.gostsignature.new(sig.mode(size), mine)
            same(mine, params, 'the dictionary of the caller after the call')
            if name in WRECKS:
                WRECKS[name](mine, other)
            else:
                mine[name] += 2
            left = dict(mine)
            for _ in range(2):
                same_bytes(impl.public_key_generate(num(d)), pub, 'public key')
                if pair:
                    same_bytes(impl.sign(num(d), num(e), num(k)), sig.pack(pair, size), 'signature')
                    same(impl.verify(bytearray(pub), num(e), bytearray(sig.pack(pair, size))), True, 'verify')
            same(mine, left, 'the dictionary of the caller after further calls')
            rec.step(6)
            rec.trace()
            rec.state((label, size, name))


def jobs(tier):
    deep = tier == 'thorough'
    out = [('argument types', types, ()), ('rejected calls', rejected, ())]
    whats = ['%s %s' % (alg, mode) for alg in ('magma', 'kuznechik') for mode in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR', 'MAC')]
    whats += ['hash streebog256', 'hash streebog512', 'hmac HMAC_GOSTR3411_2012_256', 'hmac HMAC_GOSTR3411_2012_512', 'pbkdf']
    for name in sig.CURVES:
        names = [n for n in sig.CURVES if sig.SIZE[n] == sig.SIZE[name] and n != name]
        out.append(('%s parameters' % name, parameters, (name, sig.CURVES[name], sig.CURVES[names[0]], sig.SIZE[name])))
        if 'e' in sig.CURVES[name]:
            params = {k: v for k, v in sig.CURVES[name].items() if k not in 'abxy'}
            out.append(('%s parameters, Edwards form' % name, parameters, (name + ' edwards', params, sig.CURVES[names[0]], sig.SIZE[name])))
    toys = sig.toys((7, 11, 13, 17) if deep else (7, 11))
    for index, params in enumerate(toys):
        out.append(('toy %s parameters' % sig.toy_id(params), parameters, (sig.toy_id(params), params, toys[index - 1], 32 + index % 2 * 32)))
    for alg in ('magma', 'kuznechik'):
        for mode in ('CBC', 'CFB', 'OFB'):
            for z in (1, 2, 3, 4) + ((5, 9) if deep else ()):
                out.append(('wide %s %s z=%d' % (alg, mode, z), wide, (alg, mode, z)))
    for what in whats:
        for size in (256, 1024, 1040, 4096, 4112, 16384) + ((65552, 1 << 20) if deep else ()):
            out.append(('large %s %d' % (what, size), large, (what, size)))
    for kind in kinds.catalogue(deep):
        slow = isinstance(kind, (kinds.Signature, kinds.Pbkdf))
        for style in ('bytes', 'bytearray', 'poison', 'mixed', 'reuse'):
            depth = (2 if slow else 3) + (1 if deep and not isinstance(kind, kinds.Signature) else 0)
            if isinstance(kind, kinds.Signature) and kind.size == 64 and not deep:
                depth = 1
            out.append(('%s %s' % (kind.name, style), histories, (kind, style, depth)))
    return out
