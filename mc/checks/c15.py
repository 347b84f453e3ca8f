"""C15: public keys are d*P on the standard curves, and the curve table is the standard's."""
from ..engine import Mismatch, expect_error, same, same_bytes
from ..ref import gost as ref
from ..target import G
from .. import marathon, sig

BOUNDS = {
    'quick': {'full size': 'structured keys, every power of two and its predecessor (step 1 on set A, 8 on the other 256-bit, 32 on the 512-bit ones)',
              'toy size': 'every private key on every curve class over p = 7..23, on every base point; every twisted Edwards curve over p = 13, 17; every private key on 5 two-byte curves',
              'table': 'every parameter of every curve', 'long life of one object': '66000 public keys over toy curves'},
    'thorough': {'full size': 'every power of two, its predecessor and complement on every curve',
                 'toy size': 'as quick up to p = 43, Edwards up to p = 31', 'table': 'every parameter of every curve',
                 'long life of one object': '200000 public keys over toy curves'},
}
ASSUMPTIONS = ['toy curves are admitted by the guarded hook GOSTCRYPTO_MC_SMALL_CURVES; the arithmetic under check is the same code',
               'private keys of q and above are not judged, except multiples of q']


def one(rec, impl, model, size, d, ident, want=None):
    with rec.case(lambda: {'curve': ident, 'private key': hex(d)}):
        want = want or model.mul(d)
        got = impl.public_key_generate(bytearray(sig.num(d, size)))
        same_bytes(got, sig.pack(want, size), 'public key')
        if not model.on(want):
            raise Mismatch('the model left the curve')
        rec.state((ident, d))
        rec.step()
        rec.trace()
        rec.outcome(ident)
        rec.sample({'curve': ident, 'd': hex(d)[:40]})


def structured(rec, name):
    impl, model, size = sig.full(name)
    for d in sig.scalars(name, model.q, size, 14):
        one(rec, impl, model, size, d, name)
    for d in range(1, 18):
        one(rec, impl, model, size, d, name)
        if d < 6:
            one(rec, impl, model, size, model.q - d, name)
    multiples = [0, model.q] + ([2 * model.q] if (2 * model.q) >> (8 * size) == 0 else [])
    for d in multiples:
        if d >> (8 * size):
            continue
        with rec.case({'curve': name, 'private key': hex(d)}):
            expect_error('signature', 'invalid private key',
                         lambda: impl.public_key_generate(bytearray(sig.num(d, size))), 'private key = 0 mod q')
            rec.step()
            rec.state((name, d))


def edwards_form(rec, name):
    """The standard curve given by its Edwards parameters only generates the same keys."""
    size = sig.SIZE[name]
    with rec.case({'curve': name, 'form': 'Edwards'}):
        params = {k: v for k, v in sig.CURVES[name].items() if k not in 'abxy'}
        impl, model = G.gostsignature.new(sig.mode(size), params), ref.Curve(params)
        same(model.base, ref.Curve(sig.CURVES[name]).base, 'base point (reference)')
        for d in sig.scalars(name, model.q, size, 6):
            one(rec, impl, model, size, d, name + ' edwards')


def powers(rec, name, first, step):
    impl, model, size = sig.full(name)
    pt = model.base
    power = None
    top = model.q.bit_length() - 1
    for bit in range(top + 1):
        power = model.base if bit == 0 else model.add(power, power)
        if bit % step == first or bit == top and first == 0:
            one(rec, impl, model, size, 1 << bit, name, power)
            if bit > 1:
                minus = model.add(power, (pt[0], model.p - pt[1]))
                one(rec, impl, model, size, (1 << bit) - 1, name, minus)


def random_keys(rec, name, part, count):
    impl, model, size = sig.full(name)
    for i in range(count):
        one(rec, impl, model, size, sig.rand_int('C15 %s %d %d' % (name, part, i), model.q), name)


def toy(rec, params):
    """Every private key on every base point of prime order."""
    base_model = ref.Curve(params)
    done = 0
    for pt in base_model.points():
        if base_model.mul(params['q'], pt) is not None:
            continue
        local = dict(params, x=pt[0], y=pt[1])
        if not any((local['a'], local['b'], local['x'], local['y'])):
            continue                    # reads as 'no Weierstrass form given'
        size = 32 if done % 2 else 64
        done += 1
        impl, model = sig.toy(local, size)
        ident = '%s size %d' % (sig.toy_id(local), size)
        for d, want in sig.subgroup(model).items():
            one(rec, impl, model, size, d, ident, want)
        with rec.case({'curve': ident, 'private key': params['q']}):
            expect_error('signature', 'invalid private key',
                         lambda: impl.public_key_generate(bytearray(sig.num(params['q'], size))), 'd = q')
            rec.step()


def mid(rec, params, size):
    """Two-byte curves: every private key."""
    impl, model = sig.toy(params, size)
    ident = '%s size %d' % (sig.toy_id(params), size)
    step = 1 if model.q < 2000 else 13
    for d in range(1, model.q, step):
        one(rec, impl, model, size, d, ident)


def edwards_toys(p):
    """Twisted Edwards curves e u^2 + v^2 = 1 + d u^2 v^2 with a base point of prime order."""
    out = []
    for e in range(1, p):
        for d in range(1, p):
            if e == d:
                continue
            for u in range(1, p):
                for v in range(p):
                    if v == 1 or (e * u * u + v * v - 1 - d * u * u * v * v) % p:
                        continue
                    params = {'p': p, 'q': 0, 'e': e, 'd': d, 'u': u, 'v': v}
                    a, b, base = ref.edwards(params)
                    curve = ref.Curve({'p': p, 'q': 0, 'a': a, 'b': b, 'x': base[0], 'y': base[1]})
                    if (4 * a ** 3 + 27 * b * b) % p == 0 or not curve.on(base):
                        continue
                    q = sig._order(curve, base)
                    if q > 4 and q != p and sig._is_prime(q):
                        out.append(dict(params, q=q, m=q * 4))
    return out


def edwards(rec, p, part, parts):
    for params in edwards_toys(p)[part::parts]:
        ident = 'edwards ' + ' '.join('%s=%d' % (k, params[k]) for k in 'pedquv')
        with rec.case({'curve': ident}):
            impl, model = sig.toy(params, 32)
        for d, want in sig.subgroup(model).items():
            one(rec, impl, model, 32, d, ident, want)


def table(rec):
    got = G.gostsignature.CURVES_R_1323565_1_024_2019
    for name, params in sig.CURVES.items():
        with rec.case({'curve': name}):
            if name not in got:
                raise Mismatch('the curve is missing from the table')
            entry = dict(got[name])
            model = ref.Curve(params)
            for key in ('p', 'q'):
                same(entry.get(key), params[key], '%s of %s' % (key, name))
            for key in params:
                if key in entry:
                    same(entry[key], params[key], '%s of %s' % (key, name))
                elif key != 'm' and params[key] != 0:
                    raise Mismatch('parameter %s of %s is missing' % (key, name))
            for key in entry:
                if key in params:
                    continue
                if key in 'abxy' and entry[key] != 0:   # both forms given: they must be the same curve
                    same(entry[key], {'a': model.a, 'b': model.b, 'x': model.base[0], 'y': model.base[1]}[key], key)
            rec.step(len(params))
            rec.state(name)
            rec.trace()
    with rec.case('names'):
        same(sorted(got), sorted(sig.CURVES), 'names in the curve table')


def table_after_use(rec):
    """Objects made from the table, and their calls, leave it as it was."""
    for name in sig.CURVES:
        with rec.case({'curve': name, 'history': 'new, public key, sign, verify'}):
            impl, model, size = sig.full(name)
            num = lambda v: bytearray(sig.num(v, size))
            pub = impl.public_key_generate(num(5))
            same(impl.verify(pub, num(7), impl.sign(num(5), num(7), num(3))), True, 'verify')
            same(impl.verify(pub, num(8), impl.sign(num(5), num(7), num(3))), False, 'verify')
            del impl
            rec.step(5)
            rec.trace()
    table(rec)


def jobs(tier):
    deep = tier == 'thorough'
    out = [('table', table, ()), ('table after use', table_after_use, ())]
    for name in sig.CURVES:
        small = sig.SIZE[name] == 32
        out.append(('%s structured' % name, structured, (name,)))
        if 'e' in sig.CURVES[name]:
            out.append(('%s edwards form' % name, edwards_form, (name,)))
        step = 8 if deep else 8 if small else 32
        for first in (range(step) if deep or name.endswith('256-paramSetA') else (0, step - 1)):
            out.append(('%s powers %d/%d' % (name, first, step), powers, (name, first, step)))
        for part in range(16 if deep else 2):
            out.append(('%s seeded %d' % (name, part), random_keys, (name, part, 40 if deep else 12 if small else 3)))
    for params in sig.toys((7, 11, 13, 17, 19, 23) + ((29, 31, 37, 41, 43) if deep else ())):
        out.append(('toy %s' % sig.toy_id(params), toy, (params,)))
    for index, params in enumerate(sig.mids(deep)):
        out.append(('mid %s' % sig.toy_id(params), mid, (params, 32 if index % 2 else 64)))
    for p in (13, 17) + ((19, 23, 29, 31) if deep else ()):
        for part in range(4 if not deep else 16):
            out.append(('edwards mod %d part %d' % (p, part), edwards, (p, part, 4 if not deep else 16)))
    for size in (32, 64):
        for params in sig.toys((13,))[:8 if deep else 2]:
            for what in ('public',):
                out.append(('%s life of calls over %s size %d' % (what, sig.toy_id(params), size), marathon.signing, (params, size, what, 200000 if deep else 66000)))
    return out
