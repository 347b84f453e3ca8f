"""C14: verify() accepts exactly the signatures that satisfy the verification equation."""
from ..engine import Mismatch, same
from ..env import pattern
from ..target import error_class
from .. import marathon, sig

BOUNDS = {
    'quick': {'toy size': 'every public key of the subgroup, every r and s in 0..q+1 and at the top of the range, every digest residue; every off-curve point',
              'two-byte curves': '6 curves (p = 509, 1021: every value of r, of s, of the digest and of the key in turn; p = 40009: every 40th)',
              'driven values': 'valid signatures (and their neighbours) whose two multipliers, or s, are 1, q-1, a power of two, have leading or trailing zero bytes, equal words or bytes that cancel (about 60 shapes, thinned)',
              'full size': 'every 2nd bit of s and r (256 set A), every 32nd / 73rd bit on the other curves; every 8th..73rd bit of the digest and key; r, s out of range',
              'long life of one object': '66000 verifications, a third of them forgeries, over toy curves'},
    'thorough': {'toy size': 'as quick over curves up to p = 23 and both signature sizes',
                 'two-byte curves': 'as quick over up to 23 curves and both sizes',
                 'driven values': 'about 1000 shapes', 'full size': 'every bit of r, s, digest and key on every curve',
                 'long life of one object': '200000 verifications over toy curves'},
}
ASSUMPTIONS = ['toy curves are admitted by the guarded hook GOSTCRYPTO_MC_SMALL_CURVES; the arithmetic under check is the same code',
               'public keys outside the prime-order subgroup (cofactor curves) are not judged']


def decide(rec, impl, model, size, pub, e, r, s, ident, count=True):
    """The verdict of the library on raw values, compared with the model's."""
    with rec.case(lambda: {'curve': ident, 'public key': [hex(x) for x in pub], 'digest': hex(e),
                           'r': hex(r), 's': hex(s)}):
        valid_key = pub[0] < model.p and pub[1] < model.p and model.on(pub)
        args = (bytearray(sig.pack(pub, size)), bytearray(sig.num(e, size)), bytearray(sig.pack((r, s), size)))
        try:
            got = impl.verify(*args)
        except error_class('signature') as exc:
            if valid_key or 'invalid public key value' not in str(exc):
                raise Mismatch('rejected with %s' % exc)
            got = 'invalid key'
        want = model.verify(pub, e, r, s) if valid_key else 'invalid key'
        if not valid_key and got is False:
            got = want                  # refusing by verdict is as good as refusing by exception
        same(got, want, 'verify')
        rec.step()
        if count:
            rec.state((ident, pub, e, r, s))
        rec.trace()
        rec.outcome(want)
        if want is True:
            rec.note('accepted')


def toy(rec, params, size, part, parts):
    impl, model = sig.toy(params, size)
    ident = '%s size %d' % (sig.toy_id(params), size)
    q = model.q
    top = (1 << 8 * size) - 1
    points = sig.subgroup(model)
    values = list(range(q + 2))
    for d, pub in points.items():
        if d % parts != part:
            continue
        for e in range(q):
            for r in values:
                for s in values:
                    decide(rec, impl, model, size, pub, e, r, s, ident)
            for r, s in ((top, 1), (1, top), (top - top % q, 1), (1, top - top % q - 1), (2 * q + 1, 2), (2, 2 * q + 1)):
                decide(rec, impl, model, size, pub, e, r, s, ident)
    if part == 0:
        for x in range(model.p + 2):
            for y in range(model.p + 2):
                if not (x < model.p and y < model.p and model.on((x, y))):
                    for r, s in ((1, 1), (2, 3), (0, 1), (q, 2)):
                        decide(rec, impl, model, size, (x, y), 1, r, s, ident)
        for pub in points.values():     # the same point in other representations
            for alias in ((pub[0] + model.p, pub[1]), (pub[0], pub[1] + model.p)):
                for s in range(1, q):
                    decide(rec, impl, model, size, alias, 2, 1, s, ident)


def mid(rec, params, size, part, parts):
    """Two-byte values: every r for a few s, every s for a few r, every digest residue for a valid pair."""
    impl, model = sig.toy(params, size)
    ident = '%s size %d' % (sig.toy_id(params), size)
    q = model.q
    step = 1 if q < 2000 else q // 1000
    for index in range(2):
        d = q // 3 + index
        pub = model.mul(d)
        e = (q // 5 + 7 * index) % q
        for r in range(1 + part * step, q + 2, parts * step):
            for s in (1, q // 2 + 1, q - 1, (r * d + 3 * e) % q):
                decide(rec, impl, model, size, pub, e, r, s, ident)
        for k in (2, q // 2, q - 2):
            good = model.sign(d, e, k)
            if not good:
                continue
            r, s = good
            for other in range(part * step, q + 2, parts * step):
                decide(rec, impl, model, size, pub, e, r, other, ident)
                decide(rec, impl, model, size, pub, e, other, s, ident)
                decide(rec, impl, model, size, pub, other, r, s, ident)
    for d in range(1 + part * step, q, parts * step):       # every public key
        pub = model.mul(d)
        for k in (1, 5):
            good = model.sign(d, d * 3, k)
            if good:
                decide(rec, impl, model, size, pub, d * 3, good[0], good[1], ident)
                decide(rec, impl, model, size, pub, d * 3, good[0] ^ 0x101, good[1], ident)
        decide(rec, impl, model, size, (pub[0], (pub[1] + 1) % model.p), 3, 5, 7, ident)


def valid(name):
    """A valid signature, built by the model."""
    impl, model, size = sig.full(name)
    d = sig.rand_int('C14 d ' + name, model.q)
    k = sig.rand_int('C14 k ' + name, model.q)
    e = int.from_bytes(pattern('C14 e ' + name, size), 'big')
    return impl, model, size, model.mul(d), e, model.sign(d, e, k)


def bits(rec, name, what, first, step):
    impl, model, size, pub, e, (r, s) = valid(name)
    for bit in range(first, 8 * size, step):
        flip = 1 << bit
        if what == 'r':
            decide(rec, impl, model, size, pub, e, r ^ flip, s, name)
        elif what == 's':
            decide(rec, impl, model, size, pub, e, r, s ^ flip, name)
        elif what == 'e':
            decide(rec, impl, model, size, pub, e ^ flip, r, s, name)
        elif what == 'x':
            decide(rec, impl, model, size, (pub[0] ^ flip, pub[1]), e, r, s, name)
        elif what == 'y':
            decide(rec, impl, model, size, (pub[0], pub[1] ^ flip), e, r, s, name)


def ranges(rec, name, rich):
    impl, model, size, pub, e, (r, s) = valid(name)
    top = (1 << 8 * size) - 1
    q, p = model.q, model.p
    decide(rec, impl, model, size, pub, e, r, s, name)
    for bad_r, bad_s in ((0, s), (r, 0), (0, 0), (q, s), (r, q), (r + q, s), (r, s + q), (q + 1, s), (r, q + 1),
                         (top, s), (r, top), (s, r), (q - r, s), (r, q - s), (q - r, q - s), (1, 1), (q - 1, q - 1)):
        if bad_r <= top and bad_s <= top:
            decide(rec, impl, model, size, pub, e, bad_r, bad_s, name)
    neg = (pub[0], p - pub[1])
    base = model.base
    for other in (neg, base, (base[0], p - base[1]), model.mul(2), (0, 0), (p, pub[1]), (pub[0], p),
                  (pub[0] + p, pub[1]), (pub[0], pub[1] + p), (pub[1], pub[0]), (top, top)):
        if max(other) <= top:
            decide(rec, impl, model, size, other, e, r, s, name)
    for other_e in ((e + q) % (top + 1), e - q if e >= q else e, 0, q % (top + 1), 1, top):
        decide(rec, impl, model, size, pub, other_e, r, s, name)
    # valid signatures of special shape: for keys d = 1, q-1 (the base point and its opposite), digest 0, extreme nonces
    for d in (1, q - 1, 2, (q + 1) // 2)[:4 if rich else 2]:
        for k in (1, 2, q - 1)[:3 if rich else 1]:
            for dig in (0, 1, top)[:3 if rich else 1]:
                good = model.sign(d, dig, k)
                if good:
                    decide(rec, impl, model, size, model.mul(d), dig, good[0], good[1], name)


def forgeries(rec, name, count):
    """s chosen so that the two multiplied points cancel or coincide: C = O or a doubling."""
    impl, model, size = sig.full(name)
    q = model.q
    for label in range(count):
        d = sig.rand_int('C14 f%d %s' % (label, name), q)
        pub = model.mul(d)
        e = model.e_of(int.from_bytes(pattern('C14 fe%d %s' % (label, name), size), 'big'))
        for r in (1, 2, sig.rand_int('C14 fr%d %s' % (label, name), q), q - 1):
            s = r * d % q                               # C = s/e P - r/e d P = O
            decide(rec, impl, model, size, pub, e, r, s, name)
            decide(rec, impl, model, size, pub, e, r, (q - s) % q, name)    # both points equal: a doubling


def driven(rec, name, part, parts, dense):
    """Valid signatures whose multipliers z1 = s/e and z2 = -r/e, or whose s, are of special shape."""
    impl, model, size = sig.full(name)
    q = model.q
    d = sig.rand_int('C14 driven ' + name, q)
    pub = model.mul(d)
    shapes = sorted(sig.shaped_scalars(name, q, size, dense).values())
    other = sig.rand_int('C14 other ' + name, q)
    for index, value in enumerate(shapes):
        if index % parts != part:
            continue
        near = shapes[(index * 7 + 3) % len(shapes)]
        if not dense and index // parts % (2 if size == 32 else 5):
            pairs = ((value, near),)
        else:
            pairs = ((value, other), (other, value), (value, value), (value, near), (near, q - value))
        for z1, z2 in pairs if dense or size == 32 else pairs[:2]:
            point = model.mul((z1 + z2 * d) % q)
            if point is None or point[0] % q == 0:
                continue
            r = point[0] % q
            e = -r * pow(z2, -1, q) % q
            decide(rec, impl, model, size, pub, e, r, z1 * e % q, name)
            if dense or index % 8 == 0:
                decide(rec, impl, model, size, pub, e, r, (z1 * e + 1) % q, name)
        r = model.mul(other)[0] % q
        e = (value - r * d) * pow(other, -1, q) % q
        if e and (dense or size == 32):
            decide(rec, impl, model, size, pub, e, r, value, name)
            if not dense:
                continue
            decide(rec, impl, model, size, pub, e, value, value, name)


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    primes = (7, 11, 13, 17, 19, 23) if deep else (7, 11, 13)
    for params in sig.toys(primes):
        if not deep and params['q'] > 13:
            continue
        parts = 4
        for part in range(parts):
            for size in (32, 64) if deep else (32 if params['q'] % 4 == 1 else 64,):
                out.append(('toy %s size %d part %d' % (sig.toy_id(params), size, part), toy, (params, size, part, parts)))
    for index, params in enumerate(sig.mids(deep)):
        for size in (32, 64) if deep else (32 if index % 2 else 64,):
            for part in range(4):
                out.append(('mid %s size %d part %d' % (sig.toy_id(params), size, part), mid, (params, size, part, 4)))
    for name in sig.CURVES:
        small = sig.SIZE[name] == 32
        main = name.endswith('256-paramSetA')
        for what in 'rsexy':
            if deep:
                step = 8 if small else 16
                for first in range(step):
                    out.append(('%s bits of %s %d' % (name, what, first), bits, (name, what, first, step)))
            elif small:
                step = (2 if main else 32) if what in 'rs' else (8 if main else 32) if what == 'e' else 16
                if step == 2:
                    for first in range(0, 16, 2):
                        out.append(('%s bits of %s %d' % (name, what, first), bits, (name, what, first, 16)))
                else:
                    out.append(('%s bits of %s' % (name, what), bits, (name, what, 0, step)))
                    out.append(('%s bits of %s top' % (name, what), bits, (name, what, 255, 256)))
            else:
                out.append(('%s bits of %s' % (name, what), bits, (name, what, 0, 73)))
                out.append(('%s bits of %s top' % (name, what), bits, (name, what, 511, 512)))
        for part in range(16 if deep else 4):
            out.append(('%s driven %d' % (name, part), driven, (name, part, 16 if deep else 4, deep)))
        out.append(('%s ranges' % name, ranges, (name, deep or main)))
        out.append(('%s forgeries' % name, forgeries, (name, 3 if deep else 1)))
    for size in (32, 64):
        for params in sig.toys((13,))[:8 if deep else 2]:
            for what in ('verify',):
                out.append(('%s life of calls over %s size %d' % (what, sig.toy_id(params), size), marathon.signing, (params, size, what, 200000 if deep else 66000)))
    return out
