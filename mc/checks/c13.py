"""C13: sign() returns the pair (r, s) of GOST R 34.10-2012 and the result verifies."""
from ..engine import expect_error, same, same_bytes
from ..env import pattern
from .. import kinds, marathon, sig

BOUNDS = {
    'quick': {'curves': 'the 7 standard curves; toy curves over p = 7, 11, 13, 17 (every class of cofactor, base on x=0, q>p, a=0, b=0)',
              'full size': '5 private keys x 6 digests x 5 nonces (256), 4 x 4 x 3 (512); every power of two as nonce and as key (256 set A/B)',
              'driven values': 'digests chosen so that s is 1, q-1, a power of two, has leading or trailing zero bytes, equal words or bytes that cancel (about 60 shapes); the same for digest, key and nonce',
              'two-byte curves': '6 curves, p = 509, 1021 (every nonce, every key, every digest residue in turn) and 40009 (every 26th)',
              'toy size': 'every private key, every nonce, every digest residue',
              'long life of one object': 'every pair of calls in one life of 60 calls; 66000 signatures, and 66000 mixed calls, over toy curves'},
    'thorough': {'curves': 'the 7 standard curves; toy curves over primes up to 31',
                 'full size': '10 x 12 x 10 (256), 8 x 8 x 6 (512); every power of two on every curve',
                 'driven values': 'about 1000 shapes', 'toy size': 'every private key, every nonce, every digest residue, in both signature sizes',
                 'long life of one object': 'every 3-call word, 200 calls; 200000 calls over toy curves'},
}
ASSUMPTIONS = ['toy curves are admitted by the guarded hook GOSTCRYPTO_MC_SMALL_CURVES; the arithmetic under check is the same code']


def one(rec, impl, model, size, d, e, k, verify, ident, pub=None):
    with rec.case(lambda: {'curve': ident, 'private key': hex(d), 'digest': hex(e), 'nonce': hex(k)}):
        want = model.sign(d, e, k)
        key, digest, nonce = sig.num(d, size), sig.num(e, size), sig.num(k, size)
        if want is None:
            expect_error('signature', 'invalid random value',
                         lambda: impl.sign(bytearray(key), bytearray(digest), bytearray(nonce)), 'unusable nonce')
            rec.outcome('unusable nonce')
        else:
            got = impl.sign(bytearray(key), bytearray(digest), bytearray(nonce))
            same_bytes(got, sig.pack(want, size), 'signature')
            if verify:
                pub = pub or model.mul(d)
                same(impl.verify(bytearray(sig.pack(pub, size)), bytearray(digest), got), True, 'verify(sign())')
                rec.step()
            rec.outcome('signature')
        rec.step()
        rec.trace()
        rec.state((ident, d, e, k))
        rec.sample({'curve': ident, 'd': hex(d)[:40], 'e': hex(e)[:40], 'k': hex(k)[:40]})


def full_grid(rec, name, part, parts, n_d, n_e, n_k):
    impl, model, size = sig.full(name)
    keys = sig.scalars(name, model.q, size, n_d)
    nonces = sig.scalars(name + ' nonce', model.q, size, n_k)
    digests = sig.digests(name, model.q, size, n_e)
    index = 0
    for i, d in enumerate(keys):
        for j, e in enumerate(digests):
            for m, k in enumerate(nonces):
                index += 1
                if index % parts == part:
                    one(rec, impl, model, size, d, e, k, (i + j + m) % 4 == 0, name)


def powers(rec, name, what, first, step):
    impl, model, size = sig.full(name)
    e = sig.digests(name, model.q, size, 1)[0]
    for bit in range(first, model.q.bit_length() - 1, step):
        value = 1 << bit
        other = sig.rand_int('C13 other ' + name, model.q)
        if what == 'nonce':
            one(rec, impl, model, size, other, e, value, False, name)
        elif what == 'key':
            one(rec, impl, model, size, value, e, 3, False, name)
        else:
            one(rec, impl, model, size, other, value, 5, True, name)


def toy(rec, params, size, verify_all):
    impl, model = sig.toy(params, size)
    ident = '%s size %d' % (sig.toy_id(params), size)
    pubs = sig.subgroup(model)
    q = model.q
    for d in range(1, q):
        for k in range(1, q):
            for e in range(q):
                one(rec, impl, model, size, d, e, k, verify_all or (d + e + k) % 5 == 0, ident, pubs[d])
    top = (1 << 8 * size) - 1
    for e in (q, q + 1, 2 * q, top - top % q, top, top - top % q - 1):     # digests far above q
        for k in range(1, q):
            one(rec, impl, model, size, q - 2, e, k, True, ident, pubs[q - 2])


def mid(rec, params, size):
    """Two-byte curves: every nonce, every key and every digest residue in turn."""
    impl, model = sig.toy(params, size)
    ident = '%s size %d' % (sig.toy_id(params), size)
    q = model.q
    step = 1 if q < 2000 else q // 1500
    for value in range(1, q, step):
        one(rec, impl, model, size, q // 3, q // 5, value, value % 64 == 0, ident)
        one(rec, impl, model, size, value, q // 7, q // 2, False, ident)
        one(rec, impl, model, size, q - 3, value, q // 3, False, ident)


def driven(rec, name, part, parts, dense):
    """The digest is chosen so that s has a special shape; or the digest itself, or the nonce, has it."""
    impl, model, size = sig.full(name)
    q = model.q
    d = sig.rand_int('C13 driven ' + name, q)
    shapes = sorted(sig.shaped_scalars(name, q, size, dense).values())
    for index, value in enumerate(shapes):
        if index % parts != part:
            continue
        for k in (1, 3):
            r = model.mul(k)[0] % q
            e = (value - r * d) * pow(k, -1, q) % q
            if r and e:
                if model.sign(d, e, k) != (r, value):
                    raise AssertionError('s was not driven')
                one(rec, impl, model, size, d, e, k, k == 3, name)
        one(rec, impl, model, size, d, value, 3, False, name)
        one(rec, impl, model, size, value, d, 3, False, name)
        if dense or index % 3 == 0:
            one(rec, impl, model, size, d, d // 3, value, False, name)


def digest_bytes(rec, name, first, step):
    """Every byte of the digest matters, at the big and the little end."""
    impl, model, size = sig.full(name)
    d = sig.rand_int('C13 db ' + name, model.q)
    base = pattern('C13 digest ' + name, size)
    for pos in range(first, size, step):
        digest = bytearray(base)
        digest[pos] ^= 0x81
        one(rec, impl, model, size, d, int.from_bytes(digest, 'big'), 7, False, name)
        key = bytearray(sig.num(d, size))
        if pos:
            key[pos] ^= 0x40
            one(rec, impl, model, size, int.from_bytes(key, 'big') % model.q, int.from_bytes(base, 'big'), 11, False, name)


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for name in sig.CURVES:
        small = sig.SIZE[name] == 32
        dims = ((10, 12, 10) if small else (8, 8, 6)) if deep else ((5, 6, 5) if small else (4, 4, 3))
        parts = 8 if not deep else 32
        for part in range(parts):
            out.append(('%s grid %d' % (name, part), full_grid, (name, part, parts) + dims))
        if deep or name.endswith(('256-paramSetA', '256-paramSetB')):
            for what in ('nonce', 'key', 'digest'):
                for first in range(4):
                    out.append(('%s powers of two as %s %d' % (name, what, first), powers, (name, what, first, 4)))
        for part in range(8 if deep else 2):
            out.append(('%s driven %d' % (name, part), driven, (name, part, 8 if deep else 2, deep)))
        for first in range(2):
            out.append(('%s digest bytes %d' % (name, first), digest_bytes, (name, first, 2 if deep or small else 8)))
    for index, params in enumerate(sig.mids(deep)):
        for size in (32, 64) if deep else (32 if index % 2 else 64,):
            out.append(('mid %s size %d' % (sig.toy_id(params), size), mid, (params, size)))
    for params in sig.toys((7, 11, 13, 17, 19, 23, 29, 31) if deep else (7, 11, 13, 17)):
        for size in (32, 64) if deep else (32 if params['q'] % 4 == 1 else 64,):
            out.append(('toy %s size %d' % (sig.toy_id(params), size), toy, (params, size, deep)))
    for size in (32, 64):
        for params in sig.toys((13,))[:8 if deep else 2]:
            for what in ('sign', 'mixed'):
                out.append(('%s life of calls over %s size %d' % (what, sig.toy_id(params), size), marathon.signing, (params, size, what, 200000 if deep else 66000)))
    for name in sig.CURVES:
        out.append(('%s long life' % name, marathon.life, (kinds.Signature(name), 3 if deep else 2, 200 if deep else 60, ('public',), deep, False, True)))
    return out
