"""C16: unusable elliptic curve parameters are rejected, the standard ones accepted in their mode only."""
import itertools
import os

from ..engine import Mismatch, expect_error, same
from ..ref import gost as ref
from ..target import G, error_class
from .. import sig

BOUNDS = {
    'quick': {'mutations': 'every bit of a, b, x, y (Weierstrass) and e, d, u, v (Edwards); p +- 1..16; every parameter missing; m = p; b from y2, x3, ax with every sign and factor',
              'toy size': 'every (a, b, x, y) modulo 5, 7, 11 and every (e, d, u, v) modulo 7, 11: accepted exactly on the curve',
              'subgroup order': 'every boundary of the two ranges', 'embedding degree': 'every i in 1..40 (256) and 1..140 (512)',
              'modes': 'every curve in both modes, 12 invalid modes'},
    'thorough': {'mutations': 'as quick plus every pair of parameters exchanged and negated',
                 'toy size': 'as quick, modulo 13 and 17 too', 'subgroup order': 'as quick, every power of two and its neighbours',
                 'embedding degree': 'as quick over 4 different orders', 'modes': 'as quick'},
}
ASSUMPTIONS = ['primality of p and q and the order of the base point are not judged (the library documents no such check)',
               'the embedding degree bounds are those of GOST R 34.10-2012: 31 and 131']
TEXT = 'invalid parameters of the elliptic curve'


def accepted(mode_size, params):
    try:
        G.gostsignature.new(sig.mode(mode_size), params)
    except error_class('signature') as exc:
        if TEXT not in str(exc):
            raise Mismatch('rejected with %s' % exc)
        return False
    return True


def judge(rec, mode_size, params, want, ident):
    with rec.case(lambda: {'mode': mode_size, 'case': ident, 'parameters': {k: hex(v) for k, v in params.items()}}):
        same(accepted(mode_size, dict(params)), want, 'accepted')
        rec.step()
        rec.trace()
        rec.state((mode_size, sorted(params.items())))
        rec.outcome('accepted' if want else 'rejected')


def on_curve(params):
    """Does the base point (after conversion) satisfy the Weierstrass equation?"""
    get = lambda k: params.get(k, 0)
    p = params['p']
    if not any((get('a'), get('b'), get('x'), get('y'))):
        try:
            a, b, base = ref.edwards({k: get(k) for k in 'pequvd'})
        except ValueError:
            return None
    else:
        a, b, base = get('a'), get('b'), (get('x'), get('y'))
    x, y = base
    return (y * y - x ** 3 - a * x - b) % p == 0


def builtin(rec):
    for name in sig.CURVES:
        for size in (32, 64):
            judge(rec, size, G.gostsignature.CURVES_R_1323565_1_024_2019[name], size == sig.SIZE[name], name)
            judge(rec, size, sig.CURVES[name], size == sig.SIZE[name], name + ' (reference table)')
            if 'e' in sig.CURVES[name]:
                judge(rec, size, edwards_only(sig.CURVES[name]), size == sig.SIZE[name], name + ' (Edwards form only)')


def modes(rec):
    name = sig.C256[0]
    for mode in (0, 3, -1, 4, 255, 256, 512, None, 'MODE_256', '1', b'\x01', 1.5):
        with rec.case({'mode': mode}):
            expect_error('signature', 'unsupported signature mode',
                         lambda: G.gostsignature.new(mode, dict(sig.CURVES[name])), 'mode')
            rec.step()
            rec.state(mode)
            rec.trace()


def edwards_only(params):
    return {k: v for k, v in params.items() if k not in 'abxy'}


def bit_flips(rec, name, key):
    params = sig.CURVES[name]
    if key in 'eduv':
        params = edwards_only(params)
    size = sig.SIZE[name]
    for bit in range(params['p'].bit_length()):
        changed = dict(params)
        changed[key] ^= 1 << bit
        want = on_curve(changed)
        if want is not None:
            judge(rec, size, changed, want, '%s: bit %d of %s' % (name, bit, key))


def structural(rec, name, deep, form='both'):
    params = sig.CURVES[name]
    if form == 'edwards':
        params = edwards_only(params)
    size = sig.SIZE[name]
    p = params['p']
    for delta in [d for d in range(-16, 17) if d]:
        changed = dict(params, p=p + delta)
        if on_curve(changed) is False:
            judge(rec, size, changed, False, '%s: p%+d' % (name, delta))
    judge(rec, size, dict(params, m=p), False, '%s: m = p' % name)
    judge(rec, size, dict(params, m=p + 1), True, '%s: m = p + 1' % name)
    judge(rec, size, dict(params, m=p - 1), True, '%s: m = p - 1' % name)
    for key in [k for k in params if not (k in 'eduv' and 'a' in params)]:
        changed = dict(params)
        del changed[key]
        if key == 'm':
            judge(rec, size, changed, True, '%s: no m' % name)
        elif key in 'pq':
            judge(rec, size, changed, False, '%s: no %s' % (name, key))
        else:
            want = on_curve(changed)
            if want is not None and (want is False or params[key] == 0):
                judge(rec, size, changed, want, '%s: no %s' % (name, key))
    judge(rec, size, {}, False, 'empty dictionary')
    if 'y' in params and 'a' in params:
        judge(rec, size, dict(params, y=p - params['y']), True, '%s: opposite base point' % name)
        judge(rec, size, dict(params, x=params['y'], y=params['x']),
              on_curve(dict(params, x=params['y'], y=params['x'])), '%s: coordinates exchanged' % name)
    if deep:
        keys = [k for k in params if k not in 'pqm']
        for one in keys:
            for two in keys:
                if one < two:
                    changed = dict(params, **{one: params[two], two: params[one]})
                    want = on_curve(changed)
                    if want is not None:
                        judge(rec, size, changed, want, '%s: %s and %s exchanged' % (name, one, two))
            changed = dict(params, **{one: -params[one] % p})
            want = on_curve(changed)
            if want is not None:
                judge(rec, size, changed, want, '%s: %s negated' % (name, one))


def equation(rec, p):
    """Every Weierstrass curve and base point modulo p; size and degree conditions are lifted by the guarded hook."""
    os.environ['GOSTCRYPTO_MC_SMALL_CURVES'] = '1'
    for a, b, x, y in itertools.product(range(p), repeat=4):
        params = {'p': p, 'q': 13, 'm': 13, 'a': a, 'b': b, 'x': x, 'y': y}
        if any((a, b, x, y)):
            judge(rec, 32 if (a + x) % 2 else 64, params, on_curve(params), 'toy')


def edwards_equation(rec, p, part, parts):
    """Every twisted Edwards parameter set modulo p with an invertible conversion."""
    os.environ['GOSTCRYPTO_MC_SMALL_CURVES'] = '1'
    for e in range(part, p, parts):
        for d, u, v in itertools.product(range(p), range(1, p), range(p)):
            params = {'p': p, 'q': 13, 'm': 13, 'e': e, 'd': d, 'u': u, 'v': v}
            if v != 1 and ref.edwards(params) != (0, 0, (0, 0)):
                want = on_curve(params)
                if want is not None:
                    judge(rec, 32 if (u + v) % 2 else 64, params, want, 'toy Edwards')


def signs(rec, name, count):
    """b computed from y^2, x^3 and ax with every combination of signs and factors: only the right one is on the curve."""
    params = sig.CURVES[name]
    p, size = params['p'], sig.SIZE[name]
    for index in range(count):
        x, y, a = (sig.rand_int('C16 %s %d %s' % (name, index, what), p) for what in 'xya')
        for i, j, k in itertools.product((1, -1, 0, 2), repeat=3):
            changed = {'p': p, 'q': params['q'], 'm': params['m'], 'a': a, 'b': (i * y * y + j * x ** 3 + k * a * x) % p, 'x': x, 'y': y}
            judge(rec, size, changed, (i, j, k) == (1, -1, -1), 'b = %d y2 %+d x3 %+d ax' % (i, j, k))


def degree_ok(p, q, size):
    value = 1
    for _ in range(131 if size == 64 else 31):
        value = value * p % q
        if value == 1:
            return False
    return True


def order_range(rec, size, deep):
    """The order q at the ends of the range the standard allows; everything else valid."""
    name = sig.C256[0] if size == 32 else sig.C512[0]
    params = sig.CURVES[name]
    low, high = (254, 256) if size == 32 else (508, 512)
    values = {(1 << low) - 1: False, (1 << low) - 3: False, (1 << low) + 1: True, (1 << low) + 2: True,
              (1 << high) - 1: True, (1 << high) - 3: True, (1 << high) + 1: False, (1 << high) + 15: False,
              (1 << low - 1) + 1: False, (1 << low + 1) + 1: True, (1 << high + 1) + 1: False,
              1: False, 2: False, 7: False}
    for bit in range(8, 600, 1 if deep else 16):
        if bit not in (low, high):
            values.setdefault((1 << bit) + 1, low <= bit < high)
            values.setdefault((1 << bit) + 77, low <= bit < high)
    for q, want in values.items():
        judge(rec, size, dict(params, q=q), want and degree_ok(params['p'], q, size), 'q = %s' % hex(q))


def _prime(n):
    if any(n % k == 0 for k in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)):
        return False
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for base in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29):
        x = pow(base, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def smooth_order(size, variant):
    """A prime q of the right size such that elements of every small order exist modulo q."""
    top = 40 if size == 32 else 140
    lcm = 2
    for i in range(2, top + 1):
        a, b = lcm, i
        while b:
            a, b = b, a % b
        lcm = lcm * i // a
    low = 255 if size == 32 else 510
    t = (1 << low) // lcm + 1 + variant * 1000003
    while not _prime(t * lcm + 1):
        t += 1
    return t * lcm + 1, top


def embedding(rec, size, variant, part, parts):
    """p of every multiplicative order i modulo q: rejected up to 31 / 131, accepted beyond."""
    q, top = smooth_order(size, variant)
    limit = 31 if size == 32 else 131
    for i in range(1, top + 1):
        if i % parts != part:
            continue
        gen = 2
        while True:
            p = pow(gen, (q - 1) // i, q)
            if all(pow(p, j, q) != 1 for j in range(1, i)):
                break
            gen += 1
        while p < q:
            p += q                      # the same residue, as large as a real modulus
        a, x, y = 5, 3, 11
        b = (y * y - x ** 3 - a * x) % p
        judge(rec, size, {'p': p, 'q': q, 'm': q, 'a': a, 'b': b, 'x': x, 'y': y}, i > limit,
              'embedding degree %d' % i)


def jobs(tier):
    deep = tier == 'thorough'
    out = [('builtin', builtin, ()), ('modes', modes, ())]
    for name in sig.CURVES:
        for key in sig.CURVES[name]:
            if key not in 'pqm':
                out.append(('%s bits of %s' % (name, key), bit_flips, (name, key)))
        out.append(('%s structural' % name, structural, (name, deep)))
        if 'e' in sig.CURVES[name]:
            out.append(('%s structural edwards' % name, structural, (name, deep, 'edwards')))
        out.append(('%s signs' % name, signs, (name, 12 if deep else 2)))
    for p in (5, 7, 11, 13) if deep else (5, 7, 11):
        out.append(('equation mod %d' % p, equation, (p,)))
    for p in (7, 11, 13, 17) if deep else (7, 11):
        for part in range(4):
            out.append(('Edwards equation mod %d part %d' % (p, part), edwards_equation, (p, part, 4)))
    for size in (32, 64):
        out.append(('order range %d' % size, order_range, (size, deep)))
        for variant in range(4 if deep else 1):
            for part in range(4):
                out.append(('embedding %d variant %d part %d' % (size, variant, part), embedding, (size, variant, part, 4)))
    return out
