"""Shared by the signature checks: full-size and toy curves on both sides."""
import os

from .env import pattern
from .ref import gost as ref
from .ref.params import CURVES
from .target import G

SIZE = {name: 64 if '-512-' in name else 32 for name in CURVES}
C256 = [n for n in CURVES if SIZE[n] == 32]
C512 = [n for n in CURVES if SIZE[n] == 64]


def mode(size):
    return G.gostsignature.MODE_256 if size == 32 else G.gostsignature.MODE_512


def full(name):
    """(implementation object over the library's own curve table, model curve, byte size)."""
    table = G.gostsignature.CURVES_R_1323565_1_024_2019
    return G.gostsignature.new(mode(SIZE[name]), table[name]), ref.Curve(CURVES[name]), SIZE[name]


def _is_prime(n):
    return n > 1 and all(n % i for i in range(2, int(n ** 0.5) + 1))


def _order(curve, pt):
    n, acc = 1, pt
    while acc is not None:
        acc = curve.add(acc, pt)
        n += 1
    return n


def toys(primes, per_class=1):
    """Small curves, one (or per_class) for each interesting class: (p, cofactor, base on x=0, q > p, a = 0...)."""
    found = {}
    for p in primes:
        for a in range(p):
            for b in range(p):
                if (4 * a ** 3 + 27 * b * b) % p == 0:
                    continue
                curve = ref.Curve({'p': p, 'q': 3, 'a': a, 'b': b, 'x': 0, 'y': 0})
                points = curve.points()
                total = len(points) + 1
                q = max((f for f in range(5, total + 1) if total % f == 0 and _is_prime(f)), default=0)
                if not q or q == p or total % (q * q) == 0:
                    continue
                kind0 = (p, min(total // q, 5), q > p, a == 0, b == 0)
                for want_zero in (False, True):
                    kind = kind0 + (want_zero,)
                    if len(found.get(kind, ())) >= per_class:
                        continue
                    for pt in points:
                        if (pt[0] == 0) == want_zero and _order(curve, pt) == q:
                            found.setdefault(kind, []).append(
                                {'p': p, 'q': q, 'm': total, 'a': a, 'b': b, 'x': pt[0], 'y': pt[1]})
                            break
    return [c for kind in sorted(found) for c in found[kind]]


def mid(p, count=1, cofactors=(1, 2, 3, 4), wider_q=False):
    """Curves over a two-byte prime with a large subgroup of prime order; wider_q: q > p."""
    roots = {}
    for y in range(p):
        roots.setdefault(y * y % p, []).append(y)
    out, used = [], set()
    for a in range(p - 3, p - 3 + 60):
        for b in range(1, 40):
            a_ = a % p
            if (4 * a_ ** 3 + 27 * b * b) % p == 0:
                continue
            points = [(x, y) for x in range(p) for y in roots.get((x ** 3 + a_ * x + b) % p, ())]
            total = len(points) + 1
            h = min((h for h in cofactors if total % h == 0 and _is_prime(total // h)), default=0)
            q = total // h if h else 0
            if not h or q == p or (h, q > p) in used or (wider_q and q <= p):
                continue
            curve = ref.Curve({'p': p, 'q': q, 'a': a_, 'b': b, 'x': 0, 'y': 0})
            for pt in points[len(points) // 3:]:
                if curve.mul(q, pt) is None:
                    out.append({'p': p, 'q': q, 'm': total, 'a': a_, 'b': b, 'x': pt[0], 'y': pt[1]})
                    used.add((h, q > p))
                    break
            if len(out) >= count:
                return out
    return out


def mids(deep):
    """Two-byte curves of each cofactor, with q below and above p, and one large enough for two full bytes."""
    out = mid(1021, 3) + mid(509, 2)
    out += mid(40009, 1, (1,))
    if deep:
        out += mid(1021, 8)[3:] + mid(4093, 4) + mid(257, 4) + mid(251, 4)
    return out


def toy(params, size=32):
    """(implementation, model) for a toy curve; needs the guarded hook in the library."""
    os.environ['GOSTCRYPTO_MC_SMALL_CURVES'] = '1'
    return G.gostsignature.new(mode(size), dict(params)), ref.Curve(params)


def toy_id(params):
    return 'y2=x3+%dx+%d mod %d base (%d,%d) q=%d' % tuple(params[k] for k in ('a', 'b', 'p', 'x', 'y', 'q'))


def subgroup(model):
    """All finite points of the subgroup, indexed by their discrete logarithm 1..q-1."""
    out = {}
    acc = None
    for d in range(1, model.q):
        acc = model.add(acc, model.base)
        out[d] = acc
    return out


def pack(pair, size):
    return pair[0].to_bytes(size, 'big') + pair[1].to_bytes(size, 'big')


def num(value, size):
    return value.to_bytes(size, 'big')


def rand_int(label, below):
    width = (below.bit_length() + 7) // 8 + 8
    return int.from_bytes(pattern(label, width), 'big') % (below - 1) + 1


def scalars(curve_name, q, size, rich):
    """Structured private keys / nonces in 1..q-1."""
    vals = [1, q - 1, rand_int('scalar a ' + curve_name, q), 2, (q + 1) // 2, 3, q - 2,
            rand_int('scalar b ' + curve_name, q), 0xff, 1 << (8 * size - 9), (1 << (4 * size)) - 1,
            rand_int('scalar c ' + curve_name, 1 << 64), q >> 8, (q // 3) | 1]
    return vals[:rich]


def digests(curve_name, q, size, rich):
    top = (1 << 8 * size) - 1
    vals = [int.from_bytes(pattern('digest ' + curve_name, size), 'big'), 0, q % (top + 1), top, 1, q - 1,
            (q + 1) % (top + 1), 2 * q if 2 * q <= top else q // 2, 1 << (8 * size - 1), 0xff, top - 1, q >> 8]
    return vals[:rich]


def sig_word(tag, width):
    word = bytearray(pattern('word ' + tag, width))
    word[0] &= 0x3f
    word[-1] |= 1
    return bytes(word)


def shaped_scalars(tag, q, size, dense):
    """Residues of special shape: the ends of the range, powers of two, runs of zero or one bits, zero bytes."""
    base = rand_int('shaped ' + tag, q)
    bits = q.bit_length()
    out = {'1': 1, '2': 2, '3': 3, 'q-1': q - 1, 'q-2': q - 2, 'q/2': (q + 1) // 2, 'q//2': q // 2}
    for i in (range(1, bits) if dense else (7, 8, 63, 64, 127, 128, bits // 2, bits - 9, bits - 8, bits - 2, bits - 1)):
        out['2^%d' % i] = 1 << i
        out['2^%d-1' % i] = (1 << i) - 1
    for i in (range(1, size) if dense else (1, 2, 3, 4, 8, size // 2, size - 2, size - 1)):
        low = base & ((1 << 8 * (size - i)) - 1)
        out['%d leading zero bytes' % i] = low | 1 << 8 * (size - i) - 8
        out['%d trailing zero bytes' % i] = (base >> 8 * i << 8 * i) % q
    out['zero byte inside'] = base & ~(0xff << 8 * (size // 2))
    for width in ((1, 2, 4, 8, 16, 32) if dense else (1, 2, 4, 8)):     # the same word over and over, and with every second one inverted
        word = sig_word(tag, width)
        flip = bytes(b ^ 0xff for b in word)
        out['equal %d-byte words' % width] = int.from_bytes(word * (size // width), 'big')
        out['inverted %d-byte words' % width] = int.from_bytes(((flip + word) * size)[:size], 'big') % q
    for a, b in ((0x80, 0x80), (0xff, 0x01), (0x01, 0xff)):             # bytes that cancel or add up to 256
        for i, j in ((1, 2), (1, size - 1), (size - 2, size - 1)):
            out['two bytes %x %x at %d %d' % (a, b, i, j)] = a << 8 * (size - 1 - i) | b << 8 * (size - 1 - j)
    return {name: value for name, value in out.items() if 0 < value < q}
