"""C17: signing uses the first usable random answer, never an unusable one, and always ends."""
import itertools
from functools import lru_cache

from .. import env, sig
from ..engine import Mismatch, expect_error, same, same_bytes
from ..ref.params import CURVES

BOUNDS = {
    'quick': {'full size': 'every sequence of up to 3 answers over {0, q, q+1, all ones, r=0, s=0, two usable} on every curve (2 on the 512-bit ones)',
              'toy size': 'every sequence of 2 answers 0..q+1 for every key and digest residue, of 3 for two pairs, on curves over p = 7, 11, 13; the s = 0 nonce of every key on 6 two-byte curves',
              'runs': '3000 unusable answers in a row; 66000 signatures of one object on toy curves', 'explicit': 'every unusable nonce class; every nonce 0..q+2 on toy curves',
              'shapes': 'answers and nonces of about 60 special shapes on every curve (powers of two, zero bytes, equal words, bytes that cancel)',
              'private keys': '0 and every multiple of q that fits'},
    'thorough': {'full size': 'every sequence of up to 4 answers on the 256-bit curves, 3 on the 512-bit ones',
                 'toy size': 'every sequence of 3 answers for every key and digest residue on p = 7..17, of 4 on p = 7',
                 'runs': '3000 unusable answers; 200000 signatures of one object', 'explicit': 'as quick on more curves', 'shapes': 'about 1000 shapes', 'private keys': 'as quick'},
}
ASSUMPTIONS = ['toy curves are admitted by the guarded hook GOSTCRYPTO_MC_SMALL_CURVES',
               'the operating system answers every request with the number of bytes asked for']


def play(rec, impl, model, size, d, e, answers, ident):
    """One sign() without a nonce while the system gives these answers."""
    with rec.case(lambda: {'curve': ident, 'private key': hex(d), 'digest': hex(e), 'system answers': [hex(a) for a in answers]}):
        want = None
        used = 0
        for value in answers:
            used += 1
            if 0 < value < model.q:
                want = model.sign(d, e, value)
                if want is not None:
                    break
        if want is None:
            raise Mismatch('harness: no usable answer')
        env.ENTROPY.reset(env.scripted([sig.num(a, size) for a in answers]))
        got = impl.sign(bytearray(sig.num(d, size)), bytearray(sig.num(e, size)))
        requests = list(env.ENTROPY.requests)
        env.ENTROPY.reset()
        same_bytes(got, sig.pack(want, size), 'signature')
        same(requests, [size] * used, 'requests for system randomness (bytes)')
        rec.step(used)
        rec.trace()
        rec.state((ident, d, e, tuple(answers)))
        rec.outcome('%d answers used' % used)
        rec.sample({'curve': ident, 'answers': [hex(a)[:24] for a in answers], 'used': used}, 3)


def sequences(alphabet, good, longest):
    """All answer sequences up to `longest` whose last answer is the first usable one."""
    usable = [a for a in alphabet if good(a)]
    bad = [a for a in alphabet if not good(a)]
    for length in range(longest):
        for head in itertools.product(bad, repeat=length):
            for last in usable:
                yield head + (last,)


def full(rec, name, longest, part, parts):
    impl, model, size = sig.full(name)
    q = model.q
    top = (1 << 8 * size) - 1
    k_s0 = sig.rand_int('C17 s0 ' + name, q)
    k_1, k_2 = sig.rand_int('C17 k1 ' + name, q), q - 1
    e = sig.digests(name, q, size, 1)[0]
    r = model.mul(k_s0)[0] % q
    d = -k_s0 * model.e_of(e) * pow(r, -1, q) % q       # with this key the nonce k_s0 gives s = 0
    if model.sign(d, e, k_s0) is not None:
        raise Mismatch('harness: s is not 0')
    alphabet = {0, min(q, top), min(q + 1, top), top, k_s0, k_1}
    alphabet.add(k_2 if model.mul(k_2)[0] % q else 2)
    if model.mul(1)[0] % q == 0:
        alphabet |= {1, q - 1}                          # nonces with r = 0
        rec.note('curves with an r = 0 nonce')
    cache = {}

    def good(value):
        if value not in cache:
            cache[value] = 0 < value < q and model.sign(d, e, value) is not None
        return cache[value]

    for index, answers in enumerate(sequences(sorted(alphabet), good, longest)):
        if index % parts == part:
            play(rec, impl, model, size, d, e, answers, name)


def run_of(rec, name, what, length):
    """A long run of unusable answers does not change the outcome."""
    impl, model, size = sig.full(name)
    top = (1 << 8 * size) - 1
    value = {'zero': 0, 'q': model.q, 'ones': top}[what]
    if value > top:
        return
    play(rec, impl, model, size, 7, 1 << 100, (value,) * length + (sig.rand_int('C17 run ' + name, model.q),), name)


def explicit(rec, name):
    """An explicit nonce that cannot be used is refused, and the system is never asked."""
    impl, model, size = sig.full(name)
    q = model.q
    top = (1 << 8 * size) - 1
    e = sig.digests(name, q, size, 1)[0]
    k_s0 = sig.rand_int('C17 s0 ' + name, q)
    d = -k_s0 * model.e_of(e) * pow(model.mul(k_s0)[0], -1, q) % q
    values = {0, q, q + 1, q + 5, top, top - 1, k_s0, 1, 2, q - 1, 2 * q}
    for k in sorted(v for v in values if v <= top):
        for make in (bytes, bytearray):
            one_explicit(rec, impl, model, size, d, e, k, name, make)
    for key in (0, q, 2 * q, 3 * q):
        if key > top:
            continue
        for nonce in (None, 5):
            with rec.case({'curve': name, 'private key': hex(key), 'nonce': nonce}):
                extra = () if nonce is None else (bytearray(sig.num(nonce, size)),)
                env.ENTROPY.reset()
                expect_error('signature', 'invalid private key value',
                             lambda: impl.sign(bytearray(sig.num(key, size)), bytearray(sig.num(e, size)), *extra),
                             'sign() with a private key that is 0 modulo q')
                rec.step()
                rec.trace()
                rec.state((name, 'key', key, nonce))
        with rec.case({'curve': name, 'private key': hex(key), 'operation': 'public_key_generate'}):
            expect_error('signature', 'invalid private key',
                         lambda: impl.public_key_generate(bytearray(sig.num(key, size))),
                         'public_key_generate() with a private key that is 0 modulo q')
            rec.step()
            rec.state((name, 'pub', key))


def shapes(rec, name, dense, part, parts):
    """Answers of the system of every special shape are usable; explicit nonces too."""
    impl, model, size = sig.full(name)
    top = (1 << 8 * size) - 1
    values = sorted(set(sig.shaped_scalars('C17 ' + name, model.q, size, dense).values()))
    for index, k in enumerate(values):
        if index % parts != part:
            continue
        if model.mul(k)[0] % model.q:
            play(rec, impl, model, size, 7, 1 << 100, ((0,), (min(model.q, top),), (top,), ())[index % 4] + (k,), name)
        one_explicit(rec, impl, model, size, 9, 1 << 90, k, name)


def one_explicit(rec, impl, model, size, d, e, k, ident, make=bytearray):
    with rec.case(lambda: {'curve': ident, 'private key': hex(d), 'digest': hex(e), 'explicit nonce': hex(k)}):
        want = model.sign(d, e, k) if 0 < k < model.q else None
        env.ENTROPY.reset()
        call = lambda: impl.sign(bytearray(sig.num(d, size)), bytearray(sig.num(e, size)), make(sig.num(k, size)))
        if want is None:
            expect_error('signature', 'invalid random value', call, 'unusable explicit nonce')
        else:
            same_bytes(call(), sig.pack(want, size), 'signature')
        same(env.ENTROPY.requests, [], 'requests for system randomness with an explicit nonce')
        rec.step()
        rec.trace()
        rec.state((ident, 'explicit', d, e, k))
        rec.outcome('explicit refused' if want is None else 'explicit used')


def toy(rec, params, size, deep):
    impl, model = sig.toy(params, size)
    ident = '%s size %d' % (sig.toy_id(params), size)
    q = model.q
    values = list(range(q + 2))
    for d in range(1, q):
        for e in range(1, q):
            good = lambda k: 0 < k < q and model.sign(d, e, k) is not None
            longest = 3 if deep or (d, e) in ((1, q - 1), (q - 2, 2)) else 2
            if deep and params['p'] == 7:
                longest = 4
            for answers in sequences(values, good, longest):
                play(rec, impl, model, size, d, e, answers, ident)
            if d % 3 == 1:
                for k in range(q + 3):
                    one_explicit(rec, impl, model, size, d, e, k, ident)


def mid(rec, params, size):
    """Two-byte curves: every nonce, refused or replaced exactly when it gives s = 0."""
    impl, model = sig.toy(params, size)
    ident = '%s size %d' % (sig.toy_id(params), size)
    q = model.q
    step = 1 if q < 2000 else q // 500
    for k in range(1, q, step):
        r = model.mul(k)[0] % q
        if r == 0:
            play(rec, impl, model, size, 3, 7, (k, 1 if k > 1 else 2), ident)
            continue
        e = k * 5 % q
        d = -k * model.e_of(e) * pow(r, -1, q) % q      # s = 0
        last = next(n for n in range(k % 7 + 1, q) if n != k and model.sign(d, e, n))
        play(rec, impl, model, size, d, e, (k, last), ident)
        play(rec, impl, model, size, d, e, (q, k, 0, k, last), ident)
        play(rec, impl, model, size, d, e, (last,), ident)
        if k < 4:
            play(rec, impl, model, size, d, e, (k,) * 3000 + (last,), ident)
        one_explicit(rec, impl, model, size, d, e, k, ident)


def two_calls(rec, params, size):
    """Two signatures from one object: the second consumes the answers after the first's."""
    impl, model = sig.toy(params, size)
    ident = '%s size %d' % (sig.toy_id(params), size)
    q = model.q
    d, e = q - 2, 3
    for answers in itertools.product(range(q + 1), repeat=3):
        stream = list(answers) + [1, 2, 3, q - 1, q - 2, 4] * 3
        with rec.case(lambda: {'curve': ident, 'private key': d, 'digest': e, 'system answers': stream[:6], 'calls': 2}):
            env.ENTROPY.reset(env.scripted([sig.num(a, size) for a in stream]))
            pos = 0
            for call in range(2):
                want = None
                while want is None:
                    value = stream[pos]
                    pos += 1
                    want = model.sign(d, e, value) if 0 < value < q else None
                got = impl.sign(bytearray(sig.num(d, size)), bytearray(sig.num(e, size)))
                same_bytes(got, sig.pack(want, size), 'signature %d' % call)
            same(env.ENTROPY.requests, [size] * pos, 'requests for system randomness')
            env.ENTROPY.reset()
            rec.step(2)
            rec.trace()
            rec.state((ident, 'two', answers))


def many_calls(rec, params, size, calls):
    """One object, one system that answers with usable and unusable nonces in turn, very many signatures."""
    impl, model = sig.toy(params, size)
    ident = '%s size %d' % (sig.toy_id(params), size)
    q = model.q
    signed = lru_cache(None)(model.sign)
    answer_of = lambda index: (index * 5 + index // 11) % (q + 3)
    env.ENTROPY.reset(lambda width, index: sig.num(answer_of(index), width))
    pos = 0
    for call in range(calls):
        d, e = call % (q - 1) + 1, call // 7 % (2 * q)
        first, want = pos, None
        while want is None:
            value = answer_of(pos)
            pos += 1
            want = signed(d, e, value) if 0 < value < q else None
        with rec.case(lambda: {'curve': ident, 'calls before': call, 'private key': d, 'digest': e, 'system answers': [answer_of(i) for i in range(first, pos)]}):
            same_bytes(impl.sign(sig.num(d, size), bytearray(sig.num(e, size))), sig.pack(want, size), 'signature')
            same(env.ENTROPY.requests, [size] * (pos - first), 'requests for system randomness')
            env.ENTROPY.requests.clear()
            rec.step()
            rec.outcome(pos - first)
    env.ENTROPY.reset()
    rec.state((ident, calls))
    rec.trace()
    rec.note('longest history', calls)


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for name in CURVES:
        small = sig.SIZE[name] == 32
        longest = (4 if deep else 3) if small else (3 if deep else 2)
        parts = 4 if deep else 2
        for part in range(parts):
            out.append(('%s sequences %d' % (name, part), full, (name, longest, part, parts)))
        for what in ('zero', 'q', 'ones'):
            out.append(('%s run of %s' % (name, what), run_of, (name, what, 3000)))
        out.append(('%s explicit' % name, explicit, (name,)))
        for part in range(8 if deep else 2):
            out.append(('%s shapes %d' % (name, part), shapes, (name, deep, part, 8 if deep else 2)))
    for params in sig.toys((13,))[:8 if deep else 2]:
        for size in (32, 64):
            out.append(('many calls %s size %d' % (sig.toy_id(params), size), many_calls, (params, size, 200000 if deep else 66000)))
    for index, params in enumerate(sig.mids(deep)):
        out.append(('mid %s' % sig.toy_id(params), mid, (params, 32 if index % 2 else 64)))
    for index, params in enumerate(sig.toys((7, 11, 13, 17) if deep else (7, 11, 13))):
        size = 32 if index % 2 else 64
        out.append(('toy %s' % sig.toy_id(params), toy, (params, size, deep)))
        if params['q'] < 14:
            out.append(('two calls %s' % sig.toy_id(params), two_calls, (params, size)))
    return out
