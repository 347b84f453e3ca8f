"""C23: every invalid argument is refused with the documented error; every valid one is accepted."""
import gc
import itertools
import resource
import sys

from .. import env, interrupt, kinds, sig
from ..engine import Mismatch, expect_error, same, same_bytes
from ..env import pattern
from ..modes import N
from ..ref import gost as ref
from ..target import G

BOUNDS = {
    'quick': {'wrong types': 'str, int, None, list, tuple, float, dict, set, bool, range, object in every byte argument of every call, alone and together with every other invalid argument',
              'sizes': 'key, seed, password, IV, digest, signature 0..699 and sizes congruent to valid ones modulo 256 and 65536; MAC size -300..300',
              'selectors': 'every mode and padding number in -3..300 and near the constants, every algorithm name in the list of near misses'},
    'thorough': {'wrong types': 'as quick', 'sizes': 'as quick, 0..1100', 'selectors': '-70000..70000'},
}
ASSUMPTIONS = ['where several arguments are invalid, any of the documented errors for them is accepted']

# sizes far away whose low byte, low 16 bits or difference looks right
FAR = sorted(set(range(700)) | {base + delta for base in (768, 1024, 4096, 65536, 65536 + 256) for delta in (0, 8, 16, 31, 32, 33, 48, 62, 64, 65, 128)})
FAR_DEEP = sorted(set(range(1100)) | set(FAR))

BAD = ['text', '', 7, 0, None, [1, 2, 3], (1, 2), 1.5, {}, {1, 2}, True, object(), range(32), 'я' * 32]


class Noise:
    """Errors in finalizers count as undocumented errors."""

    def __enter__(self):
        self.found = []
        self.old = sys.unraisablehook
        sys.unraisablehook = lambda info: self.found.append('%s in %r' % (info.exc_value, info.object))
        return self

    def __exit__(self, kind, value, trace):
        gc_needed = kind is None
        value = trace = None
        sys.unraisablehook, hook = self.old, sys.unraisablehook
        if gc_needed and self.found:
            raise Mismatch('an error was raised while the object was destroyed: %s' % self.found[0])
        return False


def refused(rec, kind, texts, call, what):
    """call() must raise the documented class with one of the documented messages, and nothing else anywhere."""
    with rec.case(lambda: what):
        with Noise():
            exc = expect_error(kind, None, call, 'the call')
            text = str(exc)
            if not any(t in text for t in texts):
                raise Mismatch('message %r, documented: %s' % (text, texts))
            exc.__traceback__ = None
            del exc
        rec.step()
        rec.trace()
        rec.state(repr(what))
        rec.outcome(text)
        rec.sample(what)


def accepted(rec, call, check, what):
    with rec.case(lambda: what):
        with Noise():
            got = call()
            check(got)
            del got
        rec.step()
        rec.trace()
        rec.state(repr(what))
        rec.outcome('accepted')


# the documented messages, per argument
MESSAGE = {'algorithm': 'unsupported cipher algorithm', 'mode': 'unsupported cipher mode', 'key': 'invalid key value',
           'init_vect': 'invalid initialization vector value', 'pad_mode': 'invalid padding mode', 'data': 'invalid text data'}


def cipher_new(rec, alg, mode):
    """Every combination of valid and invalid constructor arguments."""
    n = N[alg]
    good_key, size_iv = pattern('C23 key', 32), n // 2 if mode == 'CTR' else n
    const = G.gostcipher.MODE_MAC if mode == 'MAC' else getattr(G.gostcipher, 'MODE_' + mode)
    used = {'ECB': ('pad_mode',), 'CBC': ('init_vect', 'pad_mode'), 'MAC': ('data',)}.get(mode, ('init_vect',))
    choice = {
        'algorithm': [(alg, True)] + [(a, False) for a in ('', 'des', alg.upper(), alg + ' ', None, 5, alg.encode(), 'kuznyechik')],
        'key': [(good_key, True), (bytearray(good_key), True)] + [(k, False) for k in (b'', good_key[:31], good_key + b'\0', bytearray(33), bytes(16), 'k' * 32, None, 5, list(good_key))],
        'init_vect': [(None, True), (pattern('C23 iv', size_iv), True)] + [(v, False) for v in (b'', pattern('C23 iv', size_iv)[1:], bytes(size_iv + 1), bytearray(3), 'i' * size_iv, 5, [0] * size_iv)],
        'pad_mode': [(G.gostcipher.PAD_MODE_1, True), (G.gostcipher.PAD_MODE_2, True)] + [(p, False) for p in (0, 1, 2, None, 'PAD_MODE_1', -1)],
        'data': [(None, True), (b'abc', True), (bytearray(40), True)] + [(d, False) for d in ('abc', 5, [1, 2], 1.5)],
    }
    names = ('algorithm', 'key') + used
    for combo in itertools.product(*(choice[name] for name in names)):
        wrong = [name for name, (_, ok) in zip(names, combo) if not ok]
        kwargs = {name: value for name, (value, _) in zip(names, combo)
                  if name in used and not (value is None and name in ('init_vect', 'data'))}
        what = {'new': [mode] + [repr(v)[:70] for v, _ in combo]}
        call = lambda: G.gostcipher.new(combo[0][0], combo[1][0], const, **kwargs)
        if wrong:
            refused(rec, 'cipher', [MESSAGE[name] for name in wrong], call, what)
        else:
            def check(obj):
                if mode == 'MAC':
                    same_bytes(obj.digest(n), ref.cmac(ref.cipher(alg, good_key), kwargs.get('data', b'')), 'digest')
                elif 'init_vect' in kwargs or mode == 'ECB':
                    want = ref.Mode(alg, good_key, mode, kwargs.get('init_vect')).raw(bytes(range(n)), False)
                    same_bytes(obj.decrypt(bytes(range(n))), want, 'decrypt')
            accepted(rec, call, check, what)


def cipher_sizes(rec, alg, top):
    n = N[alg]
    key = pattern('C23 key', 32)
    for size in top:
        call = lambda: G.gostcipher.new(alg, bytearray(size), G.gostcipher.MODE_ECB)
        for mode in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR', 'MAC'):
            const = getattr(G.gostcipher, 'MODE_' + mode)
            if size != 32:
                refused(rec, 'cipher', ['invalid key value'], lambda: G.gostcipher.new(alg, bytearray(size), const), {'key size': size, 'mode': mode})
            else:
                accepted(rec, lambda: G.gostcipher.new(alg, bytearray(size), const), lambda obj: None, {'key size': size, 'mode': mode})
        for mode in ('CBC', 'CFB', 'OFB', 'CTR'):
            const = getattr(G.gostcipher, 'MODE_' + mode)
            call = lambda: G.gostcipher.new(alg, key, const, init_vect=pattern('C23 ivs', size))
            good = size == n // 2 if mode == 'CTR' else size and size % n == 0
            if good:
                def check(obj):
                    want = ref.Mode(alg, key, mode, pattern('C23 ivs', size)).raw(bytes(n), False)
                    same_bytes(obj.decrypt(bytes(n)), want, 'decrypt')
                accepted(rec, call, check, {'alg': alg, 'mode': mode, 'IV size': size})
            else:
                refused(rec, 'cipher', ['invalid initialization vector value'], call, {'alg': alg, 'mode': mode, 'IV size': size})


def selectors(rec, low, high):
    cipher = G.gostcipher
    key = pattern('C23 key', 32)
    modes = {cipher.MODE_ECB, cipher.MODE_CBC, cipher.MODE_CFB, cipher.MODE_OFB, cipher.MODE_CTR, cipher.MODE_MAC}
    pads = {cipher.PAD_MODE_1, cipher.PAD_MODE_2}
    near = [p + d for p in pads for d in range(-20, 21)] + [m ^ 1 << b for m in modes for b in range(16)]
    for value in itertools.chain(range(low, high), near):
        if value not in modes:
            refused(rec, 'cipher', ['unsupported cipher mode'], lambda: cipher.new('magma', key, value), {'mode': value})
        if value not in pads:
            for mode in ('ECB', 'CBC'):
                refused(rec, 'cipher', ['invalid padding mode'],
                        lambda: cipher.new('kuznechik', key, getattr(cipher, 'MODE_' + mode), pad_mode=value), {'pad_mode': value, 'mode': mode})


def names(rec):
    key = pattern('C23 key', 32)
    good = {'streebog256', 'streebog512', 'HMAC_GOSTR3411_2012_256', 'HMAC_GOSTR3411_2012_512', 'magma', 'kuznechik'}
    tries = ['', ' ', 'sha256', 'Streebog256', 'streebog', 'streebog257', 'streebog5122', 'HMAC_GOSTR3411_2012_255', 'HMAC', 'grasshopper', None, 0, 256, 512, b'streebog256', b'magma']
    for name in sorted(good):
        tries += [name, name.upper(), name.lower(), name + ' ', ' ' + name, name[:-1], name[1:], name + '\0', name.replace('_', '-')]
    for name in tries:
        for kind, texts, allowed, call in (
                ('hash', ['unsupported hash type'], ('streebog256', 'streebog512'), lambda: G.gosthash.new(name)),
                ('hmac', ['unsupported mode'], ('HMAC_GOSTR3411_2012_256', 'HMAC_GOSTR3411_2012_512'), lambda: G.gosthmac.new(name, key)),
                ('cipher', ['unsupported cipher algorithm'], ('magma', 'kuznechik'), lambda: G.gostcipher.new(name, key, G.gostcipher.MODE_CTR)),
                ('cipher', ['unsupported cipher algorithm'], ('magma', 'kuznechik'), lambda: G.gostcipher.new(name, key, G.gostcipher.MODE_MAC))):
            if name in allowed:
                accepted(rec, call, lambda obj: None, {'kind': kind, 'name': name})
            else:
                refused(rec, kind, texts, call, {'kind': kind, 'name': repr(name)})


def data_types(rec):
    """Data of a wrong type in every method that takes data."""
    key = pattern('C23 key', 32)
    for index, bad in enumerate(BAD):
        for alg in ('magma', 'kuznechik'):
            for mode in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR'):
                make = lambda: G.gostcipher.new(alg, key, getattr(G.gostcipher, 'MODE_' + mode))
                what = {'alg': alg, 'mode': mode, 'data': repr(bad)[:40], 'n': index}
                refused(rec, 'cipher', ['invalid plaintext data'], lambda: make().encrypt(bad), dict(what, call='encrypt'))
                refused(rec, 'cipher', ['invalid ciphertext data'], lambda: make().decrypt(bad), dict(what, call='decrypt'))
            mac = lambda: G.gostcipher.new(alg, key, G.gostcipher.MODE_MAC)
            refused(rec, 'cipher', ['invalid text data'], lambda: mac().update(bad), {'alg': alg, 'MAC update': repr(bad)[:40], 'n': index})
            refused(rec, 'cipher', ['invalid text data'], lambda: G.gostcipher.new(alg, key, G.gostcipher.MODE_MAC, data=bad), {'alg': alg, 'MAC data': repr(bad)[:40], 'n': index})
        for bits in (256, 512):
            make = lambda: G.gosthash.new('streebog%d' % bits)
            hmac = lambda: G.gosthmac.new('HMAC_GOSTR3411_2012_%d' % bits, key)
            what = {'bits': bits, 'data': repr(bad)[:40], 'n': index}
            refused(rec, 'hash', ['invalid data value'], lambda: make().update(bad), dict(what, call='hash.update'))
            refused(rec, 'hash', ['invalid data value'], lambda: G.gosthash.new('streebog%d' % bits, data=bad), dict(what, call='hash.new'))
            refused(rec, 'hmac', ['invalid data value'], lambda: hmac().update(bad), dict(what, call='hmac.update'))
            refused(rec, 'hmac', ['invalid data value'], lambda: G.gosthmac.new('HMAC_GOSTR3411_2012_%d' % bits, key, data=bad), dict(what, call='hmac.new'))
            refused(rec, 'hmac', ['invalid key value'], lambda: G.gosthmac.new('HMAC_GOSTR3411_2012_%d' % bits, bad), dict(what, call='hmac key'))
        refused(rec, 'pbkdf', ['invalid password value'], lambda: G.gostpbkdf.new(bad, salt=key), {'password': repr(bad)[:40], 'n': index})
        refused(rec, 'pbkdf', ['invalid salt value'], lambda: G.gostpbkdf.new(key, salt=bad), {'salt': repr(bad)[:40], 'n': index})
        refused(rec, 'random', ['invalid seed value'], lambda: G.gostrandom.new(32, rand_k=bad, size_s=32), {'seed': repr(bad)[:40], 'n': index})
        refused(rec, 'random', ['invalid seed value'], lambda: G.gostrandom.new(32, rand_k=key, size_s=32).reset(bad), {'reset': repr(bad)[:40], 'n': index})
        for curve in (sig.C256[0], sig.C512[0]):
            with rec.case('curve'):
                impl, model, size = sig.full(curve)
            num = lambda v: sig.num(v, size)
            pub, good = pub_and_signature(curve)
            what = {'size': size, 'value': repr(bad)[:40], 'n': index}
            refused(rec, 'signature', ['invalid private key value'], lambda: impl.sign(bad, num(3), num(5)), dict(what, arg='private key'))
            refused(rec, 'signature', ['invalid digest value'], lambda: impl.sign(num(9), bad, num(5)), dict(what, arg='digest'))
            refused(rec, 'signature', ['invalid random value'], lambda: impl.sign(num(9), num(3), bad), dict(what, arg='nonce'))
            refused(rec, 'signature', ['invalid public key value'], lambda: impl.verify(bad, num(3), good), dict(what, arg='public key'))
            refused(rec, 'signature', ['invalid signature value'], lambda: impl.verify(pub, num(3), bad), dict(what, arg='signature'))
            refused(rec, 'signature', ['invalid digest value'], lambda: impl.verify(pub, bad, good), dict(what, arg='digest of verify'))
            refused(rec, 'signature', ['invalid private key'], lambda: impl.public_key_generate(bad), dict(what, arg='key of public_key_generate'))


_PUB = {}


def pub_and_signature(curve):
    if curve not in _PUB:
        impl, model, size = sig.full(curve)
        _PUB[curve] = sig.pack(model.mul(9), size), sig.pack(model.sign(9, 3, 5), size)
    return _PUB[curve]


def small_sizes(rec, top):
    """Lengths of keys, passwords and seeds."""
    for size in top:
        data = pattern('C23 small', size)
        for bits in (256, 512):
            name = 'HMAC_GOSTR3411_2012_%d' % bits
            call = lambda: G.gosthmac.new(name, data, data=b'abc')
            if size <= 64:
                accepted(rec, call, lambda obj: same_bytes(obj.digest(), ref.hmac(bits, data, b'abc'), 'HMAC'), {'bits': bits, 'HMAC key size': size})
            else:
                refused(rec, 'hmac', ['invalid key value'], call, {'bits': bits, 'HMAC key size': size})
        call = lambda: G.gostpbkdf.new(data, salt=b'salt', counter=1)
        if size <= 64:
            accepted(rec, call, lambda obj: same_bytes(obj.derive(9), ref.pbkdf2(data, b'salt', 1, 9), 'PBKDF2'), {'password size': size})
        else:
            refused(rec, 'pbkdf', ['invalid password value'], call, {'password size': size})
        for want in (1, 32, 40, 48, 62, 63):
            call = lambda: G.gostrandom.new(20, rand_k=data, size_s=want)
            again = lambda: G.gostrandom.new(20, rand_k=pattern('C23 seed', want), size_s=want).reset(data)
            if size == want:
                if want < 63:
                    accepted(rec, call, lambda obj: same_bytes(obj.random(), ref.prng(data, 0, 20)[0], 'random'), {'seed size': size})
            elif size:
                refused(rec, 'random', ['invalid seed value'], call, {'seed size': size, 'size_s': want})
                refused(rec, 'random', ['invalid seed value'], again, {'reset seed size': size, 'size_s': want})


def mac_sizes(rec, low, high):
    key = pattern('C23 key', 32)
    for alg in ('magma', 'kuznechik'):
        n = N[alg]
        want = ref.cmac(ref.cipher(alg, key), b'abc')
        for size in list(range(low, high)) + [2 ** 31, 2 ** 64, -2 ** 63]:
            for method in ('digest', 'hexdigest'):
                call = lambda: getattr(G.gostcipher.new(alg, key, G.gostcipher.MODE_MAC, data=b'abc'), method)(size)
                what = {'alg': alg, 'method': method, 'mac_size': size}
                if 0 < size <= n:
                    check = lambda got: same_bytes(got if method == 'digest' else bytes.fromhex(got), want[:size], 'MAC')
                    accepted(rec, call, check, what)
                else:
                    refused(rec, 'cipher', ['invalid message authentication code size'], call, what)


def derive_sizes(rec):
    top = (2 ** 32 - 1) * 64
    for size in (top + 1, top + 2, top + 64, 2 ** 38, 2 ** 40, 2 ** 64, 2 ** 100):
        for method in ('derive', 'hexderive'):
            refused(rec, 'pbkdf', ['invalid size of the derived key'],
                    lambda: getattr(G.gostpbkdf.new(b'password', salt=b'salt', counter=1), method)(size), {'method': method, 'dk_len': size})


def derive_limits(rec):
    """Accepted lengths nobody can wait for: the call is stopped once it is at work."""
    top = (2 ** 32 - 1) * 64
    old = resource.getrlimit(resource.RLIMIT_AS)
    for size in sorted({top, top - 1, top - 63, top - 64} | {v + d for k in (20, 24, 30, 31, 32, 36, 37) for v in (2 ** k,) for d in (-1, 0, 1, 64)}):
        for method in ('derive', 'hexderive'):
            with rec.case({'method': method, 'dk_len': size}):
                obj = G.gostpbkdf.new(b'password', salt=b'salt', counter=1)
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, old[1]))
                try:
                    stopped = interrupt.stop_at_work(lambda: getattr(obj, method)(size), 3000)
                except MemoryError:
                    stopped = True
                finally:
                    resource.setrlimit(resource.RLIMIT_AS, old)
                same(stopped, True, 'still at work')
                rec.step()
                rec.trace()
                rec.state((method, size))
                rec.outcome('at work')


def signature_sizes(rec, curve, top):
    impl, model, size = sig.full(curve)
    pub, good = pub_and_signature(curve)
    num = lambda v: sig.num(v, size)
    for length in top:
        data = pattern('C23 sig', length)
        what = {'curve': curve, 'length': length}
        if length != size:
            refused(rec, 'signature', ['invalid private key value'], lambda: impl.sign(data, num(3), num(5)), dict(what, arg='private key'))
            refused(rec, 'signature', ['invalid digest value'], lambda: impl.sign(num(9), data, num(5)), dict(what, arg='digest'))
            refused(rec, 'signature', ['invalid digest value'], lambda: impl.verify(pub, data, good), dict(what, arg='digest of verify'))
            refused(rec, 'signature', ['invalid private key'], lambda: impl.public_key_generate(data), dict(what, arg='public_key_generate'))
        if length != 2 * size:
            refused(rec, 'signature', ['invalid public key value'], lambda: impl.verify(data, num(3), good), dict(what, arg='public key'))
            refused(rec, 'signature', ['invalid signature value'], lambda: impl.verify(pub, num(3), data), dict(what, arg='signature'))
    with rec.case({'curve': curve, 'call': 'all sizes right'}):
        same(impl.verify(pub, num(3), good), True, 'verify')
        same_bytes(impl.sign(num(9), num(3), num(5)), good, 'sign')
        same_bytes(impl.public_key_generate(num(9)), pub, 'public key')
        rec.step(3)


def signature_ends(rec, curve, top):
    """Points and signatures whose words begin or end with a zero octet, as either type."""
    impl, model, size = sig.full(curve)
    num = lambda v: sig.num(v, size)
    pub, good = pub_and_signature(curve)
    base = point = model.mul(1)
    seen = set()
    for key in range(2, top):
        point = model.add(point, base)
        text = sig.pack(point, size)
        ends = (text[0], text[size - 1], text[size], text[-1])
        for place, octet in enumerate(ends):
            if octet in (0, 0xff) and (place, octet) not in seen:
                seen.add((place, octet))
                signed = sig.pack(model.sign(key, 3, 5), size)
                for form in (bytes, bytearray):
                    what = {'curve': curve, 'key': key, 'place': place, 'octet': octet, 'type': form.__name__}
                    accepted(rec, lambda: impl.verify(form(text), form(num(3)), form(signed)), lambda got: same(got, True, 'verify'), what)
                    accepted(rec, lambda: impl.public_key_generate(form(num(key))), lambda got: same_bytes(got, text, 'public key'), what)
        # the first word of a signature is the abscissa modulo q
        r = point[0] % model.q
        signed = (r, (r * 9 + key * 3) % model.q)
        if not all(signed):
            continue
        text = sig.pack(signed, size)
        for place, octet in enumerate((text[0], text[size - 1], text[size], text[-1])):
            if octet in (0, 0xff) and (4 + place, octet) not in seen:
                seen.add((4 + place, octet))
                for form in (bytes, bytearray):
                    what = {'curve': curve, 'nonce': key, 'place': place, 'octet': octet, 'type': form.__name__}
                    accepted(rec, lambda: impl.verify(form(pub), form(num(3)), form(text)), lambda got: same(got, True, 'verify'), what)
                    accepted(rec, lambda: impl.sign(form(num(9)), form(num(3)), form(num(key))), lambda got: same_bytes(got, text, 'signature'), what)
    rec.state((curve, len(seen)))


def signature_combinations(rec, curve):
    """Every combination of valid and invalid arguments of sign() and verify()."""
    impl, model, size = sig.full(curve)
    pub, good = pub_and_signature(curve)
    num = lambda v: sig.num(v, size)
    keys = [(num(9), None)] + [(b, 'invalid private key value') for b in (num(9)[1:], b'', 'k' * size, None, num(0), num(9) + b'\0')]
    digests = [(num(3), None)] + [(b, 'invalid digest value') for b in (num(3)[1:], b'', 'd' * size, 5, num(3) * 2)]
    nonces = [(num(5), None)] + [(b, 'invalid random value') for b in (num(0), b'\xff' * size, 'k' * size, 5, [1])]
    for (d, m1), (e, m2), (k, m3) in itertools.product(keys, digests, nonces):
        texts = [m for m in (m1, m2, m3) if m]
        what = {'sign': [repr(x)[:30] for x in (d, e, k)], 'size': size}
        if texts:
            refused(rec, 'signature', texts, lambda: impl.sign(d, e, k), what)
        else:
            accepted(rec, lambda: impl.sign(d, e, k), lambda got: same_bytes(got, good, 'signature'), what)
    pubs = [(pub, None)] + [(b, 'invalid public key value') for b in (pub[1:], b'', 'p' * 2 * size, None, pub[:-1] + bytes([pub[-1] ^ 1]), b'\xff' * 2 * size, bytes(2 * size))]
    sigs = [(good, None)] + [(b, 'invalid signature value') for b in (good[1:], b'', 's' * 2 * size, 5, good + b'\0')]
    for (p, m1), (e, m2), (s, m3) in itertools.product(pubs, digests, sigs):
        texts = [m for m in (m1, m2, m3) if m]
        what = {'verify': [repr(x)[:30] for x in (p, e, s)], 'size': size}
        if texts:
            refused(rec, 'signature', texts, lambda: impl.verify(p, e, s), what)
        else:
            accepted(rec, lambda: impl.verify(p, e, s), lambda got: same(got, True, 'verify'), what)


def jobs(tier):
    deep = tier == 'thorough'
    out = [('names', names, ()), ('derive sizes', derive_sizes, ()), ('derive limits', derive_limits, ()),
           ('small sizes', small_sizes, (FAR_DEEP if deep else FAR,)), ('MAC sizes', mac_sizes, (-3000, 3000) if deep else (-300, 301))]
    out.append(('data types', data_types, ()))
    for alg in ('magma', 'kuznechik'):
        for mode in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR', 'MAC'):
            out.append(('new %s %s' % (alg, mode), cipher_new, (alg, mode)))
        out.append(('sizes %s' % alg, cipher_sizes, (alg, FAR_DEEP if deep else FAR)))
    if deep:
        for low in range(-70000, 70000, 17500):
            out.append(('selectors from %d' % low, selectors, (low, low + 17500)))
    else:
        out.append(('selectors', selectors, (-3, 301)))
    for curve in sig.CURVES if deep else (sig.C256[0], sig.C512[0]):
        out.append(('signature sizes %s' % curve, signature_sizes, (curve, FAR_DEEP if deep else FAR)))
        out.append(('signature combinations %s' % curve, signature_combinations, (curve,)))
        out.append(('signature ends %s' % curve, signature_ends, (curve, 9000 if deep else 900)))
    return out
