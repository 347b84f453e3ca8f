"""C26: a call interrupted at any point does no lasting harm."""
import copy

from .. import env, kinds
from ..engine import Mismatch, same_bytes
from ..env import pattern
from ..inject import find, put
from ..interrupt import Quiet, Short, Stop, attempt, points
from ..modes import N
from ..ref import gost as ref
from .c04 import faithful, pair
from .c21 import find_secrets, library

BOUNDS = {
    'quick': {'points': 'before every executed source line of the library, its first two occurrences in the call and the last one',
              'exceptions': 'KeyboardInterrupt and MemoryError in turn',
              'calls': 'every call of every kind of object, constructors and clear() included, on a fresh object and after one or two calls',
              'afterwards': 'every operation of the object; reset and every operation; clear; the key stream and generator positions'},
    'thorough': {'points': 'every line event of calls with up to 3000 of them, the first 40 occurrences of every line otherwise',
                 'exceptions': 'both at every point', 'calls': 'as quick with more variants of objects', 'afterwards': 'as quick'},
}
ASSUMPTIONS = ['an interruption arrives between two source lines of the library',
               'data given to an interrupted encrypt, decrypt or update call may have been processed in part; nothing else is judged of it']


def exceptions(at, deep):
    return (Stop, Short) if deep else ((Stop, Short)[at % 2],)


def fresh(kind, before):
    env.ENTROPY.reset()
    bundle = kind.make(kinds.Give())
    for op in before:
        kind.run(bundle, op, kinds.Give())
    return bundle


def call(kind, bundle, op):
    if op == 'copy':
        return lambda: bundle.impl.copy()
    if op == 'clear':
        return lambda: bundle.impl.clear()
    return lambda: kind.run(bundle, op, kinds.Give())


def slow(kind):
    return isinstance(kind, (kinds.Pbkdf, kinds.Signature))


def places(kind, before, op, deep):
    if not deep:
        return points(call(kind, fresh(kind, before), op), 1 if slow(kind) else 2)[0]
    chosen, total, _ = points(call(kind, fresh(kind, before), op), 40)
    return range(total) if total <= 3000 else chosen


def each(rec, kind, befores, ops, deep):
    """(bundle, call) for every crash point; the bundle has just been through the interrupted call."""
    for before in befores:
        for op in ops:
            for at in places(kind, before, op, deep):
                for exc in exceptions(at, deep):
                    case = rec.case(lambda: {'object': kind.name, 'before': list(before), 'call': op, 'interrupted before line event': at, 'exception': exc.__name__})
                    yield case, before, op, at, exc
                    rec.trace()
                    rec.state((kind.name, before, op, at, exc.__name__))


def readers(kind):
    """The calls that change nothing in their object."""
    if isinstance(kind, kinds.Cipher):
        return kind.ops if kind.mode == 'ECB' else tuple(op for op in kind.ops if op in ('iv', 'counter'))
    if isinstance(kind, (kinds.Mac, kinds.Hash)):
        return ('digest', 'hexdigest') + (('copy',) if kind.can_copy else ())
    if isinstance(kind, kinds.Prng):
        return ()
    if isinstance(kind, kinds.Pbkdf):
        return ('derive65', 'salt')
    return tuple(op for op in kind.ops if op != 'verify wrong')


def reading(rec, kind, befores, ops, deep):
    """A call that only reads leaves the object as it was, wherever it is interrupted."""
    for case, before, op, at, exc in each(rec, kind, befores, ops, deep):
        with case, Quiet() as complaints:
            bundle = fresh(kind, before)
            rec.outcome((op, attempt(call(kind, bundle, op), at, exc)))
            if isinstance(kind, kinds.Signature) and find_secrets([bundle.impl], kind.secrets()):
                raise Mismatch('the interrupted call left a private key or a nonce in the object')
            first = () if op == 'copy' else (op,)
            others = tuple(o for o in kind.ops if o != op)
            for again in first + (others[:1] if slow(kind) else others):
                kind.run(bundle, again, kinds.Give())
                rec.step()
            if complaints:
                raise Mismatch('a destructor failed: %s' % complaints[0])


def resetting(rec, kind, befores, deep):
    """After any interrupted call a reset makes the object as good as new."""
    for case, before, op, at, exc in each(rec, kind, befores, tuple(kind.ops) + (('copy',) if kind.can_copy else ()), deep):
        with case, Quiet() as complaints:
            bundle = fresh(kind, before)
            rec.outcome((op, attempt(call(kind, bundle, op), at, exc)))
            for again in ('reset',) + tuple(kind.ops):
                kind.run(bundle, again, kinds.Give())
                rec.step()
            if complaints:
                raise Mismatch('a destructor failed: %s' % complaints[0])


def clearing(rec, kind, befores, deep):
    """After any interrupted call, clear() included, clear() erases everything."""
    for case, before, op, at, exc in each(rec, kind, befores, (('derive20',) if slow(kind) else tuple(kind.ops)) + ('clear',), deep):
        with case, Quiet() as complaints:
            bundle = fresh(kind, before)
            secrets = kind.secrets()
            if isinstance(kind, kinds.Prng):
                secrets = secrets + [('the first seed', bundle.seed)]
            attempt(call(kind, bundle, op), at, exc)
            if isinstance(kind, kinds.Prng):
                secrets = secrets + [('the new seed', bundle.seed)]
            bundle.impl.clear()
            left = find_secrets([bundle.impl], secrets)
            if left:
                raise Mismatch('%s is still in the object after clear()' % left[0])
            rec.step(2)
            if complaints:
                raise Mismatch('a destructor failed: %s' % complaints[0])


def making(rec, kind, deep):
    """An interrupted constructor leaves no trace, and what is left of its object is destroyed without errors."""
    env.ENTROPY.reset()
    live = kind.make(kinds.Give())
    if not deep:
        chosen = points(lambda: kind.make(kinds.Give()), 2)[0]
    else:
        chosen, total, _ = points(lambda: kind.make(kinds.Give()), 40)
        chosen = range(total) if total <= 3000 else chosen
    for at in chosen:
        for exc in exceptions(at, deep):
            with rec.case(lambda: {'object': kind.name, 'call': 'constructor', 'interrupted before line event': at, 'exception': exc.__name__}):
                with Quiet() as complaints:
                    rec.outcome(('constructor', attempt(lambda: kind.make(kinds.Give(), ' half made'), at, exc)))
                if complaints:
                    raise Mismatch('a destructor failed: %s' % complaints[0])
                new = kind.make(kinds.Give())
                for bundle in (live, new):
                    kind.run(bundle, kind.ops[0], kinds.Give())
                    rec.step()
                rec.trace()
                rec.state((kind.name, 'make', at, exc.__name__))
    with rec.case({'object': kind.name, 'searched': 'the library after every interrupted constructor'}):
        left = find_secrets(library(), kind.secrets(' half made'))
        if left:
            raise Mismatch('%s of a half-made object is kept by the library itself' % left[0])
        rec.step()


def generator(rec, size, size_s, used, deep):
    """An interrupted request may lose blocks of the sequence; it never repeats or corrupts any."""
    kind = kinds.Prng(size, size_s)
    befores = [('random',) * n for n in used]
    per_call = -(-size // 64)
    for case, before, op, at, exc in each(rec, kind, befores, ('random', 'reset'), deep):
        with case, Quiet() as complaints:
            bundle = fresh(kind, before)
            old, count = bundle.seed, bundle.used
            out = []
            attempt(call(kind, bundle, op) if op == 'reset' else lambda: out.append(bytes(bundle.impl.random())), at, exc)
            got = bytes(bundle.impl.random())
            if out and got == out[0]:
                raise Mismatch('output handed out twice')
            fits = [(s, n) for s, n in [(old, count + i) for i in range(per_call + 1 + (per_call if out else 0))] + [(bundle.seed, 0)] * (op == 'reset')
                    if kinds._prng(s, n, size)[0] == got]
            if not fits:
                raise Mismatch('the request after the interrupted one gave %s, which is not the next part of the sequence' % got.hex()[:64])
            bundle.seed, bundle.used = fits[0][0], kinds._prng(fits[0][0], fits[0][1], size)[1]
            rec.outcome(fits[0][1] - count)
            for _ in range(2):
                kind.run(bundle, 'random', kinds.Give())
                rec.step()
            if complaints:
                raise Mismatch('a destructor failed: %s' % complaints[0])


def stream(rec, alg, start, blocks, tail, deep):
    """An interrupted CTR call may lose key stream; it never goes back to key stream already used."""
    n = N[alg]
    secret, iv = pattern('C26 key', 32), pattern('C26 iv', n // 2)
    zero = int.from_bytes(iv + bytes(n // 2), 'big')
    cipher = ref.cipher(alg, secret)
    gamma = lambda i: cipher.encrypt(((zero + i) % (1 << 8 * n)).to_bytes(n, 'big'))
    first = pair(alg, secret, 'CTR', iv)[0]
    if start <= 300:
        if start:
            first.encrypt(bytearray(start * n))
        again = lambda: copy.deepcopy(first)
    else:
        marks = find(first, [(None, zero, n)] + [(lambda o: o.encrypt(bytearray(n)), zero + i, n) for i in (1, 2)])
        if not marks or not faithful(alg, secret, iv, marks, zero):
            rec.note('injection not possible')
            rec.step()
            return

        def again():
            obj = pair(alg, secret, 'CTR', iv)[0]
            for mark in marks:
                put(obj, mark, (zero + start) % (1 << 8 * n), n)
            return obj
    size = blocks * n + tail
    total = blocks + (1 if tail else 0)
    for op in ('encrypt', 'decrypt', 'counter'):
        run = {'encrypt': lambda o: o.encrypt(bytearray(size)), 'decrypt': lambda o: o.decrypt(bytearray(size)), 'counter': lambda o: o.counter}[op]
        obj = again()
        chosen, count, _ = points(lambda: run(obj), 40 if deep else 3)
        for at in (range(count) if deep and count <= 3000 else chosen):
            for exc in exceptions(at, deep):
                with rec.case(lambda: {'cipher': alg, 'blocks used before': start, 'call': op, 'bytes': size, 'interrupted before line event': at, 'exception': exc.__name__}):
                    obj = again()
                    attempt(lambda: run(obj), at, exc)
                    shown = int.from_bytes(bytes(obj.counter), 'big')
                    place = (shown - zero - start) % (1 << 8 * n)
                    if place > (0 if op == 'counter' else total):
                        raise Mismatch('the counter went from block %d to block %d in a call of %d blocks' % (start, shown - zero, total))
                    for i in range(2):
                        same_bytes(obj.encrypt(bytearray(n)), gamma(start + place + i), 'key stream block %d' % (start + place + i))
                    rec.outcome((op, place))
                    rec.step(3)
                    rec.trace()
                    rec.state((alg, start, blocks, tail, op, at, exc.__name__))


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for kind in kinds.catalogue(deep):
        if not deep and (getattr(kind, 'key_size', 0) == 64 or isinstance(kind, kinds.Signature) and kind.size == 64
                         or isinstance(kind, kinds.Pbkdf) and kind.count != 2):
            continue
        far = deep and not slow(kind)
        befores = [()] if slow(kind) else [(), tuple(kind.ops[:1])] + ([tuple(kind.ops[:2])] if deep else [])
        ops = readers(kind)
        for part in [(op,) for op in ops] if slow(kind) else [ops] if ops else []:
            out.append(('%s reading %s' % (kind.name, ' '.join(part)), reading, (kind, befores, part, far)))
        if 'reset' in kind.ops:
            out.append(('%s resetting' % kind.name, resetting, (kind, befores, far)))
        if kind.can_clear:
            out.append(('%s clearing' % kind.name, clearing, (kind, befores, far)))
        out.append(('%s making' % kind.name, making, (kind, far)))
    for size, size_s in ((1, 32), (64, 62), (70, 48), (192, 40)):
        out.append(('generator %d/%d' % (size, size_s), generator, (size, size_s, (0, 1, 2), deep)))
    for alg in ('magma', 'kuznechik'):
        half = 4 * N[alg]
        for start in (0, 1, 254, 0xfffe, 0xffffff, (1 << half) - 2):
            out.append(('%s stream from %#x' % (alg, start), stream, (alg, start, 3 if alg == 'magma' else 2, 3, deep)))
    return out
