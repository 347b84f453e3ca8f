"""C21: clear() removes every secret from the object, for good, in every state."""
import copy
import gc
import itertools
import sys
import types

from .. import env, kinds, sig
from ..engine import Mismatch, System, explore, fp, same, same_bytes, show
from ..target import G

BOUNDS = {
    'quick': {'objects': 'ciphers x modes, MAC, HMAC, key derivation, generator; signature objects after every call',
              'histories': 'all up to 3 operations and rejected calls (2 for key derivation and signatures) before clear(); clear() again; every operation after it; what is left in the heap compared for 2 secrets x 2 data; secrets of 12 special forms (zero, equal bytes, zero-led words, ...)'},
    'thorough': {'objects': 'as quick with more variants', 'histories': 'all up to 4 operations (3 for key derivation, 2 for signatures)'},
}
ASSUMPTIONS = ['what is searched is everything reachable from the object and from the library\'s modules; freed memory cannot be observed from Python',
               'chaining registers and counters, which hold public data, are not secrets']

SKIP = (types.ModuleType, type, types.CodeType, types.FrameType, types.BuiltinFunctionType)


def reachable(roots):
    """Every leaf value reachable from the objects (through attributes, slots, containers, closures)."""
    seen = set()
    todo = list(roots)
    while todo:
        obj = todo.pop()
        if id(obj) in seen or isinstance(obj, SKIP):
            continue
        seen.add(id(obj))
        if isinstance(obj, (bytes, bytearray, str, int, memoryview)):
            yield obj
            continue
        if isinstance(obj, types.FunctionType):
            todo += [c.cell_contents for c in obj.__closure__ or ()] + list(obj.__defaults__ or ())
            continue
        if isinstance(obj, (list, tuple)) and obj and all(type(x) is int and 0 <= x < 256 for x in obj):
            yield bytes(obj)
            continue
        todo += gc.get_referents(obj)


def find_secrets(roots, secrets):
    hits = []
    ints = {}
    for name, secret in secrets:
        ints[int.from_bytes(secret, 'big')] = name
        ints[int.from_bytes(secret, 'little')] = name
    for leaf in reachable(roots):
        if isinstance(leaf, bool):
            continue
        if isinstance(leaf, int):
            if leaf in ints:
                hits.append(ints[leaf])
            elif abs(leaf) >> 64:
                leaf = abs(leaf)
                size = (leaf.bit_length() + 7) // 8
                data = leaf.to_bytes(size, 'big')
                hits += [name for name, secret in secrets if len(secret) >= 8 and (secret in data or secret[::-1] in data)]
            continue
        if isinstance(leaf, str):
            text = leaf.lower()
            hits += [name for name, secret in secrets if secret.hex() in text]
            continue
        data = bytes(leaf)
        hits += [name for name, secret in secrets if secret in data]
    return hits


def content(obj):
    """Number of bytes in byte objects reachable from the object."""
    return sum(len(leaf) for leaf in reachable([obj]) if isinstance(leaf, (bytes, bytearray)))


def library():
    out = []
    for name, module in list(sys.modules.items()):
        if name.split('.')[0] == 'gostcrypto':
            for value in list(vars(module).values()):
                out.append(value)
                if isinstance(value, type):
                    out += [v for v in vars(value).values()]
    return out


class Clear(System):
    def __init__(self, rec, kind):
        self.rec, self.kind = rec, kind

    def start(self, label=''):
        env.ENTROPY.reset()
        bundle = self.kind.make(kinds.Give(), label)
        bundle.dead = False
        return bundle

    def key(self, bundle):
        marks = fp(bundle.impl)
        return None if marks is None else (marks, env.ENTROPY.count, bundle.dead)

    def enabled(self, bundle):
        return () if bundle.dead else list(self.kind.ops) + ['!' + name for name in self.kind.fails]

    def apply(self, bundle, op):
        if op.startswith('!'):
            self.kind.fail(bundle, op[1:])
            bundle.dead = bundle.dead or (self.kind.dies_on_failure and op != '!size 0' and op != '!size too big')
        else:
            self.kind.run(bundle, op, kinds.Give())
        self.rec.outcome(op)

    def observe(self, bundle):
        kind, impl = self.kind, bundle.impl
        secrets = kind.secrets()
        if isinstance(kind, kinds.Prng) and (not kind.explicit or getattr(bundle, 'seed', None) != kind.key()):
            secrets = [('the seed', bundle.seed)]
        if not bundle.dead and find_secrets([impl], secrets):
            self.rec.note('states holding a secret before clear()')
        before = content(impl)
        twin = None if bundle.dead else copy.deepcopy(impl)
        for again in range(2):
            if impl.clear() is not None:
                raise Mismatch('clear() returned something')
            left = find_secrets([impl], secrets)
            if left:
                raise Mismatch('%s is still in the object after clear() number %d' % (left[0], again + 1))
            now = content(impl)
            if now > 2 * before + 64:
                raise Mismatch('clear() number %d made the object grow from %d to %d bytes' % (again + 1, before, now))
            before = now
        if twin is not None:                        # the copy made before clear() is unaffected
            shadow = kinds.Bundle()
            shadow.__dict__.update(bundle.__dict__)
            shadow.impl = twin
            for op in kind.ops[:4]:
                kind.run(shadow, op, kinds.Give())
            twin.clear()
            if find_secrets([twin], secrets):
                raise Mismatch('a secret is still in the copy after clear()')


def histories(rec, kind, depth):
    explore(rec, Clear(rec, kind), depth, tree_depth=1)
    with rec.case({'object': kind.name, 'searched': 'the library itself after every object was cleared'}):
        gc.collect()
        left = find_secrets(library(), kind.secrets())
        if left:
            raise Mismatch('%s is kept by the library itself' % left[0])
        rec.step()


FILL = [0]


def fill(size):
    return bytearray([FILL[0]]) * size


RAW = {
    'E1': lambda k, i: i.encrypt(fill(k.n)), 'E2': lambda k, i: i.encrypt(fill(2 * k.n)),
    'Epart': lambda k, i: i.encrypt(fill(k.n + 3)), 'D1': lambda k, i: i.decrypt(fill(k.n)),
    'D2': lambda k, i: i.decrypt(fill(2 * k.n)), 'iv': lambda k, i: i.iv, 'counter': lambda k, i: i.counter,
    'up1': lambda k, i: i.update(fill(1)), 'up64': lambda k, i: i.update(fill(64)),
    'up100': lambda k, i: i.update(fill(100)), 'upn': lambda k, i: i.update(fill(k.n)),
    'up2': lambda k, i: i.update(fill(2 * k.n - 3)),
    'digest': lambda k, i: i.digest(k.n) if isinstance(k, kinds.Mac) else i.digest(),
    'hexdigest': lambda k, i: i.hexdigest(k.n) if isinstance(k, kinds.Mac) else i.hexdigest(),
    'reset': lambda k, i: None if isinstance(k, kinds.Prng) else i.reset(),
    'derive20': lambda k, i: i.derive(20), 'derive65': lambda k, i: i.derive(65), 'hexderive': lambda k, i: i.hexderive(33),
    'salt': lambda k, i: i.salt, 'random': lambda k, i: i.random(), 'reset system': lambda k, i: None,
}


def outputs(kind, label, before, after):
    env.ENTROPY.reset()
    bundle = kind.make(kinds.Give(), label)
    impl = bundle.impl
    for op in before:
        RAW[op](kind, impl)
    impl.clear()
    out = []
    for op in after:
        try:
            got = RAW[op](kind, impl)
        except Exception as exc:                    # refusing is as good as a key-independent result
            out.append(type(exc).__name__ + ': ' + str(exc))
            continue
        out.append(bytes(got) if isinstance(got, (bytes, bytearray)) else got)
    return out


def independence(rec, kind, depth):
    """What a cleared object answers does not depend on the secret it had."""
    chained = isinstance(kind, kinds.Cipher) and kind.mode in ('CBC', 'CFB', 'OFB')
    befores = [()] + [(op,) for op in kind.ops if not chained or op == 'iv']
    for before in befores:
        for after in itertools.product(kind.ops, repeat=depth):
            with rec.case(lambda: {'object': kind.name, 'before clear()': list(before), 'after': list(after)}):
                one = outputs(kind, '', before, after)
                two = outputs(kind, ' other', before, after)
                if one != two:
                    raise Mismatch('the answers after clear() depend on the erased secret')
                rec.step(2 * (len(before) + len(after) + 1))
                rec.trace()
                rec.state((kind.name, before, after))
                rec.outcome('independent')


def forms(rec, kind, depth):
    """Secrets of special forms are erased as well: after clear() the object answers like one with an ordinary secret."""
    chained = isinstance(kind, kinds.Cipher) and kind.mode in ('CBC', 'CFB', 'OFB')
    befores = [()] + [(op,) for op in kind.ops if not chained or op == 'iv']
    for shape in kinds.SHAPES:
        if shape == 'zero' and isinstance(kind, kinds.Prng):
            continue                            # a zero seed is refused
        formed = kinds.shaped(kind, shape)
        for before in befores:
            for after in itertools.product(kind.ops, repeat=depth):
                with rec.case(lambda: {'object': formed.name, 'before clear()': list(before), 'after': list(after)}):
                    if outputs(formed, '', before, after) != outputs(kind, '', before, after):
                        raise Mismatch('the answers after clear() depend on the erased secret')
                    rec.step(2 * (len(before) + len(after) + 1))
                    rec.trace()
                    rec.state((formed.name, before, after))
        with rec.case(lambda: {'object': formed.name, 'searched': 'the cleared object'}):
            secrets = [(name, value) for name, value in formed.secrets() if len(set(value) - {0}) > 2]
            if not isinstance(kind, kinds.Prng):
                for before in befores:
                    left = find_secrets([life_then_clear(formed, '', before, 0)], secrets)
                    if left:
                        raise Mismatch('%s is still in the object after %s and clear()' % (left[0], ', '.join(before) or 'nothing'))
                    rec.step(len(before) + 2)


def leaves(roots):
    """The values in the heap that are big enough to hold key material."""
    out = set()
    for leaf in reachable(roots):
        if isinstance(leaf, int):
            if leaf >> 16:
                out.add(leaf)
        elif isinstance(leaf, str):
            out.add(leaf)
        elif len(bytes(leaf)) >= 3:
            out.add(bytes(leaf))
    return out


def other_data(kind):
    """The same kind of object, working on other public data."""
    class Other(type(kind)):
        def iv(self):
            return bytes(b ^ 0x5a for b in super().iv() or b'') or None
    out = copy.copy(kind)
    out.__class__ = Other
    return out


def life_then_clear(kind, label, before, fill):
    """`fill` selects the public data: the vector, the messages, the number of values already generated."""
    env.ENTROPY.reset()
    if fill and isinstance(kind, kinds.Cipher):
        kind = other_data(kind)
    bundle = kind.make(kinds.Give(), label)
    if fill and isinstance(kind, kinds.Prng) and before:
        bundle.impl.random()
    for op in before:
        if op.startswith('!'):
            kind.fail(bundle, op[1:])
        else:
            FILL[0] = fill
            try:
                RAW[op](kind, bundle.impl)
            finally:
                FILL[0] = 0
    bundle.impl.clear()
    return bundle.impl


def residue(rec, kind, depth):
    """Whatever is left after clear() and depends on the secret must also depend on the data: compared over 2 x 2 runs."""
    ops = list(kind.ops) + ['!' + name for name in kind.fails]
    befores = [b for n in range(depth + 1) for b in itertools.product(ops, repeat=n) if not any(o.startswith('!') for o in b[:-1])]
    befores = [b for b in befores if not (isinstance(kind, kinds.Prng) and any(o.startswith('reset') for o in b))]
    if getattr(kind, 'default', False):         # the vector is the same in every object
        befores = [()]
    for before in befores:
        with rec.case(lambda: {'object': kind.name, 'before clear()': list(before), 'compared': 'what is left in the heap for two secrets and two data'}):
            left = [[leaves([life_then_clear(kind, label, before, fill)]) for fill in (0, 0xa7)] for label in ('', ' other')]
            mine = (left[0][0] & left[0][1]) - left[1][0] - left[1][1]
            if mine:
                item = sorted(mine, key=repr)[0]
                raise Mismatch('a value that depends on the erased secret only is left after clear(): %s' % show(item))
            rec.step(4 * (len(before) + 2))
            rec.trace()
            rec.state((kind.name, before, 'residue'))
    with rec.case(lambda: {'object': kind.name, 'searched': 'what the library itself has gained'}):
        def gained(label):
            impl = life_then_clear(kind, label, tuple(o for o in kind.ops if not o.startswith('reset'))[:2], 0)
            del impl
            gc.collect()
            return leaves(library())
        for label in (' one', ' two'):
            gained(label)                       # lazily made constants are there from now on
        start = gained(' two')
        first = gained(' three') - start
        second = gained(' four') - start - first
        if first and second:
            raise Mismatch('the library itself gains values with every new secret: %s' % show(sorted(first, key=repr)[0]))
        rec.step(5)
        rec.trace()


def revival(rec, kind):
    """A cleared generator refuses to work until it is given a new seed."""
    for new in ('reset', 'reset system'):
        for clears in (1, 2):
            with rec.case({'object': kind.name, 'history': ['random', 'clear'] + [new], 'clears': clears}):
                env.ENTROPY.reset()
                bundle = kind.make(kinds.Give())
                kind.run(bundle, 'random', kinds.Give())
                for _ in range(clears):
                    bundle.impl.clear()
                try:
                    bundle.impl.random()
                except G.gostrandom.GOSTRandomError:
                    pass
                else:
                    raise Mismatch('random() after clear() produced a value')
                kind.run(bundle, new, kinds.Give())
                kind.run(bundle, 'random', kinds.Give())
                kind.run(bundle, 'random', kinds.Give())
                rec.step(6)
                rec.trace()
                rec.state((kind.name, new, clears))


class Stateless(System):
    """A signature object never keeps a private key or a nonce."""

    def __init__(self, rec, kind):
        self.rec, self.kind = rec, kind

    def start(self):
        env.ENTROPY.reset()
        return self.kind.make(kinds.Give())

    def key(self, bundle):
        marks = fp(bundle.impl)
        return None if marks is None else (marks, env.ENTROPY.count)

    def enabled(self, bundle):
        return list(self.kind.ops) + ['!' + name for name in self.kind.fails]

    def apply(self, bundle, op):
        if op.startswith('!'):
            self.kind.fail(bundle, op[1:])
        else:
            self.kind.run(bundle, op, kinds.Give())
        self.rec.outcome(op)

    def observe(self, bundle):
        secrets = self.kind.secrets()
        secrets += [('a system nonce', env.stream(i, self.kind.size)) for i in range(env.ENTROPY.count)]
        left = find_secrets([bundle.impl] + library(), secrets)
        if left:
            raise Mismatch('%s is kept after the call' % left[0])


def signer_residue(rec, kind):
    """After calls with two keys and two nonces the heaps agree but for the public values of the calls."""
    size = kind.size
    with rec.case({'object': kind.name, 'compared': 'what is left after calls with different keys and nonces'}):
        left, public = [], set()
        for turn, (label, ops) in enumerate((lab, ops) for ops in (('public',), ('sign',), ('sign system',), ('public', 'sign')) for lab in ('', ' other')):
            impl = sig.full(kind.curve)[0]
            bundle = kinds.Bundle()
            bundle.impl, bundle.label = impl, label
            model, d, e, k, pair_, pub = kinds._sign_values(kind.curve, label)
            env.ENTROPY.reset(lambda n, index: env.stream(index + 7 * len(label), n))
            for op in ops:
                if op == 'sign system':
                    k = int.from_bytes(env.stream(7 * len(label), size), 'big')
                    impl.sign(bytearray(sig.num(d, size)), bytearray(sig.num(e, size)))
                else:
                    kind.run(bundle, op, kinds.Give())
            r, s = model.sign(d, e, k)
            point = model.mul(k)
            values = {r, s, *pub, *point, model.p - point[1], model.p - pub[1]}
            values |= {pow(e, -1, model.q), pow(s, -1, model.q)}
            public |= values | {sig.num(v, size) for v in values if 0 <= v} | {sig.pack((r, s), size), sig.pack(pub, size)}
            left.append(leaves([impl]))
            if turn % 2:
                odd = (left[-1] ^ left[-2]) - public
                if odd:
                    raise Mismatch('after %s the object keeps a value that depends on the private key or the nonce: %s'
                                   % (', '.join(ops), show(sorted(odd, key=repr)[0])))
            rec.step(len(ops))
            rec.trace()
            rec.state((kind.name, label, ops))


def stateless(rec, kind, depth):
    explore(rec, Stateless(rec, kind), depth, tree_depth=0)


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for kind in kinds.catalogue(deep):
        if isinstance(kind, kinds.Signature):
            out.append(('%s keeps nothing' % kind.name, stateless, (kind, 2)))
            out.append(('%s residue' % kind.name, signer_residue, (kind,)))
        if not kind.can_clear:
            continue
        slow = isinstance(kind, kinds.Pbkdf)
        out.append((kind.name, histories, (kind, (2 if slow else 3) + deep)))
        if not (isinstance(kind, kinds.Prng) and not kind.explicit):
            out.append(('%s independence' % kind.name, independence, (kind, 2)))
            out.append(('%s forms' % kind.name, forms, (kind, 2 if deep and not slow else 1)))
        out.append(('%s residue' % kind.name, residue, (kind, 2 if deep and not slow else 1)))
        if isinstance(kind, kinds.Prng):
            out.append(('%s revival' % kind.name, revival, (kind,)))
    return out
