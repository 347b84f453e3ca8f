"""C19: sizes, names and identifiers reported by an object are the documented ones in every state."""
import copy

from .. import env, kinds, marathon
from ..engine import Mismatch, System, explore, fp, same
from ..target import G

BOUNDS = {
    'quick': {'objects': 'ciphers x modes, MAC, hash, HMAC, signature', 'operations': 'all operations, rejected calls, copy, clear, mutation of returned octets',
              'other objects': 'every ordered pair of kinds, the second created, used, copied, cleared and destroyed', 'histories': 'all up to 3 operations; one call of every selected size up to 65536',
              'long life of one object': 'every pair of calls and rejected calls in one life of 300 calls'},
    'thorough': {'objects': 'as quick with more IV lengths, key lengths and all 7 curves', 'operations': 'as quick', 'other objects': 'as quick', 'histories': 'all up to 4 operations (3 for signatures)',
                 'long life of one object': 'every 3-call word, 2000 calls'},
}
ASSUMPTIONS = []


class Meta(System):
    def __init__(self, rec, kind):
        self.rec, self.kind = rec, kind

    def start(self):
        env.ENTROPY.reset()
        bundle = self.kind.make(kinds.Give())
        bundle.dead = False
        bundle.shadow = None
        return bundle

    def key(self, bundle):
        marks = fp(bundle.impl)
        return None if marks is None else (marks, bundle.dead, bundle.shadow is not None, env.ENTROPY.count)

    def enabled(self, bundle):
        if bundle.dead:
            return ['clear'] if self.kind.can_clear else []
        return list(self.kind.ops) + ['!' + name for name in self.kind.fails] \
            + (['clear'] if self.kind.can_clear else []) + (['copy'] if self.kind.can_copy else ['deepcopy']) + ['mutate']

    def apply(self, bundle, op):
        if op.startswith('!'):
            self.kind.fail(bundle, op[1:])
            bundle.dead = bundle.dead or self.kind.dies_on_failure
        elif op == 'clear':
            bundle.impl.clear()
            bundle.dead = True
        elif op == 'copy':
            bundle.shadow = bundle.impl
            bundle.impl = bundle.impl.copy()
        elif op == 'deepcopy':
            bundle.shadow = bundle.impl
            bundle.impl = copy.deepcopy(bundle.impl)
        elif op == 'mutate':
            octet = bundle.impl.oid.octet
            if isinstance(octet, bytearray):
                octet[:] = b'\xff' * len(octet)
        else:
            self.kind.run(bundle, op, kinds.Give())
        self.rec.outcome(op)

    def observe(self, bundle):
        for impl in (bundle.impl, bundle.shadow):
            if impl is None:
                continue
            for repeat in range(2):
                for name, got, want in self.kind.meta(impl):
                    same(got, want, '%s of %s' % (name, self.kind.name))
                    self.rec.note('attributes compared')


def histories(rec, kind, depth):
    explore(rec, Meta(rec, kind), depth, tree_depth=0 if isinstance(kind, kinds.Signature) else 1)


def sizes(rec, kind, todo):
    """The attributes after one call of any size, on the object, a copy and a reset object."""
    for size in todo:
        with rec.case(lambda: {'object': kind.name, 'bytes processed': size}):
            bundle = kind.make(kinds.Give())
            data = bytearray(size)
            if isinstance(kind, kinds.Cipher):
                bundle.impl.encrypt(data)
            else:
                bundle.impl.update(data)
            impls = [bundle.impl, bundle.impl.copy() if kind.can_copy else copy.deepcopy(bundle.impl)]
            for turn in range(3):
                for impl in impls:
                    for name, got, want in kind.meta(impl):
                        same(got, want, '%s of %s' % (name, kind.name))
                        rec.note('attributes compared')
                if turn == 0 and isinstance(kind, (kinds.Hash, kinds.Mac)):
                    for impl in impls:
                        impl.update(bytearray(1))
                elif turn == 1 and isinstance(kind, kinds.Hash):
                    impls[0].reset()
            rec.step(3)
            rec.trace()
            rec.state((kind.name, size))


def others(rec, kind_list, index):
    """Other objects, created and used before or after, do not change what an object reports."""
    def look(kind, bundle):
        for name, got, want in kind.meta(bundle.impl):
            same(got, want, '%s of %s' % (name, kind.name))
            rec.note('attributes compared')
    mine = kind_list[index]
    env.ENTROPY.reset()
    for other in kind_list:
        with rec.case(lambda: {'object': mine.name, 'another object': other.name}):
            one = mine.make(kinds.Give())
            two = other.make(kinds.Give(), ' other')
            look(mine, one)
            if not isinstance(other, (kinds.Signature, kinds.Pbkdf)):
                for op in other.ops[:3]:
                    other.run(two, op, kinds.Give())
            look(mine, one)
            if other.can_copy:
                twin = two.impl.copy()
                look(mine, one)
                del twin
            if other.can_clear:
                two.impl.clear()
                look(mine, one)
            look(other, two)
            del two
            look(mine, one)
            rec.step(4)
            rec.trace()
            rec.state((mine.name, other.name))


def constants(rec):
    cipher, sig, rand = G.gostcipher, G.gostsignature, G.gostrandom
    with rec.case('constants'):
        modes = [cipher.MODE_ECB, cipher.MODE_CBC, cipher.MODE_CFB, cipher.MODE_OFB, cipher.MODE_CTR, cipher.MODE_MAC]
        same(len(set(modes)), 6, 'distinct mode constants')
        same(len({cipher.PAD_MODE_1, cipher.PAD_MODE_2}), 2, 'distinct padding constants')
        same(len({sig.MODE_256, sig.MODE_512}), 2, 'distinct signature modes')
        same((rand.SIZE_S_384, rand.SIZE_S_320, rand.SIZE_S_256), (48, 40, 32), 'seed size constants')
        rec.step()
        rec.trace()
        rec.state('constants')
    for module in ('gostcipher', 'gosthash', 'gosthmac', 'gostoid', 'gostpbkdf', 'gostrandom', 'gostsignature'):
        with rec.case({'module': module}):
            mod = getattr(G, module)
            for name in mod.__all__:
                if not hasattr(mod, name):
                    raise Mismatch('%s is exported but missing' % name)
            rec.step()
            rec.state(module)


def jobs(tier):
    deep = tier == 'thorough'
    out = [('constants', constants, ())]
    every = kinds.catalogue(deep)
    for index, kind in enumerate(every):
        out.append(('%s among others' % kind.name, others, (every, index)))
    for kind in kinds.catalogue(deep):
        if not isinstance(kind, (kinds.Pbkdf, kinds.Prng, kinds.Oid)):
            depth = 3 if not deep or isinstance(kind, kinds.Signature) else 4
            if isinstance(kind, kinds.Signature) and not deep:
                depth = 2
            out.append((kind.name, histories, (kind, depth)))
        if isinstance(kind, (kinds.Cipher, kinds.Mac, kinds.Hash)):
            step = kind.n if isinstance(kind, kinds.Cipher) else 1
            todo = {s * step for s in list(range(40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257]} | {16384, 65536}
            if not isinstance(kind, kinds.Cipher):
                todo |= {64 * b + r for b in range(12) for r in (0, 5)} | {65537}
            if deep:
                todo |= {s * step for s in range(40, 700)}
            todo = sorted(todo)
            for part in (todo[:len(todo) // 2], todo[len(todo) // 2:-2], todo[-2:]):
                out.append(('%s sizes from %d' % (kind.name, part[0]), sizes, (kind, part)))
    for kind in [k for k in kinds.catalogue(deep) if isinstance(k, (kinds.Cipher, kinds.Mac, kinds.Hash))]:
        out.append(('%s long life' % kind.name, marathon.life, (kind, 3 if deep else 2, 2000 if deep else 300, (), True, True, True)))
    return out
