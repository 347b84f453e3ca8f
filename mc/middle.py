"""Every length of the data so far (byte by byte) at which something is done in the middle of a message, and
several lengths of what follows: digests, copies and resets of hash, HMAC and MAC objects."""
from functools import lru_cache

from .engine import same, same_bytes
from .env import pattern
from .kinds import HASH_NAME, HMAC_NAME
from .modes import N
from .ref import gost as ref
from .target import G


class Subject:
    ops = ('nothing', 'empty', 'digest', 'hexdigest', 'both', 'copy', 'reset', 'digest reset', 'copy reset', 'reset copy', 'copy digest', 'copy dies')

    def digest(self, obj):
        return obj.digest()

    def hexdigest(self, obj):
        return obj.hexdigest()


class Hash(Subject):
    def __init__(self, bits):
        self.bits = bits
        self.block = 64
        self.want = lru_cache(4096)(lambda data: ref.streebog(bits, data))

    def new(self):
        return G.gosthash.new(HASH_NAME[self.bits])


class Hmac(Subject):
    ops = Subject.ops + ('copy clear',)

    def __init__(self, bits):
        self.bits = bits
        self.block = 64
        self.key = pattern('middle key', 40)
        self.want = lru_cache(4096)(lambda data: ref.hmac(bits, self.key, data))

    def new(self):
        return G.gosthmac.new(HMAC_NAME[self.bits], bytearray(self.key))


class Mac(Subject):
    ops = ('nothing', 'empty', 'digest', 'hexdigest', 'both', 'short')

    def __init__(self, alg):
        self.alg, self.block = alg, N[alg]
        self.key = pattern('middle key', 32)
        cipher = ref.cipher(alg, self.key)
        self.want = lru_cache(4096)(lambda data: ref.cmac(cipher, data))

    def new(self):
        return G.gostcipher.new(self.alg, bytearray(self.key), G.gostcipher.MODE_MAC)

    def digest(self, obj):
        return obj.digest(self.block)

    def hexdigest(self, obj):
        return obj.hexdigest(self.block)


def check(rec, subject, name, first, op, after):
    """`first` bytes, then `op`, then `after` bytes more, then digests of all that is alive."""
    data = pattern('middle %d' % first, first)
    more = pattern('middle more', after)
    other = pattern('middle other', after + 1)
    with rec.case(lambda: {'object': name, 'bytes before': first, 'then': op, 'bytes after': after}):
        obj, model = subject.new(), data
        obj.update(bytearray(data))
        alive = []
        steps = op.split()
        if op == 'empty':
            obj.update(b'')
        elif op == 'both':
            steps = ['digest', 'hexdigest', 'digest']
        elif op == 'short':
            for size in range(1, subject.block + 1):
                same_bytes(obj.digest(size), subject.want(model)[:size], 'digest(%d) in the middle' % size)
                same(obj.hexdigest(size), subject.want(model)[:size].hex(), 'hexdigest(%d) in the middle' % size)
        elif op == 'copy dies':
            copy = obj.copy()
            copy.update(other)
            del copy
            steps = []
        for step in steps:
            if step == 'digest':
                same_bytes(subject.digest(obj), subject.want(model), 'digest in the middle')
            elif step == 'hexdigest':
                same(subject.hexdigest(obj), subject.want(model).hex(), 'hexdigest in the middle')
            elif step == 'copy':
                alive.append((obj.copy(), model))
            elif step == 'reset':
                obj.reset()
                model = b''
            elif step == 'clear':
                alive.pop()[0].clear()
        obj.update(bytearray(more))
        alive = [(copy_, had) for copy_, had in alive]
        for index, (copy_, had) in enumerate(alive):
            copy_.update(other)
            alive[index] = (copy_, had + other)
        same_bytes(subject.digest(obj), subject.want(model + more), 'digest at the end')
        for copy_, had in alive:
            same_bytes(subject.digest(copy_), subject.want(had), 'digest of the copy')
        rec.state((name, first, op, after))
        rec.step(len(steps) + 3)
        rec.trace()
        rec.outcome(op)


def sweep(rec, subject, args, firsts, afters):
    made = subject(*args)
    name = '%s %s' % (subject.__name__, args[0])
    for first in firsts:
        for op in made.ops:
            for after in sorted(set(afters) | {(-first) % made.block}):
                check(rec, made, name, first, op, after)


def jobs(subject, args, top, step, afters):
    return [('%s %s middle %d..' % (subject.__name__, args[0], begin), sweep, (subject, args, range(begin, min(begin + step, top)), afters))
            for begin in range(0, top, step)]
