"""C22: objects are independent: any interleaving of calls or threads leaves each result as if alone."""
import copy

from .. import env, kinds, sched, sig
from ..engine import Hang, Mismatch, show
from ..env import pattern
from ..modes import N
from ..ref import gost as ref
from ..ref.params import CURVES
from ..target import G, new_cipher, new_hash, new_hmac, new_mac
from .c11 import make as make_prng

BOUNDS = {
    'quick': {'calls': 'every pair of object kinds, same and different secrets, every interleaving of create/use/destroy (2 x 4 steps); triples of one kind; up to 300 objects of one kind alive at once; pairs whose secrets are of 12 special forms; every ordered pair of differently set objects of one family (all curves, modes, sizes, counts) given the very same bytes; one call of 1..17, 31..33, 63..65 blocks on one object between the calls of an older and of newer ones',
              'threads': 'every pair of related kinds: thread A preempted at every executed source line (first two and last occurrence) for a whole run of B, cold and warm library; '
                         'two preemptions at every pair of function-entry lines for cheap kinds'},
    'thorough': {'calls': 'every interleaving of 2 x 5 steps, triples of one kind over 3 choices of operations', 'threads': 'first 6 occurrences, two preemptions at every pair of source lines (first and last occurrence)'},
}
ASSUMPTIONS = ['threads share no object; preemption happens between source lines, exactly one thread runs at a time',
               'one preemption of A (two context switches), or one of each (three) in the pair schedules']


# -- calls -----------------------------------------------------------------
def interleavings(counts):
    if not any(counts):
        yield ()
        return
    for who, left in enumerate(counts):
        if left:
            rest = counts[:who] + (left - 1,) + counts[who + 1:]
            for tail in interleavings(rest):
                yield (who,) + tail


def script(kind, length, variant):
    """create, then `length` - 2 operations, then destroy."""
    ops = list(kind.ops)
    picked = [ops[(variant + i) % len(ops)] for i in range(length - 2)]
    return ['make'] + picked + ['del']


def calls(rec, kind_list, length, labels, variants):
    for variant in variants:
        scripts = [script(kind, length, variant + i) for i, kind in enumerate(kind_list)]
        for order in interleavings((length,) * len(kind_list)):
            with rec.case(lambda: {'objects': [k.name for k in kind_list], 'labels': labels,
                                   'steps': ['%d.%s' % (w, s) for w, s in trail(order, scripts)]}):
                env.ENTROPY.reset()
                live = {}
                for who, step in trail(order, scripts):
                    if step == 'make':
                        live[who] = kind_list[who].make(kinds.Give(), labels[who])
                    elif step == 'del':
                        end(live.pop(who))
                    else:
                        kind_list[who].run(live[who], step, kinds.Give())
                    rec.step()
                rec.trace()
                rec.state((tuple(k.name for k in kind_list), labels, variant, order))
    rec.outcome('calls')


def trail(order, scripts):
    pos = [0] * len(scripts)
    for who in order:
        yield who, scripts[who][pos[who]]
        pos[who] += 1


def end(bundle):
    """What a user does at the end: clear if possible, then drop the object."""
    if hasattr(bundle.impl, 'clear'):
        bundle.impl.clear()
    del bundle.impl


def copies(rec, kind, depth):
    """A copy and its original do not influence each other (every interleaving of operations)."""
    for order in interleavings((depth, depth)):
        for shift in range(len(kind.ops)):
            with rec.case(lambda: {'object and copy': kind.name, 'order': order, 'first operation': kind.ops[shift]}):
                env.ENTROPY.reset()
                first = kind.make(kinds.Give())
                kind.run(first, kind.ops[0], kinds.Give())
                twin = kinds.Bundle()
                twin.__dict__.update(first.__dict__)
                twin.impl = first.impl.copy() if kind.can_copy else copy.deepcopy(first.impl)
                twin.model = copy.deepcopy(first.model)
                pair = [first, twin]
                used = [0, 0]
                for who in order:
                    op = kind.ops[(shift + used[who] * (who + 1)) % len(kind.ops)]
                    used[who] += 1
                    kind.run(pair[who], op, kinds.Give())
                    rec.step()
                    if used[who] == depth:
                        end(pair[who])
                rec.trace()
                rec.state(('copy', kind.name, order, shift))


def crowd(rec, kind_list, count, rounds):
    """Many objects alive at once, used in turn; every third one destroyed and replaced between the rounds."""
    env.ENTROPY.reset()
    live = {}

    def step(who, op):
        kind = kind_list[who % len(kind_list)]
        with rec.case(lambda: {'objects alive': len(live), 'kinds': [k.name for k in kind_list], 'object': who, 'step': op}):
            if op == 'make':
                live[who] = kind.make(kinds.Give(), ' %d' % (who % count))
            elif op == 'del':
                end(live.pop(who))
            elif who in live:
                kind.run(live[who], op, kinds.Give())
            rec.step()
    for who in range(count):
        step(who, 'make')
    fresh = count
    for turn in range(rounds):
        for who in sorted(live):
            ops = kind_list[who % len(kind_list)].ops
            step(who, ops[(turn + who // len(kind_list)) % len(ops)])
        for who in sorted(live)[turn % 3::3]:
            step(who, 'del')
            step(fresh, 'make')
            fresh += 1
    rec.trace()
    rec.state((tuple(k.name for k in kind_list), count, rounds))
    rec.note('objects alive at once', count)
    rec.outcome('crowd')


def bulk_family(name):
    """(new, feed, result): an object, what one large call does to it, and the value it then has to show."""
    if name.startswith(('hash', 'hmac')):
        bits = int(name.split()[1])
        key = pattern('C22 bulk key', 40)
        new = (lambda: new_hash(bits)) if name.startswith('hash') else (lambda: new_hmac(bits, key))

        def look(impl, data):
            kinds.same_bytes(impl.digest(), ref.streebog(bits, data) if name.startswith('hash') else ref.hmac(bits, key, data), 'digest')
        return new, look, 64
    alg = name.split()[1]
    n, key = N[alg], pattern('C22 bulk cipher', 32)
    e = ref.cipher(alg, key)

    def look(impl, data):
        kinds.same_bytes(impl.digest(n), ref.cmac(e, data), 'digest')
    return (lambda: new_mac(alg, key)), look, n


def bulk(rec, name, blocks):
    """One object is given a short and a large piece at once; objects made before, between and after must not see it."""
    new, look, n = bulk_family(name)
    for before in (0, 1, n):
        for count in blocks:
            with rec.case(lambda: {'object': name, 'bytes before': before, 'blocks in one call': count}):
                early, busy = new(), new()
                early_data, data = b'early', pattern('C22 bulk', before)
                early.update(early_data)
                if before:
                    busy.update(bytearray(data))
                for more in (pattern('C22 bulk %d' % count, count * n), b'\xff' * n * min(count, 3), b'tail'):
                    busy.update(bytearray(more))
                    data += more
                    late = new()
                    late.update(b'late')
                    look(late, b'late')
                    look(new(), b'')
                    early.update(b'!')
                    early_data += b'!'
                    look(early, early_data)
                look(busy, data)
                late = new()
                late.update(bytearray(data[:n]))
                look(late, data[:n])
                if hasattr(busy, 'reset'):
                    busy.reset()
                    busy.update(bytearray(data[:n * min(count, 6)]))
                    look(new(), b'')
                    look(busy, data[:n * min(count, 6)])
                rec.step(16)
                rec.trace()
                rec.state((name, before, count))
    rec.note('blocks in one call', max(blocks))
    rec.outcome('bulk')


def bulk_mode(rec, alg, mode, blocks):
    """The same for ciphers: one large call on one object between the calls of others with the same key and vector."""
    n, key = N[alg], pattern('C22 bulk cipher', 32)
    for default in (False, True) if mode not in ('ECB',) else (False,):
        vector = None if mode == 'ECB' or default else pattern('C22 bulk iv', n // 2 if mode == 'CTR' else 2 * n)
        pad = 1 if mode in ('ECB', 'CBC') else None

        def new():
            return new_cipher(alg, key, mode, vector, pad), ref.Mode(alg, key, mode, kinds.DEFAULT_IV[(alg, mode)] if default else vector, pad or 1)

        def use(pair, what, text):
            kinds.same_bytes(getattr(pair[0], what)(bytearray(text)), getattr(pair[1], what)(text), what)
        for count in blocks:
            with rec.case(lambda: {'object': '%s %s' % (alg, mode), 'default vector': default, 'blocks in one call': count}):
                early, busy = new(), new()
                text = pattern('C22 bulk %d' % count, count * n)
                use(early, 'encrypt', text[:n])
                use(busy, 'encrypt', text)
                use(new(), 'encrypt', text[:n])
                use(early, 'encrypt', text[:2 * n])
                use(busy, 'encrypt', text[:n])
                late = new()
                use(late, 'decrypt', text)
                use(early, 'decrypt', text[:n])
                use(busy, 'decrypt', text[:2 * n])
                use(new(), 'decrypt', text[:n])
                rec.step(9)
                rec.trace()
                rec.state((alg, mode, default, count))
    rec.note('blocks in one call', max(blocks))
    rec.outcome('bulk')


# -- threads ---------------------------------------------------------------
def runner(kind, label, ops):
    """A whole life of one object, compared with the model all the way."""
    def run():
        bundle = kind.make(kinds.Give(), label)
        for op in ops:
            kind.run(bundle, op, kinds.Give())
        end(bundle)
    return run


def check(rec, out, what):
    for who in 'AB':
        exc = out.error.get(who)
        if exc is None:
            continue
        if isinstance(exc, Hang):
            raise exc
        raise Mismatch('thread %s (%s): %s' % (who, what, str(exc) if isinstance(exc, Mismatch) else show(exc)))
    if out.blocked:
        rec.note('schedules in which B waited for A')
    if not out.reached:
        rec.note('schedules whose preemption point was not reached')


def plan(kind):
    """Cheap but complete use: the operations a thread performs."""
    if isinstance(kind, kinds.Cipher):
        return ('E1', 'D2') if kind.mode == 'ECB' else ('E1', 'E2')
    if isinstance(kind, kinds.Mac):
        return ('upn', 'digest')
    if isinstance(kind, kinds.Hash):
        return ('up64', 'digest')
    if isinstance(kind, kinds.Pbkdf):
        return ('derive20',)
    if isinstance(kind, kinds.Prng):
        return ('random',)
    if isinstance(kind, kinds.Signature):
        return ('sign', 'verify')
    return kind.ops


def one_preemption(rec, kind_a, kind_b, warm, occurrences, part, parts):
    run_a = runner(kind_a, '', plan(kind_a))
    run_b = runner(kind_b, ' other', plan(kind_b))
    with rec.case({'A': kind_a.name, 'profile': 'alone'}):
        sched.cold()
        if warm:
            run_a()
        chosen, total, lines = sched.points(run_a, occurrences)
        rec.note('line events of A', total)
        rec.note('distinct source lines of A', lines)
        run_b()
    for index, at in enumerate(chosen):
        if index % parts != part:
            continue
        with rec.case(lambda: {'thread A': kind_a.name, 'thread B': kind_b.name, 'library': 'warm' if warm else 'cold',
                               'A is preempted before line event': at}):
            sched.cold()
            if warm:
                run_a()
                run_b()
            check(rec, sched.schedule(run_a, at, run_b), 'one preemption')
            rec.step()
            rec.trace()
            rec.state((kind_a.name, kind_b.name, warm, at))
    rec.outcome('one preemption')


def two_preemptions(rec, kind_a, kind_b, occurrences, entries, part, parts):
    cut = None if isinstance(kind_a, kinds.Oid) else 1
    run_a = runner(kind_a, '', plan(kind_a)[:cut])
    run_b = runner(kind_b, ' other', plan(kind_b)[:cut])
    with rec.case({'A': kind_a.name, 'profile': 'alone'}):
        sched.cold()
        points_a = sched.points(run_a, occurrences, entries)[0]
        points_b = sched.points(run_b, occurrences, entries)[0]
    for index, at_a in enumerate(points_a):
        if index % parts != part:
            continue
        for at_b in points_b:
            with rec.case(lambda: {'thread A': kind_a.name, 'thread B': kind_b.name, 'library': 'cold',
                                   'A is preempted before line event': at_a, 'B before': at_b}):
                sched.cold()
                check(rec, sched.schedule(run_a, at_a, run_b, at_b), 'two preemptions')
                rec.step()
                rec.trace()
                rec.state((kind_a.name, kind_b.name, at_a, at_b))
    rec.outcome('two preemptions')


def twins_of(group, deep):
    """(name, make, use): objects of one family with different settings which are given the very same bytes."""
    data, data2 = pattern('C22 twin data', 150), b'\xff' * 64
    if group == 'hash':
        for bits in (256, 512):
            def use(impl, bits=bits):
                impl.update(data)
                kinds.same_bytes(impl.digest(), ref.streebog(bits, data), 'digest')
            yield 'hash %d' % bits, lambda bits=bits: new_hash(bits), use
    elif group == 'hmac':
        for bits in (256, 512):
            for size in (32, 33, 64):
                key = pattern('C22 twin key', 64)[:size]

                def use(impl, bits=bits, key=key):
                    impl.update(data)
                    kinds.same_bytes(impl.digest(), ref.hmac(bits, key + bytes(64 - len(key)), data), 'digest')
                yield 'HMAC %d key %d' % (bits, size), lambda bits=bits, key=key: new_hmac(bits, key), use
    elif group == 'pbkdf':
        password, salt = pattern('C22 twin password', 20), pattern('C22 twin salt', 33)
        for pw in (password, password[:19]):
            for sl in (salt, salt[:32], salt + b'\x01'):
                for count in (1, 2):
                    def use(impl, pw=pw, sl=sl, count=count):
                        kinds.same_bytes(impl.derive(40), ref.pbkdf2(pw, sl, count, 40), 'derive')
                    yield ('PBKDF2 %d %d %d' % (len(pw), len(sl), count),
                           lambda pw=pw, sl=sl, count=count: G.gostpbkdf.new(bytearray(pw), salt=bytearray(sl), counter=count), use)
    elif group == 'random':
        seed = pattern('C22 twin seed', 62)
        for size_s in (32, 33, 40, 62):
            for size in (64, 70):
                def use(impl, size_s=size_s, size=size):
                    kinds.same_bytes(impl.random(), ref.prng(seed[:size_s], 0, size)[0], 'random')
                    impl.reset(bytearray(seed[:size_s]))
                    kinds.same_bytes(impl.random(), ref.prng(seed[:size_s], 0, size)[0], 'random after reset')
                yield 'generator %d %d' % (size_s, size), lambda size_s=size_s, size=size: make_prng(size, bytearray(seed[:size_s]), size_s), use
    elif group in ('magma', 'kuznechik'):
        n, key, iv = N[group], pattern('C22 twin cipher', 32), pattern('C22 twin iv', 64)
        for mode in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR', 'MAC'):
            for z, pad in ((1, 1), (2, 1), (3, 2)) if mode == 'CBC' else ((1, 1), (1, 2)) if mode == 'ECB' else ((1, 1), (2, 1), (3, 1)) if mode in ('CFB', 'OFB') else ((1, 1),):
                vector = {'ECB': None, 'CTR': iv[:n // 2]}.get(mode, iv[:z * n])

                def use(impl, mode=mode, vector=vector, pad=pad):
                    if mode == 'MAC':
                        impl.update(data)
                        kinds.same_bytes(impl.digest(n), ref.cmac(ref.cipher(group, key), data), 'digest')
                        return
                    model = ref.Mode(group, key, mode, vector, pad)
                    text = data[:4 * n]
                    kinds.same_bytes(impl.encrypt(bytearray(text)), model.encrypt(text), 'encrypt')
                    kinds.same_bytes(impl.decrypt(bytearray(text)), model.decrypt(text), 'decrypt')
                yield ('%s %s %d pad %d' % (group, mode, z, pad), lambda mode=mode, vector=vector, pad=pad:
                       new_mac(group, key) if mode == 'MAC' else new_cipher(group, key, mode, vector, pad if mode in ('ECB', 'CBC') else None), use)
    else:
        size = int(group.split()[-1])
        curves = [(name, dict(CURVES[name])) for name in sig.CURVES if sig.SIZE[name] == size]
        other = dict(curves[0][1])
        model = ref.Curve(other)
        other['x'], other['y'] = model.mul(3)
        curves.append((curves[0][0] + ' with another base point', other))
        edge = sorted({p['q'] for _, p in curves})
        digests = [(1 << 8 * size) - 1, edge[0], edge[-1] + 1, edge[-1] * 2 // 3]
        if group.startswith('toy'):
            curves = [(sig.toy_id(p), p) for p in sig.toys((7, 11, 13) if deep else (7, 11))]
            digests = [5, 35, 255, 77 * 13]
        for name, params in curves:
            def use(impl, params=params):
                model = ref.Curve(params)
                q = model.q
                d, k = (3, 2) if q < 100 else (int.from_bytes(pattern('C22 twin d', size), 'big') % edge[0], 5)
                num = lambda v: bytearray(sig.num(v, size))
                pub = model.mul(d)
                kinds.same_bytes(impl.public_key_generate(num(d)), sig.pack(pub, size), 'public key')
                for e in digests if not (size == 64 and q > 100) or deep else digests[:2]:
                    want = model.sign(d, e, k)
                    if want:
                        kinds.same_bytes(impl.sign(num(d), num(e), num(k)), sig.pack(want, size), 'signature of %x' % e)
                        if q < 100 or e == digests[0]:
                            kinds.same(impl.verify(bytearray(sig.pack(pub, size)), num(e), bytearray(sig.pack(want, size))), True, 'verify')
            if group.startswith('toy'):
                yield name, lambda params=params: sig.toy(params, size)[0], use
            else:
                yield name, lambda params=params: G.gostsignature.new(sig.mode(size), {key: params[key] for key in 'pabmqxy'}), use


def twins(rec, group, deep):
    """Two objects of one family with different settings and the same bytes, every ordered pair, created before or after the other was used."""
    members = list(twins_of(group, deep))
    for i, one in enumerate(members):
        for j, two in enumerate(members):
            if i == j:
                continue
            with rec.case(lambda: {'objects': [one[0], two[0]], 'given': 'the same bytes'}):
                first = one[1]()
                second = two[1]()
                one[2](first)
                two[2](second)
                two[2](two[1]())
                one[2](one[1]())
                rec.step(4)
                rec.trace()
                rec.state((group, i, j))
    rec.outcome('twins')


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    C, K = kinds.Cipher, kinds
    fast = [C('magma', 'ECB'), C('magma', 'CTR'), C('magma', 'CBC', 2, 2), C('magma', 'CFB', 2), C('magma', 'OFB', 1),
            C('kuznechik', 'ECB', 1, 2), C('kuznechik', 'CTR'), C('kuznechik', 'OFB', 2), C('kuznechik', 'CFB', default=True), C('magma', 'CTR', default=True),
            K.Mac('magma'), K.Mac('kuznechik'), K.Hash(256), K.Hash(512), K.Hmac(256, 32), K.Hmac(512, 64), K.Pbkdf(1, 20), K.Pbkdf(1, 64, False),
            K.Prng(70, 32), K.Prng(64, 48, False), kinds.ToySignature(0), kinds.ToySignature(3),
            K.Oid('1.2.643.7.1.1.2.2'), K.Oid('2.999.16384.3')]
    length = 4
    for i, one in enumerate(fast):
        for j, two in enumerate(fast):
            if j < i:
                continue
            slow = any(isinstance(k, K.Pbkdf) for k in (one, two))
            for labels in (('', ''), ('', ' other')):
                if one is not two and labels[1] and not deep and isinstance(one, (K.Oid, kinds.ToySignature)):
                    continue
                variants = (0,) if slow and not deep else (0, 1, 2) if deep else (0, 2) if i == j else (0,)
                out.append(('calls %s / %s%s' % (one.name, two.name, ' same secrets' if not labels[1] else ''), calls,
                            (((one, two)), length + (1 if deep and not slow else 0), labels, variants)))
        if not isinstance(one, K.Pbkdf) or deep:
            out.append(('calls 3 x %s' % one.name, calls, ((one, one, one), 3 if not deep else 3, ('', '', ' other'), (0,) if not deep else (0, 1, 2))))
        if not isinstance(one, (K.Oid, kinds.ToySignature)):
            out.append(('copies of %s' % one.name, copies, (one, 2 if isinstance(one, K.Pbkdf) else 3)))
    for alg in ('magma', 'kuznechik'):
        for mode in ('CBC', 'CFB', 'OFB', 'CTR'):
            one = C(alg, mode, default=True)
            for labels in (('', ''), ('', ' other')):
                out.append(('calls 2 x %s%s' % (one.name, ' same secrets' if not labels[1] else ''), calls, ((one, one), length, labels, (0, 1, 2))))
    for shape in K.SHAPES:
        for one in (C('magma', 'ECB'), C('kuznechik', 'ECB'), K.Mac('magma'), K.Mac('kuznechik'), K.Hmac(256, 32), K.Hmac(512, 64), K.Prng(64, 48)):
            if shape == 'zero' and isinstance(one, K.Prng):
                continue                # a zero seed is refused
            one = K.shaped(one, shape)
            for labels in (('', ''), ('', ' other')):
                out.append(('calls 2 x %s%s' % (one.name, ' same secrets' if not labels[1] else ''), calls, ((one, one), length, labels, (0, 2) if deep else (0,))))
    for one in fast:
        if not isinstance(one, kinds.ToySignature):
            count = 70 if isinstance(one, K.Pbkdf) else 300
            out.append(('crowd of %s' % one.name, crowd, ([one], count * (4 if deep else 1), 8 if deep else 3)))
    out.append(('crowd of all', crowd, (fast, 500 if deep else 200, 8 if deep else 3)))
    for group in ('hash', 'hmac', 'pbkdf', 'random', 'magma', 'kuznechik', 'signature 32', 'signature 64', 'toy 32', 'toy 64'):
        out.append(('twins ' + group, twins, (group, deep)))
    blocks = list(range(1, 18)) + [31, 32, 33, 63, 64, 65] + ([127, 128, 129, 255, 256, 257] if deep else [])
    for name in ('hash 256', 'hash 512', 'hmac 256', 'hmac 512', 'mac magma', 'mac kuznechik'):
        for part in range(2):
            out.append(('bulk %s %d' % (name, part), bulk, (name, blocks[part::2])))
    for alg in ('magma', 'kuznechik'):
        for mode in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR'):
            out.append(('bulk %s %s' % (alg, mode), bulk_mode, (alg, mode, blocks)))
    # threads
    magma = [C('magma', 'ECB'), C('magma', 'CTR'), C('magma', 'CBC', 2), K.Mac('magma')]
    kuz = [C('kuznechik', 'ECB'), C('kuznechik', 'OFB', 2), K.Mac('kuznechik')]
    hashes = [K.Hash(256), K.Hash(512), K.Prng(70, 32), K.Hmac(256, 32), K.Hmac(512, 64), K.Pbkdf(1, 20)]
    signers = [kinds.ToySignature(0), kinds.ToySignature(3)]
    oids = [K.Oid('1.2.643.7.1.1.2.2'), K.Oid('2.999.16384.3')]
    pairs = []
    if deep:
        for family in (magma, kuz, hashes, signers, oids):
            pairs += [(a, b, warm) for a in family for b in family for warm in (False, True)]
        pairs += [(a, b, False) for a in (magma[0], kuz[0], hashes[0], signers[0], oids[0])
                  for b in (magma[0], kuz[0], hashes[0], signers[0], oids[0]) if a is not b]
    else:
        pairs = [(magma[0], magma[0], False), (magma[0], magma[1], True), (magma[3], magma[2], False), (magma[1], magma[3], False),
                 (kuz[0], kuz[1], False), (kuz[2], kuz[0], True),
                 (hashes[0], hashes[0], False), (hashes[0], hashes[1], True), (hashes[1], hashes[0], False),
                 (hashes[3], hashes[4], False), (hashes[4], hashes[3], True), (hashes[5], hashes[3], False), (hashes[2], hashes[2], False), (hashes[2], hashes[0], True),
                 (signers[0], signers[1], False), (signers[1], signers[0], True), (signers[0], signers[0], False),
                 (oids[0], oids[1], False), (oids[1], oids[0], True),
                 (magma[0], kuz[0], False), (hashes[0], magma[0], False), (kuz[0], hashes[1], False), (signers[0], hashes[0], False)]
    for a, b, warm in pairs:
        heavy = isinstance(a, K.Pbkdf) or (isinstance(a, (C, K.Mac)) and a.alg == 'kuznechik') or isinstance(a, K.Hmac)
        parts = 4 if deep or heavy else 2
        for part in range(parts):
            out.append(('threads %s / %s %s %d' % (a.name, b.name, 'warm' if warm else 'cold', part), one_preemption,
                        (a, b, warm, 6 if deep else 2, part, parts)))
    if deep:
        doubles = [(magma[0], magma[0]), (magma[3], magma[1]), (kuz[0], kuz[0]), (hashes[0], hashes[1]), (hashes[2], hashes[0]),
                   (hashes[3], hashes[4]), (signers[0], signers[1]), (oids[0], oids[1]), (magma[0], kuz[0])]
    else:
        doubles = [(magma[0], magma[1]), (hashes[0], hashes[1]), (signers[0], signers[1]), (oids[0], oids[1])]
    for a, b in doubles:
        for part in range(8 if deep else 4):
            entries = not (deep and (a in signers or a in oids)) and a not in oids
            out.append(('two preemptions %s / %s %d' % (a.name, b.name, part), two_preemptions,
                        (a, b, 1, entries, part, 8 if deep else 4)))
    return out
