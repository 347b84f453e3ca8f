"""One very long life of one object: every sequence of a few operations occurs in it, in a fixed order.

The de Bruijn sequence of the operations of a kind contains every word of the
given length exactly once; running it on a single object reaches the states
that only many calls reach, against the model after every call.
"""
from functools import lru_cache

from . import env, kinds, sig
from .engine import same, same_bytes


def de_bruijn(symbols, order):
    """The lexicographically least cyclic sequence with every word of `order` symbols once (Lyndon words)."""
    count = len(symbols)
    word, out = [0] * (count * order + 1), []

    def extend(at, period):
        if at > order:
            if order % period == 0:
                out.extend(word[1:period + 1])
            return
        word[at] = word[at - period]
        extend(at + 1, period)
        for j in range(word[at - period] + 1, count):
            word[at] = j
            extend(at + 1, at)
    extend(1, 1)
    cycle = [symbols[i] for i in out]
    return cycle + cycle[:order - 1]


def life(rec, kind, order, least=0, skip=(), fails=False, meta=False, probes=False):
    """The whole sequence, repeated until at least `least` operations have been made."""
    ops = [op for op in kind.ops if op not in skip]
    if probes:
        ops += [op for op in kind.probes if op not in skip]
    if fails and not kind.dies_on_failure:
        ops += ['!' + name for name in kind.fails]
    word = de_bruijn(ops, order)
    env.ENTROPY.reset()
    bundle = None
    done = 0
    while done < max(len(word), least):
        op = word[done % len(word)]
        with rec.case(lambda: {'object': kind.name, 'operations done': done, 'last operations': [word[i % len(word)] for i in range(max(0, done - 5), done)], 'operation': op}):
            if bundle is None:
                bundle = kind.make(kinds.Give())
            give = kinds.Give(bytearray if done % 3 else bytes)
            if op.startswith('!'):
                kind.fail(bundle, op[1:])
            else:
                kind.run(bundle, op, give)
            give.check()
            if meta:
                for name, got, want in kind.meta(bundle.impl):
                    same(got, want, '%s of %s' % (name, kind.name))
            give.poison()
            rec.step()
            rec.outcome(op)
        done += 1
    rec.state((kind.name, order, least, tuple(skip), fails))
    rec.trace()
    rec.note('longest history', done)


def signing(rec, params, size, what, calls):
    """A life of very many signature calls over a toy curve: another key, digest, nonce or forgery every time."""
    impl, model = sig.toy(params, size)
    q = model.q
    points = sig.subgroup(model)
    signed = lru_cache(None)(model.sign)
    valid = lru_cache(None)(model.verify)
    num = lambda value: sig.num(value, size)
    pack = lambda pair: sig.pack(pair, size)
    turn = 0
    for call in range(1, calls + 1):
        todo = what if what != 'mixed' else ('sign', 'verify', 'public')[(call + call // 7) % 3]
        turn += 1
        d, e, k = turn % (q - 1) + 1, turn // 3 % (2 * q), turn // 5 % (q - 1) + 1
        while signed(d, e, k) is None:
            turn += 1
            d, e, k = turn % (q - 1) + 1, turn // 3 % (2 * q), turn // 5 % (q - 1) + 1
        pair = signed(d, e, k)
        with rec.case(lambda: {'curve': sig.toy_id(params), 'size': size, 'calls before': call - 1, 'call': todo, 'd': d, 'e': e, 'k': k}):
            if todo == 'sign':
                same_bytes(impl.sign(num(d), bytearray(num(e)), num(k)), pack(pair), 'signature')
            elif todo == 'verify':
                if call % 3 == 0:
                    pair = pair[0], call % (q - 1) + 1
                elif call % 31 == 0:
                    pair = call % (q - 1) + 1, pair[1]
                want = valid(points[d], e, *pair)
                same(impl.verify(pack(points[d]), num(e), bytearray(pack(pair))), want, 'verify')
                rec.outcome(want)
            else:
                same_bytes(impl.public_key_generate(num(d)), pack(points[d]), 'public key')
            rec.step()
    rec.state((what, size, calls, sig.toy_id(params)))
    rec.trace()
    rec.note('longest history', calls)
