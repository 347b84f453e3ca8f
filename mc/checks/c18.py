"""C18: object identifiers: exact DER, names, digits, and refusal of malformed strings."""
import itertools
import re

from .. import kinds, marathon
from ..engine import Mismatch, expect_error, same, same_bytes
from ..ref import gost as ref
from ..ref.params import OID_NAMES
from ..target import G

BOUNDS = {
    'quick': {'arcs': 'first two arcs 0..3 x (0..130 and every boundary); third arc 0..20000 and 2^i-1, 2^i, 2^i+1 up to i = 256, alone and in every position of 5',
              'lengths': 'every content length 1..300, and 65535..65537', 'strings': 'every string of up to 5 characters over 9 characters; one foreign character in every position',
              'histories': 'every sequence of 3 accesses',
              'long life of one object': 'every 5-access word in one life of 2000'},
    'thorough': {'arcs': 'third arc 0..70000, pairs of boundary arcs up to i = 64 in four positions', 'lengths': 'every content length 1..2100 and around 65536, 2^18',
                 'strings': 'every string of up to 6 characters over 10 characters, of up to 8 over 3', 'histories': 'every sequence of 5 accesses',
                 'long life of one object': 'every 6-access word, 20000'},
}
ASSUMPTIONS = ['leading zeros in an arc and arcs of more than 4300 digits are not judged']

WELL = re.compile(r'[0-9]+(\.[0-9]+)*\Z', re.ASCII)


def judge(rec, text):
    """Compare everything observable of one dotted string with the model."""
    with rec.case(lambda: {'OID': text[:200]}):
        obj = G.gostoid.ObjectIdentifier(text)
        rec.step()
        rec.trace()
        same(str(obj), text, 'str()')
        same(obj.name, OID_NAMES.get(text, ''), 'name')
        if not WELL.match(text):
            expect_error('oid', 'invalid OID value', lambda: obj.digit, 'digit of a malformed string')
            expect_error('oid', 'invalid OID value', lambda: obj.octet, 'octet of a malformed string')
            rec.outcome('malformed')
            return
        parts = text.split('.')
        if any(len(p) > 1 and p[0] == '0' for p in parts):
            return
        arcs = tuple(int(p) for p in parts)
        got = obj.digit
        if not isinstance(got, tuple):
            raise Mismatch('digit is not a tuple')
        same(got, arcs, 'digit')
        want = ref.oid_der(arcs)
        if want is None:
            if len(arcs) < 2:
                message = 'invalid second SID value' if arcs[0] < 3 else None
            else:
                message = 'invalid first SID value' if arcs[0] > 2 else 'invalid second SID value'
            expect_error('oid', message, lambda: obj.octet, 'octet of an OID that cannot be encoded')
            rec.outcome(str(message))
        else:
            der = obj.octet
            same_bytes(der, want, 'octet')
            same(ref.oid_parse(bytes(der)), arcs, 'decoded octet')
            rec.outcome('encoded, %d length octets' % (1 if len(want) < 130 else (want[1] & 0x7f) + 1))
        rec.state(text)
        rec.sample(text[:60])


def dotted(arcs):
    return '.'.join(str(a) for a in arcs)


def roots(rec):
    seconds = list(range(131)) + [b + d for i in range(7, 66) for b in (2 ** i, 2 ** i - 80) for d in (-1, 0, 1)]
    for first in (0, 1, 2, 3, 4, 10, 40, 119, 120, 2 ** 64):
        judge(rec, dotted((first,)))
        for second in seconds:
            judge(rec, dotted((first, second)))
            judge(rec, dotted((first, second, 5)))


def third(rec, low, high):
    for arc in range(low, high):
        judge(rec, dotted((1, 2, arc)))


def boundaries(rec, position, top):
    for i in range(top):
        for arc in sorted({max(2 ** i - 1, 0), 2 ** i, 2 ** i + 1}):
            for filler in (0, 127, 643):
                arcs = [filler] * 5
                arcs[position] = arc
                judge(rec, dotted([2, 100] + arcs))


def pairs(rec, top):
    vals = sorted({max(2 ** i + d, 0) for i in range(0, top) for d in (-1, 0, 1)})
    for a in vals:
        for b in vals:
            judge(rec, dotted((1, 2, a, b)))
            judge(rec, dotted((2, a, b)))


def lengths(rec, sizes):
    for size in sizes:
        judge(rec, dotted([1, 2] + [1] * (size - 1)))                       # one octet per arc
        if size > 3:
            judge(rec, dotted([2, 40] + [16383] * ((size - 1) // 2) + [9] * ((size - 1) % 2)))


def strings(rec, alphabet, longest, heads):
    for size in range(0, longest + 1):
        for head in heads:
            if size < len(head):
                continue
            for tail in itertools.product(alphabet, repeat=size - len(head)):
                judge(rec, head + ''.join(tail))


def short(rec):
    judge(rec, '')


def foreign(rec):
    good = '1.2.643.7.1'
    for code in list(range(0, 256)) + [0x660, 0x663, 0x966, 0xff10, 0xff11, 0xb2, 0x2081, 0x1d7ce, 0x2460, 0x200b, 0xfeff, 0x3002, 0xff0e]:
        for pos in range(len(good) + 1):
            judge(rec, good[:pos] + chr(code) + good[pos:])
            if pos < len(good):
                judge(rec, good[:pos] + chr(code) + good[pos + 1:])


def names(rec):
    table = G.gostoid.OBJECT_IDENTIFIER_TC26
    with rec.case('OBJECT_IDENTIFIER_TC26'):
        same(dict(table), OID_NAMES, 'registered names')
        rec.step()
    for text, name in OID_NAMES.items():
        judge(rec, text)
        with rec.case(text):
            if not name.isascii():
                raise Mismatch('name of %s is not ASCII' % text)
        for near in (text + '.', '.' + text, text + '.0', text + '.9', text[:-1], text[:-1] + '8', text + ' ', text[1:], text + '\n'):
            judge(rec, near)
    arcs = [tuple(int(p) for p in text.split('.')) for text in OID_NAMES]
    for base in arcs:
        for last in range(12):
            judge(rec, dotted(base + (last,)))


def histories(rec, depth):
    """Every sequence of accesses, good and bad, with mutated results, on one object."""
    for text in ('1.2.643.7.1.1.2.2', '2.999.16384', '1.40.1', '3.1', '7', '1..2', 'a'):
        for ops in itertools.product(('str', 'name', 'digit', 'octet', 'mutate'), repeat=depth):
            with rec.case(lambda: {'OID': text, 'accesses': list(ops)}):
                obj = G.gostoid.ObjectIdentifier(text)
                fresh = G.gostoid.ObjectIdentifier(text)
                for op in ops:
                    if op == 'mutate':
                        try:
                            der = obj.octet
                            der[:] = b'\xff' * len(der)
                        except (G.gostoid.GOSTOIDError, TypeError):
                            pass
                        continue
                    out = []
                    for item in (obj, fresh):
                        try:
                            out.append(str(item) if op == 'str' else getattr(item, op))
                        except G.gostoid.GOSTOIDError as exc:
                            out.append(str(exc))
                    same(out[0], out[1], op)
                    rec.step()
                rec.trace()
                rec.state((text, ops))
        judge(rec, text)


def two_objects(rec, texts, first):
    """Ordered pairs of identifiers alive together: reading one never shows the other."""
    want = {}
    for text in texts:
        arcs = tuple(int(p) for p in text.split('.'))
        want[text] = (text, OID_NAMES.get(text, ''), arcs, ref.oid_der(arcs))

    def read(obj):
        return (str(obj), obj.name, obj.digit, bytes(obj.octet))
    for one in texts:
        if one != first:
            continue
        for two in texts:
            with rec.case(lambda: {'identifiers': [one, two]}):
                a, b = G.gostoid.ObjectIdentifier(one), G.gostoid.ObjectIdentifier(two)
                for obj, text in ((a, one), (b, two), (a, one)):
                    same(read(obj), want[text], 'identifier %s' % text)
                    rec.step()
                rec.trace()
                rec.state((one, two))


def jobs(tier):
    deep = tier == 'thorough'
    out = [('names', names, ()), ('roots', roots, ()), ('foreign characters', foreign, ()), ('empty', short, ()),
           ('histories', histories, (5 if deep else 3,))]
    texts = list(OID_NAMES) + ['0.0', '1.0', '0.1', '2.0', '1.2', '1.2.0', '1.2.643', '2.999', '1.2.128', '1.2.1.28', '1.2.16384', '1.2.1.6384', '1.2.643.7.1.1.3.4', '1.2.643.7.1.1.4.3']
    for text in texts:
        out.append(('two objects from %s' % text, two_objects, (texts, text)))
    top = 70000 if deep else 20000
    for low in range(0, top, 5000):
        out.append(('third arc from %d' % low, third, (low, low + 5000)))
    for position in range(5):
        out.append(('boundary arc at %d' % position, boundaries, (position, 257)))
    sizes = list(range(1, 2101 if deep else 301)) + [65534, 65535, 65536, 65537] + ([2 ** 18] if deep else [])
    for part in range(4):
        out.append(('lengths %d' % part, lengths, (sizes[part::4],)))
    if deep:
        out.append(('pairs of boundary arcs', pairs, (64,)))
        for head in '.019':
            out.append(('long strings %s' % head, strings, ('.19', 8, (head,))))
    alphabet = '.0129 -a+' + ('_' if deep else '')
    for head in alphabet:
        for second in alphabet if deep else ('',):
            out.append(('strings %r' % (head + second), strings, (alphabet, 6 if deep else 5, (head + second,))))
    out.append(('strings of one', strings, (alphabet, 1, ('',))))
    for kind in [kinds.Oid('1.2.643.7.1.1.2.2'), kinds.Oid('2.999.16384.3')]:
        out.append(('%s long life' % kind.name, marathon.life, (kind, 6 if deep else 5, 20000 if deep else 2000)))
    return out
