"""Reaching far states without walking there: adaptive state injection.

The position of a counter inside an object is found by its value, not by its
name: an attribute that tracks the publicly known value over several steps is
the counter.  When no such attribute exists the caller falls back to walking
and records that.
"""


def encodings(value, size):
    return {
        'big': value.to_bytes(size, 'big'), 'little': value.to_bytes(size, 'little'), 'int': value,
    }


def find(obj, samples):
    """samples: list of (advance, value, size): call advance(obj), then the counter must hold value.

    Returns (owner object, attribute name, encoding, type) or None.
    """
    owners = {'': obj}
    for name, val in list(vars(obj).items()):
        if type(val).__module__.startswith('gostcrypto'):
            owners[name] = val
    candidates = None
    for advance, value, size in samples:
        if advance is not None:
            advance(obj)
        found = set()
        for path in owners:
            owner = getattr(obj, path) if path else obj
            for name, val in vars(owner).items():
                for enc, want in encodings(value, size).items():
                    if isinstance(val, bool):
                        continue
                    if isinstance(val, (bytes, bytearray)) and enc != 'int' and bytes(val) == want:
                        found.add((path, name, enc, type(val).__name__))
                    elif isinstance(val, int) and enc == 'int' and val == want:
                        found.add((path, name, enc, 'int'))
        candidates = found if candidates is None else candidates & found
    return sorted(candidates)


def put(obj, place, value, size):
    path, name, enc, kind = place
    owner = getattr(obj, path) if path else obj
    raw = encodings(value, size)[enc]
    setattr(owner, name, raw if kind == 'int' else {'bytes': bytes, 'bytearray': bytearray}[kind](raw))
