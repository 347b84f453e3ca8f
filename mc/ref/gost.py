"""Reference model of the GOST algorithms: small, boring and written from the standards.

Everything here is a pure function of its arguments.  Nothing is imported from
the library under check.  mc/ref/selftest.py validates it against the worked
examples of the standards.
"""
from .tables import PI, C, MAGMA_PI, A

# --------------------------------------------------------------------------
# GOST R 34.11-2012 'Streebog' (least significant byte first)
# --------------------------------------------------------------------------


def _lin_table(j):
    row = []
    for x in range(256):
        val = 0
        for bit in range(8):
            if PI[x] >> bit & 1:
                val ^= A[(7 - j) * 8 + 7 - bit]
        row.append(val)
    return tuple(row)


_T = tuple(_lin_table(j) for j in range(8))


def _lps(data):
    t0, t1, t2, t3, t4, t5, t6, t7 = _T
    out = 0
    for i in range(7, -1, -1):
        out = out << 64 | (t0[data[i]] ^ t1[data[8 + i]] ^ t2[data[16 + i]] ^ t3[data[24 + i]]
                           ^ t4[data[32 + i]] ^ t5[data[40 + i]] ^ t6[data[48 + i]]
                           ^ t7[data[56 + i]])
    return out.to_bytes(64, 'little')


def _x(a, b):
    return (int.from_bytes(a, 'little') ^ int.from_bytes(b, 'little')).to_bytes(len(a), 'little')


def _g(n, h, m):
    k = _lps(_x(h, n))
    s = m
    for i in range(12):
        s = _lps(_x(k, s))
        k = _lps(_x(k, C[i]))
    s = _x(k, s)
    return _x(_x(s, h), m)


_M512 = (1 << 512) - 1


class Streebog:
    """Incremental reference (only used where long streams make one-shot hashing quadratic)."""

    def __init__(self, bits):
        self.bits = bits
        self.h = (b'\x01' if bits == 256 else b'\x00') * 64
        self.n = 0
        self.sigma = 0

    def block(self, m):
        self.h = _g(self.n.to_bytes(64, 'little'), self.h, m)
        self.n = (self.n + 512) & _M512
        self.sigma = (self.sigma + int.from_bytes(m, 'little')) & _M512

    def final(self, tail):
        assert len(tail) < 64
        m = bytes(tail) + b'\x01' + bytes(63 - len(tail))
        h = _g(self.n.to_bytes(64, 'little'), self.h, m)
        n = (self.n + len(tail) * 8) & _M512
        sigma = (self.sigma + int.from_bytes(m, 'little')) & _M512
        h = _g(bytes(64), h, n.to_bytes(64, 'little'))
        h = _g(bytes(64), h, sigma.to_bytes(64, 'little'))
        return h[32:] if self.bits == 256 else h


def streebog(bits, data):
    data = bytes(data)
    st = Streebog(bits)
    full = len(data) // 64
    for i in range(full):
        st.block(data[i * 64:i * 64 + 64])
    return st.final(data[full * 64:])


# --------------------------------------------------------------------------
# HMAC (R 50.1.113-2016), PBKDF2 (R 50.1.111-2016), PRNG (R 1323565.1.006-2017)
# --------------------------------------------------------------------------


def hmac(bits, key, data):
    key = bytes(key)
    assert len(key) <= 64
    key = key + bytes(64 - len(key))
    inner = streebog(bits, bytes(b ^ 0x36 for b in key) + bytes(data))
    return streebog(bits, bytes(b ^ 0x5c for b in key) + inner)


def pbkdf2(password, salt, count, dk_len):
    out = b''
    index = 1
    while len(out) < dk_len:
        u = hmac(512, password, bytes(salt) + index.to_bytes(4, 'big'))
        t = int.from_bytes(u, 'big')
        for _ in range(1, count):
            u = hmac(512, password, u)
            t ^= int.from_bytes(u, 'big')
        out += t.to_bytes(64, 'big')
        index += 1
    return out[:dk_len]


def prng_block(seed, number):
    """Output block `number` (1, 2, ...): the hash of (seed || 0...0) + number, 63 bytes."""
    val = int.from_bytes(bytes(seed) + bytes(63 - len(seed)), 'big') + number
    return streebog(512, val.to_bytes(63, 'big'))


def prng(seed, start, size):
    """One call of size bytes after `start` blocks: (value, blocks used so far)."""
    out = b''
    for _ in range(size // 64):
        start += 1
        out += prng_block(seed, start)
    rest = size % 64
    if rest:
        start += 1
        out += prng_block(seed, start)[64 - rest:]
    return out, start


# --------------------------------------------------------------------------
# GOST R 34.12-2015
# --------------------------------------------------------------------------

_LVEC = (148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1)


def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x1c3
        b >>= 1
    return r


def _r(block):
    v = 0
    for byte, coef in zip(block, _LVEC):
        v ^= _gmul(byte, coef)
    return bytes([v]) + block[:15]


def _r_inv(block):
    v = 0
    for byte, coef in zip(block[1:] + block[:1], _LVEC):
        v ^= _gmul(byte, coef)
    return block[1:] + bytes([v])


def _power(step, block):
    for _ in range(16):
        block = step(block)
    return block


_PI_INV = bytes(PI.index(i) for i in range(256))


def _linear_tables(step):
    tables = []
    for pos in range(16):
        basis = []
        for bit in range(8):
            unit = bytearray(16)
            unit[pos] = 1 << bit
            basis.append(int.from_bytes(_power(step, bytes(unit)), 'big'))
        row = []
        for x in range(256):
            v = 0
            for bit in range(8):
                if x >> bit & 1:
                    v ^= basis[bit]
            row.append(v)
        tables.append(row)
    return tables


_L_TAB = _linear_tables(_r)
_LINV_TAB = _linear_tables(_r_inv)


def _apply(tables, block):
    v = 0
    for row, byte in zip(tables, block):
        v ^= row[byte]
    return v


def _ls(value):
    return _apply(_L_TAB, value.to_bytes(16, 'big').translate(PI))


class Kuznechik:
    block_size = 16

    def __init__(self, key):
        key = bytes(key)
        k1, k2 = int.from_bytes(key[:16], 'big'), int.from_bytes(key[16:], 'big')
        self.keys = [k1, k2]
        for i in range(4):
            for j in range(8):
                const = _apply(_L_TAB, (8 * i + j + 1).to_bytes(16, 'big'))
                k1, k2 = _ls(k1 ^ const) ^ k2, k1
            self.keys += [k1, k2]

    def encrypt(self, block):
        v = int.from_bytes(block, 'big')
        for k in self.keys[:9]:
            v = _ls(v ^ k)
        return (v ^ self.keys[9]).to_bytes(16, 'big')

    def decrypt(self, block):
        v = int.from_bytes(block, 'big') ^ self.keys[9]
        for k in reversed(self.keys[:9]):
            v = int.from_bytes(_apply(_LINV_TAB, v.to_bytes(16, 'big')).to_bytes(16, 'big')
                               .translate(_PI_INV), 'big') ^ k
        return v.to_bytes(16, 'big')

    def round_keys(self):
        return [k.to_bytes(16, 'big') for k in self.keys]


class Magma:
    block_size = 8

    def __init__(self, key):
        words = [int.from_bytes(key[4 * i:4 * i + 4], 'big') for i in range(8)]
        self.keys = words * 3 + words[::-1]

    @staticmethod
    def _rounds(block, keys):
        left, right = int.from_bytes(block[:4], 'big'), int.from_bytes(block[4:], 'big')
        for k in keys:
            v = (right + k) & 0xffffffff
            t = 0
            for i in range(8):
                t |= MAGMA_PI[i][v >> 4 * i & 15] << 4 * i
            t = (t << 11 | t >> 21) & 0xffffffff
            left, right = right, left ^ t
        return right.to_bytes(4, 'big') + left.to_bytes(4, 'big')

    def encrypt(self, block):
        return self._rounds(block, self.keys)

    def decrypt(self, block):
        return self._rounds(block, self.keys[::-1])

    def round_keys(self):
        return [k.to_bytes(4, 'big') for k in self.keys]


def cipher(algorithm, key):
    return {'kuznechik': Kuznechik, 'magma': Magma}[algorithm](key)


# --------------------------------------------------------------------------
# GOST R 34.13-2015
# --------------------------------------------------------------------------


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def pad(data, size, mode):
    data = bytes(data)
    if mode == 1:                       # procedure 1: zeros up to the block boundary
        if len(data) == 0:              # (see DESIGN.md: the library pads the empty message)
            return bytes(size)
        return data + bytes(-len(data) % size)
    data += b'\x80'                     # procedure 2: one bit, zeros up to the block boundary
    return data + bytes(-len(data) % size)


class Mode:
    """State machine of one ciphering object: chaining register R and counter."""

    def __init__(self, algorithm, key, mode, iv=None, pad_mode=1):
        self.e = cipher(algorithm, key)
        self.n = self.e.block_size
        self.mode = mode
        self.pad_mode = pad_mode
        self.reg = None
        if mode in ('CBC', 'CFB', 'OFB'):
            self.reg = bytes(iv)
        elif mode == 'CTR':
            self.reg = bytes(iv) + bytes(self.n // 2)

    def iv(self):
        return self.reg[-self.n:]

    def counter(self):
        return self.reg

    def _shift(self, block):
        self.reg = self.reg[self.n:] + block

    def _blocks(self, data):
        return [data[i:i + self.n] for i in range(0, len(data), self.n)]

    def encrypt(self, data):
        if self.mode in ('ECB', 'CBC'):
            data = pad(data, self.n, self.pad_mode)
        return self.raw(bytes(data), True)

    def decrypt(self, data):
        return self.raw(bytes(data), False)

    def raw(self, data, enc):
        out = []
        for block in self._blocks(data):
            if self.mode == 'ECB':
                res = self.e.encrypt(block) if enc else self.e.decrypt(block)
            elif self.mode == 'CBC':
                if enc:
                    res = self.e.encrypt(xor(block, self.reg))
                    self._shift(res)
                else:
                    res = xor(self.e.decrypt(block), self.reg)
                    self._shift(block)
            elif self.mode == 'CFB':
                res = xor(block, self.e.encrypt(self.reg[:self.n]))
                if len(block) == self.n:
                    self._shift(res if enc else block)
            elif self.mode == 'OFB':
                gamma = self.e.encrypt(self.reg[:self.n])
                res = xor(block, gamma)
                if len(block) == self.n:
                    self._shift(gamma)
            else:
                res = xor(block, self.e.encrypt(self.reg))
                value = int.from_bytes(self.reg, 'big') + 1
                self.reg = (value % (1 << 8 * self.n)).to_bytes(self.n, 'big')
            out.append(res)
        return b''.join(out)


def cmac_subkeys(e):
    n = e.block_size
    const = {16: 0x87, 8: 0x1b}[n]
    mask = (1 << 8 * n) - 1
    val = int.from_bytes(e.encrypt(bytes(n)), 'big')
    keys = []
    for _ in range(2):
        carry = val >> (8 * n - 1)
        val = (val << 1 & mask) ^ (const if carry else 0)
        keys.append(val.to_bytes(n, 'big'))
    return keys


def cmac(e, data):
    n = e.block_size
    data = bytes(data)
    k1, k2 = cmac_subkeys(e)
    full = max(len(data) - 1, 0) // n
    state = bytes(n)
    for i in range(full):
        state = e.encrypt(xor(state, data[i * n:i * n + n]))
    last = data[full * n:]
    if len(last) == n:
        last = xor(last, k1)
    else:
        last = xor(last + b'\x80' + bytes(n - len(last) - 1), k2)
    return e.encrypt(xor(state, last))


# --------------------------------------------------------------------------
# GOST R 34.10-2012
# --------------------------------------------------------------------------


class Curve:
    """Affine Weierstrass group; the point at infinity is None."""

    def __init__(self, params):
        p = params['p']
        self.p, self.q = p, params['q']
        if 'a' in params and 'b' in params:
            self.a, self.b = params['a'], params['b']
            self.base = (params['x'], params['y'])
        else:
            self.a, self.b, self.base = edwards(params)

    def on(self, pt):
        if pt is None:
            return True
        x, y = pt
        return (y * y - x * x * x - self.a * x - self.b) % self.p == 0

    def add(self, u, v):
        if u is None:
            return v
        if v is None:
            return u
        p = self.p
        x1, y1 = u
        x2, y2 = v
        if (x1 - x2) % p == 0:
            if (y1 + y2) % p == 0:
                return None
            lam = (3 * x1 * x1 + self.a) * pow(2 * y1, -1, p) % p
        else:
            lam = (y2 - y1) * pow(x2 - x1, -1, p) % p
        x3 = (lam * lam - x1 - x2) % p
        return x3, (lam * (x1 - x3) - y1) % p

    def mul(self, k, pt=0):
        pt = self.base if pt == 0 else pt
        acc = None
        while k:
            if k & 1:
                acc = self.add(acc, pt)
            pt = self.add(pt, pt)
            k >>= 1
        return acc

    def points(self):
        roots = {}
        for y in range(self.p):
            roots.setdefault(y * y % self.p, []).append(y)
        return [(x, y) for x in range(self.p)
                for y in roots.get((x ** 3 + self.a * x + self.b) % self.p, ())]

    def e_of(self, digest_int):
        return digest_int % self.q or 1

    def sign(self, d, digest_int, k):
        """(r, s), or None when the nonce k is unusable."""
        q = self.q
        e = self.e_of(digest_int)
        if not 0 < k < q:
            return None
        c = self.mul(k)
        if c is None:
            return None
        r = c[0] % q
        s = (r * d + k * e) % q
        return (r, s) if r and s else None

    def verify(self, pub, digest_int, r, s):
        q = self.q
        if not (0 < r < q and 0 < s < q):
            return False
        v = pow(self.e_of(digest_int), -1, q)
        c = self.add(self.mul(s * v % q), self.mul(-r * v % q, pub))
        return c is not None and c[0] % q == r


def edwards(params):
    """Twisted Edwards e*u^2 + v^2 = 1 + d*u^2*v^2 to Weierstrass (R 1323565.1.024-2019)."""
    p, e, d, u, v = (params[i] for i in 'pe d u v'.replace(' ', ''))
    s = (e - d) * pow(4, -1, p) % p
    t = (e + d) * pow(6, -1, p) % p
    a = (s * s - 3 * t * t) % p
    b = (2 * t ** 3 - t * s * s) % p
    x = (s * (1 + v) * pow(1 - v, -1, p) + t) % p
    y = s * (1 + v) * pow((1 - v) * u, -1, p) % p
    return a, b, (x, y)


# --------------------------------------------------------------------------
# OID (X.660, X.690)
# --------------------------------------------------------------------------


def oid_der(arcs):
    """DER encoding, or None if the arcs do not form an encodable OID."""
    if len(arcs) < 2 or arcs[0] > 2 or (arcs[0] < 2 and arcs[1] > 39):
        return None
    body = b''
    for arc in (arcs[0] * 40 + arcs[1],) + tuple(arcs[2:]):
        septets = [arc & 0x7f]
        while arc >> 7:
            arc >>= 7
            septets.append(0x80 | arc & 0x7f)
        body += bytes(reversed(septets))
    if len(body) < 0x80:
        return b'\x06' + bytes([len(body)]) + body
    size = (len(body).bit_length() + 7) // 8
    return b'\x06' + bytes([0x80 | size]) + len(body).to_bytes(size, 'big') + body


def oid_parse(der):
    """Independent strict decoder used for the round trip."""
    assert der[0] == 6
    if der[1] < 0x80:
        size, pos = der[1], 2
    else:
        count = der[1] & 0x7f
        size, pos = int.from_bytes(der[2:2 + count], 'big'), 2 + count
        assert size >= 0x80 and der[2] != 0
    assert len(der) == pos + size
    vals, cur, start = [], 0, True
    for byte in der[pos:]:
        assert not (start and byte == 0x80)
        cur = cur << 7 | byte & 0x7f
        start = not byte & 0x80
        if start:
            vals.append(cur)
            cur = 0
    assert start
    first = min(vals[0] // 40, 2)
    return (first, vals[0] - 40 * first) + tuple(vals[1:])
