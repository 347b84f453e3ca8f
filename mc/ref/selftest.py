"""Validation of the reference model against the worked examples of the standards."""
from . import gost as g
from .params import CURVES

H = bytes.fromhex


def _prime(n):
    if n < 2 or any(n % k == 0 and n != k for k in (2, 3, 5, 7, 11, 13)):
        return False
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for base in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if base % n == 0:
            continue
        x = pow(base, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def run():
    count = 0

    def eq(got, want, what):
        nonlocal count
        count += 1
        if got != want:
            raise AssertionError('reference self-test failed: %s' % what)

    # RFC 6986, M1 and M2 (written here in memory order)
    m1 = b'012345678901234567890123456789012345678901234567890123456789012'
    m2 = H('d1e520e2e5f2f0e82c20d1f2f0e8e1eee6e820e2edf3f6e82c20e2e5fef2fa20f120eceef0ff20f1'
           'f2f0e5ebe0ece820ede020f5f0e0e1f0fbff20efebfaeafb20c8e3eef0e5e2fb')
    eq(g.streebog(512, m1), H('1b54d01a4af5b9d5cc3d86d68d285462b19abc2475222f35c085122be4ba1ffa'
                              '00ad30f8767b3a82384c6574f024c311e2a481332b08ef7f41797891c1646f48'), 'M1-512')
    eq(g.streebog(256, m1), H('9d151eefd8590b89daa6ba6cb74af9275dd051026bb149a452fd84e5e57b5500'), 'M1-256')
    eq(g.streebog(512, m2), H('1e88e62226bfca6f9994f1f2d51569e0daf8475a3b0fe61a5300eee46d961376'
                              '035fe83549ada2b8620fcd7c496ce5b33f0cb9dddc2b6460143b03dabac9fb28'), 'M2-512')
    eq(g.streebog(256, m2), H('9dd2fe4e90409e5da87f53976d7405b0c0cac628fc669a741d50063c557e8f50'), 'M2-256')
    eq(g.streebog(256, b''), H('3f539a213e97c802cc229d474c6aa32a825a360b2a933a949fd925208d9ce1bb'), 'empty')
    # GOST R 34.12-2015 / 34.13-2015
    kk = H('8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef')
    eq(g.Kuznechik(kk).encrypt(H('1122334455667700ffeeddccbbaa9988')),
       H('7f679d90bebc24305a468d42b9d4edcd'), 'kuznechik')
    eq(g.Kuznechik(kk).decrypt(H('7f679d90bebc24305a468d42b9d4edcd')),
       H('1122334455667700ffeeddccbbaa9988'), 'kuznechik inverse')
    mk = H('ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff')
    eq(g.Magma(mk).encrypt(H('fedcba9876543210')), H('4ee901e5c2d8ca3d'), 'magma')
    eq(g.Magma(mk).decrypt(H('4ee901e5c2d8ca3d')), H('fedcba9876543210'), 'magma inverse')
    pt = H('1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a'
           '112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a0011')
    iv = H('1234567890abcef0a1b2c3d4e5f0011223344556677889901213141516171819')
    for mode, vect, want in (
            ('CBC', iv, '689972d4a085fa4d90e52e3d6d7dcc272826e661b478eca6af1e8e448d5ea5ac'
                        'fe7babf1e91999e85640e8b0f49d90d0167688065a895c631a2d9a1560b63970'),
            ('CFB', iv, '81800a59b1842b24ff1f795e897abd95ed5b47a7048cfab48fb521369d9326bf'
                        '79f2a8eb5cc68d38842d264e97a238b54ffebecd4e922de6c75bd9dd44fbf4d1'),
            ('OFB', iv, '81800a59b1842b24ff1f795e897abd95ed5b47a7048cfab48fb521369d9326bf'
                        '66a257ac3ca0b8b1c80fe7fc10288a13203ebbc066138660a0292243f6903150'),
            ('CTR', iv[:8], 'f195d8bec10ed1dbd57b5fa240bda1b885eee733f6a13e5df33ce4b33c45dee4'
                            'a5eae88be6356ed3d5e877f13564a3a5cb91fab1f20cbab6d1c6d15820bdba73')):
        eq(g.Mode('kuznechik', kk, mode, vect).raw(pt, True), H(want), mode)
        eq(g.Mode('kuznechik', kk, mode, vect).raw(H(want), False), pt, mode + ' inverse')
    eq(g.cmac(g.Kuznechik(kk), pt)[:8], H('336f4d296059fbe3'), 'kuznechik MAC')
    mpt = H('92def06b3c130a59db54c704f8189d204a98fb2e67a8024c8912409b17b57e41')
    eq(g.cmac(g.Magma(mk), mpt)[:4], H('154e7210'), 'magma MAC')
    # R 50.1.113-2016
    hk = bytes(range(32))
    hd = H('0126bdb87800af214341456563780100')
    eq(g.hmac(256, hk, hd), H('a1aa5f7de402d7b3d323f2991c8d4534013137010a83754fd0af6d7cd4922ed9'), 'hmac256')
    eq(g.hmac(512, hk, hd), H('a59bab22ecae19c65fbde6e5f4e9f5d8549d31f037f9df9b905500e171923a77'
                              '3d5f1530f2ed7e964cb2eedc29e9ad2f3afe93b2814f79f5000ffc0366c251e6'), 'hmac512')
    # R 50.1.111-2016
    eq(g.pbkdf2(b'password', b'salt', 1, 64),
       H('64770af7f748c3b1c9ac831dbcfd85c26111b30a8a657ddc3056b80ca73e040d'
         '2854fd36811f6d825cc4ab66ec0a68a490a9e5cf5156b3a2b7eecddbf9a16b47'), 'pbkdf')
    # GOST R 34.10-2012, example 1
    c = g.Curve(dict(p=0x8000000000000000000000000000000000000000000000000000000000000431, a=7,
                     b=0x5fbff498aa938ce739b8e022fbafef40563f6e6a3472fc2a514c0ce9dae23b7e,
                     q=0x8000000000000000000000000000000150fe8a1892976154c59cfc193accf5b3,
                     x=2, y=0x8e2a8a0e65147d4bd6316030e16d19c85c97f0a9ca267122b96abbcea7e8fc8))
    d = 0x7a929ade789bb9be10ed359dd39a72c11b60961f49397eee1d19ce9891ec3b28
    e = 0x2dfbc1b372d89a1188c09c52e0eec61fce52032ab1022e8e67ece6672b043ee5
    k = 0x77105c9b20bcd3122823c8cf6fcc7b956de33814e95b7fe64fed924594dceab3
    rs = (0x41aa28d2f1ab148280cd9ed56feda41974053554a42767b83ad043fd39dc0493,
          0x1456c64ba4642a1653c235a98a60249bcd6d3f746b631df928014f6c5bf9c40)
    eq(c.sign(d, e, k), rs, 'sign')
    pub = c.mul(d)
    eq(pub[0], 0x7f2b49e270db6d90d8595bec458b50c58585ba1d4e9b788f6689dbd8e56fd80b, 'public key')
    eq(c.verify(pub, e, *rs), True, 'verify')
    eq(c.verify(pub, e + 1, *rs), False, 'verify')
    # curve table: primality, group order, both curve forms
    for name, par in CURVES.items():
        c = g.Curve(par)
        eq(_prime(par['p']) and _prime(par['q']), True, name + ' primes')
        eq(par['m'] % par['q'], 0, name + ' cofactor')
        eq(abs(par['m'] - par['p'] - 1) ** 2 <= 4 * par['p'], True, name + ' Hasse bound')
        eq(c.on(c.base), True, name + ' base point on curve')
        eq(c.mul(par['q']), None, name + ' base point order')
        if 'u' in par:
            eq(g.edwards(par), (par['a'], par['b'], (par['x'], par['y'])), name + ' edwards form')
    # OID
    eq(g.oid_der((1, 2, 840, 113549, 1)), H('06072a864886f70d01'), 'oid')
    eq(g.oid_der((2, 999, 3)), H('0603883703'), 'oid 2.999.3')
    for arcs in ((0, 0), (1, 39, 128), (2, 47, 16384), (2, 2 ** 40, 5)):
        eq(g.oid_parse(g.oid_der(arcs)), arcs, 'oid round trip')
    return count


if __name__ == '__main__':
    print('reference self-test: %d vectors pass' % run())
