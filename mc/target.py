"""Loads the library under check from the working tree (VERIF_REPO, default /repo)."""
import os
import sys

from . import env

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))


class TargetError(Exception):
    pass


def load():
    """Import gostcrypto from REPO with nothing cached and the entropy seam in place."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/mc-no-pycache'
    env.install()
    sys.path.insert(0, REPO)
    import gostcrypto
    where = os.path.realpath(gostcrypto.__file__)
    if not where.startswith(REPO + os.sep):
        raise TargetError('gostcrypto was imported from %s, not from %s' % (where, REPO))
    import gostcrypto.gostcipher
    import gostcrypto.gosthash
    import gostcrypto.gosthmac
    import gostcrypto.gostoid
    import gostcrypto.gostpbkdf
    import gostcrypto.gostrandom
    import gostcrypto.gostsignature
    return gostcrypto


class _Lazy:
    """`from mc.target import G` and then G.gosthash.new(...): resolved once load() has run."""
    def __getattr__(self, name):
        import gostcrypto
        return getattr(gostcrypto, name)


G = _Lazy()

MODES = ('ECB', 'CBC', 'CFB', 'OFB', 'CTR')


def mode_const(name):
    return getattr(G.gostcipher, 'MODE_' + name)


def pad_const(number):
    return getattr(G.gostcipher, 'PAD_MODE_%d' % number)


def new_cipher(alg, key, mode, iv=None, pad=None):
    kwargs = {}
    if iv is not None:
        kwargs['init_vect'] = iv
    if pad is not None:
        kwargs['pad_mode'] = pad_const(pad)
    return G.gostcipher.new(alg, bytearray(key), mode_const(mode), **kwargs)


def new_mac(alg, key, data=None):
    kwargs = {} if data is None else {'data': data}
    return G.gostcipher.new(alg, bytearray(key), G.gostcipher.MODE_MAC, **kwargs)


HMAC_NAME = {256: 'HMAC_GOSTR3411_2012_256', 512: 'HMAC_GOSTR3411_2012_512'}
HASH_NAME = {256: 'streebog256', 512: 'streebog512'}


def new_hash(bits, data=None):
    kwargs = {} if data is None else {'data': data}
    return G.gosthash.new(HASH_NAME[bits], **kwargs)


def new_hmac(bits, key, data=None):
    kwargs = {} if data is None else {'data': data}
    return G.gosthmac.new(HMAC_NAME[bits], key, **kwargs)


def error_class(kind):
    return {
        'cipher': lambda: G.gostcipher.GOSTCipherError,
        'hash': lambda: G.gosthash.GOSTHashError,
        'hmac': lambda: G.gosthmac.GOSTHMACError,
        'pbkdf': lambda: G.gostpbkdf.GOSTPBKDFError,
        'random': lambda: G.gostrandom.GOSTRandomError,
        'oid': lambda: G.gostoid.GOSTOIDError,
        'signature': lambda: G.gostsignature.GOSTSignatureError,
    }[kind]()
