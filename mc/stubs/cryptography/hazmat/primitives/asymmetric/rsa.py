import jarray
from java.security import KeyFactory, KeyPairGenerator, SecureRandom
from java.security.spec import (PKCS8EncodedKeySpec, X509EncodedKeySpec,
                                RSAPublicKeySpec, MGF1ParameterSpec,
                                RSAKeyGenParameterSpec)
from javax.crypto import Cipher
from javax.crypto.spec import OAEPParameterSpec, PSource
from java.math import BigInteger

from cryptography.hazmat.primitives import serialization

# A harness may force smaller (faster) keys for keys generated in tests
KEY_SIZE_OVERRIDE = None

# Harnesses that are not about the encryption itself may swap it for a tagged
# plain text that only the right key opens
CHEAP = False

def _tag(key):
    return 'cheap %x ' % key.getModulus()

def _jbytes(s):
    return jarray.array([ord(c) - 256 if ord(c) > 127 else ord(c) for c in s], 'b')

def _pbytes(a):
    return ''.join(chr(b & 0xff) for b in a)

def _cipher(mode, key, pad):
    from cryptography.hazmat.primitives.asymmetric import padding
    if isinstance(pad, padding.OAEP):
        assert pad.label is None
        c = Cipher.getInstance('RSA/ECB/OAEPPadding')
        mgf_name = pad.mgf.algorithm.jca
        c.init(mode, key, OAEPParameterSpec(
            pad.algorithm.jca, 'MGF1', MGF1ParameterSpec(mgf_name),
            PSource.PSpecified.DEFAULT))
    else:
        c = Cipher.getInstance('RSA/ECB/PKCS1Padding')
        c.init(mode, key)
    return c

class RSAPublicKey(object):
    def __init__(self, key):
        self._key = key
    @property
    def key_size(self):
        return self._key.getModulus().bitLength()
    def encrypt(self, plaintext, pad):
        if not isinstance(plaintext, bytes):
            raise TypeError('plaintext must be bytes')
        if CHEAP:
            return _tag(self._key) + plaintext
        try:
            return _pbytes(_cipher(Cipher.ENCRYPT_MODE, self._key, pad).doFinal(_jbytes(plaintext)))
        except Exception as e:
            raise
        except BaseException as e:
            raise ValueError('Encryption failed: %s' % (e,))
    def public_bytes(self, encoding, format):
        der = _pbytes(self._key.getEncoded())
        if encoding == serialization.Encoding.DER:
            return der
        return serialization._pem('PUBLIC KEY', der)

class RSAPrivateKey(object):
    def __init__(self, key):
        self._key = key
    @property
    def key_size(self):
        return self._key.getModulus().bitLength()
    def public_key(self):
        spec = RSAPublicKeySpec(self._key.getModulus(), self._key.getPublicExponent())
        return RSAPublicKey(KeyFactory.getInstance('RSA').generatePublic(spec))
    def decrypt(self, ciphertext, pad):
        import java.lang
        if CHEAP:
            if not ciphertext.startswith(_tag(self._key)):
                raise ValueError('Decryption failed.')
            return ciphertext[len(_tag(self._key)):]
        try:
            return _pbytes(_cipher(Cipher.DECRYPT_MODE, self._key, pad).doFinal(_jbytes(ciphertext)))
        except java.lang.Exception as e:
            raise ValueError('Decryption failed.')
    def private_bytes(self, encoding, format, encryption_algorithm):
        return serialization._pem('PRIVATE KEY', _pbytes(self._key.getEncoded()))

_PARSED = {}

def _load_private(der):
    import java.lang
    if ('priv', der) in _PARSED:
        return RSAPrivateKey(_PARSED[('priv', der)])
    try:
        _PARSED[('priv', der)] = (KeyFactory.getInstance('RSA').generatePrivate(PKCS8EncodedKeySpec(_jbytes(der))))
        return RSAPrivateKey(_PARSED[('priv', der)])
    except java.lang.Exception as e:
        raise ValueError('Could not deserialize key data.')

def _load_public(der):
    import java.lang
    if ('pub', der) in _PARSED:
        return RSAPublicKey(_PARSED[('pub', der)])
    try:
        _PARSED[('pub', der)] = (KeyFactory.getInstance('RSA').generatePublic(X509EncodedKeySpec(_jbytes(der))))
        return RSAPublicKey(_PARSED[('pub', der)])
    except java.lang.Exception as e:
        raise ValueError('Could not deserialize key data.')

def generate_private_key(public_exponent, key_size, backend=None):
    gen = KeyPairGenerator.getInstance('RSA')
    gen.initialize(RSAKeyGenParameterSpec(KEY_SIZE_OVERRIDE or key_size, BigInteger.valueOf(public_exponent)))
    return RSAPrivateKey(gen.generateKeyPair().getPrivate())
