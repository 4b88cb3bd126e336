'''
The Fernet construction (version 0x80 | time | iv | AES-128-CBC | HMAC-SHA256).
'''
import hashlib
import hmac
import os
import struct
import time
from base64 import urlsafe_b64encode, urlsafe_b64decode

import java.lang
from javax.crypto import Cipher
from javax.crypto.spec import SecretKeySpec, IvParameterSpec

from cryptography.hazmat.primitives.asymmetric import rsa
from cryptography.hazmat.primitives.asymmetric.rsa import _jbytes, _pbytes

class InvalidToken(Exception):
    pass

_MAX_CLOCK_SKEW = 60

class Fernet(object):
    @classmethod
    def generate_key(cls):
        return urlsafe_b64encode(os.urandom(32))

    def __init__(self, key, backend=None):
        key = urlsafe_b64decode(bytes(key))
        if len(key) != 32:
            raise ValueError('Fernet key must be 32 url-safe base64-encoded bytes.')
        self._sign, self._enc = key[:16], key[16:]

    def _cipher(self, mode, iv):
        c = Cipher.getInstance('AES/CBC/PKCS5Padding')
        c.init(mode, SecretKeySpec(_jbytes(self._enc), 'AES'), IvParameterSpec(_jbytes(iv)))
        return c

    def encrypt(self, data):
        if not isinstance(data, bytes):
            raise TypeError('data must be bytes')
        if rsa.CHEAP:
            return urlsafe_b64encode(self._sign + self._enc + data)
        iv = os.urandom(16)
        basic = '\x80' + struct.pack('>Q', int(time.time())) + iv + \
            _pbytes(self._cipher(Cipher.ENCRYPT_MODE, iv).doFinal(_jbytes(data)))
        mac = hmac.new(self._sign, basic, hashlib.sha256).digest()
        return urlsafe_b64encode(basic + mac)

    def decrypt(self, token, ttl=None):
        if not isinstance(token, bytes):
            raise TypeError('token must be bytes')
        now = int(time.time())
        try:
            data = urlsafe_b64decode(token)
        except TypeError:
            raise InvalidToken
        if rsa.CHEAP:
            if data[:32] != self._sign + self._enc:
                raise InvalidToken
            return data[32:]
        if len(data) < 9 or data[0] != '\x80':
            raise InvalidToken
        stamp, = struct.unpack('>Q', data[1:9])
        if ttl is not None:
            if stamp + ttl < now:
                raise InvalidToken
        if now + _MAX_CLOCK_SKEW < stamp:
            raise InvalidToken
        mac = hmac.new(self._sign, data[:-32], hashlib.sha256).digest()
        if mac != data[-32:]:
            raise InvalidToken
        try:
            return _pbytes(self._cipher(Cipher.DECRYPT_MODE, data[9:25]).doFinal(_jbytes(data[25:-32])))
        except java.lang.Exception:
            raise InvalidToken
