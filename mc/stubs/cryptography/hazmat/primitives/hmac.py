from __future__ import absolute_import
import hashlib
import hmac as _hmac

from cryptography.exceptions import InvalidSignature

class HMAC(object):
    def __init__(self, key, algorithm, backend=None):
        if not isinstance(key, bytes):
            raise TypeError('key must be bytes')
        self._h = _hmac.new(key, digestmod=lambda *a: hashlib.new(algorithm.name, *a))
        self._done = False
    def update(self, data):
        assert not self._done
        if not isinstance(data, bytes):
            raise TypeError('data must be bytes')
        self._h.update(data)
    def finalize(self):
        assert not self._done
        self._done = True
        return self._h.digest()
    def verify(self, signature):
        if not isinstance(signature, bytes):
            raise TypeError('signature must be bytes')
        if self.finalize() != signature:
            raise InvalidSignature('Signature did not match digest.')
