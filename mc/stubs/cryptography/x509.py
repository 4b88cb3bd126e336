class NameOID(object):
    COMMON_NAME = '2.5.4.3'
OID_COMMON_NAME = NameOID.COMMON_NAME

class NameAttribute(object):
    def __init__(self, oid, value):
        self.oid, self.value = oid, value

class Name(object):
    def __init__(self, attributes):
        self.attributes = attributes

class BasicConstraints(object):
    def __init__(self, ca, path_length):
        self.ca, self.path_length = ca, path_length

class _Cert(object):
    'a stand-in that carries the certified key, and whose key signed it'
    def __init__(self, certified, signer):
        self.certified, self.signer = certified, signer
    def public_bytes(self, encoding):
        from cryptography.hazmat.primitives import serialization
        return serialization._pem('CERTIFICATE', repr((self.certified, self.signer)))

def _modulus(key):
    return '%x' % key._key.getModulus()

class CertificateBuilder(object):
    _certified = None
    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *a, **k: self
    def public_key(self, key):
        # the real builder is immutable: every call gives a new one
        b = CertificateBuilder()
        b._certified = _modulus(key)
        return b
    def sign(self, private_key, algorithm, backend=None):
        return _Cert(self._certified, _modulus(private_key))
