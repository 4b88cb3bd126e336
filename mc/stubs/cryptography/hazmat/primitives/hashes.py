import hashlib

class HashAlgorithm(object):
    pass

class SHA256(HashAlgorithm):
    name = 'sha256'
    digest_size = 32
    block_size = 64
    jca = 'SHA-256'

class SHA1(HashAlgorithm):
    name = 'sha1'
    digest_size = 20
    block_size = 64
    jca = 'SHA-1'

class SHA512(HashAlgorithm):
    name = 'sha512'
    digest_size = 64
    block_size = 128
    jca = 'SHA-512'

class Hash(object):
    def __init__(self, algorithm, backend=None):
        self._h = hashlib.new(algorithm.name)
    def update(self, data):
        self._h.update(data)
    def finalize(self):
        return self._h.digest()
