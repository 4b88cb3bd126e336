from base64 import b64encode, b64decode

class Encoding(object):
    PEM = 'PEM'
    DER = 'DER'

class PrivateFormat(object):
    PKCS8 = 'PKCS8'
    TraditionalOpenSSL = 'TraditionalOpenSSL'

class PublicFormat(object):
    SubjectPublicKeyInfo = 'SubjectPublicKeyInfo'
    PKCS1 = 'PKCS1'

class NoEncryption(object):
    pass

def _pem(label, der):
    body = b64encode(der)
    lines = [body[i:i+64] for i in range(0, len(body), 64)]
    return '-----BEGIN %s-----\n%s\n-----END %s-----\n' % (label, '\n'.join(lines), label)

_CACHE = {}

def _unpem(label, data):
    key = (label, str(data))
    if key not in _CACHE:
        _CACHE[key] = _decode_pem(label, data)
    return _CACHE[key]

def _decode_pem(label, data):
    lines = [l.strip() for l in str(data).splitlines()]
    try:
        start = lines.index('-----BEGIN %s-----' % label)
        end = lines.index('-----END %s-----' % label)
    except ValueError:
        raise ValueError('Could not deserialize key data.')
    if end <= start:
        raise ValueError('Could not deserialize key data.')
    try:
        return b64decode(''.join(lines[start+1:end]))
    except TypeError:
        raise ValueError('Could not deserialize key data.')

def load_pem_private_key(data, password, backend=None):
    from cryptography.hazmat.primitives.asymmetric import rsa
    return rsa._load_private(_unpem('PRIVATE KEY', data))

def load_pem_public_key(data, backend=None):
    from cryptography.hazmat.primitives.asymmetric import rsa
    return rsa._load_public(_unpem('PUBLIC KEY', data))
