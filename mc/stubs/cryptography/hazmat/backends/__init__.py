class _Backend(object):
    name = 'jca'

_BACKEND = _Backend()

def default_backend():
    return _BACKEND
