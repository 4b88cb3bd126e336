'''
Real privcount nodes on scratch configs.
'''
import json
import os
from base64 import b64encode, b64decode
from copy import deepcopy

import env
from env import ENTROPY, REACTOR, CLOCK, Transport, Addr, HarnessExit
import yaml

HERE = os.path.dirname(os.path.abspath(__file__))
KEYS = os.path.join(os.path.dirname(HERE), 'keys')
SCRATCH = os.environ['MC_SCRATCH']
INF = float('inf')
FP_A = 'A' * 40
FP_B = 'B' * 40
FP_C = 'C' * 40
DAY = 24 * 60 * 60


def reset(seed=0):
    'a fresh world: clock, timers, randomness, exit requests'
    ENTROPY.reset(seed)
    REACTOR.reset()
    CLOCK.now = REACTOR.base


_files = {}

def write(name, text):
    path = os.path.join(SCRATCH, name)
    if _files.get(path) != text:
        with open(path, 'wb') as f:
            f.write(text)
        _files[path] = text
    return path


def flow(x):
    'YAML in flow style'
    if x is None:
        return 'null'
    if isinstance(x, bool):
        return 'true' if x else 'false'
    if isinstance(x, float):
        return ('.inf' if x > 0 else '-.inf') if abs(x) == INF else '.nan' if x != x else repr(x) if 'e' not in repr(x) or '.' in repr(x) else repr(x).replace('e', '.0e')
    if isinstance(x, (int, long)):
        return str(x)
    if isinstance(x, basestring):
        return json.dumps(x)
    if isinstance(x, dict):
        return '{' + ', '.join(flow(k) + ': ' + flow(x[k]) for k in sorted(x)) + '}'
    return '[' + ', '.join(flow(y) for y in x) + ']'


def write_yaml(name, obj):
    text = flow(obj)
    # parsing dominates: remember what the text stands for (compared with the real parser once in a while)
    if text not in env.known_yaml:
        if len(env.known_yaml) > 3000:
            env.known_yaml.clear()
        if len(env.known_yaml) % 50 == 7:
            again = yaml.load(text)
            if again != obj:
                raise AssertionError('%r is not %r' % (again, obj))
        env.known_yaml[text] = deepcopy(obj)
    return write(name, text)


SECRET = b64encode('0123456789abcdef0123456789abcdef')
OTHER_SECRET = b64encode('fedcba9876543210fedcba9876543210')


def secret_file(name='secret.yaml', secret=SECRET):
    return write(name, secret)


def sk_key(i):
    return os.path.join(KEYS, 'sk%d.pem' % i)


_pub = {}

def sk_pub(i):
    if i not in _pub:
        with open(os.path.join(KEYS, 'sk%d.pub.pem' % i), 'rb') as f:
            _pub[i] = f.read()
    return _pub[i]


def sk_digest(i):
    import hashlib
    return hashlib.sha256(sk_pub(i)).hexdigest()


_priv = {}

def sk_private(i):
    if i not in _priv:
        from privcount.crypto import load_private_key_file
        _priv[i] = load_private_key_file(sk_key(i))
    return _priv[i]


# a small set of counters: one single-bin, one histogram
BINS = {
    'ZeroCount': {'bins': [[0.0, INF]]},
    'ExitStreamCount': {'bins': [[0.0, INF]]},
    'ExitStreamByteHistogram': {'bins': [[0.0, 1024.0], [1024.0, INF]]},
}
SIGMAS = {
    'ZeroCount': {'sigma': 5.0},
    'ExitStreamCount': {'sigma': 10.0},
    'ExitStreamByteHistogram': {'sigma': 20.0},
}


def bins():
    return deepcopy(BINS)


def noise_config():
    return {'counters': deepcopy(SIGMAS)}


def start_config(sks=2, weights=None, **kw):
    c = {'counters': bins(),
         'noise': noise_config(),
         'noise_weight': weights if weights is not None else {'*': 1.0},
         'dc_threshold': 1,
         'collect_period': 100,
         'sharekeepers': dict((sk_digest(i), b64encode(sk_pub(i))) for i in range(sks)),
         'defer_time': 0.0}
    c.update(kw)
    return json.loads(json.dumps(c))


def dc_config(name='dc0', sks=2, **kw):
    conf = {'name': name,
            'tally_server_info': {'ip': '127.0.0.1', 'port': 20001},
            'event_source': {'port': 20003},
            'share_keepers': [sk_digest(i) for i in range(sks)],
            'delay_period': 0,
            'secret_handshake': secret_file()}
    conf.update(kw)
    return {'data_collector': conf}


def sk_config(i=0, **kw):
    conf = {'key': sk_key(i),
            'tally_server_info': {'ip': '127.0.0.1', 'port': 20001},
            'delay_period': 0,
            'secret_handshake': secret_file()}
    conf.update(kw)
    return {'share_keeper': conf}


def make_dc(name='dc0', sks=2, **kw):
    from privcount.data_collector import DataCollector
    dc = DataCollector(write_yaml('%s.yaml' % name, dc_config(name, sks, **kw)))
    dc.refresh_config()
    assert dc.config is not None
    return dc


def make_sk(i=0, **kw):
    from privcount.share_keeper import ShareKeeper
    sk = ShareKeeper(write_yaml('sk%d.yaml' % i, sk_config(i, **kw)))
    sk.refresh_config()
    assert sk.config is not None
    return sk


def wire(x):
    'what the other side of a connection receives'
    return json.loads(json.dumps(x))


def uncover(shares, sks):
    '''
    The blinding values of each keeper: {keeper index: {counter: [value, ...]}}
    from a collector's reply to START, using the keepers' private keys
    '''
    from privcount.crypto import decrypt
    out = {}
    for i in range(sks):
        msg = shares[sk_digest(i)]
        secret = decrypt(sk_private(i), wire(msg['secret']))
        out[i] = dict((k, [long(b[2]) for b in v['bins']]) for k, v in secret.items())
    return out


def unblind(counts, factors, q):
    'collector counts with every keeper\'s blinding removed, as signed numbers'
    out = {}
    for k, v in counts.items():
        row = []
        for j, b in enumerate(v['bins']):
            t = long(b[2])
            for f in factors.values():
                t -= f[k][j]
            t %= q
            row.append(t - q if t >= (q + 1) // 2 else t)
        out[k] = row
    return out


def shallow(obj, skip=(), deep=3):
    '''
    The simple attributes of a real object, for canonical states: whatever the
    implementation remembers keeps states apart. Times become "a time".
    '''
    if obj is None:
        return None
    out = []
    for k in sorted(vars(obj)):
        if k not in skip:
            v = simple(getattr(obj, k), deep)
            if v is not simple:
                out.append((k, v))
    return tuple(out)


def simple(v, deep=3):
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, float):
        return 'time' if abs(v) > 1e8 else v
    if isinstance(v, (int, long)):
        return v if abs(v) < 10 ** 12 else 'big'
    if isinstance(v, basestring):
        return v if len(v) <= 60 else 'long string'
    if deep and isinstance(v, (list, tuple)):
        return (len(v),) + tuple(simple(x, deep - 1) for x in list(v)[:8])
    if deep and isinstance(v, (set, frozenset)):
        return (len(v),) + tuple(sorted(repr(simple(x, deep - 1)) for x in v)[:8])
    if deep and isinstance(v, dict):
        return (len(v),) + tuple(sorted((repr(simple(k, 1)), simple(x, deep - 1)) for k, x in list(v.items())[:8])) if len(v) <= 8 else (len(v),)
    return type(v).__name__


# ---- tally server ------------------------------------------------------
def ts_config(name='ts', sigmas=None, counter_bins=None, **kw):
    'a tally server configuration using pre-calculated sigmas'
    conf = {'listen_port': 20001,
            'key': sk_key(0), 'cert': sk_key(0),
            'secret_handshake': secret_file(),
            'counters': write_yaml('%s.bins.yaml' % name, {'counters': counter_bins if counter_bins is not None else bins()}),
            'sigmas': write_yaml('%s.sigmas.yaml' % name, {'counters': sigmas if sigmas is not None else deepcopy(SIGMAS)}),
            'results': results_dir(),
            'sk_threshold': 2, 'dc_threshold': 1,
            'noise_weight': {'*': 1.0},
            'collect_period': 100, 'event_period': 10, 'checkin_period': 10,
            'delay_period': 3 * DAY, 'continue': True}
    conf.update(kw)
    for k in [k for k in conf if conf[k] is None]:
        del conf[k]
    return {'tally_server': conf}


def results_dir():
    path = os.path.join(SCRATCH, 'results')
    if not os.path.isdir(path):
        os.mkdir(path)
    return path


def make_ts(name='ts', **kw):
    from privcount.tally_server import TallyServer
    ts = TallyServer(write_yaml('%s.yaml' % name, ts_config(name, **kw)))
    ts.refresh_config()
    return ts


def dc_status(state='idle', **kw):
    s = {'type': 'DataCollector', 'state': state, 'time': CLOCK.now, 'alive': CLOCK.now, 'rtt': 0.5, 'clock_skew': 0.0,
         'privcount_version': '2.0.1', 'client_address': '127.0.0.1:4444'}
    s.update(kw)
    return s


def sk_status(i=0, state='idle', **kw):
    s = dc_status(state, type='ShareKeeper', public_key=sk_pub(i))
    s.update(kw)
    return s


# ---- counting tor events -----------------------------------------------
_names = []

def remember_counter_names():
    'the set of known counters is rebuilt for every name that is checked: keep the real one'
    import sys
    import privcount.counter as pc
    import privcount.data_collector, privcount.tally_server
    if not _names:
        real = pc.get_valid_counters
        _names.append(real())
        table = getattr(pc, 'PRIVCOUNT_COUNTER_EVENTS', None)
        by_size = {}
        def remembered():
            # counters of a traffic model come and go
            n = 0 if table is None else len(table)
            if n not in by_size:
                by_size.clear()
                by_size[n] = real()
            return by_size[n]
        for name, m in list(sys.modules.items()):
            if name.startswith('privcount') and getattr(m, 'get_valid_counters', None) is real:
                m.get_valid_counters = remembered


class Touched(dict):
    'the counters, remembering which were handed out'
    def __init__(self, d):
        dict.__init__(self, d)
        self.names = set()

    def __getitem__(self, k):
        self.names.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, default=None):
        self.names.add(k)
        return dict.get(self, k, default)

    def setdefault(self, k, default=None):
        self.names.add(k)
        return dict.setdefault(self, k, default)

    def everything(self, how):
        self.names.update(self)
        return how

    values = lambda self: self.everything(dict.values(self))
    items = lambda self: self.everything(dict.items(self))
    itervalues = lambda self: self.everything(dict.itervalues(self))
    iteritems = lambda self: self.everything(dict.iteritems(self))
    viewvalues = lambda self: self.everything(dict.viewvalues(self))
    viewitems = lambda self: self.everything(dict.viewitems(self))


class Counting(object):
    '''
    A real data collector in a round (no keepers, zero noise), so that its
    counters hold what its events did. layouts: {counter: bins}
    '''
    def __init__(self, layouts, fingerprint=FP_A, **start):
        remember_counter_names()
        ENTROPY.gauss_hook = lambda mu, sigma: 0.0
        self.dc = make_dc('counting', sks=0)
        conf = start_config(sks=0)
        conf['counters'] = dict((k, {'bins': [list(b) for b in v]}) for k, v in layouts.items())
        conf['noise'] = {'counters': dict((k, {'sigma': 0.0}) for k in layouts)}
        conf['dc_threshold'] = 1
        conf.update(start)
        conf = wire(conf)
        if self.dc.do_start(conf) is None:
            raise AssertionError('the collector refused to start')
        REACTOR.advance(0.01)
        self.agg = self.dc.aggregator
        self.agg.set_fingerprint(fingerprint)
        # {name: [[low, high, count], ...]}
        self.counters = Touched(self.agg.secure_counters.counters)
        self.agg.secure_counters.counters = self.counters

    def event(self, words):
        return self.agg.handle_event(list(words))

    def take(self):
        'what changed since the last take: {(counter, bin index): amount}'
        from privcount.counter import counter_modulus
        q = counter_modulus()
        if self.counters is not self.agg.secure_counters.counters:
            raise AssertionError('the counters were replaced')
        out = {}
        for k in self.counters.names:
            if k not in self.counters:
                continue
            for i, b in enumerate(dict.__getitem__(self.counters, k)['bins']):
                v = b[2]
                if v:
                    v = long(v)
                    out[(k, i)] = v if v < (q + 1) // 2 else v - q
                    b[2] = 0
        self.counters.names = set()
        return out


def ts_begin(ts, dcs=('dc0',), sks=2):
    'idle clients check in, the loop runs: {collector: its START command}'
    for d in dcs:
        ts.set_client_status(d, dc_status())
    for i in range(sks):
        ts.set_client_status(sk_digest(i), sk_status(i))
    ts.refresh_loop()
    return dict((d, wire(ts.get_start_config(d))) for d in dcs)
