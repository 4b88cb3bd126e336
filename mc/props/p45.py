'''
P45: every short history of starts, reloads, crashes at any file operation
(torn writes in thirds), and files that the operator removes or brings, on real
nodes that create their own key, certificate and handshake secret. From every
state reached, a start that nothing disturbs has to succeed, and the nodes have
to be able to authenticate each other.
'''
import os

import env
import fixtures as F
import net
from disk import Disk, Crash
from env import ENTROPY, REACTOR, CLOCK, EXITS, HarnessExit, Transport, Addr
from explore import World, search, replay_path, plain
from twisted.internet import error
from twisted.python import failure

POINTS = 22
DIR = os.path.join(F.SCRATCH, 'keys')
DEFAULTS = {'key': 'privcount.rsa_key.pem', 'cert': 'privcount.rsa_key.cert', 'secret': 'privcount.secret_handshake.yaml'}

_pool = []

def pooled(i):
    'the i-th key pair'
    from cryptography.hazmat.primitives.asymmetric import rsa
    while len(_pool) <= i:
        _pool.append(F.sk_private(len(_pool)) if len(_pool) < 4 else rsa._fresh(1024))
    return _pool[i]


def read(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return f.read()


def spell(data, path):
    with open(path, 'wb') as f:
        f.write(data)


def key_of(data):
    'the number of the key in use, or None'
    from privcount.crypto import load_private_key_string
    try:
        key = load_private_key_string(data)._key.getModulus()
    except Exception:
        return None
    for i, k in enumerate(_pool):
        if k._key.getModulus() == key:
            return i
    return -1


def cert_of(data):
    'the modulus of the certified key, or None'
    from cryptography.hazmat.primitives import serialization
    try:
        certified, signer = eval(serialization._decode_pem('CERTIFICATE', data))
    except Exception:
        return None
    return certified if certified == signer else None


def secret_ok(data):
    import base64
    try:
        return data is not None and len(base64.b64decode(data.strip())) == 32
    except TypeError:
        return False


def pem(key):
    from cryptography.hazmat.primitives import serialization as s
    return key.private_bytes(encoding=s.Encoding.PEM, format=s.PrivateFormat.PKCS8, encryption_algorithm=s.NoEncryption())


class Nodes(World):
    'what both kinds of worlds need'
    def setup(self):
        World.__init__(self)
        F.reset()
        self.keys = 0
        if not os.path.isdir(DIR):
            os.mkdir(DIR)
        for d, names in ((DIR, os.listdir(DIR)), ('.', [n for n in os.listdir('.') if n.startswith('privcount.')])):
            for n in names:
                if os.path.isfile(os.path.join(d, n)):
                    os.remove(os.path.join(d, n))
        from cryptography.hazmat.primitives.asymmetric import rsa
        if not hasattr(rsa, '_fresh'):
            real = rsa.generate_private_key
            rsa._fresh = lambda size: real(65537, size)
        rsa.generate_private_key = self.generate

    def generate(self, *a, **kw):
        self.keys += 1
        return pooled(self.keys - 1)

    def tally(self, **paths):
        from privcount.tally_server import TallyServer
        conf = F.ts_config('keys', key=paths.get('key'), cert=paths.get('cert'), secret_handshake=paths.get('secret'))
        return TallyServer(F.write_yaml('keys.yaml', conf))

    def keeper(self, **paths):
        from privcount.share_keeper import ShareKeeper
        conf = F.sk_config(0, key=paths.get('key'), secret_handshake=paths.get('secret'))['share_keeper']
        return ShareKeeper(F.write_yaml('keeper.yaml', {'share_keeper': dict((k, v) for k, v in conf.items() if v is not None)}))

    def collector(self, **paths):
        from privcount.data_collector import DataCollector
        conf = F.dc_config('dc0', 1, secret_handshake=paths.get('secret'))['data_collector']
        return DataCollector(F.write_yaml('collector.yaml', {'data_collector': dict((k, v) for k, v in conf.items() if v is not None)}))

    def meet(self, ts, client):
        'do they authenticate each other?'
        class Both(object):
            pass
        both = Both()
        both.ts, both.clients = ts, {'x': client}
        REACTOR.jump(1)
        try:
            w = net.Wire(both, 'x')
        except HarnessExit:
            raise
        except Exception:
            # twisted logs it and closes the connection
            return False
        return w.open and not w.ts.closed and not w.tc.closed and w.pending() is not None and not w.pending()[1].startswith('HANDSHAKE')


class Files(Nodes):
    node = 'ts'
    given = True        # does the configuration name the files?
    start = ()

    def __init__(self):
        self.setup()
        self.names = ['key', 'cert', 'secret'] if self.node == 'ts' else ['key']
        if self.given:
            self.paths = dict((k, os.path.join(DIR, k + '.own')) for k in ('key', 'cert', 'secret'))
            self.conf = dict(self.paths)
        else:
            self.paths, self.conf = dict(DEFAULTS), {}
        if self.node == 'sk':
            self.secret = self.conf['secret'] = F.secret_file()
        self.running = None
        for op in self.start:
            self.apply(op)

    def make(self):
        return self.tally(**self.conf) if self.node == 'ts' else self.keeper(**self.conf)

    def content(self):
        return dict((k, read(self.paths[k])) for k in self.names)

    def whole(self, now):
        'which files are in order; a key and its certificate are only so together'
        good = set()
        key = None if now['key'] is None else key_of(now['key'])
        if self.node == 'sk':
            return set(['key']) if key is not None else good
        if secret_ok(now['secret']):
            good.add('secret')
        if key is not None and key >= 0 and now['cert'] is not None and cert_of(now['cert']) == '%x' % _pool[key]._key.getModulus():
            good |= set(['key', 'cert'])
        return good

    def ops(self):
        now = self.content()
        missing = [k for k in self.names if now[k] is None]
        what = 'reload' if self.running else 'start'
        out = [[what, 0]]
        if missing or not self.running:
            out += [[what, k] for k in range(1, POINTS + 1)]
        if self.running:
            out.append(['stop'])
        for k in self.names:
            if now[k] is not None:
                out.append(['remove', k])
        if missing:
            out.append(['bring', 'all'])
        return out

    def apply(self, op):
        REACTOR.jump(10)
        if op[0] == 'stop':
            self.running = None
        elif op[0] == 'remove':
            os.remove(self.paths[op[1]])
        elif op[0] == 'bring':
            # the operator brings what is missing: both of a pair
            now = self.content()
            if now['key'] is None or now.get('cert', '') is None:
                key = self.generate()
                spell(pem(key), self.paths['key'])
                if self.node == 'ts':
                    m = '%x' % key._key.getModulus()
                    from cryptography.hazmat.primitives import serialization
                    spell(serialization._pem('CERTIFICATE', repr((m, m))), self.paths['cert'])
            if now.get('secret', '') is None:
                spell(F.SECRET, self.paths['secret'])
        else:
            self.refresh(op[0], op[1])

    def refresh(self, what, k):
        before = self.content()
        good = self.whole(before)
        if what == 'start':
            self.running = self.make()
        disk = Disk(k)
        try:
            with disk:
                self.running.refresh_config()
        except Crash:
            pass
        except HarnessExit:
            if not disk.dead:
                self.fail('died', 'a %s stopped itself when it read its configuration' % self.node)
        self.points = disk.n
        self.last = disk.log[-1] if disk.dead else 'all'
        node = self.running
        if disk.dead:
            REACTOR.stopped = False
            self.running = None
        after = self.content()
        for f in sorted(good):
            if after[f] != before[f]:
                self.fail('kept/%s' % f, 'a %s that %s did not keep the %s it had' % (self.node, 'stopped at operation %d (%s)' % (k, self.last) if disk.dead else 'read its configuration', f))
        if self.running is not None:
            self.sound(node, after, what)

    def sound(self, node, now, what):
        lost = sorted(set(self.names) - self.whole(now))
        if node.config is None:
            self.running = None
            self.fail('start', 'a %s does not start: its files are %s' % (self.node, self.classes(now)))
        elif lost:
            self.fail('whole', 'a %s runs after its %s without a sound %s: %s' % (self.node, what, ', '.join(lost), self.classes(now)))
        elif self.node == 'sk':
            from privcount.crypto import get_public_digest_string
            digest = get_public_digest_string(now['key'])
            if node.config['name'] != digest:
                self.fail('name', 'a keeper does not go by the digest of its key')

    def classes(self, now):
        out = []
        key = None if now['key'] is None else key_of(now['key'])
        for k in self.names:
            d = now[k]
            if d is None:
                out.append((k, 'missing'))
            elif k == 'key':
                out.append((k, 'whole' if key is not None else 'damaged'))
            elif k == 'secret':
                out.append((k, 'whole' if secret_ok(d) else 'damaged'))
            else:
                c = cert_of(d)
                out.append((k, 'damaged' if c is None else 'matching' if key is not None and key >= 0 and c == '%x' % _pool[key]._key.getModulus() else 'of another key'))
        return out

    def canon(self):
        now = self.content()
        known = set(self.paths.values())
        others = sorted((os.path.basename(n).split('.')[0], os.path.getsize(n) > 0) for n in [os.path.join(DIR, n) for n in os.listdir(DIR)] + [n for n in os.listdir('.') if n.startswith('privcount.')] if os.path.isfile(n) and n not in known)
        return (self.classes(now), [len(now[k] or '') > 0 for k in self.names], self.running is not None, others[:6])

    def outcome(self):
        return (tuple(self.classes(self.content())), self.running is not None, getattr(self, 'last', None))

    def found(self):
        'whatever happened, a start that nothing disturbs succeeds, and so does the next, with the same files'
        self.running = None
        n = len(self.failures)
        self.refresh('start', 0)
        if len(self.failures) > n:
            return
        now = self.content()
        first = self.running
        self.running.refresh_config()
        self.refresh('start', 0)
        if len(self.failures) > n:
            return
        if self.content() != now:
            self.fail('again', 'a %s that starts twice has other files: %s' % (self.node, self.classes(self.content())))
            return
        if self.node == 'ts':
            secret = self.paths['secret']
            if not self.meet(self.running, self.client(secret)):
                self.fail('meet', 'a keeper with the secret of the server cannot authenticate itself')
        elif first.config['name'] != self.running.config['name']:
            self.fail('name', 'a keeper that starts again goes by another name')

    def client(self, secret):
        sk = self.keeper(key=F.sk_key(1), secret=secret)
        sk.refresh_config()
        return sk


class Clients(Nodes):
    'a client needs a copy of the secret of its server: it never makes one up'
    kind = 'dc'

    def __init__(self):
        self.setup()
        self.secret = os.path.join(DIR, 'server.own')
        self.copy = os.path.join(DIR, 'client.own')
        self.ts = self.tally(key=F.sk_key(0), cert=F.sk_key(0), secret=self.secret)
        self.ts.refresh_config()
        self.client = None

    def ops(self):
        out = [['start']] if self.client is None else [['reload'], ['connect'], ['stop']]
        for how in ('all', 'part', 'other'):
            out.append(['copy', how])
        if read(self.copy) is not None:
            out.append(['remove'])
        return out

    def apply(self, op):
        REACTOR.jump(10)
        before = read(self.copy)
        secret = read(self.secret)
        if op[0] == 'copy':
            import base64
            spell({'all': secret, 'part': secret[:20], 'other': base64.b64encode('x' * 32)}[op[1]], self.copy)
            return
        if op[0] == 'remove':
            os.remove(self.copy)
            return
        if op[0] == 'stop':
            self.client = None
            return
        try:
            if op[0] == 'start':
                self.client = self.collector(secret=self.copy) if self.kind == 'dc' else self.keeper(key=F.sk_key(1), secret=self.copy)
                self.client.refresh_config()
                if self.client.config is None:
                    self.client = None
            elif op[0] == 'reload':
                self.client.refresh_config()
            else:
                met = self.meet(self.ts, self.client)
                if met != (before == secret):
                    self.fail('meet', 'a %s whose copy of the secret is %s %s itself' % (self.kind, self.state(before), 'authenticated' if met else 'cannot authenticate'))
        except HarnessExit:
            # without a usable secret there is no point in going on
            REACTOR.stopped = False
            self.client = None
            if op[0] != 'connect' or before == secret:
                self.fail('died', 'a %s whose copy of the secret is %s stopped itself' % (self.kind, self.state(before)))
        if read(self.copy) != before:
            self.fail('made', 'a %s wrote a secret of its own (it had %s)' % (self.kind, self.state(before)))
        if read(self.secret) != secret:
            self.fail('server', 'the secret of the server changed')

    def state(self, data):
        return 'missing' if data is None else 'right' if data == read(self.secret) else 'wrong' if len(data) > 30 else 'damaged'

    def canon(self):
        return (self.state(read(self.copy)), self.client is not None, F.shallow(self.client) if self.client is not None else None)

    def outcome(self):
        return (self.state(read(self.copy)), self.client is not None)


def worlds(ctx):
    more = 1 if ctx.tier == 'thorough' else 0
    out = []
    for label, node, given, start, depth in (
            ('server', 'ts', True, (), 4), ('keeper', 'sk', True, (), 4), ('server-defaults', 'ts', False, (), 3), ('keeper-defaults', 'sk', False, (), 3),
            ('server-running', 'ts', True, (['start', 0],), 4), ('keeper-running', 'sk', True, (['start', 0],), 4)):
        out.append((label, type('Files', (Files,), {'node': node, 'given': given, 'start': start}), depth + more))
    for kind in ('dc', 'sk'):
        out.append(('client-' + kind, type('Clients', (Clients,), {'kind': kind}), 4 + more))
    return out


def run(ctx):
    for label, W, depth in worlds(ctx):
        search(ctx, W, depth, label, {'world': label}, max_states=60000)


def replay(ctx, case):
    case = plain(case)
    for label, W, depth in worlds(ctx):
        if label == case['world']:
            replay_path(ctx, W, case)
