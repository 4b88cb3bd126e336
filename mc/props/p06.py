'''
P06: every short sequence of control port replies against a real collector's
control protocol, every combination of authentication methods and secret files
with an honest relay, every client of the injector's control port, and every
short string through the encodings.
'''
import hashlib
import hmac
import itertools
import os
from binascii import hexlify, unhexlify

import env
import fixtures as F
import tor
from env import ENTROPY, REACTOR, HarnessExit, Transport, Addr
from explore import World, search, replay_path, plain
from privcount.protocol import TorControlProtocol, TorControlServerProtocol

COOKIE = ''.join(chr((7 * i + 130) % 256) for i in range(32))
PASSWORD = 'correct "horse\\ battery'
LEAVING = ('SETEVENTS', 'SETCONF EnablePrivCount=0', 'SETCONF __ReloadTorrcOnSIGHUP=1', 'SET_TMODEL FALSE', 'QUIT')


def sized(data, n):
    return (data * (n // len(data) + 1))[:n]


COOKIES = {'right': COOKIE, 'other': sized(COOKIE[5:], 32), 'empty': '', 'short': COOKIE[:31], 'long': COOKIE + 'x', 'tiny': 'c', 'missing': None}
PASSWORDS = {'none': None, 'right': PASSWORD, 'shortest': 'passw0rd', 'longest': sized(PASSWORD, 1024), 'short': 'passw0r', 'empty': '', 'long': sized(PASSWORD, 1025), 'missing': None}
FILES = ['cookie', 'a cookie', 'co"ok\\ie']


def secret(kind, name, data):
    path = os.path.join(F.SCRATCH, '%s %s' % (kind, name)) if name not in FILES else os.path.join(F.SCRATCH, name)
    if data is None:
        if os.path.exists(path):
            os.unlink(path)
        F._files.pop(path, None)
    else:
        F.write(os.path.basename(path), data)
    return path


def collector(password='none'):
    'a collector whose round just began, that wants to connect to tor'
    F.reset()
    ENTROPY.gauss_hook = lambda mu, sigma: 0.0
    source = {'port': tor.PORT}
    if password != 'none':
        source['control_password'] = secret('password', password, PASSWORDS[password])
    dc = F.make_dc('auth', sks=0, event_source=source)
    if dc.do_start(F.start_config(sks=0)) is None:
        raise AssertionError('refused')
    REACTOR.advance(0.01)
    return dc


def server_hash(cookie, client, server):
    return hmac.new(tor.SERVER_KEY, cookie + client + server, hashlib.sha256).digest()


def client_hash(cookie, client, server):
    return hmac.new(tor.CLIENT_KEY, cookie + client + server, hashlib.sha256).digest()


class Watch(object):
    'what a collector may send before tor accepted it'
    def __init__(self, fail, password, cookies):
        self.fail = fail
        self.password = PASSWORDS[password]
        self.valid_password = self.password is not None and 8 <= len(self.password) <= 1024
        self.cookies = cookies          # what the offered cookie file holds
        self.methods = set()
        self.file = None
        self.nonces = []
        self.nonces_now = 0             # challenges on this connection
        self.proof = None               # the client hash that was earned
        self.tried = None
        self.accepted = False
        self.hello = False

    def heard(self, line):
        'a line from tor'
        line = line.strip()
        if line.startswith('250-AUTH METHODS=') and not self.accepted and self.tried is None and not self.nonces_now:
            m, _, f = line[len('250-AUTH METHODS='):].partition(' COOKIEFILE=')
            self.methods |= set(m.split(','))
            if len(f) > 2:
                self.file = f
        if line.startswith('250 AUTHCHALLENGE SERVERHASH=') and self.nonces:
            h, _, n = line[len('250 AUTHCHALLENGE SERVERHASH='):].partition(' SERVERNONCE=')
            try:
                h, n = unhexlify(h), unhexlify(n)
            except TypeError:
                h = n = ''
            c = self.cookies
            if c is not None and len(c) == 32 and len(n) == 32 and h == server_hash(c, self.nonces[-1], n):
                self.proof = client_hash(c, self.nonces[-1], n)
        if line == '250 OK' and self.tried:
            self.accepted = True

    def said(self, lines, closed):
        for line in lines:
            for what, s in (('cookie', self.cookies), ('password', self.password)):
                if s and len(s) >= 4 and (s in line or hexlify(s) in line.lower()):
                    if not (what == 'password' and line == 'AUTHENTICATE ' + hexlify(s)):
                        self.fail('revealed', 'the %s is in %r' % (what, line))
            if self.accepted or line == 'PROTOCOLINFO 1' and not self.hello:
                self.hello = True
                continue
            if closed and line in LEAVING:
                continue
            word, _, rest = line.partition(' ')
            if word == 'AUTHCHALLENGE':
                kind, _, n = rest.partition(' ')
                n = unhexlify(n)
                if kind != 'SAFECOOKIE' or len(n) != 32 or 'SAFECOOKIE' not in self.methods or self.file is None:
                    self.fail('challenge', '%r, but tor offered %s' % (line, ','.join(sorted(self.methods)) or 'nothing'))
                if n in self.nonces:
                    self.fail('nonce', 'a client nonce was used twice')
                self.nonces.append(n)
                self.nonces_now += 1
                self.proof = None
            elif word == 'AUTHENTICATE':
                if self.tried:
                    self.fail('authenticate', 'authenticated twice')
                given = unhexlify(rest) if rest else None
                if given is None and 'NULL' in self.methods:
                    self.tried = 'NULL'
                elif given is not None and given == self.password and self.valid_password and 'HASHEDPASSWORD' in self.methods:
                    self.tried = 'HASHEDPASSWORD'
                elif given is not None and given == self.proof and 'SAFECOOKIE' in self.methods:
                    self.tried = 'SAFECOOKIE'
                else:
                    self.fail('authenticate', '%r, but tor offered %s%s' % (line[:80], ','.join(sorted(self.methods)) or 'nothing',
                              ' and did not prove it has the cookie' if 'SAFECOOKIE' in self.methods else ''))
                    self.tried = 'wrong'
            else:
                self.fail('early', '%r was sent before authentication' % line)


# ---- any relay ---------------------------------------------------------
AUTHS = {'auth-null': ('NULL', None), 'auth-password': ('HASHEDPASSWORD', None), 'auth-safe': ('SAFECOOKIE', 'right'), 'auth-safe-nofile': ('SAFECOOKIE', None),
         'auth-cookie': ('COOKIE', 'right'), 'auth-all': ('COOKIE,SAFECOOKIE,HASHEDPASSWORD', 'right'), 'auth-null-safe': ('NULL,SAFECOOKIE', 'right'),
         'auth-empty': ('', None), 'auth-short': ('SAFECOOKIE', 'short'), 'auth-missing': ('SAFECOOKIE', 'missing'), 'auth-null-password': ('NULL,HASHEDPASSWORD', None),
         'auth-lookalike': ('NULLS,XSAFECOOKIE,HASHEDPASSWORDS', None)}
CHALLENGES = ['good', 'wrong', 'other', 'empty', 'stale', 'client', 'zero', 'short-nonce', 'short-hash', 'not-hex', 'swapped', 'cut', 'bare', 'spaces']
LINES = {'info': '250-PROTOCOLINFO 1', 'version': '250-VERSION Tor="0.3.0.9"', 'ok': '250 OK', 'ok-ish': '250 OK ', 'more': '250-OK', 'bad': '515 Authentication failed', 'blank': '',
         'junk': 'hello', 'finger': '250-fingerprint=' + F.FP_A, 'event': '650 PRIVCOUNT_STREAM_ENDED 1 2 3 80 10 20 1 2 198.51.100.1 0 0', 'ns': '250-ns/id/' + F.FP_A}


class Relay(World):
    password = 'right'

    def __init__(self):
        World.__init__(self)
        self.dc = collector(self.password)
        self.watch = Watch(self.fail, self.password, None)
        self.p = self.dc.aggregator.buildProtocol(Addr('127.0.0.1', tor.PORT))
        self.t = Transport()
        self.p.makeConnection(self.t)
        self.watch.said(self.t.take(), False)
        self.which = None
        self.gone = False

    def ops(self):
        if self.gone or self.watch.accepted:
            return []
        return sorted(LINES) + sorted(AUTHS) + ['ch-' + c for c in CHALLENGES] + ['again']

    def challenge(self, kind):
        c = COOKIE if self.which is None else COOKIES[self.which] or ''
        client = self.watch.nonces[-1] if self.watch.nonces else chr(0) * 32
        n = chr(9) * 32
        if kind == 'other':
            c = COOKIES['other']
        elif kind == 'empty':
            c = ''
        elif kind == 'short-nonce':
            n = n[:31]
        elif kind == 'stale':
            client = chr(0) * 32
        h = server_hash(c, client, n)
        if kind == 'wrong':
            h = chr(ord(h[0]) ^ 1) + h[1:]
        elif kind == 'client':
            h = client_hash(c, client, n)
        elif kind == 'zero':
            h = chr(0) * 32
        elif kind == 'short-hash':
            h = h[:31]
        h, n = hexlify(h).upper(), hexlify(n).upper()
        if kind == 'not-hex':
            h = 'G' + h[1:]
        elif kind == 'swapped':
            h, n = n, h
        elif kind == 'cut':
            return '250 AUTHCHALLENGE SERVERHASH=%s' % h
        elif kind == 'bare':
            return '250 AUTHCHALLENGE'
        elif kind == 'spaces':
            return '250 AUTHCHALLENGE  SERVERHASH=%s  SERVERNONCE=%s' % (h, n)
        return '250 AUTHCHALLENGE SERVERHASH=%s SERVERNONCE=%s' % (h, n)

    def apply(self, op):
        REACTOR.jump(0.01)
        if op == 'again':
            # the connection breaks, and the collector connects again
            self.t.closed = True
            from twisted.internet.error import ConnectionLost
            from twisted.python.failure import Failure
            self.p.connectionLost(Failure(ConnectionLost()))
            old = self.watch
            self.watch = Watch(self.fail, self.password, None)
            self.watch.nonces = old.nonces
            self.p = self.dc.aggregator.buildProtocol(Addr('127.0.0.1', tor.PORT))
            self.t = Transport()
            self.p.makeConnection(self.t)
            self.watch.said(self.t.take(), False)
            self.which = None
            return
        if op in AUTHS:
            m, which = AUTHS[op]
            line = '250-AUTH METHODS=' + m
            if which is not None:
                path = secret('cookie', which, COOKIES[which])
                line += ' COOKIEFILE="%s"' % path.replace('\\', '\\\\').replace('"', '\\"')
                if not self.watch.nonces_now and not self.watch.tried:
                    self.which = which
                    self.watch.cookies = COOKIES[which]
        elif op.startswith('ch-'):
            line = self.challenge(op[3:])
        else:
            line = LINES[op]
        self.watch.heard(line)
        try:
            self.p.dataReceived(line + '\r\n')
        except HarnessExit:
            raise
        except Exception as e:
            # twisted closes a connection whose protocol raises
            self.t.closed = True
        self.gone = self.t.closed
        self.watch.said(self.t.take(), self.gone)

    def canon(self):
        w = self.watch
        return (F.shallow(self.p, ('transport', 'factory', 'cookie_file', 'client_nonce', 'server_nonce')), self.p.cookie_file is not None, self.p.client_nonce is not None, self.p.server_nonce is not None,
                sorted(w.methods), w.file is not None, min(len(w.nonces), 2), w.nonces_now, w.proof is not None, w.tried, w.accepted, self.which, self.gone)

    def outcome(self):
        return (self.watch.tried, self.watch.accepted, self.gone)


def relay(password):
    class W(Relay):
        pass
    W.password = password
    return W


# ---- an honest relay ---------------------------------------------------
def honest(ctx, methods, cookie, name, password):
    'tor offers methods and has the right secrets; the collector has these files'
    ctx.trace()
    ctx.evaluation()
    case = {'kind': 'honest', 'methods': list(methods), 'cookie': cookie, 'file': name, 'password': password}
    fail = lambda key, m: ctx.violation(key, '%s with methods %s, %s cookie, %s password' % (m, ','.join(methods), cookie, password), case)
    dc = collector(password)
    path = None if cookie is None else secret('cookie', name if name != FILES[0] else 'h' + cookie, COOKIES[cookie])
    watch = Watch(fail, password, None if cookie is None else COOKIES[cookie])
    t = tor.Tor(dc.aggregator, methods=methods, password=PASSWORDS[password] if password != 'none' else PASSWORD, cookie=COOKIE if cookie != 'short' else COOKIES['short'], cookie_file=path)
    watch.said(t.log, False)
    died = False
    n = 0
    while t.inbox and t.open and n < 60 and not died:
        n += 1
        for line in t.reply(t.inbox.pop(0)):
            ctx.transition()
            if not t.open:
                break
            watch.heard(line)
            try:
                new = t.say(line)
            except HarnessExit:
                raise
            except Exception:
                died = True
                break
            watch.said(new, not t.open)
    if 'SAFECOOKIE' in methods and path is not None:
        want = 'SAFECOOKIE' if cookie == 'right' else None
    elif 'HASHEDPASSWORD' in methods and watch.valid_password:
        want = 'HASHEDPASSWORD'
    elif 'NULL' in methods:
        want = 'NULL'
    else:
        want = None
    if (t.authenticated and watch.tried or None) != want:
        fail('method', 'the collector %s, expected %s' % ('authenticated with ' + watch.tried if t.authenticated and watch.tried else 'did not authenticate', want or 'none'))
    if want is None and t.open and not died:
        fail('open', 'the collector keeps a connection it cannot authenticate')
    if t.early:
        fail('early', '%r was sent before authentication' % t.early[0])
    ctx.state(case)
    ctx.outcome((watch.tried, t.authenticated))


# ---- any client of the injector ----------------------------------------
class Injector(object):
    def __init__(self, password, cookie_file):
        self.password, self.cookie_file = password, cookie_file
        self.started = 0
    def get_control_password(self):
        return self.password
    def get_control_cookie_file(self):
        return self.cookie_file
    def start_injecting(self):
        self.started += 1
    def stop_injecting(self):
        pass


class Client(World):
    has = ('cookie', 'password')

    def __init__(self):
        World.__init__(self)
        F.reset()
        self.file = secret('server', 'cookie', 'x') if 'cookie' in self.has else None
        self.factory = Injector(secret('password', 'right', PASSWORD) if 'password' in self.has else None, self.file)
        self.p = TorControlServerProtocol(self.factory)
        self.t = Transport()
        self.p.makeConnection(self.t)
        self.challenge = []         # (client nonce, server nonce)
        self.allowed = False
        self.cookie = None

    def ops(self):
        if self.t.closed or self.allowed:
            return []
        return ['info', 'null', 'password', 'wrong-password', 'quoted-password', 'no-hex', 'raw-cookie', 'ch', 'ch-other', 'ch-bad', 'ch-empty', 'ch-cookie', 'hash', 'hash-stale', 'hash-server',
                'hash-cut', 'hash-zero', 'events', 'getinfo', 'blank', 'hash-none']

    def apply(self, op):
        REACTOR.jump(0.01)
        right = not self.has
        line = {'info': 'PROTOCOLINFO 1', 'null': 'AUTHENTICATE', 'password': 'AUTHENTICATE ' + hexlify(PASSWORD), 'wrong-password': 'AUTHENTICATE ' + hexlify(PASSWORD[:-1]),
                'quoted-password': 'AUTHENTICATE "%s"' % PASSWORD.replace('\\', '\\\\').replace('"', '\\"'), 'no-hex': 'AUTHENTICATE xyz', 'ch-other': 'AUTHCHALLENGE SAFECOOKIE ' + '05' * 32,
                'ch': 'AUTHCHALLENGE SAFECOOKIE ' + '04' * 32, 'ch-bad': 'AUTHCHALLENGE SAFECOOKIE xx', 'ch-empty': 'AUTHCHALLENGE SAFECOOKIE', 'ch-cookie': 'AUTHCHALLENGE COOKIE 04',
                'events': 'SETEVENTS PRIVCOUNT_STREAM_ENDED', 'getinfo': 'GETINFO version', 'blank': ''}.get(op)
        if op in ('password', 'quoted-password') and 'password' in self.has:
            right = True
        if op == 'no-hex':
            right = False
        if op == 'raw-cookie':
            line = 'AUTHENTICATE ' + hexlify(self.cookie or 'c' * 32)
        if op.startswith('hash'):
            c, s = self.challenge[0 if op == 'hash-stale' else -1] if self.challenge else ('', '')
            h = client_hash(self.cookie or 'c' * 32, c, s)
            if op == 'hash-server':
                h = server_hash(self.cookie or 'c' * 32, c, s)
            elif op == 'hash-cut':
                h = h[:31]
            elif op == 'hash-zero':
                h = chr(0) * 32
            elif op == 'hash-none':
                h = client_hash('', c, s)
            line = 'AUTHENTICATE ' + hexlify(h)
            if self.cookie is not None and self.challenge and (op == 'hash' or op == 'hash-stale' and len(self.challenge) == 1):
                right = True
        try:
            self.p.dataReceived(line + '\r\n')
        except HarnessExit:
            raise
        except Exception as e:
            self.t.closed = True
        out = self.t.take()
        if op == 'info' and out and 'cookie' in self.has:
            with open(self.file, 'rb') as f:
                self.cookie = f.read()
            if len(self.cookie) != 32:
                self.fail('cookie', 'the cookie file holds %d bytes' % len(self.cookie))
        for l in out:
            if l.startswith('250 AUTHCHALLENGE'):
                h, _, n = l[len('250 AUTHCHALLENGE SERVERHASH='):].partition(' SERVERNONCE=')
                c = unhexlify(line.split(' ')[2]) if len(line.split(' ')) > 2 else ''
                n = unhexlify(n)
                if self.cookie is None or unhexlify(h) != server_hash(self.cookie, c, n) or len(n) != 32 or n in [s for _, s in self.challenge]:
                    self.fail('server-hash', 'a wrong answer to a challenge: %r' % l)
                self.challenge.append((c, n))
            for s in (self.cookie, PASSWORD):
                if s and (s in l or hexlify(s) in l.lower()):
                    self.fail('server-revealed', 'a secret is in %r' % l)
        ok = op in ('null', 'password', 'wrong-password', 'quoted-password', 'no-hex', 'raw-cookie') or op.startswith('hash')
        granted = '250 OK' in out and ok or self.p.authenticated
        if granted and not (right and ok):
            self.fail('server-accepted', '%s was accepted' % op)
        if right and ok and not granted:
            self.fail('server-refused', '%s was refused' % op)
        if self.factory.started or any(l.startswith('250-version') for l in out):
            self.fail('server-early', '%s was served before authentication' % op)
        self.allowed = granted

    def canon(self):
        return (F.shallow(self.p, ('transport', 'factory', 'cookie_string', 'client_nonce', 'server_nonce')), self.p.cookie_string is not None, self.cookie is not None, min(len(self.challenge), 2), self.allowed, self.t.closed,
                self.challenge and self.challenge[0][0] == self.challenge[-1][0])

    def outcome(self):
        return (self.allowed, self.t.closed, len(self.challenge))


def client(has):
    class W(Client):
        pass
    W.has = has
    return W


HAS = {'nothing': (), 'cookie': ('cookie',), 'password': ('password',), 'both': ('cookie', 'password')}


# ---- encodings ---------------------------------------------------------
def encoding(ctx, s):
    ctx.trace()
    ctx.evaluation(2)
    case = {'kind': 'string', 'hex': hexlify(s)}
    for h in (True, False):
        try:
            e = TorControlProtocol.encodeControllerString(s, hex_encode=h)
            r = TorControlProtocol.decodeControllerString(e)
            if r != s:
                ctx.violation('encoding', '%r became %r through %r' % (s, r, e), case)
            for pad in (' ', '\t'):
                if TorControlProtocol.decodeControllerString(pad + e + pad) != s:
                    ctx.violation('encoding', '%r with white space does not decode to %r' % (e, s), case)
            if h is False and e != '"%s"' % ''.join('\\' + c if c in '"\\' else c for c in s):
                ctx.violation('encoding', '%r is not the quoted form of %r' % (e, s), case)
        except HarnessExit:
            raise
        except Exception as e:
            ctx.violation('encoding', '%r cannot be encoded (%s): %r' % (s, 'hex' if h else 'quoted', e), case)


LIMITS = {'decodeClientNonce': (0, 1024), 'decodeServerNonce': (32, 32), 'decodeClientHash': (32, 32), 'decodeServerHash': (32, 32)}


def rejected(f, s):
    try:
        return f(s) is None
    except TypeError:
        return True


def lengths(ctx, n):
    case = {'kind': 'length', 'n': n}
    s = sized(COOKIE, n) if n else ''
    ctx.trace()
    for name, (low, high) in sorted(LIMITS.items()):
        f = getattr(TorControlProtocol, name)
        ctx.evaluation(2)
        for e in (hexlify(s), hexlify(s).upper(), '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')):
            got = f(e)
            if got != (s if low <= n <= high else None):
                ctx.violation('length', '%s of %d bytes is %s' % (name, n, 'accepted' if got is not None else 'rejected'), case)
        for bad in (hexlify(s) + '0', 'g' + hexlify(s)[1:], '"' + hexlify(s), '0x' + hexlify(s), hexlify(s)[:-1] + '-'):
            if not rejected(f, bad):
                ctx.violation('length', '%s accepts the invalid %r' % (name, bad), case)
    ctx.state(case)


ALPHABET = ['a', '"', '\\', ' ', '0', '\x00', '\xff', 'n']


def run(ctx):
    for n in range(6 if ctx.thorough else 5):
        for c in itertools.product(ALPHABET, repeat=n):
            if ctx.mine():
                encoding(ctx, ''.join(c))
    for n in list(range(0, 70)) + [1023, 1024, 1025]:
        if ctx.mine():
            lengths(ctx, n)
    names = ['NULL', 'HASHEDPASSWORD', 'SAFECOOKIE', 'COOKIE']
    for k in range(5):
        for methods in itertools.combinations(names, k):
            for cookie in [None] + sorted(COOKIES):
                for name in (FILES if cookie == 'right' else FILES[:1]):
                    for password in sorted(PASSWORDS):
                        if ctx.mine():
                            honest(ctx, methods, cookie, name, password)
    for password in ['none', 'right', 'short'] if not ctx.thorough else sorted(PASSWORDS):
        search(ctx, relay(password), 6 if ctx.thorough else 4 if password == 'right' else 3, 'relay-' + password, {'kind': 'relay', 'password': password})
    for k in sorted(HAS):
        search(ctx, client(HAS[k]), 6 if ctx.thorough else 4, 'client-' + k, {'kind': 'client', 'has': k})


def replay(ctx, case):
    case = plain(case)
    if case['kind'] == 'string':
        encoding(ctx, unhexlify(case['hex']))
    elif case['kind'] == 'length':
        lengths(ctx, case['n'])
    elif case['kind'] == 'honest':
        honest(ctx, case['methods'], case['cookie'], case['file'], case['password'])
    elif case['kind'] == 'relay':
        replay_path(ctx, relay(case['password']), case)
    else:
        replay_path(ctx, client(HAS[case['has']]), case)
