'''
P05: the handshake against an attacker who controls the network.

World: up to two server and two client connections that share the secret. The
attacker may at every step open another connection or deliver to any open one
any message built from every token (cookie or HMAC) it has seen or made up.
The oracle recomputes the HMACs itself.
'''
import hashlib
import hmac
import json
from base64 import b64decode, b64encode

from env import EXITS, HarnessExit, Transport, REACTOR, CLOCK
from explore import World, search, replay_path
import fixtures
from privcount.protocol import PrivCountServerProtocol, PrivCountClientProtocol

KEY = b64decode(fixtures.SECRET)
VER, TYPE = 'PRIVCOUNT-100', 'HMAC-SHA256'
H1, H2, H3, H4 = ('HANDSHAKE1-SERVER-COOKIE', 'HANDSHAKE2-CLIENT-COOKIE-HMAC',
                  'HANDSHAKE3-SERVER-HMAC', 'HANDSHAKE4-CLIENT-VERIFY')
MADE_UP = b64encode('A' * 32)


def mac(key, prefix, cookies):
    return b64encode(hmac.new(key, prefix + cookies, hashlib.sha256).digest())


def prefix(stage, role):
    return ' '.join([stage, VER, role, TYPE])


def swap(text, r):
    return text.replace(r + '1', '\0').replace(r + '2', r + '1').replace('\0', r + '2')


class Factory(object):
    'records everything the protocol asks of the node'
    def __init__(self, secret_path):
        self.secret_path = secret_path
        self.calls = []
    def get_secret_handshake_path(self):
        return self.secret_path
    def get_status(self):
        self.calls.append('get_status')
        return {'name': 'n', 'state': 'idle', 'type': 'DataCollector', 'secret_state': 1}
    def get_start_config(self, uid):
        self.calls.append('get_start_config')
        return None
    def get_stop_config(self, uid):
        self.calls.append('get_stop_config')
        return None
    def get_checkin_period(self):
        return 10
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        def f(*a):
            self.calls.append(name)
        return f


class Session(object):
    def __init__(self, name, factory):
        self.name, self.factory = name, factory
        self.server = name[0] == 'S'
        self.t = Transport()
        cls = PrivCountServerProtocol if self.server else PrivCountClientProtocol
        self.p = cls(factory)
        self.p.factory = factory
        self.history = []
        self.h1s = 0
        # what the oracle knows
        self.server_cookie = None
        self.client_cookie = None
        self.valid2 = False
        self.authed = False
        self.p.makeConnection(self.t)

    @property
    def closed(self):
        return self.t.closed


class Handshake(World):
    secret = {'S': fixtures.SECRET, 'C': fixtures.SECRET}

    def __init__(self, start=('S1', 'C1'), menu='full', opens=(), max_h1=2):
        World.__init__(self)
        self.opens, self.max_h1 = opens, max_h1
        fixtures.reset(7)
        self.menu = menu
        self.factories = dict((r, Factory(fixtures.secret_file('secret%s' % r, self.secret[r]))) for r in 'SC')
        self.sessions = {}
        self.tokens = {'made-up': MADE_UP, 'short': b64encode('B' * 30)}
        self.accepted = []
        for s in start:
            self.open(s)

    def open(self, name):
        s = self.sessions[name] = Session(name, self.factories[name[0]])
        lines = s.t.take()
        if s.server:
            parts = lines[0].split() if len(lines) == 1 else []
            if len(parts) != 5 or ' '.join(parts[:4]) != prefix(H1, 'SERVER') or len(b64decode(parts[4])) != 32:
                self.fail('opening', 'a new server connection starts with %r' % (lines,))
                return
            if parts[4] in self.tokens.values():
                self.fail('cookie-reuse', '%s: the server cookie was used before' % name)
            s.server_cookie = parts[4]
            self.tokens[name + '.cookie'] = parts[4]
        elif lines:
            self.fail('opening', 'a client spoke first: %r' % (lines,))

    # -- the attacker's moves ------------------------------------------
    def ops(self):
        out = []
        for other in self.opens:
            if other not in self.sessions:
                out.append(['open', other])
        toks = sorted(self.tokens)
        for name in sorted(self.sessions):
            s = self.sessions[name]
            if s.closed or s.authed:
                continue
            msgs = []
            if s.server:
                for c in toks:
                    for h in toks:
                        if c != 'short' or h == 'short':
                            msgs.append(['H2', c, h])
                msgs += [['H4'], ['H4-fail'], ['H1', 'made-up'], ['H3', 'made-up']]
            else:
                if s.h1s < self.max_h1:
                    for c in toks:
                        msgs.append(['H1', c])
                for h in toks:
                    msgs.append(['H3', h])
                msgs += [['H2', 'made-up', 'made-up'], ['H4']]
            if self.menu == 'full':
                msgs += [[k] for k in ('STATUS', 'START', 'STOP', 'CHECKIN', 'HANDSHAKE', 'junk', 'empty', 'long', 'longpart', 'then-H4')]
                if s.server:
                    if s.valid2 or not s.history:
                        msgs += [[k] for k in ('H4-server', 'H4-version', 'H4-type', 'H4-extra', 'H4-stage')]
                    good = self.good2(s)
                    if good is not None:
                        msgs += [['H2-' + k] + good for k in ('server', 'version', 'type', 'stage', 'extra', 'swapped')]
                else:
                    good = self.good3(s)
                    if good is not None:
                        msgs += [['H3-' + k] + good for k in ('client', 'version', 'type', 'extra')]
            for m in msgs:
                out.append(['send', name] + m)
        return out

    def good2(self, s):
        'a pair of tokens the server has to accept, if the attacker has one'
        for c in sorted(self.tokens):
            for h in sorted(self.tokens):
                if self.is_valid2(s, self.tokens[c], self.tokens[h]):
                    return [c, h]
        return None

    def good3(self, s):
        for h in sorted(self.tokens):
            if self.is_valid3(s, self.tokens[h]):
                return [h]
        return None

    def key(self, role):
        return b64decode(self.secret[role].strip())

    def is_valid2(self, s, c, h):
        return (len(c) == 44 and c != s.server_cookie and
                h == mac(self.key('S'), prefix(H2, 'CLIENT'), b64decode(s.server_cookie) + b64decode(c)))

    def is_valid3(self, s, h):
        return (s.server_cookie is not None and s.client_cookie is not None and
                h == mac(self.key('C'), prefix(H3, 'SERVER'), b64decode(s.server_cookie) + b64decode(s.client_cookie)))

    def line(self, s, m):
        k = m[0]
        args = [self.tokens[a] for a in m[1:]]
        if k == 'H1':
            return ' '.join([prefix(H1, 'SERVER')] + args)
        if k == 'H2':
            return ' '.join([prefix(H2, 'CLIENT')] + args)
        if k == 'H3':
            return ' '.join([prefix(H3, 'SERVER')] + args)
        simple = {'H4': prefix(H4, 'CLIENT') + ' SUCCESS', 'H4-fail': prefix(H4, 'CLIENT') + ' FAIL',
                  'H4-server': prefix(H4, 'SERVER') + ' SUCCESS', 'H4-type': ' '.join([H4, VER, 'CLIENT', 'NONE', 'SUCCESS']),
                  'H4-version': ' '.join([H4, 'PRIVCOUNT-99', 'CLIENT', TYPE, 'SUCCESS']),
                  'H4-extra': prefix(H4, 'CLIENT') + ' SUCCESS SUCCESS', 'H4-stage': prefix('HANDSHAKE4', 'CLIENT') + ' SUCCESS',
                  'STATUS': 'STATUS 1500000000.0 {"name": "x", "state": "idle", "type": "DataCollector"}',
                  'START': 'START {}' if not s.server else 'START SUCCESS {}', 'STOP': 'STOP {}' if not s.server else 'STOP SUCCESS {}',
                  'CHECKIN': 'CHECKIN 1' if not s.server else 'CHECKIN SUCCESS',
                  'HANDSHAKE': 'HANDSHAKE', 'junk': 'GET / HTTP/1.1', 'empty': '', 'long': 'x' * 201,
                  'longpart': 'y' * 300, 'then-H4': 'STATUS 1.0 {}\r\n' + prefix(H4, 'CLIENT') + ' SUCCESS'}
        if k in simple:
            return simple[k]
        base, variant = k.split('-', 1)
        stage, role = (H2, 'CLIENT') if base == 'H2' else (H3, 'SERVER')
        ver, typ = VER, TYPE
        if variant in ('server', 'client'):
            role = variant.upper()
        elif variant == 'version':
            ver = 'PRIVCOUNT-101'
        elif variant == 'type':
            typ = 'HMAC-SHA1'
        elif variant == 'stage':
            stage = H3
        elif variant == 'extra':
            args = args + ['x']
        elif variant == 'swapped':
            args = args[::-1]
        return ' '.join([stage, ver, role, typ] + args)

    def apply(self, op):
        REACTOR.jump(0.01)
        if op[0] == 'open':
            self.open(op[1])
            return
        name, m = op[1], op[2:]
        s = self.sessions[name]
        line = self.line(s, m)
        f = s.factory
        del f.calls[:]
        before = dict((n, (x.closed, x.t.written)) for n, x in self.sessions.items() if n != name)
        died = False
        try:
            s.p.dataReceived(line + ('' if m[0] == 'longpart' else '\r\n'))
        except HarnessExit:
            died = True
        sent = s.t.take()
        if s.t.written:
            self.fail('partial', '%s sent an unfinished line' % name)
        if died and not s.closed:
            self.fail('open-on-exit', '%s: the node exits and leaves the connection open' % name)
            s.t.closed = True
        for n, x in before.items():
            if (self.sessions[n].closed, self.sessions[n].t.written) != x:
                self.fail('crosstalk', 'a message to %s changed %s' % (name, n))
        self.judge(s, m, line, sent, list(f.calls))
        s.history.append([m[0]] + m[1:])

    def judge(self, s, m, line, sent, calls):
        name, k = s.name, m[0]
        quiet = [c for c in calls if c not in ('resetDelay', 'stopTrying')]
        if s.server:
            if k == 'H2' and self.is_valid2(s, self.tokens[m[1]], self.tokens[m[2]]):
                want = prefix(H3, 'SERVER') + ' ' + mac(self.key('S'), prefix(H3, 'SERVER'),
                                                        b64decode(s.server_cookie) + b64decode(self.tokens[m[1]]))
                if s.closed or sent != [want]:
                    self.fail('honest-refused', '%s answers a proper HANDSHAKE2 with %r' % (name, sent))
                    return
                if quiet:
                    self.fail('acts-early', '%s calls %r before the handshake ended' % (name, quiet))
                s.valid2 = True
                self.tokens['%s.h3(%s)' % (name, m[1])] = sent[0].split()[4]
                return
            if k == 'H4' and s.valid2:
                if s.closed or len(sent) != 1 or not sent[0].startswith('STATUS ') or quiet != ['get_status']:
                    self.fail('honest-refused', '%s answers the final HANDSHAKE4 with %r' % (name, sent))
                s.authed = True
                self.accepted.append(name)
                return
        else:
            if k == 'H1' and m[1] != 'short':
                parts = sent[0].split() if len(sent) == 1 else []
                if s.closed or len(parts) != 6 or ' '.join(parts[:4]) != prefix(H2, 'CLIENT') or len(b64decode(parts[4])) != 32:
                    self.fail('honest-refused', '%s answers HANDSHAKE1 with %r' % (name, sent))
                    return
                s.h1s += 1
                if parts[4] in self.tokens.values():
                    self.fail('cookie-reuse', '%s: the client cookie %r was seen before' % (name, parts[4]))
                s.server_cookie, s.client_cookie = self.tokens[m[1]], parts[4]
                want = mac(self.key('C'), prefix(H2, 'CLIENT'), b64decode(s.server_cookie) + b64decode(s.client_cookie))
                if parts[5] != want:
                    self.fail('client-hmac', '%s: the HMAC of HANDSHAKE2 does not cover both cookies and the prefix' % name)
                self.tokens['%s.cookie%d' % (name, s.h1s)] = parts[4]
                self.tokens['%s.h2(%s)' % (name, m[1])] = parts[5]
                if quiet or 'resetDelay' in calls:
                    self.fail('acts-early', '%s calls %r before the handshake ended' % (name, calls))
                return
            if k == 'H3' and self.is_valid3(s, self.tokens[m[1]]):
                if s.closed or sent != [prefix(H4, 'CLIENT') + ' SUCCESS']:
                    self.fail('honest-refused', '%s answers a proper HANDSHAKE3 with %r' % (name, sent))
                s.authed = True
                self.accepted.append(name)
                return
        # everything else has to be refused
        if quiet or 'resetDelay' in calls:
            self.fail('unauthenticated', '%s acted (%s) on %r from a peer that has not authenticated' % (name, ', '.join(calls), line[:100]))
        for l in sent:
            if not l.startswith('HANDSHAKE') or not l.endswith(' FAIL'):
                self.fail('unauthenticated', '%s sent %r to a peer that has not authenticated, after %r' % (name, l[:100], line[:100]))
        if not s.closed:
            self.fail('not-closed', '%s keeps the connection open after %r' % (name, line[:100]))

    def canon(self):
        'connections of one role differ only in their names'
        a = (sorted((n, 'closed' if s.closed else 'authed' if s.authed else s.history)
                    for n, s in self.sessions.items()), sorted(self.tokens))
        text = repr(a)
        forms = []
        for x in (text, swap(text, 'S')):
            for y in (x, swap(x, 'C')):
                forms.append(y)
        # sorting happened before renaming: sort again by re-reading
        return min(repr([sorted(part) for part in eval(f)]) for f in forms)

    def outcome(self):
        return sorted(self.accepted)


class Mismatched(Handshake):
    'a client and a server with different secrets'
    secret = {'S': fixtures.SECRET, 'C': fixtures.OTHER_SECRET}


class Spaced(Handshake):
    'white space around the secret in one file is ignored'
    secret = {'S': fixtures.SECRET, 'C': '\n ' + fixtures.SECRET + ' \n\n'}


WORLDS = {'one': (Handshake, ('S1', 'C1'), 'full', (), 2),
          'later': (Handshake, ('S1', 'C1'), 'tokens', ('S2',), 1),
          'pair': (Handshake, ('S1', 'S2', 'C1', 'C2'), 'tokens', (), 1),
          'wrong': (Mismatched, ('S1', 'C1'), 'full', (), 2),
          'spaced': (Spaced, ('S1', 'C1'), 'full', (), 1)}


def maker(name):
    cls, start, menu, opens, h1 = WORLDS[name]
    return lambda: cls(start, menu, opens, h1)


def honest(ctx):
    'both sides, every split of the byte stream into two deliveries'
    for cls, ok in ((Handshake, True), (Spaced, True), (Mismatched, False)):
        w = cls(())
        lens = None
        cut = 0
        while True:
            fixtures.reset(7)
            s = Session('S1', Factory(fixtures.secret_file('secretS', cls.secret['S'])))
            c = Session('C1', Factory(fixtures.secret_file('secretC', cls.secret['C'])))
            sent = 0
            todo = True
            total = 0
            while todo:
                todo = False
                for a, b in ((s, c), (c, s)):
                    data, a.t.written = a.t.written, ''
                    if data and not b.closed:
                        todo = True
                        at = cut - total
                        total += len(data)
                        pieces = [data[:at], data[at:]] if 0 < at < len(data) else [data]
                        for x in pieces:
                            b.p.dataReceived(x)
            ctx.transition()
            done = 'get_status' in s.factory.calls and 'resetDelay' in c.factory.calls
            ctx.outcome('honest %s %s' % (cls.__name__, done))
            ctx.state(('honest', cls.__name__, cut))
            if done != ok:
                ctx.violation('honest', 'secrets %s: handshake completes: %s (stream cut at byte %d)' % (cls.__name__, done, cut),
                              {'kind': 'honest'})
                return
            if ok and 'set_client_status' not in s.factory.calls:
                ctx.violation('honest-status', 'the server never saw the client\'s status (cut at byte %d)' % cut, {'kind': 'honest'})
                return
            cut += 1
            if cut > total:
                break
        ctx.trace()


def long_lines(ctx):
    'every length around the limit, in one piece or without a line end, before authentication'
    for server in (True, False):
        for n in list(range(0, 260)) + [1000, 100000]:
            for end in ('\r\n', ''):
                fixtures.reset(7)
                s = Session('S1' if server else 'C1', Factory(fixtures.secret_file('secretS')))
                s.t.take()
                try:
                    s.p.dataReceived('z' * n + end)
                except HarnessExit:
                    pass
                ctx.transition()
                must = bool(end) or n > 200
                ctx.state(('long', server, n, end, s.closed))
                ctx.outcome('long closed=%s' % s.closed)
                if must and not s.closed or s.factory.calls:
                    ctx.violation('long-line', '%s: %d bytes %s from an unauthenticated peer: closed=%s calls=%r' % (
                        'server' if server else 'client', n, 'with a line end' if end else 'without a line end', s.closed, s.factory.calls), {'kind': 'long'})
                    return
        ctx.trace()


def run(ctx):
    if ctx.part == 0:
        honest(ctx)
        long_lines(ctx)
    depths = {'one': 5, 'later': 5, 'pair': 4, 'wrong': 3, 'spaced': 3}
    if ctx.thorough:
        depths = {'one': 7, 'later': 8, 'pair': 6, 'wrong': 5, 'spaced': 5}
    for name in sorted(depths):
        search(ctx, maker(name), depths[name], name, case_extra={'kind': 'path', 'world': name})


def replay(ctx, case):
    if case['kind'] == 'honest':
        honest(ctx)
    elif case['kind'] == 'long':
        long_lines(ctx)
    else:
        replay_path(ctx, maker(case['world']), case)
