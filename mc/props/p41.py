'''
P41: everything an unauthenticated peer can send, to a real tally server, data
collector and share keeper that are in the middle of a round, at every stage of
that round. Each sequence of lines goes down a connection of its own until that
is closed; afterwards the round has to end with the published tally.
'''
import itertools
import json
from base64 import b64encode

import env
import fixtures as F
import net
from env import EXITS, HarnessExit, REACTOR, Transport, Addr
from explore import plain

VER, TYPE = 'PRIVCOUNT-100', 'HMAC-SHA256'
STAGES = ['HANDSHAKE1-SERVER-COOKIE', 'HANDSHAKE2-CLIENT-COOKIE-HMAC', 'HANDSHAKE3-SERVER-HMAC', 'HANDSHAKE4-CLIENT-VERIFY']
# 44 characters each, unless said otherwise
TOKENS = [b64encode('A' * 32), 'A' * 41 + '===', 'A' * 43 + '*', '*' * 44, '=' * 44, 'A' * 44, 'A' * 42 + '==', '\xff' * 44, '\0' * 44, 'A' * 43, 'A' * 45, '', 'FAIL', 'SUCCESS']
FEW = [TOKENS[0], TOKENS[1], TOKENS[3], 'FAIL']


def lines(deep):
    'what may be sent as a line; {own} stands for the cookie the node sent on this connection'
    out = []
    for stage in STAGES:
        for role in ('CLIENT', 'SERVER'):
            p = ' '.join([stage, VER, role, TYPE])
            out.append(p)
            tokens = TOKENS + ['{own}']
            out += [p + ' ' + t for t in tokens]
            # every number of words
            words = [stage, VER, role, TYPE] + [TOKENS[0]] * 5
            out += [' '.join(words[:k]) for k in (2, 3, 7, 8, 9)] + [' '.join(words[:k]) + ' ' for k in range(1, 9)]
            out += [p + ' ' + a + ' ' + b for a in tokens for b in tokens if deep or stage == STAGES[1] or a in FEW and b in FEW]
        out += [' '.join([stage, 'PRIVCOUNT-99', 'CLIENT', TYPE, TOKENS[0]]), ' '.join([stage, VER, 'X', TYPE, TOKENS[0]]), ' '.join([stage, VER, 'CLIENT', 'NONE', TOKENS[0]]),
                stage, stage + ' ' + VER, stage + '\t' + VER, stage + '  ' + VER + ' ' + 'CLIENT ' + TYPE + ' ' + ' '.join([TOKENS[0]] * 3)]
    out += ['HANDSHAKE', 'HANDSHAKE FAIL', 'HANDSHAKE2', 'HANDSHAKE5-X ' + VER, 'HANDSHAKE4-CLIENT-VERIFY\xff', 'handshake4-client-verify']
    for word in ('STATUS', 'START', 'STOP', 'CHECKIN', 'START SUCCESS', 'STOP SUCCESS', 'CHECKIN SUCCESS', 'STATUSX'):
        out += [word + x for x in ('', ' ', ' {}', ' 1.0 {}', ' [', ' x y', ' 10', ' \xff')]
    out += ['', ' ', '\t', '\0', '\xff\xfe', 'GET / HTTP/1.1', 'Host: x', 'SSH-2.0-OpenSSH_9.6', '\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03', 'EHLO x', 'x' * 199, 'x' * 200, 'x' * 201, 'x' * 5000,
            'HANDSHAKE2-CLIENT-COOKIE-HMAC ' + 'y' * 300]
    return out


RAW = ['H', '\r', '\n', ' ', '\0', '\xff']


class Round(net.Net):
    'one collector, one keeper; the steps of a round one by one'
    STEPS = [('visit', 0), ('visit', 1), ('tick', 10), ('step', 0), ('step', 0), ('step', 0), ('visit', 0), ('tick', 10), ('visit', 1), ('tick', 10), ('count', 0), ('tick', 30),
             ('visit', 0), ('step', 1), ('step', 1), ('visit', 1), ('tick', 30), ('visit', 0)]

    def __init__(self):
        net.Net.__init__(self, 1, 1, cheap=True)
        self.at = 0
        self.published = {}

    def next(self):
        what, n = self.STEPS[self.at]
        self.at += 1
        if what == 'visit':
            self.visit(self.names[n])
        elif what == 'step':
            self.step(self.names[n])
        elif what == 'tick':
            self.tick(n)
        else:
            for i in range(3):
                self.clients[self.names[0]].aggregator.handle_event(net.stream_event())
        self.published.update(self.results())

    def view(self):
        'what the honest nodes say of themselves'
        def steady(s):
            return sorted((k, repr(v)) for k, v in s.items() if 'time' not in k and 'since' not in k and k not in ('alive', 'rtt', 'clock_skew'))
        return (steady(self.ts.get_status()), [steady(self.clients[n].get_status()) for n in self.names],
                sorted((n, w.open, w.pending()) for n, w in self.wires.items()), REACTOR.stopped, len(EXITS))


class Attack(object):
    def __init__(self, r, target):
        self.r, self.target = r, target
        node = r.ts if target == 'ts' else r.clients[r.names[target]]
        self.p = node.buildProtocol(Addr('203.0.113.66', 6666))
        self.t = Transport()
        self.p.makeConnection(self.t)
        self.own = '?'
        self.see()

    def see(self):
        for line in self.t.take():
            parts = line.split(' ')
            if len(parts) > 4:
                self.own = parts[4]

    def send(self, data):
        self.p.dataReceived(data.replace('{own}', self.own))
        self.see()

    def end(self):
        from twisted.internet import error
        from twisted.python import failure
        self.p.connectionLost(failure.Failure(error.ConnectionDone()))


def attack(ctx, r, target, pieces, point):
    'one connection; returns whether it is still open after the last piece'
    case = {'kind': 'attack', 'point': point, 'target': target, 'pieces': [list(bytearray(p)) for p in pieces]}
    before = r.view()
    REACTOR.advance(0.001)
    a = None
    try:
        a = Attack(r, target)
        for p in pieces:
            ctx.transition()
            if not a.t.closed:
                a.send(p)
        open_ = not a.t.closed
        a.end()
    except HarnessExit:
        ctx.violation('node-stops', '%s, at step %d of a round, exits after %r from an unauthenticated peer' % (name(target), point, pieces), case)
        return None
    except Exception as e:
        ctx.violation('exception', '%s, at step %d of a round: %r escapes after %r from an unauthenticated peer' % (name(target), point, e, pieces), case)
        return None
    if r.view() != before:
        ctx.violation('node-changes', '%s, at step %d of a round: %r from an unauthenticated peer changes %r into %r' % (name(target), point, pieces, before, r.view()), case)
        return None
    ctx.outcome(open_)
    return open_


def name(target):
    return {'ts': 'the tally server', 0: 'a data collector', 1: 'a share keeper'}[target]


def round_with(ctx, point, target, depth, deep):
    'every attack at one point of a round, which then has to end as usual'
    r = Round()
    for i in range(point):
        r.next()
    todo = [(l + '\r\n',) for l in lines(deep)]
    done = 0
    for d in range(depth):
        longer = []
        for pieces in todo:
            more = attack(ctx, r, target, pieces, point)
            ctx.state((point, target, pieces))
            done += 1
            if more is None:
                return
            if more and d + 1 < depth:
                longer += [pieces + (l + '\r\n',) for l in lines(False)]
        todo = longer
    for n in range(1, 5 if deep else 4):
        for s in itertools.product(RAW, repeat=n):
            data = ''.join(s)
            for cut in range(n):
                if attack(ctx, r, target, (data[:cut], data[cut:]), point) is None:
                    return
            ctx.state((point, target, data))
            done += 1
    finish(ctx, r, point, target, '%d attacks' % done, {'kind': 'round', 'point': point, 'target': target, 'depth': depth, 'deep': deep})


def finish(ctx, r, point, target, what, case):
    ctx.trace()
    try:
        while r.at < len(r.STEPS):
            r.next()
    except HarnessExit:
        ctx.violation('round-stops', 'the round ends with an exit after %s on %s at step %d' % (what, name(target), point), case)
        return
    tallies = [c for f, c in r.published.items() if f.startswith('privcount.outcome')]
    if len(tallies) != 1 or not tallies[0].get('Tally'):
        ctx.violation('round-lost', 'after %s on %s at step %d the round publishes %r' % (what, name(target), point, sorted(r.published)), case)


def run(ctx):
    points = range(len(Round.STEPS))
    for target in ('ts', 0, 1):
        for point in points:
            if ctx.mine():
                round_with(ctx, point, target, 3 if ctx.thorough else 2, ctx.thorough)


def replay(ctx, case):
    case = plain(case)
    if case['kind'] == 'round':
        return round_with(ctx, case['point'], case['target'], case['depth'], case['deep'])
    r = Round()
    for i in range(case['point']):
        r.next()
    attack(ctx, r, case['target'], tuple(str(bytearray(p)) for p in case['pieces']), case['point'])
