'''
P43: every short history of what can happen to a client's connections to its
tally server (refused, lost at any line, a server that restarts or drops them,
time passing, rounds that start and stop), on real nodes under twisted's
reconnection. From every state reached the network recovers: the client has to
check in again in time, and its connections must not pile up.
'''
import env
import fixtures as F
import net
from env import ENTROPY, REACTOR, CLOCK, EXITS, HarnessExit, Transport, Addr
from dial import Connector
from explore import World, search, replay_path, plain
from twisted.internet import error
from twisted.internet.protocol import ReconnectingClientFactory
from twisted.python import failure

PERIOD = 60             # between check-ins
SLOWER = 90             # after a change of configuration
LONGEST = 3600          # twisted's longest back-off


class Link(object):
    'a connection between the client and its server'
    def __init__(self, world, connector):
        self.world, self.connector = world, connector
        self.s = world.net.ts.buildProtocol(Addr('127.0.0.1', 40001))
        self.c = connector.factory.buildProtocol(Addr('127.0.0.1', 20001))
        self.ts, self.tc = Transport(), Transport()
        self.to_c, self.to_s = [], []
        self.c.makeConnection(self.tc)
        self.s.makeConnection(self.ts)
        self.collect()

    def collect(self):
        self.to_c += self.ts.take()
        self.to_s += self.tc.take()

    def pending(self):
        return ('c', self.to_c[0]) if self.to_c else ('s', self.to_s[0]) if self.to_s else None

    def close(self):
        self.tc.loseConnection()

    def deliver(self):
        side, line = self.pending()
        if side == 'c':
            self.to_c.pop(0)
            self.c.dataReceived(line + '\r\n')
        else:
            self.to_s.pop(0)
            self.s.dataReceived(line + '\r\n')
            if line.startswith('CHECKIN SUCCESS'):
                self.world.checkins.append(CLOCK.now)
        self.collect()
        if (self.ts.closed or self.tc.closed) and self.pending() is None:
            self.lose()

    def lose(self):
        if self in self.world.links:
            self.world.links.remove(self)
            for p in (self.s, self.c):
                p.connectionLost(failure.Failure(error.ConnectionDone()))
            self.connector.lost()


class Client(World):
    role = 'dc'
    MOST = 2            # attempts and links that are told apart
    start = ()

    def __init__(self):
        World.__init__(self)
        self.attempts, self.links, self.dialled, self.checkins = [], [], [], []
        self.net = net.Net(1, 1, cheap=True, event_period=10, checkin_period=PERIOD, collect_period=200, delay_period=0)
        ENTROPY.gauss_hook = lambda mu, sigma: 0.0
        ReconnectingClientFactory.jitter = 0
        REACTOR.connectSSL = self.dial
        self.name = self.net.names[0 if self.role == 'dc' else 1]
        self.other = self.net.names[1 if self.role == 'dc' else 0]
        self.next_loop = CLOCK.now + 10
        self.period = PERIOD
        try:
            self.net.clients[self.name].run()
            for op in self.start:
                self.act(op)
        except (HarnessExit, SystemExit):
            self.fail('died', 'the client stopped itself')

    def dial(self, host, port, factory, context=None, timeout=30, bindAddress=None):
        if factory is not self.net.clients[self.name]:
            raise AssertionError('somebody else connects')
        return Connector(self, (host, port), factory)

    def make_link(self, connector):
        return Link(self, connector)

    def ops(self):
        o = []
        for i in range(min(self.MOST, len(self.attempts))):
            o += ['accept-%d' % i, 'refuse-%d' % i]
        for i in range(min(self.MOST, len(self.links))):
            l = self.links[i]
            if l.pending():
                o += ['step-%d' % i, 'all-%d' % i, 'lose-%d' % i]
                if l.to_c and l.to_c[0].split(' ')[0] in ('STATUS', 'START', 'STOP', 'CHECKIN'):
                    o += ['drop-%d' % i]
            else:
                o += ['lose-%d' % i]
        o += ['timer', 'wait', 'other', 'restart', 'slower']
        return o

    def act(self, op):
        word, _, i = op.partition('-')
        i = int(i or 0)
        if word == 'accept':
            self.attempts[i].accepted()
        elif word == 'refuse':
            self.attempts[i].failed(error.ConnectionRefusedError())
        elif word == 'step':
            REACTOR.advance(0.01)
            # a timer may have changed what there is
            if i < len(self.links) and self.links[i].pending():
                self.links[i].deliver()
        elif word == 'all':
            l = self.links[i]
            for k in range(40):
                if l not in self.links or not l.pending():
                    break
                l.deliver()
        elif word == 'lose':
            self.links[i].lose()
        elif word == 'drop':
            # the server closes instead of saying what it was about to say
            l = self.links[i]
            l.to_c = []
            l.lose()
        elif word == 'timer':
            self.until(REACTOR.next_timer())
        elif word == 'wait':
            self.until(REACTOR.rightNow + PERIOD)
        elif word == 'other':
            self.net.visit(self.other)
        elif word in ('restart', 'slower'):
            for l in list(self.links):
                l.lose()
            if word == 'slower':
                # with another configuration
                self.period = SLOWER if self.period == PERIOD else PERIOD
                self.net.kw['checkin_period'] = self.period
            self.net.make_server()

    def until(self, t):
        'time passes; the server looks after itself every 10 seconds'
        if t is None:
            t = REACTOR.rightNow + 10
        while self.next_loop <= REACTOR.base + t:
            REACTOR.advance(max(0, self.next_loop - CLOCK.now))
            self.next_loop += 10
            self.net.ts.refresh_loop()
        REACTOR.advance(max(0, t - REACTOR.rightNow))

    def apply(self, op):
        try:
            self.act(op)
        except (HarnessExit, SystemExit):
            self.fail('died', 'the client or the server stopped itself')
            return
        if EXITS or REACTOR.stopped:
            self.fail('died', 'the client or the server stopped itself')

    def settle(self):
        'the network works: everything is accepted and delivered'
        for k in range(400):
            if self.attempts:
                self.attempts[0].accepted()
            elif [l for l in self.links if l.pending()]:
                [l for l in self.links if l.pending()][0].deliver()
            else:
                return
        self.fail('storm', 'connections without an end while no time passes')

    def found(self):
        if not self.failures:
            self.recover()

    def recover(self):
        'connections that nothing moves on are noticed as lost'
        try:
            for l in list(self.links):
                if not l.pending():
                    l.lose()
            before = len(self.checkins)
            begin = CLOCK.now
            self.settle()
            while len(self.checkins) == before and CLOCK.now - begin <= LONGEST + self.period and not self.failures:
                t = REACTOR.next_timer()
                if t is None:
                    self.fail('silent', 'the client neither has a connection nor waits to make one')
                    return
                # the server's loop plays no part in this
                REACTOR.advance(max(0, t - REACTOR.rightNow))
                self.settle()
            if self.failures:
                return
            if len(self.checkins) == before:
                self.fail('late', 'the client did not check in within %d s of the network working again' % (LONGEST + self.period))
                return
            # what is left of the troubled time runs out; then one check-in at a time
            REACTOR.advance(0)
            while CLOCK.now - begin <= LONGEST + 2 * self.period:
                t = REACTOR.next_timer()
                if t is None:
                    self.fail('silent', 'the client checked in but does not wait for anything')
                    return
                REACTOR.advance(max(0, t - REACTOR.rightNow))
                self.settle()
                if not self.pile():
                    break
            before = len(self.checkins)
            t0 = CLOCK.now
            while CLOCK.now - t0 < 5 * self.period + 1:
                t = REACTOR.next_timer()
                if t is None:
                    self.fail('silent', 'the client stopped checking in')
                    return
                if t - REACTOR.rightNow > 5 * self.period + 2:
                    break
                REACTOR.advance(max(0, t - REACTOR.rightNow))
                self.settle()
            n = len([t for t in self.checkins[before:] if t <= t0 + 5 * self.period + 1])
            if not 5 <= n <= 6:
                self.fail('rate', '%d check-ins in five periods, though the network works' % n)
            if self.links or self.attempts:
                self.fail('piled', '%d connections remain open between check-ins' % (len(self.links) + len(self.attempts)))
            self.count = n
        except (HarnessExit, SystemExit):
            self.fail('died', 'the client or the server stopped itself when the network worked again')
        for when, where in self.dialled:
            if where != ('127.0.0.1', 20001):
                self.fail('elsewhere', 'the client connects to %r' % (where,))
                return

    def pile(self):
        'more timers than the next check-in (and what a collector runs)'
        own = [c for c in REACTOR.calls if getattr(c.func, '__name__', '') == 'reconnector']
        return len(own)

    def canon(self):
        now = REACTOR.rightNow
        node = self.net.clients[self.name]
        ts = self.net.ts
        return ([c.state for c in self.attempts], [(l.pending() and (l.pending()[0], l.pending()[1].split(' ')[0]), len(l.to_c), len(l.to_s), l.ts.closed, l.tc.closed, F.shallow(l.c, ('factory', 'transport')),
                 F.shallow(l.s, ('factory', 'transport'))) for l in self.links],
                sorted(round(c.getTime() - now, 1) for c in REACTOR.calls),
                F.shallow(node, ('config', 'start_config')), node.get_status()['state'], bool(node.get_checkin_task() and node.get_checkin_task().running),
                F.shallow(ts, ('config', 'clients', 'collection_delay', 'idle_time')), sorted((k, v['state']) for k, v in ts.clients.items()), round(self.next_loop - CLOCK.now, 1), self.period)

    def outcome(self):
        return (self.role, len(self.attempts), len(self.links), len(self.checkins))


STARTS = {
    'fresh': (),
    # checked in once
    'known': ('accept-0', 'all-0'),
    # collecting
    'round': ('accept-0', 'all-0', 'other', 'wait', 'other', 'accept-0', 'all-0', 'other', 'timer', 'wait'),
    # the server has been away for some time
    'outage': ('accept-0', 'all-0', 'wait', 'refuse-0', 'timer', 'refuse-0', 'wait', 'refuse-0', 'refuse-0'),
}


def worlds(ctx):
    out = []
    for role in ('dc', 'sk'):
        for name in sorted(STARTS):
            class W(Client):
                pass
            W.role = role
            W.start = STARTS[name]
            out.append(('%s-%s' % (role, name), W, {'fresh': 4, 'known': 4, 'round': 3, 'outage': 3}[name] + (1 if ctx.thorough else 0)))
    return out


def run(ctx):
    for label, W, depth in worlds(ctx):
        search(ctx, W, depth, label, {'world': label}, max_states=60000)


def replay(ctx, case):
    case = plain(case)
    for label, W, depth in worlds(ctx):
        if label == case['world']:
            replay_path(ctx, W, case)
