'''
P44: every short history of rounds, changes of configuration, and successes,
failures and losses of control connections, on a real data collector under
twisted's reconnection: it dials exactly the control ports of the round's
configuration, comes back to them while the round lasts, and leaves nothing
behind when it ends.
'''
import env
import fixtures as F
import tor
from dial import Connector
from env import ENTROPY, REACTOR, CLOCK, EXITS, HarnessExit, Transport, Addr
from explore import World, search, replay_path, plain
from twisted.internet import error
from twisted.internet.protocol import ReconnectingClientFactory
from twisted.python import failure

INF = float('inf')
DEFER = 5.0
LONGEST = 3600
UNIX = '/run/tor/control'
# what a configuration says: the endpoints it names
SOURCES = {
    'port': ({'port': 20003}, [('127.0.0.1', 20003)]),
    'ip': ({'ip': '::1', 'port': 20004}, [('::1', 20004)]),
    'text': ({'ip': '192.0.2.9', 'port': '20005'}, [('192.0.2.9', 20005)]),
    'unix': ({'unix': UNIX}, [(UNIX,)]),
    'both': ({'unix': UNIX, 'port': 20003}, [(UNIX,), ('127.0.0.1', 20003)]),
    'list': ([{'unix': UNIX}, {'ip': '127.0.0.2', 'port': 20006}], [(UNIX,), ('127.0.0.2', 20006)]),
    'bad-port': ({'port': 0}, None),
    'bad-ip': ({'ip': 'localhost', 'port': 20003}, None),
    'bad-list': ([{'unix': UNIX}, {'ip': '127.0.0.1'}], None),
    'none': (None, None),
}


class Link(object):
    'a control connection'
    def __init__(self, world, connector):
        self.world, self.connector = world, connector
        self.tor = tor.Tor(connector.factory, fingerprint=world.fingerprint)

    @property
    def closed(self):
        return self.tor.transport.closed

    def close(self):
        self.tor.transport.loseConnection()

    def lose(self):
        self.world.links.remove(self)
        self.tor.lose()
        self.connector.lost()


class Collector(World):
    source = 'port'
    other = 'unix'
    start = ()

    def __init__(self):
        World.__init__(self)
        F.reset()
        F.remember_counter_names()
        ENTROPY.gauss_hook = lambda mu, sigma: 0.0
        ReconnectingClientFactory.jitter = 0
        self.attempts, self.links, self.dialled = [], [], []
        REACTOR.connectTCP = lambda host, port, factory, timeout=30, bindAddress=None: Connector(self, (host, port), factory)
        REACTOR.connectUNIX = lambda path, factory, timeout=30, checkPID=0: Connector(self, (path,), factory)
        self.dc = F.make_dc('dial', sks=0, event_source=SOURCES[self.source][0])
        self.conf = self.source         # the configuration in force
        self.round = None
        self.judged = 0
        self.fingerprint = F.FP_A
        for op in self.start:
            self.apply(op)

    def make_link(self, connector):
        return Link(self, connector)

    def ops(self):
        o = ['start', 'stop', 'discard', 'tick', 'timer', 'conf-%s' % self.source, 'conf-%s' % self.other] + ['conf-' + b for b in self.bad]
        for i in range(min(2, len(self.attempts))):
            o += ['accept-%d' % i, 'wrong-%d' % i, 'refuse-%d' % i]
        for i in range(min(2, len(self.links))):
            o += ['lose-%d' % i]
            if not self.links[i].closed and self.links[i].tor.inbox:
                o += ['answer-%d' % i, 'settle-%d' % i]
        return o

    bad = ('bad-port',)

    def active(self):
        return self.round is not None and self.round['began'] and not self.round['refused']

    def act(self, op):
        word, _, i = op.partition('-')
        if word == 'start':
            conf = F.start_config(sks=0, defer_time=DEFER)
            conf['counters'] = {'ExitStreamCount': {'bins': [[0.0, INF]]}}
            conf['noise'] = {'counters': {'ExitStreamCount': {'sigma': 0.0}}}
            conf['noise_weight'] = {F.FP_A: 1.0}
            if self.dc.do_start(F.wire(conf)) is not None:
                self.round = {'at': CLOCK.now + DEFER, 'began': False, 'refused': False, 'known': False, 'conf': self.conf}
        elif word in ('stop', 'discard'):
            self.dc.do_stop({'send_counters': word == 'stop'})
            self.round = None
        elif word == 'tick':
            self.until(REACTOR.rightNow + DEFER + 1)
        elif word == 'timer':
            t = REACTOR.next_timer()
            self.until(t if t is not None else REACTOR.rightNow + 1)
        elif word == 'conf':
            F.write_yaml('dial.yaml', F.dc_config('dial', 0, event_source=SOURCES[i][0]))
            self.dc.refresh_config()
            if SOURCES[i][1] is not None:
                self.conf = i
        elif word in ('accept', 'wrong'):
            self.fingerprint = F.FP_A if word == 'accept' else F.FP_B
            self.attempts[int(i)].accepted()
        elif word == 'refuse':
            self.attempts[int(i)].failed(error.ConnectionRefusedError())
        elif word == 'lose':
            self.links[int(i)].lose()
        elif word == 'answer':
            self.answer(self.links[int(i)])
        elif word == 'settle':
            l = self.links[int(i)]
            for k in range(100):
                if l.closed or not l.tor.inbox:
                    break
                self.answer(l)

    def answer(self, l):
        asked = l.tor.inbox[0]
        l.tor.answer()
        if asked == 'GETINFO fingerprint' and self.round is not None:
            if l.tor.fingerprint == F.FP_A:
                self.round['known'] = True
            elif not self.round['known']:
                # not the relay that this round is for
                self.round['refused'] = True

    def until(self, t):
        if self.round is not None and not self.round['began'] and REACTOR.base + t >= self.round['at']:
            # the round begins within this time
            self.round['began'] = True
        REACTOR.advance(max(0, t - REACTOR.rightNow))

    def apply(self, op):
        REACTOR.jump(0.01)
        if self.round is not None and not self.round['began'] and CLOCK.now >= self.round['at']:
            self.round['began'] = True
        self.act(op)
        self.judge(op)

    def judge(self, op):
        r = self.round
        new, self.judged = self.dialled[self.judged:], len(self.dialled)
        if new and not (r is not None and r['began']):
            self.fail('no-round', '%s: connects to %r, but no round is being collected' % (op, new[0][1]))
        if r is not None:
            named = SOURCES[r['conf']][1]
            for when, where in new:
                if where not in named:
                    self.fail('elsewhere', '%s: connects to %r, the configuration of the round says %r' % (op, where, named))
        mine = [c.where for c in self.attempts] + [l.connector.where for l in self.links if not l.closed]
        if not self.active():
            if mine:
                self.fail('left', '%s: no round is being collected, but %d control connections to %r remain' % (op, len(mine), mine[0]))
        else:
            for w in set(mine):
                if mine.count(w) > 1:
                    self.fail('twice', '%s: %d control connections to %r at once' % (op, mine.count(w), w))
        if EXITS or REACTOR.stopped:
            self.fail('died', '%s: the collector stopped itself' % op)

    def settle(self):
        for k in range(2000):
            lost = [l for l in self.links if l.closed]
            busy = [l for l in self.links if l.tor.inbox]
            if lost:
                lost[0].lose()
            elif self.attempts:
                self.fingerprint = F.FP_A
                self.attempts[0].accepted()
            elif busy:
                self.answer(busy[0])
            else:
                return
        self.fail('storm', 'connections without an end while no time passes')

    def found(self):
        'from here on the relay is there (or has to be left alone)'
        r = self.round
        for l in list(self.links):
            if l.closed:
                l.lose()
        self.judge('later')
        if r is not None and not r['began']:
            self.until(REACTOR.rightNow + DEFER + 1)
            self.judge('deferred')
        if not self.active():
            # nothing happens any more
            for k in range(12):
                REACTOR.advance(600)
                self.judge('later')
            if self.round is None and self.links + self.attempts:
                self.fail('left', 'the control connections of a finished round remain')
            return
        begin = CLOCK.now
        # a connection through which nothing moves is noticed
        for l in list(self.links):
            if l.tor.fingerprint != F.FP_A:
                l.lose()
        self.settle()
        while CLOCK.now - begin <= LONGEST + 10 and not self.served():
            t = REACTOR.next_timer()
            if t is None:
                break
            REACTOR.advance(max(0, t - REACTOR.rightNow))
            self.judge('recovering')
            self.settle()
        if not self.served():
            self.fail('gone', 'the round goes on and tor has been there for %d s, but it is not asked for events' % (CLOCK.now - begin))
        self.judge('recovered')
        named = SOURCES[r['conf']][1]
        if not 1 <= len(self.links) <= len(named):
            self.fail('many', '%d control connections for %d control ports' % (len(self.links), len(named)))
        # the round ends
        self.dc.do_stop({'send_counters': True})
        self.round = None
        self.judge('stopped')
        for l in list(self.links):
            l.lose()
        for k in range(8):
            REACTOR.advance(600)
            self.judge('afterwards')

    def served(self):
        return [l for l in self.links if not l.closed and l.tor.subscribed == ['PRIVCOUNT_STREAM_ENDED']] != []

    def canon(self):
        now = REACTOR.rightNow
        a = self.dc.aggregator
        r = self.round
        return ([(c.where, c.factory is a) for c in self.attempts], [(l.connector.where, l.closed, l.connector.factory is a, F.shallow(l.tor.protocol, ('transport', 'factory')), l.tor.fingerprint, l.tor.authenticated, l.tor.inbox, sorted(l.tor.subscribed)) for l in self.links],
                sorted(round(c.getTime() - now, 1) for c in REACTOR.calls if c.getTime() - now < 4000), self.conf, r and (r['began'], r['refused'], r['known'], r['conf']),
                a is not None and F.shallow(a, ('collection_counters', 'connector_list', 'connector', 'protocol', 'cli_ips_rotated')), F.shallow(self.dc, ('config', 'start_config', 'context', 'aggregator')))

    def outcome(self):
        return (self.source, len(self.attempts), len(self.links), len(self.dialled), self.round is None)


PAIRS = [('port', 'unix', 'bad-port'), ('ip', 'text', 'bad-ip'), ('unix', 'list', 'bad-list'), ('both', 'port', 'none'), ('list', 'ip', 'bad-list')]
STARTS = {
    'idle': (),
    'collecting': ('start', 'tick', 'accept-0', 'settle-0'),
    'down': ('start', 'tick', 'refuse-0', 'timer'),
    'second': ('start', 'tick', 'accept-0', 'settle-0', 'stop', 'lose-0', 'start', 'tick'),
}


def worlds(ctx):
    out = []
    for source, other, bad in PAIRS:
        for name in sorted(STARTS):
            class W(Collector):
                pass
            W.source, W.other, W.bad, W.start = source, other, (bad,), STARTS[name]
            out.append(('%s-%s' % (source, name), W, (4 if name == 'idle' else 3) + (1 if ctx.thorough else 0)))
    return out


def run(ctx):
    for label, W, depth in worlds(ctx):
        search(ctx, W, depth, label, {'world': label}, max_states=60000)


def replay(ctx, case):
    case = plain(case)
    for label, W, depth in worlds(ctx):
        if label == case['world']:
            replay_path(ctx, W, case)
