'''
P07: every short history of rounds, control connections, relay answers, events
and losses on a real data collector, with a relay that remembers what it was
asked to do.
'''
import env
import fixtures as F
import p20
import p21
import p22
import tor
from env import ENTROPY, REACTOR, CLOCK, HarnessExit
from explore import World, search, replay_path

INF = float('inf')
DEFER = 5.0
SETS = {'a': {'ExitStreamCount': ['STREAM_ENDED']},
        'b': {'MidCircuitCount': ['CIRCUIT_CLOSE'], 'HSDirStoreCount': ['HSDIR_CACHE_STORE']},
        'm': {'ExitStreamTrafficModelEmissionCount': ['VITERBI_PACKETS']},
        'z': {'ZeroCount': []}}
STREAM = p21.words(1, 2, 80, 10, 20, 0.0, 1.0, 'localhost', '198.51.100.1', 1)
CIRCUIT = p22.words(dict(zip(p22.FIELDS, (('mid',), (), None, None, None, p22.three(3), p22.three(5), 0.5, False))))
STORE = ['PRIVCOUNT_HSDIR_CACHE_STORE'] + p20.EVENTS[5][1].split()
PACKETS = ['PRIVCOUNT_VITERBI_PACKETS', 'EventTimestamp=1500000000.5', 'ViterbiPathPackets=[["m0s0";"+";5]]']
# what each event adds
ADDS = {'stream': ('ExitStreamCount', 1), 'circuit': ('MidCircuitCount', 1), 'store': ('HSDirStoreCount', 1), 'packets': ('ExitStreamTrafficModelEmissionCount', 1)}
WORDS = {'stream': STREAM, 'circuit': CIRCUIT, 'store': STORE, 'packets': PACKETS}
OTHER = {'ok': '250 OK', 'done': '250-OK', 'refuse': '552 Unrecognized option', 'error': '551 Address unknown', 'bw': '650 BW 1 2', 'unknown': '650 PRIVCOUNT_FOO 1 2',
         'empty': '650 PRIVCOUNT_STREAM_ENDED', 'short': '650 PRIVCOUNT_STREAM_ENDED 1 2 3', 'badstore': '650 PRIVCOUNT_HSDIR_CACHE_STORE a=b', 'no-ns': '552 Unrecognized key "ns/id/%s"' % F.FP_A,
         'finger': '250-fingerprint=' + F.FP_A, 'finger2': '250-fingerprint=' + F.FP_B, 'finger-bad': '250-fingerprint=xyz', 'off': '250 EnablePrivCount=0', 'flags': 's Exit', 'dot': '.'}


class Connector(object):
    'what twisted asks to connect again'
    def __init__(self):
        self.wanted = 0
    def connect(self):
        self.wanted += 1
    def stopConnecting(self):
        pass
    def disconnect(self):
        pass
    def getDestination(self):
        return tor.Addr('127.0.0.1', tor.PORT)


class Collector(World):
    start = ()

    def __init__(self):
        World.__init__(self)
        F.reset()
        F.remember_counter_names()
        ENTROPY.gauss_hook = lambda mu, sigma: 0.0
        self.dc = F.make_dc('events', sks=0)
        self.round = None
        self.t = None
        self.old = None
        self.told = True        # twisted told the factory that the connection is gone
        self.wanted = 0
        self.asked = 0
        self.connector = Connector()
        self.counted = 0
        self.last = None
        for op in self.start:
            self.apply(op)
        self.failures = []

    # -- what can happen ---------------------------------------------------
    def ops(self):
        o = ['start-a', 'start-b', 'start-m', 'start-z', 'stop', 'tick']
        agg = self.dc.aggregator
        if self.wanted + self.connector.wanted > 0 and agg is not None and (self.t is None or not self.t.open and self.told):
            o += ['connect', 'connect-b', 'connect-odd']
        if self.t is not None and self.t.open:
            if self.t.inbox:
                o += ['answer', 'settle']
            o += sorted('event-' + e for e in WORDS) + sorted(OTHER) + ['lose']
        if self.t is not None and not self.t.open and not self.told:
            o += ['told']
        if self.old is not None:
            o += ['late-stream', 'late-circuit']
        return o

    # -- the model ---------------------------------------------------------
    def active(self):
        return self.round is not None and self.round['began']

    def sent(self, lines, closing):
        'judge what the collector sent on the current connection'
        t, r = self.t, self.round
        for line in lines:
            word, _, rest = line.partition(' ')
            if word == 'AUTHENTICATE':
                t.tried = True
            if word == 'SETEVENTS':
                want = set(rest.split())
                if want:
                    if not t.accepted:
                        self.fail('early', '%r before authentication' % line)
                    if t.refused:
                        self.fail('identity', '%r to a relay that is not the one this round is for' % line)
                    if not self.active():
                        self.fail('no-round', '%r but no round is being collected' % line)
                    elif want != r['events']:
                        self.fail('subscription', '%r but the round needs %s' % (line, ' '.join(sorted(r['events']))))
                t.asked = want
            elif line == 'SETCONF EnablePrivCount=1':
                if not t.accepted or not self.active():
                    self.fail('enabled', '%r %s' % (line, 'before authentication' if not t.accepted else 'but no round is being collected'))
                t.enabled = True
            elif line == 'SETCONF EnablePrivCount=0':
                t.enabled = False
            elif line.startswith('SET_TMODEL TRUE'):
                if not self.active() or not r['model']:
                    self.fail('model', 'a traffic model was sent, but the round has none')
                t.modelled = True
            elif line == 'SET_TMODEL FALSE':
                t.modelled = False
            elif word == 'QUIT':
                t.left = True
        if not t.open and not t.lost and not t.judged:
            t.judged = True
            # the collector closed it
            if t.asked or t.enabled or t.modelled or not t.left:
                self.fail('left-on', 'the collector left the relay with events %s, PrivCount %s, %s' % (
                          ' '.join(sorted(t.asked)) or 'off', 'on' if t.enabled else 'off', 'without QUIT' if not t.left else 'with QUIT'))

    def apply(self, op):
        REACTOR.jump(0.25)
        self.last = None
        if op.startswith('start-'):
            which = op[6:]
            names = SETS[which]
            conf = F.start_config(sks=0, defer_time=DEFER, **({'traffic_model': p20.MODEL} if which == 'm' else {}))
            conf['counters'] = dict((n, {'bins': [[0.0, INF]]}) for n in names)
            conf['noise'] = {'counters': dict((n, {'sigma': 0.0}) for n in names)}
            conf['noise_weight'] = {F.FP_A: 1.0, '*': 1.0} if which == 'z' else {F.FP_A: 1.0}
            r = self.dc.do_start(F.wire(conf))
            if r is not None and self.round is None:
                self.round = {'which': which, 'events': set('PRIVCOUNT_' + e for l in names.values() for e in l), 'began': False, 'at': CLOCK.now + DEFER, 'counts': dict((n, 0) for n in names),
                              'model': which == 'm', 'fine': True, 'anyone': which == 'z', 'known': False}
                self.forget()
            elif (r is not None) != (self.round is None):
                self.fail('start', 'a start was %s' % ('refused' if r is None else 'accepted during a round'))
            if r is None:
                self.collect()
        elif op == 'tick':
            REACTOR.advance(DEFER + 1.0)
            if self.round is not None and CLOCK.now >= self.round['at']:
                self.round['began'] = True
            self.collect()
        elif op == 'stop':
            self.stop()
        elif op.startswith('connect'):
            if self.connector.wanted:
                self.connector.wanted -= 1
            else:
                self.wanted -= 1
            if self.t is not None:
                self.old = self.t
            self.t = tor.Tor(self.dc.aggregator, fingerprint={'connect': F.FP_A, 'connect-b': F.FP_B, 'connect-odd': 'xyz'}[op])
            t = self.t
            t.asked, t.enabled, t.modelled, t.lost, t.judged, t.refused, t.broken, t.tried, t.accepted = set(), False, False, False, False, False, False, False, False
            self.told = False
            self.sent(t.log, False)
        elif op == 'told':
            self.told = True
            from twisted.internet.error import ConnectionDone
            from twisted.python.failure import Failure
            self.t.protocol.connectionLost(Failure(ConnectionDone()))
            self.sent(self.t.collect(), False)
            if self.dc.aggregator is self.t.agg:
                self.t.agg.clientConnectionLost(self.connector, Failure(ConnectionDone()))
                REACTOR.advance(3.0)
                if self.round is not None and CLOCK.now >= self.round['at']:
                    self.round['began'] = True
            else:
                self.t.agg.clientConnectionLost(self.connector, Failure(ConnectionDone()))
                n = self.connector.wanted
                REACTOR.advance(4000.0)
                if self.round is not None and CLOCK.now >= self.round['at']:
                    self.round['began'] = True
                if self.connector.wanted != n:
                    self.fail('reconnect', 'the collector connects again although that round is over')
        elif op == 'lose':
            self.t.lost = True
            self.t.lose()
            self.told = True
            from twisted.internet.error import ConnectionLost
            from twisted.python.failure import Failure
            self.t.agg.clientConnectionLost(self.connector, Failure(ConnectionLost()))
            REACTOR.advance(3.0)
            if self.round is not None and CLOCK.now >= self.round['at']:
                self.round['began'] = True
        elif op == 'answer':
            self.answer()
        elif op == 'settle':
            n = 0
            while self.t.inbox and self.t.open and n < 200:
                n += 1
                self.answer()
            self.settled()
        elif op.startswith('event-'):
            self.event(op[6:])
        elif op.startswith('late-'):
            # an event that was still on its way when the connection was closed
            before = len(self.old.log)
            self.old.say('650 ' + ' '.join(WORDS[op[5:]]))
        else:
            self.line(OTHER[op], op)
        # connections that the collector asks for
        n = len(tor.offered())
        if n > self.asked:
            self.wanted += n - self.asked
            self.asked = n
            if not self.active():
                self.fail('connect', 'a control connection is made although no round is being collected')
        if not self.t_open():
            pass

    def forget(self):
        self.wanted, self.connector = 0, Connector()
        if self.t is not None:
            self.old = self.t
        self.t, self.told = None, True

    def t_open(self):
        return self.t is not None and self.t.open

    def collect(self):
        if self.t is not None:
            self.sent(self.t.collect(), False)

    def line(self, line, op=None):
        t = self.t
        if line == '250 OK' and t.tried:
            t.accepted = True
        try:
            t.protocol.dataReceived(line + '\r\n')
        except HarnessExit:
            raise
        except Exception as e:
            t.transport.closed = True
            t.lost = True
            self.last = 'exception'
        t_fp = line.startswith('250-fingerprint=')
        if t_fp and t.accepted:
            self.know(line.partition('=')[2])
        self.sent(t.collect(), False)

    def know(self, fp):
        'the collector may have learnt who the relay is'
        r = self.round
        if r is None:
            return
        if fp == F.FP_B and not r['anyone'] and not r['known']:
            self.t.refused = True
        if fp == F.FP_A:
            r['known'] = True

    def answer(self):
        t = self.t
        for line in t.reply(t.inbox.pop(0)):
            if t.open:
                self.line(line)

    def settled(self):
        'an honest relay answered everything'
        t, r = self.t, self.round
        if t.open and not t.inbox and self.active() and t.fingerprint == F.FP_A and not t.broken and r['fine']:
            if set(t.subscribed) != r['events']:
                self.fail('never-subscribed', 'set-up is complete, tor sends %s, the round needs %s' % (' '.join(t.subscribed) or 'nothing', ' '.join(sorted(r['events']))))
            if t.options.get('EnablePrivCount') != '1':
                self.fail('never-enabled', 'set-up is complete, but PrivCount is not enabled')
            if r['model'] != (t.model is not None):
                self.fail('model', 'set-up is complete, and tor has %s traffic model' % ('a' if t.model is not None else 'no'))

    def event(self, kind):
        t, r = self.t, self.round
        words = WORDS[kind]
        counts = self.active() and words[0] in t.asked and t.open
        self.line('650 ' + ' '.join(words))
        if counts and ADDS[kind][0] in r['counts']:
            r['counts'][ADDS[kind][0]] += ADDS[kind][1]
            self.counted += 1
            self.last = 'counted'

    def stop(self):
        r = self.round
        out = F.wire(self.dc.do_stop({'send_counters': True}))
        counts = out.get('Counts')
        self.round = None
        t = self.t
        if t is not None:
            self.sent(t.collect(), True)
            if t.open:
                self.fail('still-open', 'the control connection is open after the round')
            if t.asked or t.enabled:
                if not t.lost:
                    self.fail('left-on', 'events are still on after the round')
        if counts is not None:
            if r is None or not r['began']:
                self.fail('counts', 'counts were sent without a round')
            else:
                got = F.unblind(counts, {}, p20_modulus())
                want = dict((n, [v]) for n, v in r['counts'].items())
                if got != want:
                    self.fail('counts', 'the round counted %r, expected %r' % (got, want))
        elif r is not None and r['began'] and r['known']:
            self.fail('no-counts', 'no counts were sent for a collected round')
        n = len(REACTOR.connects)
        self.wanted, self.connector.wanted = 0, 0
        self.last = ('stop', counts is not None and sorted(r['counts'].items()) if r else None)
        if t is not None and not t.open and not self.told:
            # twisted reports the close
            pass

    def canon(self):
        t = self.t
        a = self.dc.aggregator
        r = self.round
        tt = None
        if t is not None:
            tt = (F.shallow(t.protocol, ('transport', 'factory')), t.authenticated, t.accepted, sorted(t.subscribed), list(t.inbox), t.open, sorted(t.asked), t.enabled, t.modelled, t.refused, t.fingerprint, t.left, t.lost,
                  sorted(t.options.items()))
        return (F.shallow(self.dc, ('config', 'start_config', 'context')), a is not None and F.shallow(a, ('collection_counters', 'connector_list', 'connector', 'delay', 'retries', 'protocol')), tt,
                r and (r['which'], r['began'], sorted((k, min(v, 2)) for k, v in r['counts'].items()), r['known'], round(r['at'] - CLOCK.now, 1) if not r['began'] else 0), self.told,
                min(self.wanted + self.connector.wanted, 2), self.old is not None, sorted(round(c.getTime() - REACTOR.rightNow, -1) for c in REACTOR.getDelayedCalls()))

    def outcome(self):
        return (self.last, self.t is not None and (self.t.open, sorted(self.t.asked)), self.round and (self.round['began'], sorted(self.round['counts'].items())))


def p20_modulus():
    from privcount.counter import counter_modulus
    return counter_modulus()


UP = ('start-a', 'tick', 'connect')
STARTS = {'idle': (), 'begun': ('start-b', 'tick'), 'connected': UP + ('answer',), 'discovering': UP + ('answer', 'answer'), 'collecting': UP + ('settle', 'event-stream'),
          'model': ('start-m', 'tick', 'connect', 'settle'), 'again': UP + ('settle', 'event-stream', 'stop', 'told', 'start-b', 'tick', 'connect', 'settle'),
          'stopped': UP + ('settle', 'event-stream', 'stop'), 'dropped': UP + ('settle', 'event-stream', 'lose'), 'refused': UP[:2] + ('connect-b', 'settle'), 'anyone': ('start-z', 'tick', 'connect-b', 'settle')}


def maker(name):
    class W(Collector):
        start = STARTS[name]
    return W


def run(ctx):
    for name in sorted(STARTS):
        search(ctx, maker(name), (5 if ctx.thorough else 3), name, {'kind': 'history', 'begin': name})


def replay(ctx, case):
    replay_path(ctx, maker(case['begin']), case)
