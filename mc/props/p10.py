'''
P10: every history of commands, timers, control connections and check-ins on a
real data collector, against a model of which round is running.
'''
import json
from copy import deepcopy

import env
import fixtures as F
from base64 import b64encode
from env import ENTROPY, REACTOR, HarnessExit, Addr, Transport
from explore import World, search, replay_path
from privcount.counter import counter_modulus
from privcount.crypto import decrypt

Q = counter_modulus()
DEFER = 5.0


class Collector(World):
    start = ()

    def __init__(self):
        World.__init__(self)
        F.reset()
        ENTROPY.gauss_hook = lambda mu, sigma: 0.0
        self.dc = F.make_dc(sks=2)
        self.round = None       # the accepted round
        self.n = 0
        self.last = None
        self.replies = []
        self.done = 0
        for op in self.start:
            self.apply(op)

    VALID = ['start', 'start-now']
    REFUSED = ['sk-missing', 'sk-extra', 'sk-other', 'sk-swapped', 'sk-none', 'no-sks', 'no-counters', 'no-noise', 'no-weights', 'no-threshold',
               'no-period', 'bad-bins', 'bad-sigma', 'bad-weight', 'bad-threshold', 'unknown-counter', 'sk-twice']

    def ops(self):
        o = self.VALID + ['stop', 'stop-unwanted', 'stop-default', 'tick', 'long', 'checkin', 'status', 'weightless']
        if self.n < 2 + len(self.start):
            o = o + self.REFUSED
        elif self.round is not None:
            o = o + ['sk-other', 'bad-bins', 'no-sks', 'unknown-counter']
        if self.round is not None and self.round['began']:
            o = o + ['event', 'connect']
        return o

    def config(self, v):
        self.tag = 100 + self.n
        c = F.start_config(sks=2, collect_period=self.tag, defer_time=DEFER)
        s = c['sharekeepers']
        if v == 'start-now':
            c['defer_time'] = 0.0
        elif v == 'weightless':
            c['noise_weight'] = {F.FP_B: 1.0}
        elif v == 'sk-missing':
            del s[F.sk_digest(1)]
        elif v == 'sk-none':
            s.clear()
        elif v == 'sk-extra':
            s[F.sk_digest(2)] = b64encode(F.sk_pub(2))
        elif v == 'sk-other':
            del s[F.sk_digest(1)]
            s[F.sk_digest(2)] = b64encode(F.sk_pub(2))
        elif v == 'sk-swapped':
            # the name of a known keeper with somebody else's key
            s[F.sk_digest(1)] = b64encode(F.sk_pub(2))
        elif v == 'sk-twice':
            # two names, one key
            s[F.sk_digest(1)] = b64encode(F.sk_pub(0))
        elif v == 'no-sks':
            del c['sharekeepers']
        elif v == 'no-counters':
            del c['counters']
        elif v == 'no-noise':
            del c['noise']
        elif v == 'no-weights':
            del c['noise_weight']
        elif v == 'no-threshold':
            del c['dc_threshold']
        elif v == 'no-period':
            del c['collect_period']
        elif v == 'bad-bins':
            c['counters']['ExitStreamByteHistogram']['bins'] = [[0.0, 1024.0], [512.0, float('inf')]]
        elif v == 'bad-sigma':
            c['noise']['counters']['ZeroCount']['sigma'] = -1.0
        elif v == 'bad-weight':
            c['noise_weight'] = {'*': -0.5}
        elif v == 'bad-threshold':
            c['dc_threshold'] = 0
        elif v == 'unknown-counter':
            c['counters']['NoSuchCount'] = {'bins': [[0.0, float('inf')]]}
            c['noise']['counters']['NoSuchCount'] = {'sigma': 1.0}
        return json.loads(json.dumps(c))

    def connected(self):
        return len(REACTOR.connects) - len([c for c in REACTOR.connects if c.where == ('127.0.0.1', 20001)])

    def apply(self, op):
        self.n += 1
        REACTOR.jump(0.25)
        before = self.connected()
        r0 = self.round
        if op in self.VALID or op in self.REFUSED or op == 'weightless':
            self.start_op(op)
        elif op.startswith('stop'):
            self.stop_op(op)
        elif op == 'tick':
            self.run(DEFER + 0.5)
        elif op == 'long':
            self.run(60.0)
        elif op == 'checkin':
            self.dc.do_checkin()
        elif op == 'status':
            pass
        elif op == 'event':
            a = self.dc.aggregator
            now = env.CLOCK.now
            a.handle_event('PRIVCOUNT_STREAM_ENDED 1 2 3 80 10 20 {} {} 198.51.100.1 0 0'.format(now - 1, now).split())
            self.round['events'] += 1
        elif op == 'connect':
            p = self.dc.aggregator.buildProtocol(Addr('127.0.0.1', 20003))
            p.makeConnection(Transport())
            self.dc.aggregator.set_fingerprint(F.FP_A)
        if not op.startswith('stop') and op not in self.VALID + self.REFUSED + ['weightless']:
            self.last = (op,)
        # counting starts at the time that was asked for, once, and only for a live round
        if self.connected() != before and op not in ('tick', 'long'):
            self.fail('began-early', '%s opened a control connection' % op)
        state = self.dc.get_status()['state']
        if state != ('active' if self.round is not None else 'idle'):
            self.fail('wrong-state', 'the collector says it is %s; running round: %r' % (state, self.round and self.round['tag']))

    def run(self, amount):
        'let time pass, stopping at every timer'
        end = REACTOR.rightNow + amount
        while True:
            t = REACTOR.next_timer()
            if t is None or t > end:
                REACTOR.advance(max(0, end - REACTOR.rightNow))
                break
            n = self.connected()
            REACTOR.advance(max(0, t - REACTOR.rightNow))
            if self.connected() != n:
                r = self.round
                now = env.CLOCK.now
                if r is None:
                    self.fail('began-stopped', 'counting began although no round is running')
                elif r['began']:
                    self.fail('began-twice', 'counting began twice for one round')
                elif now + 1e-6 < r['begin']:
                    self.fail('began-early', 'counting began %.2f s before the commanded time' % (r['begin'] - now))
                if r is not None:
                    r['began'] = True
        r = self.round
        if r is not None and not r['began'] and env.CLOCK.now > r['begin'] + 0.01:
            self.fail('never-began', 'counting did not begin at the commanded time')

    def start_op(self, op):
        config = self.config(op)
        died = False
        try:
            r = self.dc.do_start(deepcopy(config))
        except Exception as e:
            self.last = (op, 'died')
            self.fail('refusal-crash', 'START %s raised %r instead of being refused' % (op, e))
            return
        self.last = (op, r is not None)
        ok = op not in self.REFUSED and self.round is None
        if r is None:
            if ok:
                self.fail('valid-refused', 'a proper START was refused')
            return
        if not ok:
            self.fail('invalid-accepted', 'START %s was accepted (round running: %s)' % (op, self.round is not None))
            return
        now = env.CLOCK.now
        r = F.wire(r)
        self.replies.append(r)
        if sorted(r) != sorted(config['sharekeepers']):
            self.fail('wrong-keepers', 'shares for %r' % sorted(r))
        if self.final:
            self.check_shares()
        self.round = {'tag': self.tag, 'accepted': now, 'begin': now + config['defer_time'], 'began': False,
                      'shares': r, 'events': 0, 'weight': op != 'weightless'}

    def check_shares(self):
        text = json.dumps(self.replies[-1])
        secrets = set()
        for r in self.replies:
            factors = F.uncover(r, 2)
            for i in factors:
                for row in factors[i].values():
                    for v in row:
                        if str(v) in text:
                            self.fail('secret-revealed', 'the reply to START contains a plain blinding value')
                        if v in secrets:
                            self.fail('blinding-reused', 'a blinding value was used before')
                        secrets.add(v)
        r = self.replies[-1]
        for i in (0, 1):
            try:
                decrypt(F.sk_private(1 - i), r[F.sk_digest(i)]['secret'])
                self.fail('wrong-key', 'the shares of keeper %d can be read by keeper %d' % (i, 1 - i))
            except HarnessExit:
                raise
            except Exception:
                pass

    def stop_op(self, op):
        want = op == 'stop'
        r = F.wire(self.dc.do_stop({'send_counters': want} if op != 'stop-default' else {}))
        cur, self.round = self.round, None
        counts = r.get('Counts')
        self.last = (op, counts is not None)
        if counts is not None and not want:
            self.fail('unwanted-counts', 'counts were sent although they were not wanted')
        if counts is not None and cur is None:
            self.fail('counts-twice', 'counts were sent although no round was running')
            return
        if cur is None:
            return
        if counts is None:
            if want and cur['began'] and cur['weight']:
                self.fail('counts-missing', 'no counts were sent for a round that was collected')
            if not (want and cur['began']):
                pass
        else:
            if not cur['began']:
                self.fail('counts-unstarted', 'counts were sent for a round that had not begun')
            if not cur['weight']:
                self.fail('counts-weightless', 'counts were sent without a noise weight')
            got = F.unblind(counts, F.uncover(cur['shares'], 2), Q)
            e = cur['events']
            expect = {'ZeroCount': [0], 'ExitStreamCount': [e], 'ExitStreamByteHistogram': [e, 0]}
            if got != expect:
                self.fail('wrong-counts', 'unblinded counts %r, expected %r' % (got, expect))
            self.done += 1
        conf = r['Config']
        t = conf.get('Time', {})
        if (t.get('Start'), t.get('Stop')) != (cur['accepted'], env.CLOCK.now):
            self.fail('round-times', 'the round was accepted at %.2f and stopped at %.2f, reported %r' % (cur['accepted'], env.CLOCK.now, t))
        if counts is not None and conf.get('Start', {}).get('collect_period') != cur['tag']:
            self.fail('wrong-config', 'the reply carries the configuration of another round')

    def canon(self):
        a = self.dc.aggregator
        r = self.round
        now = REACTOR.rightNow
        timers = sorted(round(c.getTime() - now, 1) for c in REACTOR.getDelayedCalls())
        return (F.shallow(self.dc, ('config', 'start_config', 'context', 'collect_period')), F.shallow(a, ('collection_counters', 'connector_list', 'connector')),
                r and (r['began'], min(r['events'], 2), r['weight'], round(r['begin'] - env.CLOCK.now, 1) if not r['began'] else 0), timers, min(self.n, 2 + len(self.start)))

    def outcome(self):
        return (self.last, self.done)


STARTS = {'idle': (), 'running': ('start', 'tick', 'event'), 'pending': ('start',), 'again': ('start', 'tick', 'event', 'stop', 'start')}


def maker(name):
    class W(Collector):
        start = STARTS[name]
    return W


def run(ctx):
    for name in sorted(STARTS):
        search(ctx, maker(name), (6 if ctx.thorough else 3), name, {'kind': 'history', 'begin': name})


def replay(ctx, case):
    replay_path(ctx, maker(case['begin']), case)
