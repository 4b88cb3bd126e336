'''
P03: no counts leave a data collector without noise, and every bin gets exactly
one independent draw, of the configured size.

Part A: SecureCounters: layouts x sigmas x weights x every combination of draws.
Part B: the real DataCollector: every history (to a depth) of the operations that
can reach the noise: start, timers, fingerprints, tor events, reconnects, stop.
Oracle: the blinding is removed with the keepers' private keys; what is left must
be the tor events plus exactly one drawn value per bin.
'''
import itertools

import env
import fixtures as F
from env import ENTROPY, REACTOR, Transport, Addr
from explore import World, search, replay_path, choices
from privcount.counter import SecureCounters, counter_modulus

INF = float('inf')
Q = counter_modulus()


# ---- part A ------------------------------------------------------------
LAYOUTS = [
    {'A': 1}, {'A': 2}, {'A': 3}, {'A': 2, 'B': 1}, {'A': 1, 'B': 1, 'C': 2},
]
SIGMAS = [0.0, 0.25, 1.0, 3.5, 2.0e6]
WEIGHTS = [0.0, 0.125, 1.0, 2.5, 20]


def counters(layout, sigmas):
    return dict((k, {'bins': [[float(j), float(j + 1) if j + 1 < n else INF] for j in range(n)],
                     'sigma': sigmas[k]}) for k, n in layout.items())


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-30)


def draw_case(ctx, li, si, weight, values):
    layout = LAYOUTS[li]
    names = sorted(layout)
    sigmas = dict((k, SIGMAS[(si + i) % len(SIGMAS)]) for i, k in enumerate(names))
    case = {'kind': 'draw', 'li': li, 'si': si, 'weight': weight, 'values': values}

    def body(ch):
        F.reset()
        draws = []

        def gauss(mu, sigma):
            v = values[ch(len(values))]
            draws.append((mu, sigma, v))
            return v
        ENTROPY.gauss_hook = gauss
        c = SecureCounters(counters(layout, sigmas), Q)
        refused = False
        try:
            c.detach_counts()
        except AssertionError:
            refused = True
        if c.counters is None:
            # the implementation let the counts go
            return None, None, refused
        c.generate_noise(weight)
        return draws, c.detach_counts(), refused
    for taken, (draws, counts, refused) in choices(body):
        ctx.transition()
        ctx.trace()
        if not refused:
            ctx.violation('detach-without-noise', 'counts were detached before noise was added', case)
            return
        ctx.state((li, si, weight, taken, values))
        n_bins = sum(layout.values())
        if len(draws) != n_bins:
            ctx.violation('draw-count', '%d draws for %d bins' % (len(draws), n_bins), case)
            return
        for mu, sigma, v in draws:
            if mu != 0:
                ctx.violation('noise-mean', 'noise drawn with mean %r' % (mu,), case)
        want = sorted(sigmas[k] * weight for k in names for _ in range(layout[k]))
        got = sorted(s for _, s, _ in draws)
        if not all(close(a, b) for a, b in zip(got, want)):
            ctx.violation('noise-scale', 'standard deviations %r, expected sigma x weight = %r' % (got, want), case)
            return
        # every value in the result is one of the draws made with that bin's scale, each used once
        for scale in set(want):
            mine = sorted(v for _, s, v in draws if close(s, scale))
            outs = sorted((x - Q if x >= (Q + 1) // 2 else x)
                          for k in names if close(sigmas[k] * weight, scale) for _, _, x in counts[k]['bins'])
            ok = len(mine) == len(outs) and all(abs(o - m) <= 0.5 for o, m in zip(outs, mine))
            if not ok:
                ctx.violation('noise-value', 'draws %r became %r' % (mine, outs), case)
        ctx.outcome((len(draws), tuple(sorted(set(v for _, _, v in draws)))))


def part_a(ctx):
    for li in range(len(LAYOUTS)):
        for si in range(len(SIGMAS)):
            for w in WEIGHTS:
                if ctx.mine():
                    n = sum(LAYOUTS[li].values())
                    values = [-2.75, 0.25, 7.0] if n > 3 else [-2.75, -0.5, 0.0, 0.25, 1.5, 1e12]
                    draw_case(ctx, li, si, w, values)


# ---- part B ------------------------------------------------------------
class NoiseWorld(World):
    weights = None

    start = ()

    def __init__(self):
        World.__init__(self)
        F.reset()
        self.next_draw = 0
        self.draws = []
        ENTROPY.gauss_hook = self.gauss
        self.dc = F.make_dc(sks=1)
        self.shares = None
        self.round = 0
        self.fps = []           # fingerprints given to this round's collector, in order
        self.events = 0
        self.transport = None
        self.protocol = None
        self.last = None
        self.log = []
        for op in self.start:
            self.apply(op)

    def gauss(self, mu, sigma):
        self.next_draw += 1
        v = float(10 ** 6 * self.next_draw)
        self.draws.append((mu, sigma, v))
        return v

    def ops(self):
        o = ['start', 'stop']
        if self.dc.aggregator is not None:
            o += ['event', 'fpA', 'fpB', 'badfp', 'connect', 'lost']
        o += ['tick', 'stop-nocounts']
        return o

    def apply(self, op):
        self.log.append(op)
        REACTOR.jump(0.01)      # time passes between any two happenings
        getattr(self, 'do_' + op.replace('-', '_'))()
        n_bins = sum(len(b['bins']) for b in F.BINS.values())
        if len(self.draws) > n_bins and self.dc.aggregator is not None:
            self.fail('noise-again', '%d noise values were drawn for %d bins' % (len(self.draws), n_bins))

    def do_start(self):
        had = self.dc.aggregator
        r = self.dc.do_start(F.start_config(sks=1, weights=self.weights, defer_time=5.0))
        self.last = ('start', r is not None)
        if r is not None:
            if had is not None:
                self.fail('restart-over-running', 'a second START was accepted while a round was being collected')
            self.shares = F.wire(r)
            self.fps = []
            self.events = 0
            self.draws = []
            self.protocol = None

    def do_tick(self):
        REACTOR.advance(5.0)
        self.last = ('tick',)

    def agg(self):
        return self.dc.aggregator

    def do_event(self):
        # an exit stream of 10 + 20 bytes
        before = self.agg().secure_counters is not None
        now = env.CLOCK.now
        ev = 'PRIVCOUNT_STREAM_ENDED 1 2 3 80 10 20 {} {} 198.51.100.1 0 0'.format(now - 1, now)
        self.agg().handle_event(ev.split())
        if before:
            self.events += 1
        self.last = ('event', before)

    def do_fpA(self):
        self.fp(F.FP_A)

    def do_fpB(self):
        self.fp(F.FP_B)

    def do_badfp(self):
        self.agg().set_fingerprint('XYZ')
        self.last = ('badfp',)

    def fp(self, fp):
        self.agg().set_fingerprint(fp)
        self.fps.append(fp)
        self.last = ('fp',)

    def do_connect(self):
        # twisted opens the control connection
        p = self.agg().buildProtocol(Addr('127.0.0.1', 20003))
        if p is not self.protocol:
            self.protocol = p
            p.makeConnection(Transport())
        self.last = ('connect',)

    def do_lost(self):
        if self.protocol is not None:
            from twisted.python.failure import Failure
            from twisted.internet.error import ConnectionDone
            self.protocol.connectionLost(Failure(ConnectionDone()))
            self.protocol = None
        self.last = ('lost',)

    def do_stop(self, send=True):
        r = self.dc.do_stop({'send_counters': send})
        if env.EXITS:
            self.fail('exit', 'the data collector exited')
        counts = r.get('Counts')
        self.last = ('stop', counts is not None)
        if counts is not None:
            self.check_counts(F.wire(counts), send)
        self.shares = None
        self.protocol = None

    def do_stop_nocounts(self):
        self.do_stop(False)

    def check_counts(self, counts, send):
        if not send:
            self.fail('counts-not-wanted', 'counts were sent although they were not wanted')
        if self.shares is None:
            self.fail('counts-without-start', 'counts were sent for a round that was never started')
            return
        fp = self.fps[0] if self.fps else None
        w = self.weights.get(fp, self.weights.get('*')) if fp else self.weights.get('*')
        values = F.unblind(counts, F.uncover(self.shares, 1), Q)
        if w is None:
            self.fail('no-weight', 'counts were sent by a collector without a noise weight: %r' % (values,))
            return
        n_bins = sum(len(v) for v in values.values())
        if len(self.draws) != n_bins:
            self.fail('noise-count', '%d noise values were drawn for %d bins' % (len(self.draws), n_bins))
            return
        left = dict((v, s) for _, s, v in self.draws)
        for k, row in sorted(values.items()):
            for j, x in enumerate(row):
                # tor events add less than 1000
                noise = float(10 ** 6 * ((x + 10 ** 5) // 10 ** 6))
                rest = x - int(noise)
                if noise not in left:
                    self.fail('noise-wrong', '%s bin %d is %d: no single draw explains it (%r)' % (k, j, x, sorted(left)))
                    continue
                s = left.pop(noise)
                want = F.SIGMAS[k]['sigma'] * w
                if not close(s, want):
                    self.fail('noise-scale', '%s: standard deviation %r, expected %r' % (k, s, want))
                expect = {'ZeroCount': [0], 'ExitStreamCount': [self.events],
                          'ExitStreamByteHistogram': [self.events, 0]}[k][j]
                if rest != expect:
                    self.fail('count-wrong', '%s bin %d: %d without noise, expected %d' % (k, j, rest, expect))

    def canon(self):
        a = self.dc.aggregator
        t = REACTOR.getDelayedCalls()
        return (F.shallow(self.dc, ('context',)), F.shallow(a, ('collection_counters',)), tuple(self.fps[:1]), min(self.events, 2),
                a is not None and a.secure_counters is not None, len(self.draws), F.shallow(self.protocol),
                len(t) if a is not None else 0)

    def outcome(self):
        return (self.last, len(self.draws))


WEIGHT_SETS = [
    {F.FP_A: 0.5, '*': 2.0}, {F.FP_A: 0.5, F.FP_B: 3.0}, {'*': 1.0}, {F.FP_B: 1.0}, {F.FP_A: 0.0},
    {F.FP_A: 0.0, '*': 2.0},
]


STARTS = {'idle': [], 'collecting': ['start', 'tick'], 'noisy': ['start', 'tick', 'connect', 'fpA', 'event', 'lost']}


def make_world(i, begin='idle'):
    class W(NoiseWorld):
        weights = WEIGHT_SETS[i]
        start = STARTS[begin]
    return W


def run(ctx):
    part_a(ctx)
    for i in range(len(WEIGHT_SETS)):
        for begin in sorted(STARTS):
            depth = {'idle': 3, 'collecting': 3, 'noisy': 3}[begin] + (3 if ctx.thorough else 1 if i < 2 else 0)
            search(ctx, make_world(i, begin), depth, 'w%d-%s' % (i, begin), {'kind': 'history', 'weights': i, 'begin': begin})


def replay(ctx, case):
    if case['kind'] == 'draw':
        draw_case(ctx, case['li'], case['si'], case['weight'], case['values'])
    else:
        replay_path(ctx, make_world(case['weights'], case['begin']), case)
