'''
P08: every history of rounds over a set of noise allocations, waits, outcomes and
settings, on the real delay tracker and on the real share keeper and data
collector; at every state every allocation and start time is judged.
'''
from copy import deepcopy

import env
import fixtures as F
from env import ENTROPY, REACTOR, CLOCK, HarnessExit
from explore import World, search, replay_path, plain
from privcount.counter import CollectionDelay

INF = float('inf')
Z, S, E = 'ZeroCount', 'ExitStreamCount', 'EntryConnectionCount'
ALLOC = {
    'base': {Z: 10.0, S: 20.0},
    'up': {Z: 16.0, S: 20.0},
    'down1': {Z: 9.0, S: 20.0},         # exactly the tolerance
    'down2': {Z: 8.0, S: 20.0},         # two tolerances: a chain of small steps
    'down-half': {Z: 10.0, S: 19.5},
    'down-chain': {Z: 10.0, S: 18.75},
    'up-down': {Z: 20.0, S: 10.0},
    'added': {Z: 10.0, S: 20.0, E: 30.0},
    'removed': {Z: 10.0},
    'other': {Z: 10.0, E: 20.0},
}
TOL = 1.0


def noise(name):
    return {'counters': dict((k, {'sigma': v}) for k, v in ALLOC[name].items())}


def changed(ref, new, tol):
    'the documented rule: the counters changed, or a sigma decreased beyond the tolerance'
    if ref is None:
        return False
    a, b = ALLOC[ref], ALLOC[new]
    if sorted(a) != sorted(b):
        return True
    return any(a[k] - b[k] > tol for k in a)


class Model(object):
    'the reference: what the series of rounds started from, and when the last good round ended'
    def __init__(self):
        self.ref = None
        self.end = None

    def earliest(self, name, delay, always, tol, rtt=0.0):
        if self.end is None:
            return 0
        if always or changed(self.ref, name, tol):
            return self.end + delay + rtt
        return self.end

    def stopped(self, name, ok, end, always, tol):
        if not ok:
            return
        self.end = end
        if self.ref is None or always or changed(self.ref, name, tol):
            self.ref = name


class Tracker(World):
    'the delay tracker every node uses, with parameters that may change between rounds'
    delays = [0, 100]
    tols = [TOL, 0.0625]
    begin = []

    def __init__(self):
        World.__init__(self)
        F.reset()
        self.cd = CollectionDelay()
        self.m = Model()
        self.delay, self.tol, self.always, self.rtt = 100, TOL, False, 0.0
        self.last = None
        self.last_good = None
        for op in self.begin:
            self.apply(op)

    def ops(self):
        o = [['round', a, ok] for a in sorted(ALLOC) for ok in (True, False)]
        o += [['wait', 60], ['wait', 40], ['wait', 1000], ['delay', 0], ['delay', 100], ['delay', 50], ['tol', 0.0625], ['tol', TOL], ['always'], ['rtt']]
        return o

    def apply(self, op):
        REACTOR.jump(1.0)
        k = op[0]
        if k == 'round':
            t0 = CLOCK.now
            REACTOR.jump(5.0)
            # a round may run although it was not permitted: other nodes decide too
            self.cd.set_delay_for_stop(op[2], noise(op[1]), t0, CLOCK.now, self.delay, max_client_rtt=self.rtt,
                                       always_delay=self.always, tolerance=self.tol)
            self.m.stopped(op[1], op[2], CLOCK.now, self.always, self.tol)
        elif k == 'wait':
            REACTOR.jump(op[1] - 1.0)
        elif k == 'delay':
            self.delay = op[1]
        elif k == 'tol':
            self.tol = op[1]
        elif k == 'always':
            self.always = not self.always
        elif k == 'rtt':
            self.rtt = 3.0 if not self.rtt else 0.0
        if self.final:
            self.judge()

    def judge(self):
        now = CLOCK.now
        verdicts = []
        for a in sorted(ALLOC):
            want = self.m.earliest(a, self.delay, self.always, self.tol, self.rtt)
            kw = {'max_client_rtt': self.rtt, 'always_delay': self.always, 'tolerance': self.tol}
            got = self.cd.get_next_round_start_time(noise(a), self.delay, **kw)
            if got != want:
                self.fail('start-time', 'allocation %s may start at %r, expected %r' % (a, got, want))
            times = [now]
            if self.m.end is not None:
                # on both sides of the time that is right, and of the one that would be without a delay
                times = [want - 0.5, want, self.m.end if want != self.m.end else want + 1000000.0]
            for t in times:
                ok = bool(self.cd.round_start_permitted(noise(a), t, self.delay, **kw))
                if ok != (t >= want):
                    self.fail('permitted' if ok else 'refused',
                              'a round with allocation %s at %+.1f s after the last end was %s (delay %r, always %r, tolerance %r)' % (
                                  a, t - (self.m.end or t), 'permitted' if ok else 'refused', self.delay, self.always, self.tol))
            verdicts.append(now >= want)
        self.last = tuple(verdicts)

    def canon(self):
        d = self.cd
        ago = None if self.m.end is None else min(CLOCK.now - self.m.end, 200)
        hidden = tuple((k, repr(v if not isinstance(v, float) else round(CLOCK.now - v, 1) if abs(v) > 1e8 else v)) for k, v in sorted(vars(d).items()) if 'time' not in k)
        return (hidden, ago, self.m.ref, self.delay, self.tol, self.always, self.rtt)

    def outcome(self):
        return self.last


class Node(World):
    'a real client enforcing the delay: accepts exactly the rounds that are permitted'
    kind = 'sk'
    after = False

    def __init__(self):
        World.__init__(self)
        F.reset()
        ENTROPY.gauss_hook = lambda mu, sigma: 0.0
        self.conf = {'delay_period': 100, 'sigma_decrease_tolerance': TOL, 'always_delay': False}
        self.node = F.make_sk(0, **self.conf) if self.kind == 'sk' else F.make_dc(sks=0, **self.conf)
        self.m = Model()
        self.running = None
        self.last = None
        for op in (['start', 'base'], ['stop', True]) if self.after else ():
            self.apply(op)

    def ops(self):
        o = [['start', a] for a in (('base', 'down1', 'down2', 'added') if self.kind == 'sk' else ('base', 'down2', 'removed'))]
        o += [['stop', True], ['stop', False], ['wait', 60], ['wait', 100], ['conf', 'delay_period', 0], ['conf', 'always_delay', True]]
        if self.kind == 'sk':
            o += [['conf', 'sigma_decrease_tolerance', 0.0625]]
        return o

    def start_config(self, a):
        c = F.start_config(sks=0)
        c['counters'] = dict((k, {'bins': [[0.0, INF]]}) for k in ALLOC[a])
        c['noise'] = noise(a)
        if self.kind == 'sk':
            c['shares'] = []
        return F.wire(c)

    def apply(self, op):
        REACTOR.jump(1.0)
        k = op[0]
        now = CLOCK.now
        if k == 'start':
            r = self.node.do_start(self.start_config(op[1]))
            ok = now >= self.m.earliest(op[1], self.conf['delay_period'], self.conf['always_delay'], self.conf['sigma_decrease_tolerance'])
            busy = self.kind == 'dc' and self.running is not None
            self.last = (op[0], r is not None)
            if r is not None and not ok:
                self.fail('started-early', '%s accepted a round with allocation %s before the delay had passed' % (self.kind, op[1]))
            elif r is None and ok and not busy:
                self.fail('permitted-refused', '%s refused a round with allocation %s that is permitted' % (self.kind, op[1]))
            elif r is not None:
                self.running = op[1]
                if self.kind == 'dc':
                    REACTOR.advance(0.5)
                    self.node.aggregator.set_fingerprint(F.FP_A)
        elif k == 'stop':
            r = self.node.do_stop({'send_counters': op[1]})
            got = 'Counts' in r and r['Counts'] is not None
            want = op[1] and self.running is not None
            self.last = (op[0], got)
            if got != want:
                self.fail('counts', '%s %s counts' % (self.kind, 'returned' if got else 'did not return'))
            if self.running is not None:
                self.m.stopped(self.running, want, now, self.conf['always_delay'], self.conf['sigma_decrease_tolerance'])
            self.running = None
        elif k == 'wait':
            REACTOR.jump(op[1] - 1.0)
        elif k == 'conf':
            self.conf[op[1]] = op[2]
            if self.kind == 'sk':
                F.write_yaml('sk0.yaml', F.sk_config(0, **self.conf))
            else:
                F.write_yaml('dc0.yaml', F.dc_config('dc0', 0, **self.conf))
            self.node.refresh_config()

    def canon(self):
        ago = None if self.m.end is None else min(CLOCK.now - self.m.end, 150)
        cd = self.node.collection_delay if hasattr(self.node, 'collection_delay') else None
        hidden = cd and tuple((k, repr(v)) for k, v in sorted(vars(cd).items()) if 'time' not in k)
        return (hidden, ago, self.m.ref, self.running, sorted(self.conf.items()), F.shallow(self.node, ('config', 'start_config', 'context')))

    def outcome(self):
        return self.last


def node(kind, after):
    class N(Node):
        pass
    N.kind = kind
    N.after = after
    return N


BEGIN = {'new': [], 'always': [['round', 'base', True], ['always']], 'tight': [['round', 'up-down', True], ['tol', 0.0625]],
         'series': [['round', 'base', True], ['wait', 60], ['round', 'down-half', True]]}


def tracker(name):
    class T(Tracker):
        begin = BEGIN[name]
    return T


def run(ctx):
    for b in sorted(BEGIN):
        search(ctx, tracker(b), 5 if ctx.thorough else 3 if b == 'new' else 2, 'tracker-' + b, {'kind': 'tracker', 'begin': b}, max_states=200000)
    for k in ('sk', 'dc'):
        for after in (False, True):
            search(ctx, node(k, after), (6 if ctx.thorough else 3) + after, k + ('-after' if after else ''), {'kind': k, 'after': after}, max_states=20000)


def replay(ctx, case):
    replay_path(ctx, tracker(case['begin']) if case['kind'] == 'tracker' else node(case['kind'], case['after']), case)
