'''
P13: every bin layout over a small lattice of edges, every value on, beside and
between the edges, every increment; then sequences of increments over several
counters, on the real counters.
'''
import itertools

import env
import fixtures as F
from env import ENTROPY, HarnessExit
from explore import search, World, replay_path, plain
from privcount.counter import SecureCounters, counter_modulus, get_valid_counters, get_events_for_counter

Q = counter_modulus()
INF = float('inf')
NAN = float('nan')
EPS = 2.0 ** -40
ANY = SecureCounters.SINGLE_BIN


def counters(layouts, modulus=Q):
    c = dict((k, {'bins': [list(b) for b in v], 'sigma': 1.0}) for k, v in layouts.items())
    return SecureCounters(c, modulus, require_generate_noise=False)


def counts(sc):
    got = sc.detach_counts()
    return dict((k, [b[2] for b in v['bins']]) for k, v in got.items())


def inside(lo, hi, v):
    'the documented rule, on its own'
    if v != v:
        return False
    if hi == INF:
        return v >= lo
    return lo <= v < hi


def layouts(edges, max_bins):
    'every ordered set of disjoint bins (touching or with gaps) over the edges'
    pairs = [(a, b) for a in edges for b in edges if a < b]
    for n in range(1, max_bins + 1):
        for combo in itertools.combinations(pairs, n):
            if all(combo[i][1] <= combo[i + 1][0] for i in range(n - 1)):
                yield combo


def attempt(sc, name, value, inc):
    try:
        if value is None:
            sc.increment(name, inc=inc)
        else:
            sc.increment(name, bin=value, inc=inc)
        return True
    except HarnessExit:
        raise
    except Exception:
        return False


def judge(ctx, layout, value, inc, modulus):
    case = {'kind': 'one', 'layout': [[repr(x) for x in b] for b in layout], 'value': repr(value), 'inc': repr(inc), 'modulus': str(modulus)}
    # another counter with the same bins, and one single-bin counter, must not move
    both = {'ZeroCount': [(0.0, INF)], 'ExitStreamByteHistogram': layout, 'EntryCircuitInboundCellHistogram': layout}
    single = len(layout) == 1
    sc = counters(both, modulus)
    ok = attempt(sc, 'ExitStreamByteHistogram', value, inc)
    got = counts(sc)
    # None is "no bin given", the placeholder of a counter with a single bin
    marker = value is None or value != value
    whole = inc == int(inc)
    allowed = whole and (marker == single)
    ctx.evaluation()
    ctx.transition()
    if allowed and not ok:
        ctx.violation('refused', 'increment of %r by %r on %r was refused' % (value, inc, layout), case)
    if not allowed and ok:
        ctx.violation('misuse-accepted', 'increment of %r by %r on %r was accepted' % (value, inc, layout), case)
    # a counter with a single bin counts everything
    where = 1.0 if single else value
    expect = [(int(inc) % modulus if allowed and inside(lo, hi, where) else 0) for lo, hi in layout]
    if got['ExitStreamByteHistogram'] != expect:
        ctx.violation('wrong-bin', 'increment of %r by %r on %r gave %r, not %r' % (value, inc, layout, got['ExitStreamByteHistogram'], expect), case)
    if any(got['ZeroCount']) or any(got['EntryCircuitInboundCellHistogram']):
        ctx.violation('other-counter', 'increment of one counter changed another: %r' % got, case)
    ctx.state((layout, repr(value), repr(inc), modulus))
    ctx.outcome((allowed, tuple(1 if e else 0 for e in expect)))


def values(layout):
    out = [None, NAN, INF, -INF, -1.0, 0.0, 1e300, 2 ** 62]
    for b in layout:
        for e in b:
            if abs(e) != INF:
                out += [e, e - EPS, e + EPS, e + 0.5, int(e)]
    seen = []
    for v in out:
        if repr(v) not in [repr(s) for s in seen]:
            seen.append(v)
    return seen


INCS = [0, 1, 2, -1, 2.0, 0.5, -1.5, 10 ** 12, Q - 1, Q, Q + 3]


class Sequence(World):
    'several counters, some with bins in common, one after another'
    L = {'ZeroCount': [(0.0, INF)],
         'ExitStreamByteHistogram': [(0.0, 10.0), (10.0, 20.0), (20.0, INF)],
         'EntryCircuitInboundCellHistogram': [(5.0, 10.0), (15.0, 20.0)]}

    def __init__(self):
        World.__init__(self)
        F.reset()
        self.sc = counters(self.L, self.modulus)
        self.model = dict((k, [0] * len(v)) for k, v in self.L.items())
        self.shares = {}
        self.detached = False
        self.last = None

    def ops(self):
        o = []
        if self.detached:
            return [['ZeroCount', 'none', 1], ['NoSuchCount', '0', 1], ['detach']]
        for v in ('none', '0', '9.75', '10', '15', '19.75', '20', '-1', 'inf'):
            for name in sorted(self.L) + ['NoSuchCount']:
                o.append([name, v, 1])
        return o + [['ExitStreamByteHistogram', '10', 3], ['ExitStreamByteHistogram', '10', 1000003], ['ZeroCount', 'none', -2],
                    ['ZeroCount', 'none', 0.5], ['blind'], ['detach']]

    def apply(self, op):
        if op == ['blind']:
            self.sc.generate_blinding_shares(['a', 'b'])
            for uid, s in (self.sc.detach_blinding_shares() or {}).items():
                for k, v in s['secret'].items():
                    for i, b in enumerate(v['bins']):
                        self.model[k][i] = (self.model[k][i] + b[2]) % self.modulus
            return
        if op == ['detach'] and self.detached:
            return
        if op == ['detach']:
            self.compare(self.sc.detach_counts())
            self.detached = True
            return
        name, v, inc = op
        value = None if v == 'none' else float(v)
        ok = attempt(self.sc, name, value, inc)
        self.last = ok
        if name not in self.L or self.detached:
            if not ok:
                self.fail('unknown-refused', 'an increment of an unknown counter raised')
            return
        single = len(self.L[name]) == 1
        allowed = inc == int(inc) and single == (value is None)
        if ok != allowed:
            self.fail('misuse' if ok else 'refused', 'increment %r was %s' % (op, 'accepted' if ok else 'refused'))
        if allowed:
            for i, (lo, hi) in enumerate(self.L[name]):
                if inside(lo, hi, 1.0 if single else value):
                    self.model[name][i] = (self.model[name][i] + inc) % self.modulus

    def compare(self, got):
        if self.detached:
            if got is not None:
                self.fail('detached-twice', 'counts were detached twice')
            return
        got = dict((k, [b[2] for b in v['bins']]) for k, v in got.items())
        if got != self.model:
            self.fail('wrong-total', 'counters hold %r, not %r' % (got, self.model))
        for k, v in got.items():
            if any(not (0 <= x < self.modulus) for x in v):
                self.fail('out-of-range', '%s holds %r' % (k, v))

    def finish(self):
        if not self.detached:
            self.compare(self.sc.detach_counts())

    def canon(self):
        c = self.sc.counters
        return (self.detached, repr(sorted(self.model.items())), repr(sorted(c.items())) if c else None)

    def outcome(self):
        return (self.last, self.detached, sum(1 for v in self.model.values() for x in v if x))


def seq(modulus):
    class S(Sequence):
        pass
    S.modulus = modulus
    return S


def run(ctx):
    edges = [-5.0, 0.0, 0.1, 1.0, 7.0, INF]
    if ctx.thorough:
        edges = [-INF] + edges + [2.0 ** 53]
    for layout in layouts(edges, 5 if ctx.thorough else 4):
        if not ctx.mine():
            continue
        for v in values(layout):
            for inc in INCS:
                judge(ctx, layout, v, inc, Q)
            for m in (2, 7, 2 ** 64 + 13):
                judge(ctx, layout, v, 1, m)
        ctx.trace()
    # every counter there is: a value goes to the counter that was named and no other
    names = sorted(n for n in get_valid_counters() if 'TrafficModel' not in n)
    if ctx.mine(0):
        shape = lambda n: [(0.0, 5.0), (5.0, INF)] if n.endswith('Histogram') or n.endswith('List') or n.endswith('Ratio') else [(0.0, INF)]
        sc = counters(dict((m, shape(m)) for m in names))
        for i, n in enumerate(names):
            attempt(sc, n, 5.0 if len(shape(n)) > 1 else None, i + 1)
            ctx.evaluation()
            ctx.state(('name', n))
        ctx.outcome('all names')
        got = counts(sc)
        for i, n in enumerate(names):
            if got[n] != ([0, i + 1] if len(shape(n)) > 1 else [i + 1]):
                ctx.violation('other-counter', 'after one increment of each counter, the one of %s by %d left %r' % (n, i + 1, got[n]), {'kind': 'name'})
    for m in (5, Q):
        search(ctx, seq(m), 4 if ctx.thorough else 2, 'sequences-%d' % (m % 1000), {'kind': 'seq', 'modulus': str(m)})


def replay(ctx, case):
    case = plain(case)
    if case['kind'] == 'seq':
        replay_path(ctx, seq(int(case['modulus'])), case)
    elif case['kind'] == 'one':
        layout = tuple(tuple(float(x) for x in b) for b in case['layout'])
        v = None if case['value'] == 'None' else float(case['value'])
        inc = float(case['inc']) if '.' in case['inc'] else int(case['inc'].rstrip('L'))
        judge(ctx, layout, v, inc, int(case['modulus']))
