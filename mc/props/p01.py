'''
P01: the published tally is exactly the sum of the increments and the noise.

Every blinding draw (small moduli), every noise choice, every order in which
the reports are combined, every layout in LAYOUTS, 1..3 collectors and 1..3
share keepers, with the shares passed through the real JSON encoding.
Oracle: integer arithmetic on the increments, by bin.
'''
import itertools
import json

import env
from env import ENTROPY
from explore import choices
from privcount.counter import (SecureCounters, adjust_count_signed, counter_modulus,
                               min_tally_counter_value, max_tally_counter_value)

INF = float('inf')
LAYOUTS = {
    'one': {'A': [[0.0, INF]]},
    'two': {'A': [[0.0, 2.0], [2.0, INF]]},
    'mix': {'A': [[0.0, 2.0], [2.0, INF]], 'B': [[0.0, INF]]},
    'neg': {'A': [[-INF, 0.0], [0.0, 1.0], [1.0, INF]]},
}
# (counter, bin value or None for single bin, increment)
EVENTS = {
    'one': [('A', None, 1), ('A', None, 2)],
    'two': [('A', 0.0, 1), ('A', 2.0, 3), ('A', INF, 1)],
    'mix': [('A', 1.0, 1), ('B', None, 1), ('A', 2.0, 2)],
    'neg': [('A', -1.0, 1), ('A', 0.5, 2), ('A', 1.0, 1)],
}


def layout(name, sigma=1.0):
    return dict((k, {'bins': [list(b) for b in v], 'sigma': sigma})
                for k, v in LAYOUTS[name].items())


def bins_of(name):
    return [(k, i) for k in sorted(LAYOUTS[name]) for i in range(len(LAYOUTS[name][k]))]


def bin_index(name, event):
    counter, value, _ = event
    bs = LAYOUTS[name][counter]
    if len(bs) == 1:
        return 0
    for i, (lo, hi) in enumerate(bs):
        if lo <= value and (value < hi or hi == INF):
            return i


def wire(x):
    return json.loads(json.dumps(x))


def signed(v, q):
    v %= q
    return v - q if v >= (q + 1) // 2 else v


def one_round(name, q, dcs, sks, events, draw, noise, orders, order_at=0):
    '''
    events[d]: indexes of EVENTS for each collector, before/after noise
    draw(k): the next k bits; noise(): the next noise value
    Returns (published, expected)
    '''
    ENTROPY.bits_hook = draw
    ENTROPY.range_hook = None
    applied = {}
    state = {'noise': None}

    def gauss(mu, sigma):
        v = noise()
        state['noise'].append(v)
        return v
    ENTROPY.gauss_hook = gauss
    uids = ['sk%d' % i for i in range(sks)]
    expected = dict((b, 0) for b in bins_of(name))
    reports = []
    keepers = [SecureCounters(layout(name), q, require_generate_noise=False) for _ in uids]
    for d in range(dcs):
        c = SecureCounters(layout(name), q)
        c.generate_blinding_shares(uids)
        shares = wire(c.detach_blinding_shares())
        state['noise'] = []
        half = len(events[d]) // 2
        for e in events[d][:half]:
            bump(c, name, EVENTS[name][e], expected)
        c.generate_noise(1.0)
        for e in events[d][half:]:
            bump(c, name, EVENTS[name][e], expected)
        # which bin got which noise value does not matter to the caller as long
        # as the value added is the value drawn: recover it from the structure
        # by drawing the same value for every bin
        for b in expected:
            expected[b] += int(state['noise'][0]) if state['noise'] else 0
        counts = c.detach_counts()
        reports.append(('dc%d' % d, wire(counts)))
        for i, uid in enumerate(uids):
            assert keepers[i].import_blinding_share(shares[uid]) is True
    for i, uid in enumerate(uids):
        reports.append((uid, wire(keepers[i].detach_counts())))
    results = []
    for order in orders(len(reports)):
        t = SecureCounters(layout(name), q, require_generate_noise=False)
        ok = t.tally_counters([reports[i][1] for i in order])
        results.append((order, ok, t.detach_counts()))
    ENTROPY.reset()
    return results, expected


def bump(c, name, event, expected):
    counter, value, inc = event
    if value is None:
        c.increment(counter, bin=SecureCounters.SINGLE_BIN, inc=inc)
    else:
        c.increment(counter, bin=value, inc=inc)
    expected[(counter, bin_index(name, event))] += inc


def all_orders(n):
    return list(itertools.permutations(range(n)))


def two_orders(n):
    return [tuple(range(n)), tuple(reversed(range(n)))]


def check_results(ctx, name, q, results, expected, case):
    for order, ok, counts in results:
        ctx.transition()
        if ok is not True:
            ctx.violation('tally-refused', 'tally_counters returned %r' % (ok,), case)
            return
        got = dict(((k, i), counts[k]['bins'][i][2]) for k, i in bins_of(name))
        want = dict((b, signed(v, q)) for b, v in expected.items())
        if got != want:
            ctx.violation('tally-wrong', 'order %r: published %r, expected %r (modulus %r)' % (order, got, want, q), case)
        for k in LAYOUTS[name]:
            edges = [b[:2] for b in counts[k]['bins']]
            if edges != LAYOUTS[name][k]:
                ctx.violation('bins-changed', 'bins %r' % (edges,), case)
        ctx.outcome(sorted(got.values()))


def exhaustive_case(ctx, name, q, dcs, sks, noise_set, events, orders, cap_draws):
    case = {'kind': 'exhaustive', 'name': name, 'q': q, 'dcs': dcs, 'sks': sks, 'noise': noise_set, 'events': events}

    def body(ch, fixed=None):
        def draw(k):
            return ch(2 ** k)
        pending = []

        def noise():
            # one noise value per collector, the same in each of its bins
            if not pending:
                pending.extend([noise_set[ch(len(noise_set))]] * len(bins_of(name)))
            return float(pending.pop())
        return one_round(name, q, dcs, sks, events, draw, noise, orders)
    for taken, (results, expected) in choices(body):
        ctx.trace()
        ctx.state((name, q, dcs, sks, events, taken))
        check_results(ctx, name, q, results, expected, dict(case, taken=taken))
    ctx.sample(case)


def boundary_case(ctx, name, dcs, sks, events, noise_values, orders):
    'the real modulus, draws from {0, 1, q/2-1, q/2, q-1} in every combination of (collector, keeper) value'
    q = counter_modulus()
    values = [0, 1, q // 2 - 1, q // 2, q - 1]
    case = {'kind': 'boundary', 'name': name, 'dcs': dcs, 'sks': sks, 'events': events, 'noise': noise_values}
    nb = len(bins_of(name))

    def body(ch):
        pend, npend = [], []

        def draw(k):
            if not pend:
                base = ch(len(values))
                pend.extend([values[(base + i) % len(values)] for i in range(nb)][::-1])
            return pend.pop()

        def noise():
            if not npend:
                npend.extend([noise_values[ch(len(noise_values))]] * nb)
            return float(npend.pop())
        return one_round(name, q, dcs, sks, events, draw, noise, orders)
    for taken, (results, expected) in choices(body):
        ctx.trace()
        ctx.state(('real', name, dcs, sks, events, noise_values, taken))
        check_results(ctx, name, q, results, expected, dict(case, taken=taken))


def event_sets(name, dcs):
    evs = range(len(EVENTS[name]))
    yield [[] for _ in range(dcs)]
    yield [[e for e in evs] for _ in range(dcs)]
    for e in evs:
        yield [[e] if d == 0 else [] for d in range(dcs)]


def cases(ctx):
    # (name, q, dcs, sks)
    small = [('one', 2, 1, 1), ('one', 4, 1, 1), ('one', 8, 1, 2), ('one', 4, 2, 2), ('one', 2, 3, 2),
             ('two', 2, 1, 1), ('two', 4, 1, 2), ('two', 2, 2, 2), ('mix', 2, 1, 2), ('mix', 2, 2, 1),
             ('mix', 4, 1, 1), ('neg', 2, 1, 2), ('neg', 4, 1, 1)]
    if ctx.thorough:
        small += [('one', 8, 2, 2), ('one', 2, 3, 3), ('one', 16, 1, 3), ('two', 4, 2, 1),
                  ('two', 2, 2, 3), ('mix', 2, 2, 2), ('mix', 4, 1, 2), ('neg', 4, 1, 2), ('neg', 2, 2, 2)]
    for name, q, dcs, sks in small:
        for events in event_sets(name, dcs):
            if q ** (len(bins_of(name)) * dcs * sks) > 5000 and events != [list(range(len(EVENTS[name])))] * dcs and not ctx.thorough:
                continue
            yield lambda name=name, q=q, dcs=dcs, sks=sks, events=events: exhaustive_case(
                ctx, name, q, dcs, sks, [0, -1] if dcs < 3 else [-1], events,
                all_orders if dcs + sks <= 3 else two_orders, None)
    for name in sorted(LAYOUTS):
        for dcs, sks in [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(1, 3), (3, 1), (2, 3), (3, 2)] if ctx.thorough else []):
            for events in event_sets(name, dcs):
                yield lambda name=name, dcs=dcs, sks=sks, events=events: boundary_case(
                    ctx, name, dcs, sks, events,
                    [0, -3, 2 ** 40] if dcs * sks < 4 else [-3],
                    all_orders if dcs + sks <= 4 and not (dcs * sks >= 4) else two_orders)


def signed_cases(ctx):
    'the signed representation inverts reduction for every value of every small modulus, and at the edges of the real one'
    qs = list(range(1, 130)) + [2 ** 31, 2 ** 64, 2 ** 64 + 1, counter_modulus(), counter_modulus() - 1]
    for q in qs:
        if not ctx.mine():
            continue
        if q <= 130:
            vals = range(q)
        else:
            vals = sorted(set([0, 1, 2, q // 2 - 2, q // 2 - 1, q // 2, q // 2 + 1, q // 2 + 2, (q + 1) // 2, q - 2, q - 1]))
        for v in vals:
            s = adjust_count_signed(v, q)
            ctx.transition()
            ctx.state(('signed', q, v))
            ok = s % q == v and -(q // 2) <= s and s <= (q // 2 if q % 2 else q // 2 - 1)
            ctx.expect(ok, 'signed', 'adjust_count_signed(%d, %d) = %r' % (v, q, s), {'kind': 'signed', 'q': q, 'v': v})
    q = counter_modulus()
    ctx.expect(min_tally_counter_value() == -(q // 2), 'min-tally', repr(min_tally_counter_value()), {'kind': 'limits'})
    ctx.expect(max_tally_counter_value() == q // 2 - 1, 'max-tally', repr(max_tally_counter_value()), {'kind': 'limits'})


def mismatch_cases(ctx):
    'a report whose structure does not match is refused, not partly added'
    good = {'A': {'bins': [[0.0, 2.0, 5], [2.0, INF, 6]]}, 'B': {'bins': [[0.0, INF, 7]]}}
    bad = []
    bad.append({'A': good['A']})
    bad.append({'B': good['B']})
    bad.append({})
    bad.append({'A': {'bins': good['A']['bins'][:1]}, 'B': good['B']})
    bad.append({'A': {'bins': good['A']['bins'] + [[1, 2, 3]]}, 'B': good['B']})
    bad.append({'A': {'bins': [[0.0, 2.0], [2.0, INF]]}, 'B': good['B']})
    bad.append({'A': good['A'], 'B': {}})
    bad.append({'A': good['A'], 'B': {'bins': []}})
    for i, b in enumerate(bad):
        for pos in (0, 1):
            ctx.transition()
            ctx.state(('mismatch', i, pos))
            t = SecureCounters(layout('mix'), counter_modulus(), require_generate_noise=False)
            ok = t.tally_counters([b, good] if pos == 0 else [good, b])
            ctx.expect(ok is False, 'mismatch-accepted', 'a report with another structure was added: %r' % (b,), {'kind': 'mismatch', 'i': i})
            t = SecureCounters(layout('mix'), counter_modulus(), require_generate_noise=False)
            r = t.import_blinding_share({'secret': b, 'sk_uid': 'x'})
            ctx.expect(r is False, 'share-mismatch-accepted', 'a share with another structure was added: %r' % (b,), {'kind': 'mismatch', 'i': i})
            left = t.detach_counts()
            vals = [x[2] for k in left for x in left[k]['bins']]
            ctx.expect(not any(vals), 'share-mismatch-partial', 'a refused share changed the counts: %r' % (vals,), {'kind': 'mismatch', 'i': i})


def run(ctx):
    signed_cases(ctx)
    if ctx.part == 0:
        mismatch_cases(ctx)
    for c in cases(ctx):
        if ctx.mine():
            c()


def replay(ctx, case):
    ctx.nparts, ctx.part = 1, 0
    if case['kind'] == 'signed':
        signed_cases(ctx)
    elif case['kind'] == 'exhaustive':
        exhaustive_case(ctx, case['name'], case['q'], case['dcs'], case['sks'], case['noise'], case['events'], all_orders, None)
    elif case['kind'] == 'boundary':
        boundary_case(ctx, case['name'], case['dcs'], case['sks'], case['events'], case['noise'], all_orders)
    else:
        mismatch_cases(ctx)
