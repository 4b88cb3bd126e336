'''
P29: every noise configuration over a grid of budgets, sensitivities, estimates, excess
ratios, sample rates and tolerances, for every small set of counters, with and without
the dummy counter. The allocation the real code returns is judged by an independent
computation of the Gaussian mechanism's tail.
'''
import itertools
import math
import os

import env
import fixtures as F
from explore import plain

DUMMY = 'ZeroCount'
# whether events of these counters are sampled by circuit is documented in the manual:
# everything but connection and onion service directory events
SAMPLED = ['ExitStreamCount', 'EntryCircuitCount', 'ExitStreamByteCount']
UNSAMPLED = ['EntryConnectionCount', 'HSDir2StoreCount']

EPSILON = [0.01, 0.3, 1.0, 4.0]
DELTA = [1e-20, 1e-11, 1e-6, 1e-3, 0.1]
PAIRS = [(1.0, 100.0), (1, 3000), (20.0, 100.0), (651.5, 3e4), (1e6, 1e9), (1e7, 100.0), (3.0, 0.125), (0.5, 1e10)]
EXCESS = [1.0, 2.0, 18.5]
RATE = [1.0, 0.5, 0.01]


def tail(s, epsilon, sigma):
    'probability that noise of this size exceeds the epsilon bound'
    return 0.5 * math.erfc((epsilon * sigma / s - s / (2.0 * sigma)) / math.sqrt(2.0))


def least_epsilon(s, delta, sigma):
    'smallest epsilon at which the bound holds'
    lo, hi = 0.0, 1.0
    while tail(s, hi, sigma) > delta:
        hi *= 2.0
    for _ in range(200):
        mid = (lo + hi) / 2.0
        if tail(s, mid, sigma) > delta:
            lo = mid
        else:
            hi = mid
    return hi


def allocate(case):
    from privcount.statistics_noise import get_noise_allocation
    p = dict((k, case[k]) for k in ('epsilon', 'delta', 'excess_noise_ratio', 'sigma_tolerance', 'epsilon_tolerance', 'sigma_ratio_tolerance') if k in case)
    counters = dict((name, {'sensitivity': s, 'estimated_value': v}) for name, s, v in case['counters'])
    if case['dummy']:
        counters[DUMMY] = {'sensitivity': 0.0, 'estimated_value': 0.0}
    conf = {'privacy': p, 'counters': counters}
    if case['again']:
        # what was allocated before, as the tally server writes it
        get_noise_allocation(conf, circuit_sample_rate=1.0)
    if case['rate'] == 1.0:
        return get_noise_allocation(conf)
    return get_noise_allocation(conf, circuit_sample_rate=case['rate'])


def judge(ctx, case):
    case = plain(case)
    ctx.transition()
    ctx.trace()
    ctx.state(repr(sorted(case.items())))
    names = [n for n, _, _ in case['counters']]
    try:
        got = allocate(case)
    except Exception as e:
        ctx.violation('rejected', 'a valid noise configuration was refused with %s: %s: %r' % (type(e).__name__, e, case), case)
        return
    for key, message in problems(case, got):
        ctx.violation(key, '%s: %r' % (message, case), case)
    ctx.outcome((len(names), case['dummy'], case['rate'], case['excess_noise_ratio']))
    if len(ctx.samples) < 5:
        ctx.sample({'case': case, 'sigma': dict((n, got['counters'][n]['sigma']) for n in names)})


def problems(case, got):
    out = []
    counters = got['counters']
    names = [n for n, _, _ in case['counters']]
    if set(counters) != set(names + [DUMMY]):
        return [('counters', 'noise was allocated for %r' % sorted(counters))]
    if any(counters[DUMMY][k] for k in ('sigma', 'epsilon', 'expected_noise_ratio')):
        out.append(('dummy', 'the dummy counter has %r' % counters[DUMMY]))
    n = len(names) + (1 if case['dummy'] else 0)
    fair = case['delta'] / len(names)
    # the share of delta of each counter, when all counters of the file have the same share
    share = case['delta'] / n
    total = 0.0
    ratios = {}
    for name, s, v in case['counters']:
        c = counters[name]
        if (c['sensitivity'], c['estimated_value']) != (s, v):
            out.append(('parameters', '%s came back with %r' % (name, c)))
        if not c['sigma'] > 0.0:
            out.append(('no-noise', 'the sigma of %s is %r' % (name, c['sigma'])))
            continue
        if not c['epsilon'] > 0.0:
            out.append(('no-share', 'the epsilon of %s is %r' % (name, c['epsilon'])))
            continue
        t = tail(s, c['epsilon'], c['sigma'])
        if t > fair * (1.0 + 1e-4):
            out.append(('bound', 'with sigma %r and epsilon %r, %s violates the bound with probability %r, its share of delta is %r' % (c['sigma'], c['epsilon'], name, t, fair)))
        total += c['epsilon']
        scale = case['rate'] if name in SAMPLED else 1.0
        # what is expected of the noise of all collectors together
        ratios[name] = math.sqrt(case['excess_noise_ratio']) * c['sigma'] / (v * scale)
        if not near(c['expected_noise_ratio'], ratios[name]):
            out.append(('reported-ratio', 'the expected noise ratio of %s is reported as %r, and is %r' % (name, c['expected_noise_ratio'], ratios[name])))
    if len(ratios) == len(names):
        if total > case['epsilon'] * (1.0 + 1e-9):
            out.append(('budget', 'the shares of epsilon sum to %r' % total))
        if not near(min(ratios.values()), max(ratios.values())):
            out.append(('equal', 'the noise ratios are %r' % ratios))
        if not near(got['privacy']['sigma_ratio'], ratios[names[0]]):
            out.append(('sigma-ratio', 'the sigma ratio is reported as %r, and is %r' % (got['privacy']['sigma_ratio'], ratios[names[0]])))
        # the budget is used: noticeably less noise would not do
        tol = case.get('sigma_ratio_tolerance', 1e-6)
        coarse = max(case.get('sigma_tolerance', 1e-6) * math.sqrt(case['excess_noise_ratio']) / (v * (case['rate'] if name in SAMPLED else 1.0)) for name, _, v in case['counters'])
        less = (ratios[names[0]] - 2.0 * (tol + coarse)) * (1.0 - 1e-5)
        if less > 0.0:
            spent = 0.0
            for name, s, v in case['counters']:
                scale = case['rate'] if name in SAMPLED else 1.0
                spent += least_epsilon(s, share, less * v * scale / math.sqrt(case['excess_noise_ratio']))
            if spent <= case['epsilon']:
                out.append(('wasteful', 'noise of ratio %r would have been enough, allocated is %r' % (less, ratios[names[0]])))
    for k in ('epsilon', 'delta', 'excess_noise_ratio'):
        if got['privacy'][k] != case[k]:
            out.append(('parameters', '%s came back as %r' % (k, got['privacy'][k])))
    return out


def near(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def cases(thorough):
    def case(eps, delta, enr, rate, dummy, counters, **kw):
        return dict(kw, epsilon=eps, delta=delta, excess_noise_ratio=enr, rate=rate, dummy=dummy, counters=counters, again=kw.get('again', False))
    # single counters
    for eps, delta, (s, v), enr, rate, dummy in itertools.product(EPSILON, DELTA, PAIRS, EXCESS, RATE, (False, True)):
        yield case(eps, delta, enr, rate, dummy, [[SAMPLED[0], s, v]])
    # pairs: sampled with sampled, sampled with unsampled
    for eps, delta, a, b, (enr, rate) in itertools.product(EPSILON, DELTA, PAIRS, PAIRS, [(1.0, 1.0), (2.0, 0.5), (18.5, 0.01)] if not thorough else list(itertools.product(EXCESS, RATE))):
        for second in (SAMPLED[1], UNSAMPLED[0]):
            yield case(eps, delta, enr, rate, eps == 0.3, [[SAMPLED[0]] + list(a), [second] + list(b)])
    # three to five counters
    small = PAIRS if thorough else [PAIRS[0], PAIRS[2], PAIRS[5], PAIRS[6]]
    for n in (3, 4, 5) if thorough else (3,):
        for rows in itertools.combinations_with_replacement(small, n):
            names = (SAMPLED + UNSAMPLED)[-n:]
            for eps, delta in ((0.3, 1e-3), (1.0, 1e-11)):
                for enr, rate in ((1.0, 1.0), (2.0, 0.01)):
                    yield case(eps, delta, enr, rate, rate != 1.0, [[m, s, v] for m, (s, v) in zip(names, rows)])
    # tolerances of one's own, and files that were written by an earlier allocation
    for st, et, rt in itertools.product((1e-9, 1e-3), (1e-12, 1e-9), (1e-9, 1e-3)):
        for rows in itertools.product(PAIRS[:3], repeat=2):
            yield case(0.3, 1e-6, 1.0, 1.0, False, [[SAMPLED[0]] + list(rows[0]), [UNSAMPLED[0]] + list(rows[1])], sigma_tolerance=st, epsilon_tolerance=et, sigma_ratio_tolerance=rt)
    for rows in itertools.product(PAIRS, repeat=2):
        for rate in RATE:
            yield case(0.3, 1e-6, 1.0, rate, True, [[SAMPLED[0]] + list(rows[0]), [UNSAMPLED[0]] + list(rows[1])], again=True)


# ---- through the tally server -----------------------------------------------------------
def server(ctx, case=None):
    'a configuration file, the noise in force, and the file it is written to'
    for (a, b), rate, dummy in itertools.product(itertools.product(PAIRS[:4], repeat=2), RATE, (False, True)):
        c = {'server': [[SAMPLED[0]] + list(a), [UNSAMPLED[0]] + list(b)], 'rate': rate, 'dummy': dummy}
        if case is None and not ctx.mine() or case is not None and plain(case) != c:
            continue
        F.reset()
        ctx.transition()
        ctx.trace()
        ctx.state(repr(sorted(c.items())))
        one = {'epsilon': 0.3, 'delta': 1e-3, 'excess_noise_ratio': 2.0, 'rate': rate, 'dummy': dummy, 'counters': c['server'], 'again': False}
        conf = {'privacy': {'epsilon': 0.3, 'delta': 1e-3, 'excess_noise_ratio': 2.0}, 'counters': dict((n, {'sensitivity': s, 'estimated_value': v}) for n, s, v in c['server'])}
        if dummy:
            conf['counters'][DUMMY] = {'sensitivity': 0.0, 'estimated_value': 0.0}
        layouts = dict((n, {'bins': [[0.0, float('inf')]]}) for n, _, _ in c['server'])
        settings = F.ts_config(layouts, circuit_sample_rate=rate)
        t = settings['tally_server']
        t.pop('sigmas', None)
        t['counters'] = F.write_yaml('noise-bins.yaml', {'counters': layouts})
        t['noise'] = F.write_yaml('noise-in.yaml', conf)
        t['allocation'] = os.path.join(F.SCRATCH, 'allocation.yaml')
        from privcount.tally_server import TallyServer
        import yaml
        ts = TallyServer(F.write_yaml('noise-ts.yaml', settings))
        ts.refresh_config()
        if ts.config is None:
            ctx.violation('server-rejected', 'the tally server refused %r' % c, c)
            continue
        for key, message in problems(one, ts.config['noise']):
            ctx.violation('server-' + key, '%s: %r' % (message, c), c)
        with open(t['allocation']) as f:
            written = yaml.load(f)
        if written['counters'] != dict((k, v) for k, v in ts.config['noise']['counters'].items()):
            ctx.violation('server-file', 'the allocation file says %r' % written, c)
        # the file is a noise file
        t['noise'] = t['allocation']
        again = TallyServer(F.write_yaml('noise-ts.yaml', settings))
        again.refresh_config()
        if again.config is None:
            ctx.violation('server-again', 'the tally server refused the allocation file of %r' % c, c)
            continue
        for key, message in problems(dict(one, dummy=True), again.config['noise']):
            ctx.violation('server-again-' + key, 'with the allocation file as noise file: %s: %r' % (message, c), c)


def run(ctx):
    for case in cases(ctx.thorough):
        if ctx.mine():
            judge(ctx, case)
    server(ctx)


def replay(ctx, case):
    if 'server' in case:
        return server(ctx, case)
    judge(ctx, case)
