'''
P12: every small configuration of bins, sigmas, weights and threshold, judged by
the real checks and by the documented rules; and whole start commands against
the real data collector and share keeper.
'''
import itertools
from copy import deepcopy

import env
import fixtures as F
from env import ENTROPY, REACTOR, HarnessExit
from explore import plain
import privcount.counter as C

INF = float('inf')
COUNT, HIST, RATIO, LIST = 'ExitStreamCount', 'ExitStreamByteHistogram', 'ExitStreamByteRatio', 'EntryConnectionCountryMatchCountList'
MAXW = 2 ** 69 - 1      # the largest tally a counter can hold


def verdict(f, *a, **k):
    'True, False, or "raised" (a refusal too)'
    try:
        return bool(f(*a, **k))
    except HarnessExit:
        raise
    except Exception:
        return 'raised'


# ---- the documented rules ------------------------------------------------

def disjoint(rows):
    if any(not b[0] < b[1] for b in rows):
        return False
    for a, b in itertools.combinations(rows, 2):
        if max(a[0], b[0]) < min(a[1], b[1]):
            return False
    return True


def shape_ok(name, rows):
    base = name.split('_')[0]
    # an upload delay is a histogram; the traffic model's delays are sums
    if base.endswith('Count') or (base.endswith('DelayTime') and 'TrafficModel' in base):
        return len(rows) == 1
    return len(rows) > 1


def bins_ok(bins, unknown=False):
    for k, v in bins.items():
        if not unknown and (k not in KNOWN or not shape_ok(k, v['bins'])):
            return False
        if not disjoint(v['bins']):
            return False
    return True


def sigmas_ok(sigmas, unknown=False):
    return all((unknown or k in KNOWN) and v['sigma'] >= 0 for k, v in sigmas.items())


def weights_ok(weights, threshold):
    if not 1 <= threshold <= 10 ** 6:
        return False
    if '*' not in weights and len(weights) < threshold:
        return False
    if any(w < 0 or w > MAXW for w in weights.values()):
        return False
    total = sum(w for k, w in weights.items() if k != '*') + threshold * weights.get('*', 0)
    return 0 <= total <= MAXW


KNOWN = set()


def compare(ctx, what, got, want, case):
    ctx.evaluation()
    ctx.transition()
    ctx.state((what, repr(case)))
    ctx.outcome((what, got, want))
    if (got is True) != want:
        ctx.violation('%s-%s' % (what, 'accepted' if got is True else 'rejected'),
                      '%s %s: %r' % (what, 'accepted an invalid configuration' if got is True else 'rejected a valid configuration (%s)' % got, case), dict(case, what=what))


# ---- judged one by one ---------------------------------------------------

def bins_case(ctx, case):
    case = plain(case)
    rows = [[float(x) for x in b] for b in case['rows']]
    name, unknown = case['name'], case['unknown']
    b = {name: {'bins': rows}}
    if case.get('with'):
        b['ZeroCount'] = {'bins': [[0.0, INF]]}
    before = deepcopy(b)
    got = verdict(C.check_bins_config, b, allow_unknown_counters=unknown)
    compare(ctx, 'bins', got, bins_ok(before, unknown), case)
    if b != before:
        ctx.violation('bins-changed', 'the check changed the bins: %r' % b, dict(case, what='bins'))


def sigmas_case(ctx, case):
    case = plain(case)
    s = dict((k, {'sigma': float(v)}) for k, v in case['sigmas'].items())
    compare(ctx, 'sigmas', verdict(C.check_sigmas_config, s, allow_unknown_counters=case['unknown']), sigmas_ok(s, case['unknown']), case)


def weights_case(ctx, case):
    case = plain(case)
    w = dict((k, num(v)) for k, v in case['weights'].items())
    compare(ctx, 'weights', verdict(C.check_noise_weight_config, w, case['threshold']), weights_ok(w, case['threshold']), case)


def num(v):
    return float(v) if '.' in v or 'e' in v or 'inf' in v else int(v.rstrip('L'))


def sets_case(ctx, case):
    case = plain(case)
    b = dict((k, {'bins': [[0.0, INF]]} if v else {}) for k, v in case['bins'].items())
    s = dict((k, {'sigma': 1.0} if v else {}) for k, v in case['sigmas'].items())
    want = sorted(b) == sorted(s) and all(b.values()) and all(s.values())
    compare(ctx, 'combined', verdict(C.check_combined_counters, b, s), want, case)
    if all(b.values()) and all(s.values()):
        known = all(k in KNOWN for k in list(b) + list(s))
        compare(ctx, 'counters', verdict(C.check_counters_config, b, s), want and known, case)
        compare(ctx, 'counters-unknown', verdict(C.check_counters_config, b, s, allow_unknown_counters=True), want, case)
    # what is combined is what both have, with the bins of one and the sigma of the other
    try:
        got = C.combine_counters(deepcopy(b), deepcopy(s))
    except HarnessExit:
        raise
    except Exception as e:
        ctx.violation('combine-raised', 'combining raised %r' % (e,), dict(case, what='combined'))
        return
    expect = dict((k, {'bins': [[0.0, INF]], 'sigma': 1.0}) for k in b if k in s and b[k] and s[k])
    if got != expect:
        ctx.violation('combined-wrong', 'combined %r, expected %r' % (got, expect), dict(case, what='combined'))


# ---- whole start commands ------------------------------------------------
# each part of a start command, as (name, change, is it valid for a collector, for a keeper)

def setbins(rows, name=HIST):
    def f(c):
        c['counters'][name] = {'bins': rows}
    return f

def setsigma(v, name='ZeroCount'):
    def f(c):
        c['noise']['counters'][name] = {'sigma': v}
    return f

def setkey(k, v):
    def f(c):
        c[k] = v
    return f

def delkey(k):
    def f(c):
        del c[k]
    return f

def add(name, sigma=True, bins=True):
    def f(c):
        if bins:
            c['counters'][name] = {'bins': [[0.0, INF]]}
        if sigma:
            c['noise']['counters'][name] = {'sigma': 1.0}
    return f

def drop(name, where):
    def f(c):
        del (c['counters'] if where == 'bins' else c['noise']['counters'])[name]
    return f

CHANGES = {
    'bins': [('fine', None, 1, 1), ('overlap', setbins([[0.0, 10.0], [5.0, INF]]), 0, 0), ('same', setbins([[0.0, 10.0], [0.0, 10.0]]), 0, 0),
             ('inverted', setbins([[0.0, 10.0], [30.0, 20.0]]), 0, 0), ('empty-bin', setbins([[0.0, 0.0], [1.0, INF]]), 0, 0),
             ('gap', setbins([[0.0, 10.0], [20.0, INF]]), 1, 1), ('nested', setbins([[0.0, INF], [5.0, 6.0]]), 0, 0),
             ('single', setbins([[0.0, INF]]), 0, 1), ('unordered', setbins([[10.0, INF], [0.0, 10.0]]), 1, 1),
             ('count-with-two', setbins([[0.0, 10.0], [10.0, INF]], COUNT), 0, 1)],
    'sets': [('fine', None, 1, 1), ('unknown', add('NoSuchCount'), 0, 1), ('extra-known', add('ExitStreamHTTPCount') if False else add('EntryConnectionCount'), 1, 1),
             ('bins-only', add('EntryConnectionCount', sigma=False), 0, 0), ('sigma-only', add('EntryConnectionCount', bins=False), 0, 0),
             ('unknown-bins', add('NoSuchCount', sigma=False), 0, 0), ('unknown-sigma', add('NoSuchCount', bins=False), 0, 0),
             ('lost-bins', drop(COUNT, 'bins'), 0, 0), ('lost-sigma', drop(COUNT, 'sigma'), 0, 0)],
    'sigma': [('fine', None, 1, 1), ('negative', setsigma(-0.5), 0, 0), ('zero', setsigma(0.0), 1, 1), ('large', setsigma(1e15), 1, 1)],
    'weights': [('fine', None, 1, 1), ('negative', setkey('noise_weight', {'*': -1.0}), 0, 0), ('one-negative', setkey('noise_weight', {'*': 1.0, F.FP_A: -0.25}), 0, 0),
                ('one', setkey('noise_weight', {F.FP_A: 1.0}), 'few', 'few'), ('none', setkey('noise_weight', {}), 0, 0),
                ('excess', setkey('noise_weight', {'*': 2.0 ** 69}), 0, 0), ('excess-sum', setkey('noise_weight', {F.FP_A: 2.0 ** 68, F.FP_B: 2.0 ** 68}), 0, 0)],
    'threshold': [('fine', None, 1, 1), ('zero', setkey('dc_threshold', 0), 0, 0), ('negative', setkey('dc_threshold', -1), 0, 0), ('two', setkey('dc_threshold', 2), 'two', 'two'),
                  ('max', setkey('dc_threshold', 10 ** 6), 'many', 'many'), ('excess', setkey('dc_threshold', 10 ** 6 + 1), 0, 0)],
    'keys': [('fine', None, 1, 1)] + [('no-' + k, delkey(k), 0, 0) for k in ('counters', 'noise', 'noise_weight', 'dc_threshold', 'collect_period')],
}
PARTS = sorted(k for k in CHANGES if k != 'keys')


def start_case(ctx, case, node=None):
    case = plain(case)
    config = F.start_config(sks=0)
    valid = {'dc': True, 'sk': True}
    picked = {}
    for part, i in case['picks'].items():
        name, f, dc, sk = CHANGES[part][i]
        if f:
            f(config)
        picked[part] = name
        valid['dc'] = valid['dc'] and bool(dc)
        valid['sk'] = valid['sk'] and bool(sk)
    if 'counters' in config and 'noise' in config and 'noise_weight' in config and 'dc_threshold' in config:
        ok = weights_ok(config['noise_weight'], config['dc_threshold'])
        valid = dict((k, v and ok) for k, v in valid.items())
    config = F.wire(config)
    kind = case['node']
    F.reset()
    if kind == 'sk':
        config['shares'] = []
        n = node or F.make_sk(0)
    else:
        n = node or F.make_dc(sks=0)
    try:
        r = n.do_start(deepcopy(config))
        got = True if r is not None else False
    except HarnessExit:
        raise
    except Exception as e:
        got = 'raised'
    REACTOR.jump(1.0)
    n.do_stop({'send_counters': False})
    compare(ctx, 'start-' + kind, got, valid[kind], case)


def run(ctx):
    KNOWN.update(C.get_valid_counters())
    edges = [-1.0, 0.0, 1.0, 2.0, INF]
    pairs = [(a, b) for a in edges for b in edges]
    for n in (0, 1, 2, 3):
        if n == 3 and not ctx.thorough:
            some = [p for p in pairs if p[0] < p[1] or p in ((1.0, 0.0), (1.0, 1.0))]
        else:
            some = pairs
        for rows in itertools.product(some, repeat=n):
            if not ctx.mine():
                continue
            for name, unknown in ((HIST, False), (COUNT, False), (HIST, True)) + ((('NoSuchCount', True), ('NoSuchHistogram', False)) if n < 3 else ()):
                bins_case(ctx, {'rows': [[repr(x) for x in b] for b in rows], 'name': name, 'unknown': unknown, 'with': n == 2})
            ctx.trace()
    # every known counter with one, two bins
    for name in sorted(KNOWN):
        if ctx.mine() or name in (HIST, COUNT):
            for rows in ([['0.0', 'inf']], [['0.0', '5.0'], ['5.0', 'inf']]):
                bins_case(ctx, {'rows': rows, 'name': name, 'unknown': False})
    sig = ['-1.0', '-1e-300', '-0.0', '0.0', '1.0', '1e+300', 'inf']
    for a, b in itertools.product(sig, sig):
        for n1, n2 in ((COUNT, HIST), (COUNT, 'NoSuchCount')):
            for unknown in (False, True):
                if ctx.mine():
                    sigmas_case(ctx, {'sigmas': {n1: a, n2: b}, 'unknown': unknown})
    ws = [None, '-1.0', '-1e-300', '0.0', '0.5', repr(2.0 ** 68), str(2 ** 69 - 1), str(2 ** 69), 'inf']
    for a, b, d in itertools.product(ws, ws, ws):
        if not ctx.mine():
            continue
        w = dict((k, v) for k, v in ((F.FP_A, a), (F.FP_B, b), ('*', d)) if v is not None)
        for t in (-1, 0, 1, 2, 3, 10 ** 6, 10 ** 6 + 1):
            weights_case(ctx, {'weights': w, 'threshold': t})
        ctx.trace()
    # which counters have bins, which have sigmas
    names = [COUNT, 'ZeroCount', 'NoSuchCount']
    for bs in itertools.product((None, False, True), repeat=3):
        for ss in itertools.product((None, False, True), repeat=3):
            if ctx.mine():
                sets_case(ctx, {'bins': dict((k, v) for k, v in zip(names, bs) if v is not None), 'sigmas': dict((k, v) for k, v in zip(names, ss) if v is not None)})
    # whole commands: every pair of parts takes every pair of values
    for kind in ('dc', 'sk'):
        nodes = {}
        for part1, part2 in itertools.combinations(sorted(CHANGES), 2):
            if 'keys' in (part1, part2) and not ctx.thorough:
                continue
            for i in range(len(CHANGES[part1])):
                for j in range(len(CHANGES[part2])):
                    if ctx.mine():
                        start_case(ctx, {'picks': {part1: i, part2: j}, 'node': kind})
                        ctx.trace()
        for i in range(len(CHANGES['keys'])):
            if ctx.mine():
                start_case(ctx, {'picks': {'keys': i}, 'node': kind})
        if ctx.thorough:
            for picks in itertools.product(*[range(len(CHANGES[p])) for p in PARTS]):
                if ctx.mine():
                    start_case(ctx, {'picks': dict(zip(PARTS, picks)), 'node': kind})


def replay(ctx, case):
    KNOWN.update(C.get_valid_counters())
    case = plain(case)
    what = case['what']
    if what == 'bins':
        bins_case(ctx, case)
    elif what == 'sigmas':
        sigmas_case(ctx, case)
    elif what == 'weights':
        weights_case(ctx, case)
    elif what.startswith('start-'):
        start_case(ctx, case)
    else:
        sets_case(ctx, case)
