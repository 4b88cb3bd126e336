'''
P02: what a data collector publishes reveals nothing unless every share keeper
colludes; and blinding values are sampled without bias.

Exact distributions: with a small modulus, every sequence of random answers is
enumerated and weighted exactly, and the adversary's whole view is tabulated.
Two executions with different secrets must give the same table.
'''
import itertools
import json
from fractions import Fraction

from env import ENTROPY
from explore import choices, Prune
import privcount.counter as counter
from privcount.counter import SecureCounters, counter_modulus, derive_blinding_factor

INF = float('inf')


class Draws(object):
    'turns requests for random bits into choices, with exact weights'
    def __init__(self, ch, limit):
        self.ch, self.limit = ch, limit
        self.n, self.weight = 0, Fraction(1)
        self.bits = []

    def install(self):
        ENTROPY.reset()
        ENTROPY.bits_hook = self.getrandbits
        ENTROPY.range_hook = self.randrange
        ENTROPY.gauss_hook = lambda mu, sigma: 0.0

    def _take(self, n):
        self.n += 1
        if self.n > self.limit:
            raise Prune()
        self.weight /= n
        return self.ch(n)

    def getrandbits(self, k):
        if k > 12:
            raise Prune()
        return self._take(2 ** k)

    def randrange(self, n):
        return self._take(n)


def uniform_case(ctx, q, extra):
    '''
    sample(q): all runs with up to 1+extra requests; for each number of requests
    every value in [0,q) has the same total weight, and no other value appears
    '''
    tables = {}

    def body(ch):
        d = Draws(ch, 1 + extra)
        d.install()
        v = derive_blinding_factor(None, q)
        return d.n, d.weight, v
    for taken, (n, weight, v) in choices(body):
        ctx.transition()
        t = tables.setdefault(n, {})
        t[v] = t.get(v, Fraction(0)) + weight
    ctx.trace()
    ENTROPY.reset()
    case = {'kind': 'uniform', 'q': q, 'extra': extra}
    total = sum(sum(t.values()) for t in tables.values())
    ctx.outcome('uniform %s' % (total,))
    for n, t in sorted(tables.items()):
        ctx.state(('uniform', q, n, sorted(t.items())))
        ok = sorted(t) == list(range(q)) and len(set(t.values())) == 1
        if not ok:
            ctx.violation('biased-sample', 'modulus %d, after %d requests: %s' % (
                q, n, ', '.join('%s:%s' % i for i in sorted(t.items())[:12])), case)
            return
    if not tables:
        ctx.violation('no-entropy', 'modulus %d: no run ended within %d requests' % (q, 1 + extra), case)


def layout(bins):
    return dict(('C%d' % i, {'bins': [[float(j), float(j + 1) if j + 1 < n else INF] for j in range(n)], 'sigma': 1.0})
                for i, n in enumerate(bins))


def keys_of(bins):
    return [('C%d' % i, j) for i, n in enumerate(bins) for j in range(n)]


def flat(counts, bins):
    return tuple(int(counts[k]['bins'][j][2]) for k, j in keys_of(bins))


def collector(q, bins, sks, secret):
    'secret: the true count of each bin'
    c = SecureCounters(layout(bins), q)
    uids = ['sk%d' % i for i in range(sks)]
    c.generate_blinding_shares(uids)
    shares = c.detach_blinding_shares()
    c.generate_noise(1.0)
    for (k, j), v in zip(keys_of(bins), secret):
        if v:
            i = int(k[1:])
            c.increment(k, bin=(SecureCounters.SINGLE_BIN if bins[i] == 1 else float(j)), inc=v)
    shares = json.loads(json.dumps(shares))
    return c.detach_counts(), [shares[u] for u in uids]


def table(ctx, q, bins, sks, honest, secrets, extra):
    '''
    The distribution of the view of an adversary that holds every collector's
    report, every share except those for the honest keeper, and the honest
    keeper's total.
    secrets: one tuple of true counts per collector.
    '''
    need = sks * sum(bins) * len(secrets)
    tables = {}

    def body(ch):
        d = Draws(ch, need + extra)
        d.install()
        view = []
        keeper = SecureCounters(layout(bins), q, require_generate_noise=False)
        for secret in secrets:
            counts, shares = collector(q, bins, sks, secret)
            view.append(flat(counts, bins))
            for i, s in enumerate(shares):
                if i == honest:
                    keeper.import_blinding_share(s)
                else:
                    view.append(flat(s['secret'], bins))
        if len(secrets) > 1:
            view.append(flat(keeper.detach_counts(), bins))
        return d.n, d.weight, tuple(view)
    n_exec = 0
    for taken, (n, weight, view) in choices(body):
        n_exec += 1
        ctx.transition()
        t = tables.setdefault(n, {})
        t[view] = t.get(view, Fraction(0)) + weight
    ENTROPY.reset()
    for n, t in tables.items():
        for v in t:
            ctx.state((q, bins, sks, honest, n, v))
    ctx.trace(n_exec)
    return tables


def secrecy_case(ctx, q, bins, sks, groups, extra):
    '''groups: lists of secrets that must be indistinguishable'''
    for honest in range(sks):
        for group in groups:
            first, t0 = None, None
            for secrets in group:
                t = table(ctx, q, bins, sks, honest, secrets, extra)
                ctx.outcome(sorted((n, len(x)) for n, x in t.items()))
                if t0 is None:
                    first, t0 = secrets, t
                elif t != t0:
                    ctx.violation('distinguishable',
                                  'modulus %d, bins %r, %d share keepers: true counts %r and %r give different views to everyone but share keeper %d' % (
                                      q, bins, sks, first, secrets, honest),
                                  {'kind': 'secrecy', 'q': q, 'bins': bins, 'sks': sks, 'groups': [[first, secrets]], 'extra': extra})
                    return
    ctx.sample({'q': q, 'bins': bins, 'sks': sks, 'groups': len(groups), 'extra': extra})


def vectors(q, n):
    return list(itertools.product(range(q), repeat=n))


def one_dc_groups(q, n):
    return [[(v,) for v in vectors(q, n)]]


def two_dc_groups(q, n):
    'the same total: indistinguishable even given the honest keeper\'s total'
    by = {}
    for a in vectors(q, n):
        for b in vectors(q, n):
            tot = tuple((x + y) % q for x, y in zip(a, b))
            by.setdefault(tot, []).append((a, b))
    return [by[k] for k in sorted(by)]


def cases(ctx):
    quick = [
        # q, bins, sks, groups, extra requests
        (2, [1], 1, one_dc_groups(2, 1), 0), (3, [1], 1, one_dc_groups(3, 1), 1),
        (4, [1], 2, one_dc_groups(4, 1), 0), (5, [1], 2, one_dc_groups(5, 1), 1),
        (2, [2], 1, one_dc_groups(2, 2), 0), (3, [2], 1, one_dc_groups(3, 2), 0),
        (2, [2], 2, one_dc_groups(2, 2), 0), (3, [2], 2, one_dc_groups(3, 2), 0),
        (2, [1, 2], 2, one_dc_groups(2, 3), 0), (2, [1, 1], 3, one_dc_groups(2, 2), 0),
        (2, [1], 2, two_dc_groups(2, 1), 0), (3, [1], 2, two_dc_groups(3, 1), 0),
        (4, [1], 1, two_dc_groups(4, 1), 0), (2, [1, 1], 1, two_dc_groups(2, 2), 0),
        (8, [1], 2, one_dc_groups(8, 1), 0),
    ]
    more = [
        (4, [1, 2], 1, one_dc_groups(4, 3), 0), (3, [1], 2, one_dc_groups(3, 1), 3), (7, [1], 2, one_dc_groups(7, 1), 1),
        (2, [1, 2], 3, one_dc_groups(2, 3), 0), (4, [1, 1], 2, one_dc_groups(4, 2), 0),
        (2, [2], 2, two_dc_groups(2, 2), 0), (4, [1], 2, two_dc_groups(4, 1), 0), (3, [2], 1, two_dc_groups(3, 2), 0),
        (2, [3, 1, 2], 2, one_dc_groups(2, 6)[:1], 0), (16, [1], 2, one_dc_groups(16, 1), 0), (2, [1], 4, one_dc_groups(2, 1), 0),
    ]
    return quick + (more if ctx.thorough else [])


def run(ctx):
    for q in list(range(1, 34)) + ([63, 64, 65, 100, 127, 128, 129] if ctx.thorough else [63, 64, 65]):
        if ctx.mine():
            uniform_case(ctx, q, 2 if q <= 9 or (ctx.thorough and q <= 33) else 1)
    for c in cases(ctx):
        if ctx.mine():
            secrecy_case(ctx, *c)
    if ctx.part == 0:
        source_case(ctx)


def source_case(ctx):
    '''
    The real modulus: every blinding value is a fresh answer of the system's
    random source with enough bits (no reuse across bins, keepers, counters,
    collectors or rounds).
    '''
    q = counter_modulus()
    for bins, sks in [([1], 1), ([2, 1], 3), ([4, 1, 3], 2)]:
        ENTROPY.reset()
        given = []

        def bits(k):
            v = int(ENTROPY.bytes(16).encode('hex'), 16) % (2 ** k)
            given.append((k, v))
            return v
        ENTROPY.bits_hook = bits
        ENTROPY.gauss_hook = lambda mu, sigma: 0.0
        used = []
        for rnd in range(2):
            counts, shares = collector(q, bins, sks, [0] * sum(bins))
            for s in shares:
                used += list(flat(s['secret'], bins))
            ctx.transition()
        ctx.state(('source', bins, sks))
        ENTROPY.reset()
        n = sks * sum(bins) * 2
        ctx.expect(len(set(used)) == n, 'reused', 'blinding values repeat: %d distinct of %d' % (len(set(used)), n), {'kind': 'source'})
        got = sum(k for k, _ in given)
        ctx.expect(got >= n * (q - 1).bit_length(), 'few-bits', '%d bits requested for %d values below %d' % (got, n, q), {'kind': 'source'})
        ctx.expect(max(used) > q // 4, 'narrow', 'largest blinding value %d of modulus %d' % (max(used), q), {'kind': 'source'})


def replay(ctx, case):
    if case['kind'] == 'uniform':
        uniform_case(ctx, case['q'], case['extra'])
    elif case['kind'] == 'source':
        source_case(ctx)
    else:
        groups = [[tuple(tuple(v) for v in s) for s in g] for g in case['groups']]
        secrecy_case(ctx, case['q'], case['bins'], case['sks'], groups, case['extra'])
