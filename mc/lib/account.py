'''
Counting tor events: layouts that tell values apart, and the comparison of what
a real collector's counters did with what the counters' names promise.
'''
import fixtures as F

INF = float('inf')


def valid_names():
    F.remember_counter_names()
    return F._names[0]


def edges(values):
    'bins with an edge on every value'
    e = sorted(set(float(v) for v in values))
    return [(-INF, e[0])] + [(e[i], e[i + 1]) for i in range(len(e) - 1)] + [(e[-1], INF)]


def list_bins(n):
    return [(float(i), float(i + 1)) for i in range(n)] + [(float(n), INF)]


class Layout(object):
    def __init__(self, bins):
        'bins: {name: [(low, high), ...]}'
        self.bins = bins
        self.memo = {}

    def find(self, name, value):
        'the index of the bin of name that holds value, or None'
        k = (name, value)
        if k not in self.memo:
            got = None
            for i, (low, high) in enumerate(self.bins[name]):
                if low <= value and (value < high or (value == INF and high == INF)):
                    got = i
            self.memo[k] = got
        return self.memo[k]

    def expect(self, adds):
        '[(name, value, amount)] as {(name, bin): amount}'
        out = {}
        for name, value, amount in adds:
            i = self.find(name, value)
            if i is not None and amount:
                out[(name, i)] = out.get((name, i), 0) + amount
        return out


def differences(got, want):
    out = []
    for k in sorted(set(got) | set(want)):
        if got.get(k, 0) != want.get(k, 0):
            out.append((k, got.get(k, 0), want.get(k, 0)))
    return out


def compare(ctx, key, got, want, what, case):
    d = differences(got, want)
    ctx.evaluation()
    if d:
        (name, i), g, w = d[0]
        ctx.violation(key, '%s: %s bin %d changed by %r, not %r%s' % (what, name, i, g, w, '' if len(d) == 1 else ' (and %d other bins differ)' % (len(d) - 1)), case)
    return not d


_lists = {}

def lists_config(**files):
    'the match list part of a START command, from a real tally server given these lists'
    key = repr(sorted(files.items()))
    if key not in _lists:
        names = {'domain': ['ExitDomainExactMatchWebInitialStreamCountList', 'ExitDomainSuffixMatchWebInitialStreamCountList'],
                 'country': ['EntryConnectionCountryMatchCountList'],
                 'as': ['EntryConnectionASMatchCountList'],
                 'hsdir_store': ['HSDirStoreReasonCountList'],
                 'hsdir_fetch': ['HSDirFetchReasonCountList'],
                 'circuit_failure': ['OriginFailureCircuitReasonCountList'],
                 'onion_address': ['HSDir2StoreOnionAddressCountList']}
        names = [n for k in files if k != 'as_prefix' for n in names[k]]
        kw = {}
        for k, v in files.items():
            if k == 'as_prefix':
                kw['as_prefix_files'] = dict((ver, F.write('prefix%d.txt' % ver, text)) for ver, text in v.items())
            else:
                kw[k + '_files'] = [F.write('%s%d.txt' % (k, i), '\n'.join(str(x) for x in l) + '\n') for i, l in enumerate(v)]
        ts = F.make_ts(sigmas=dict((n, {'sigma': 1.0}) for n in names), counter_bins=dict((n, {'bins': [[0.0, INF]]}) for n in names), **kw)
        if ts.config is None:
            raise AssertionError('the lists were not accepted: %r' % (files,))
        start = F.ts_begin(ts)['dc0']
        for k in ('counters', 'noise', 'noise_weight', 'defer_time', 'sharekeepers'):
            start.pop(k, None)
        _lists[key] = start
    return _lists[key]
