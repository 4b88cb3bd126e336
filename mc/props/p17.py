'''
P17: every small collection of domain lists against every probe: through the
suffix tree itself, and through files and the tally server's configuration to
the counters of a real data collector.
'''
import itertools

import env
import fixtures as F
from env import HarnessExit
from explore import plain
from privcount import match as M

INF = float('inf')

VOCAB = ['com', 'a.com', 'b.com', 'x.a.com', 'A.COM', '.b.com.', 'acom', 'org']
PROBES = ['com', 'a.com', 'A.com', 'b.com', 'x.a.com', 'X.A.Com', 'y.x.a.com', 'xa.com', 'aa.com', 'acom', 'x.acom', 'a.acom', 'org', 'a.org',
          'com.org', 'a.com.org', 'net', 'om', 'm', 'comm', 'com.net', '.a.com', 'a.com.', 'x.b.com', 'c.com', 'a', '']


def labels(d):
    d = d.lower().strip('.')
    return d.split('.') if d else []


def parent(s, d):
    'the domain d is s, or below s'
    s, d = labels(s), labels(d)
    return len(s) > 0 and len(d) >= len(s) and d[len(d) - len(s):] == s


def oracle(lists, d):
    'the earliest list with the shortest entry that d is or is below'
    best = None
    for i, l in enumerate(lists):
        for s in l:
            if parent(s, d):
                k = (len(labels(s)), i)
                if best is None or k < best:
                    best = k
    return None if best is None else best[1]


def overlapping(lists):
    'an entry of one list is, or is below, an entry of another'
    for i, j in itertools.permutations(range(len(lists)), 2):
        if any(parent(s, d) for s in lists[i] for d in lists[j]):
            return True
    return False


def needless(lists):
    'an entry is, or is below, another'
    flat = [s for l in lists for s in l]
    return any(parent(s, d) for s, d in itertools.permutations(flat, 2))


def tree(ctx, lists):
    case = {'kind': 'tree', 'lists': lists}
    obj, dups = {}, []
    for i, l in enumerate(lists):
        obj, dup = M.suffix_match_prepare_collection(l, separator='.', existing_suffixes=obj, collection_tag=i)
        dups.append(dup)
    ctx.transition()
    ctx.state(lists)
    for i, l in enumerate(lists):
        # an entry of this list is, or is below or above, another entry up to here
        earlier = [s for m in lists[:i] for s in m]
        want = needless([l]) or any(parent(s, d) or parent(d, s) for s in l for d in earlier)
        if bool(dups[i]) != want:
            ctx.violation('duplicates', 'duplicates were %s in list %d of %r' % ('not reported' if want else 'reported', i, lists), case)
    sent = F.wire(obj)
    for p in PROBES:
        want = oracle(lists, p)
        ctx.evaluation()
        for o, what in ((obj, 'prepared'), (sent, 'sent')):
            got = M.suffix_match(o, p, separator='.')
            if got != want:
                ctx.violation('suffix-match', '%r in the %s lists %r gave %r, not %r' % (p, what, lists, got, want), case)
        ctx.outcome(want)
    if len(lists) == 1 and lists[0]:
        alone, _ = M.suffix_match_prepare_collection(lists[0], separator='.')
        for p in PROBES:
            got = M.suffix_match(alone, p, separator='.')
            if (got is not None) != (oracle(lists, p) is not None):
                ctx.violation('suffix-match', '%r in %r gave %r' % (p, lists[0], got), case)


KINDS = ['Count', 'ByteCount', 'OutboundByteCount', 'InboundByteCount']
HISTS = ['ByteHistogram', 'OutboundByteHistogram', 'InboundByteHistogram', 'ByteRatio', 'LifeTime']
EVENT = 'PRIVCOUNT_STREAM_ENDED 1 2 3 443 10 20 1500000000.0 1500000001.0 {host} 198.51.100.1 1'
AMOUNT = {'Count': 1, 'ByteCount': 30, 'OutboundByteCount': 20, 'InboundByteCount': 10}


def end_to_end(ctx, lists, reject, which):
    case = {'kind': 'end', 'lists': lists, 'reject': reject, 'which': which}
    F.reset()
    ctx.transition()
    matches = {'exact': ['Exact'], 'suffix': ['Suffix'], 'both': ['Exact', 'Suffix']}[which]
    lst = [('ExitDomain%sMatchWebInitialStream%sList' % (m, k), m, k) for m in matches for k in KINDS]
    hist = [('ExitDomain%s%sMatchWebInitialStream%s' % (no, m, h), no, m) for m in matches for h in HISTS for no in ('', 'No')]
    names = [n for n, _, _ in lst + hist] + ['ExitStreamCount']
    bins = dict((n, {'bins': [[0.0, INF]] if n.endswith('Count') else [[-INF, 0.0], [0.0, INF]]}) for n in names)
    kw = {'domain_files': [F.write('domains%d.txt' % i, '\n'.join(l) + '\n') for i, l in enumerate(lists)]}
    if reject is not None:
        kw['reject_overlapping_lists'] = reject
    crashed = None
    try:
        ts = F.make_ts(sigmas=dict((n, {'sigma': 1.0}) for n in names), counter_bins=bins, **kw)
    except HarnessExit:
        raise
    except Exception as e:
        crashed = e
    accepted = crashed is None and ts.config is not None
    valid = reject is False or not overlapping(lists)
    ctx.state((lists, reject, which))
    ctx.outcome((accepted, len(lists)))
    if accepted != valid:
        ctx.violation('config-' + ('accepted' if accepted else 'rejected'), 'domain lists %r with reject_overlapping_lists %r were %s' % (
            lists, reject, 'accepted' if accepted else 'rejected (%r)' % (crashed,)), case)
    if not accepted:
        return
    start = F.ts_begin(ts)['dc0']
    n = len(lists)
    for name, _, _ in lst:
        got = [[b[0], b[1]] for b in start['counters'][name]['bins']]
        if got != [[float(i), float(i + 1)] for i in range(n)] + [[float(n), INF]]:
            ctx.violation('list-bins', '%s has bins %r for %d lists' % (name, got, n), case)
    layouts = dict((c, [(b[0], b[1]) for b in v['bins']]) for c, v in start['counters'].items())
    start['sharekeepers'] = {}
    for k in ('counters', 'noise', 'noise_weight', 'defer_time'):
        del start[k]
    world = F.Counting(layouts, **start)
    for p in PROBES:
        if not p:
            continue
        world.event(EVENT.format(host=p).split())
        got = world.take()
        ctx.evaluation()
        exact = [i for i in range(n) if any(p.lower() == e.lower().strip('.') for e in lists[i])]
        exact = exact[0] if exact else None
        suffix = oracle(lists, p)
        allowed = {'Exact': [exact], 'Suffix': [suffix]}
        if reject is False and exact is not None and which == 'both':
            # an entry below another list's entry: the lists are not disjoint,
            # and either of its two lists is right
            allowed['Suffix'].append(exact)
        for m in matches:
            seen = set()
            for name, mm, k in lst:
                if mm == m:
                    seen.add(tuple(sorted((i, v * 1.0 / AMOUNT[k]) for (c, i), v in got.items() if c == name)))
            want = [((n if a is None else a, 1.0),) for a in allowed[m]]
            if len(seen) != 1 or list(seen)[0] not in want:
                ctx.violation('counted', '%r with the lists %r (%s counters): the %s lists hold %r, not %r' % (p, lists, which, m, sorted(seen), want), case)
                continue
            first = list(seen)[0][0][0] == 0
            for name, no, mm in hist:
                if mm == m:
                    total = sum(v for (c, i), v in got.items() if c == name)
                    if total != (1 if first == (no == '') else 0):
                        ctx.violation('histogram', '%r with the lists %r: %s holds %r' % (p, lists, name, total), case)
    ctx.trace()


def run(ctx):
    one = [[a] for a in VOCAB] + [list(p) for p in itertools.permutations(VOCAB, 2)]
    three = [list(p) for p in itertools.permutations(VOCAB, 3)]
    for n in (0, 1, 2):
        for lists in itertools.product([[]] + one, repeat=n):
            if ctx.mine():
                tree(ctx, list(lists))
    for lists in [[l] for l in three] + list(itertools.permutations([[a] for a in VOCAB], 3)):
        if ctx.mine():
            tree(ctx, list(lists))
    if ctx.thorough:
        for lists in itertools.product(one, repeat=3):
            if ctx.mine():
                tree(ctx, list(lists))
        for lists in itertools.product(three, [[a] for a in VOCAB]):
            for order in itertools.permutations(lists):
                if ctx.mine():
                    tree(ctx, list(order))
    some = [[a] for a in VOCAB] + [['com', 'org'], ['a.com', 'b.com'], ['x.a.com', 'a.com'], ['b.com', 'org'], ['A.COM', 'acom']]
    for n in (1, 2):
        for lists in itertools.product(one if ctx.thorough else some, repeat=n):
            for reject in (None, True, False):
                for which in ('exact', 'suffix', 'both'):
                    if (n < 2 or which != 'both') and reject is True:
                        continue
                    if ctx.mine():
                        end_to_end(ctx, list(lists), reject, which)
    for lists in itertools.permutations([[a] for a in VOCAB], 3):
        if ctx.mine():
            end_to_end(ctx, list(lists), False, 'suffix')


def replay(ctx, case):
    case = plain(case)
    if case['kind'] == 'tree':
        tree(ctx, case['lists'])
    else:
        end_to_end(ctx, case['lists'], case['reject'], case['which'])
