'''
P16: every small collection of match lists through the real preparation and
matching, then through files and the real tally server configuration to the
counters of a real data collector.
'''
import hashlib
import itertools

import env
import fixtures as F
from env import HarnessExit
from explore import plain
from privcount import match as M
from privcount.config import check_country_code

INF = float('inf')
NBINS = {}


def low(x):
    return x.lower() if isinstance(x, basestring) else x


def where(lists, item, md5=False):
    'the first list with the item, whatever its case (or, for onions, its md5)'
    want = [low(item)]
    if md5:
        want.append(hashlib.md5(low(item) + '.onion').hexdigest())
    for i, l in enumerate(lists):
        if any(low(e) in want for e in l):
            return i
    return None


# ---- the matching functions --------------------------------------------
VOCAB = {'word': ['a', 'A', 'b', 'ab', 'TIMEOUT', 'timeout'],
         'number': [1, 2, 12, 65536],
         'onion': ['abcdefghijklmnop', 'ABCDEFGHIJKLMNOP', hashlib.md5('abcdefghijklmnop.onion').hexdigest(), 'ponmlkjihgfedcba']}
PROBES = {'word': ['a', 'A', 'b', 'B', 'ab', 'AB', 'aB', 'timeout', 'Timeout', 'time', 'c', '', 'ba'],
          'number': [1, 2, 12, 65536, 3, 0, 21, -1],
          'onion': ['abcdefghijklmnop', 'AbcdefghijklmnoP', 'ponmlkjihgfedcba', 'PONMLKJIHGFEDCBA', 'bcdefghijklmnopa', '',
                    hashlib.md5('abcdefghijklmnop.onion').hexdigest()]}


def functions(ctx, kind, lists):
    case = {'kind': 'functions', 'vocab': kind, 'lists': lists}
    md5 = kind == 'onion'
    objs = []
    for l in lists:
        alone = M.exact_match_prepare_collection(list(l), match_onion_md5=md5)
        kept = M.exact_match_prepare_collection(list(l), existing_exacts=objs, match_onion_md5=md5)
        for p in PROBES[kind]:
            ctx.evaluation()
            if bool(M.exact_match(alone, p, match_onion_md5=md5)) != (where([l], p, md5) is not None):
                ctx.violation('exact-match', 'search for %r in %r gave %r' % (p, l, M.exact_match(alone, p, match_onion_md5=md5)), case)
    if len(objs) != len(lists):
        ctx.violation('list-count', '%d lists were prepared from %d' % (len(objs), len(lists)), case)
    # kept only in the earliest list
    for i in range(len(objs)):
        for p in PROBES[kind]:
            want = where(lists, p) == i
            if bool(M.exact_match(objs[i], p)) != want:
                ctx.violation('earliest-list', '%r is %sin list %d of %r' % (p, 'not ' if want else '', i, lists), case)
    # reported in that list's bin
    from privcount.data_collector import Aggregator
    for p in PROBES[kind]:
        ctx.transition()
        got = Aggregator._exact_match_bin(objs, p, match_onion_md5=md5)
        want = where(lists, p, md5)
        if got != (INF if want is None else float(want)):
            ctx.violation('bin', '%r in %r was given bin %r, not %r' % (p, lists, got, want), case)
        ctx.outcome(want)
    ctx.state((kind, lists))


def collections(vocab, max_lists, max_len, total):
    one = []
    for n in range(0, max_len + 1):
        one += [list(c) for c in itertools.product(vocab, repeat=n)]
    for n in range(0, max_lists + 1):
        for c in itertools.product(one, repeat=n):
            if sum(len(l) for l in c) <= total:
                yield list(c)


# ---- match files -------------------------------------------------------
# line: (what it stands for | None: ignored | 'bad')
BAD = object()
LINES = {
    'domain': [('a.com', 'a.com'), ('  B.com\t', 'b.com'), ('.C.org.', 'c.org'), ('# a.com', None), ('//x', None), ('; y', None),
               ('', None), (' \t ', None), ('under_score.net', 'under_score.net'), ('sp ace.com!', BAD), ('a.com/x?', BAD), ('!!', BAD)],
    'country': [('US', 'us'), (' gb ', 'gb'), ('??', '??'), ('!!', '!!'), ('usa', BAD), ('u', BAD), ('#us', None), ('', None), ('//us', None), ('A1', 'a1')],
    'as': [('1', 1), (' 65536 ', 65536), ('# 5', None), ('', None), ('0', BAD), ('-3', BAD), ('AS5', BAD), ('1_2', BAD), ('5 ', 5), ('1.5', BAD)],
    'reason': [('TIMEOUT', 'timeout'), (' ok ', 'ok'), ('#x', None), ('', None), (';', None), ('Error5', 'error5'), ('!bad!', BAD)],
    'onion': [('abcdefghijklmnop', 'abcdefghijklmnop'), ('ABCDEFGHIJKLMNOP.onion', 'abcdefghijklmnop'),
              ('http://abcdefghijklmnop.onion/page', 'abcdefghijklmnop'), (' www.ponmlkjihgfedcba.onion ', 'ponmlkjihgfedcba'),
              ('https://www.ponmlkjihgfedcba.onion', 'ponmlkjihgfedcba'), ('0123456789ABCDEF0123456789abcdef', '0123456789abcdef0123456789abcdef'),
              ('# x', None), ('', None), ('abcdefghijklmno', BAD), ('abcdefghijklmnop1', BAD), ('1bcdefghijklmnop', BAD), ('.onion', BAD)],
}


def files(ctx, kind, picks, ending):
    case = {'kind': 'files', 'what': kind, 'picks': picks, 'ending': ending}
    rows = [LINES[kind][i] for i in picks]
    text = ending.join(r[0] for r in rows) + (ending if len(picks) % 2 else '')
    path = F.write('match-%s.txt' % kind, text)
    flags = dict((('check_' + k), k == kind) for k in LINES)
    try:
        got = M.load_match_list(path, **flags)[1]
    except HarnessExit:
        raise
    except Exception:
        got = BAD
    want = BAD if any(r[1] is BAD for r in rows) else [r[1] for r in rows if r[1] is not None]
    ctx.evaluation()
    ctx.transition()
    ctx.state((kind, tuple(picks), ending))
    ctx.outcome(('files', 'bad' if want is BAD else len(want)))
    if (got is BAD) != (want is BAD):
        ctx.violation('file-' + ('rejected' if got is BAD else 'accepted'), 'lines %r of a %s file were %s' % (
            [r[0] for r in rows], kind, 'rejected' if got is BAD else 'accepted as %r' % (got,)), case)
    elif got is not BAD and got != want:
        ctx.violation('file-content', 'lines %r of a %s file were read as %r' % ([r[0] for r in rows], kind, got), case)


# ---- configuration to counters -----------------------------------------
HS_STORE = ('PRIVCOUNT_HSDIR_CACHE_STORE HiddenServiceVersionNumber=2 EventTimestamp=1500000000.0 CacheReasonString={reason} '
            'WasAddedToCacheFlag=0 OnionAddress={onion}')
HS_FETCH = ('PRIVCOUNT_HSDIR_CACHE_FETCH HiddenServiceVersionNumber=2 EventTimestamp=1500000000.0 CacheReasonString={reason} '
            'CacheQueryByteCount=3 OnionAddress={onion}')
CONN = ('PRIVCOUNT_CONNECTION_CLOSE EventTimestamp=1500000001.0 CreatedTimestamp=1500000000.0 ChannelId=1 RemoteIsClientFlag={client} '
        'RemoteIPAddress={ip} RemoteIPAddressConnectionCount=1 PeerIPAddressConsensusRelayCount=0 RemoteCountryCode={country} '
        'InboundByteCount=5 OutboundByteCount=6')
CLOSE = ('PRIVCOUNT_CIRCUIT_CLOSE EventTimestamp=1500000001.0 CreatedTimestamp=1500000000.0 IsLegacyCircuitEndEventFlag=0 StateString=OPEN '
         'PurposeCode=1 IsEntryFlag=1 FailureReasonString={reason} InboundReceivedCellCount=1 OutboundReceivedCellCount=1')
PREFIX = {4: '1.0.0.0/8\t1\n2.0.0.0/8\t2\n2.2.0.0/16\t12\n', 6: '2001::/16\t1\n2002::/16\t2\n'}

# files_key: (vocabulary written to files, probes, event, counter, the same for the other counter)
END = {
    'country_files': (['us', 'US', 'gb'], [dict(country=c) for c in ('us', 'US', 'Gb', 'gb', 'de', '!!')], 'country',
                      [(CONN.format(client=1, ip='3.3.3.3', country='{country}'), 'EntryConnectionCountryMatchCountList'),
                       (CONN.format(client=0, ip='3.3.3.3', country='{country}'), 'NonEntryNoRelayOnAddressConnectionCountryMatchByteCountList')]),
    'as_files': (['1', '2', '12'], [dict(ip=i) for i in ('1.1.1.1', '2.1.1.1', '2.2.1.1', '3.1.1.1', '2001::1', '2002::1', '2003::1')], 'as',
                 [(CONN.format(client=1, ip='{ip}', country='us'), 'EntryConnectionASMatchCountList'),
                  (CONN.format(client=0, ip='{ip}', country='us'), 'NonEntryConnectionASMatchInboundByteCountList')]),
    'hsdir_store_files': (['UNABLE', 'unable', 'novel'], [dict(reason=r) for r in ('UNABLE', 'Novel', 'novel', 'other', 'nov')], 'reason',
                          [(HS_STORE.format(reason='{reason}', onion='abcdefghijklmnop'), 'HSDirStoreReasonCountList'),
                           (HS_STORE.format(reason='{reason}', onion='abcdefghijklmnop'), 'HSDir2StoreRejectReasonCountList')]),
    'hsdir_fetch_files': (['FOUND', 'found', 'missing'], [dict(reason=r) for r in ('FOUND', 'Missing', 'missing', 'other')], 'reason',
                          [(HS_FETCH.format(reason='{reason}', onion='abcdefghijklmnop'), 'HSDirFetchReasonCountList'),
                           (HS_FETCH.format(reason='{reason}', onion='abcdefghijklmnop'), 'HSDir2FetchUncachedReasonCountList')]),
    'circuit_failure_files': (['TIMEOUT', 'timeout', 'destroyed'], [dict(reason=r) for r in ('TIMEOUT', 'Destroyed', 'destroyed', 'none')], 'reason',
                              [(CLOSE, 'EntryFailureCircuitReasonCountList')]),
    'onion_address_files': (['abcdefghijklmnop', 'ABCDEFGHIJKLMNOP.onion', 'http://' + 'ponmlkjihgfedcba' + '.onion/',
                             hashlib.md5('ponmlkjihgfedcba.onion').hexdigest()],
                            [dict(onion=o) for o in ('abcdefghijklmnop', 'AbCdefghijklmnop', 'ponmlkjihgfedcba', 'aaaaaaaaaaaaaaaa')], 'onion',
                            [(HS_STORE.format(reason='novel', onion='{onion}'), 'HSDir2StoreOnionAddressCountList'),
                             (HS_FETCH.format(reason='found', onion='{onion}'), 'HSDir2FetchOnionAddressCountList')]),
}
ASN = {'1.1.1.1': 1, '2.1.1.1': 2, '2.2.1.1': 12, '3.1.1.1': None, '2001::1': 1, '2002::1': 2, '2003::1': None}


def meaning(kind, x):
    'what an entry written in a file stands for'
    if kind == 'as':
        return int(x)
    if kind == 'onion':
        return x.lower().replace('http://', '').replace('/', '').replace('.onion', '')
    return x.lower()


def canonical(kind, lists):
    return [[meaning(kind, e) for e in l] for l in lists]


def end_to_end(ctx, key, lists, reject):
    case = {'kind': 'end', 'key': key, 'lists': lists, 'reject': reject}
    vocab, probes, kind, counters = END[key]
    F.reset()
    names = [c for _, c in counters] + ['ZeroCount', 'ExitStreamByteHistogram']
    # whatever bins these lists were given
    bins = dict((n, {'bins': [[0.0, INF]] if n.endswith('Count') else [[0.0, 50.0], [50.0, 60.0], [60.0, INF]]}) for n in names)
    kw = {key: [F.write('%s-%d.txt' % (key, i), '\n'.join(l) + '\n') for i, l in enumerate(lists)]}
    if key == 'as_files' and lists:
        kw['as_prefix_files'] = dict((v, F.write('prefix%d.txt' % v, PREFIX[v])) for v in PREFIX)
    if reject is not None:
        kw['reject_overlapping_lists'] = reject
    crashed = None
    try:
        ts = F.make_ts(sigmas=dict((n, {'sigma': 1.0}) for n in names), counter_bins=bins, **kw)
    except HarnessExit:
        raise
    except Exception as e:
        crashed = e
    ctx.transition()
    means = canonical(kind, lists)
    overlap = any(set(a) & set(b) for a, b in itertools.combinations(means, 2))
    valid = all(lists) and not (overlap and reject is not False)
    ctx.state((key, lists, reject))
    accepted = crashed is None and ts.config is not None
    # an address may also be given as its md5: the tally server need not notice that
    # the two are the same, and the collector counts them in the first list
    formats = [e for l in means for e in l] if kind == 'onion' else []
    unclear = any(hashlib.md5(e + '.onion').hexdigest() in formats for e in formats)
    if accepted != valid and not (unclear and all(lists)):
        ctx.violation('config-' + ('accepted' if accepted else 'rejected'), '%s %r with reject_overlapping_lists %r was %s' % (
            key, lists, reject, 'accepted' if accepted else 'rejected (%r)' % (crashed,)), case)
    ctx.outcome((key, accepted, len(lists)))
    if not accepted:
        return
    start = F.ts_begin(ts)['dc0']
    for _, c in counters:
        got = [[b[0], b[1]] for b in start['counters'][c]['bins']]
        want = [[float(i), float(i + 1)] for i in range(len(lists))] + [[float(len(lists)), INF]]
        if lists and got != want:
            ctx.violation('list-bins', '%s has bins %r for %d lists' % (c, got, len(lists)), case)
    if not lists:
        return
    for c in start['counters']:
        if c not in [n for _, n in counters] + ['ZeroCount'] and [[b[0], b[1]] for b in start['counters'][c]['bins']] != bins[c]['bins']:
            ctx.violation('other-bins', 'the bins of %s became %r' % (c, start['counters'][c]['bins']), case)
    start['sharekeepers'] = {}
    layouts = dict((c, [(b[0], b[1]) for b in v['bins']]) for c, v in start['counters'].items())
    for k in ('counters', 'noise', 'noise_weight', 'defer_time'):
        del start[k]
    world = F.Counting(layouts, **start)
    for p in probes:
        item = p.values()[0]
        for event, counter in counters:
            line = event.format(**p)
            world.event(line.split())
            got = world.take()
            got = sorted((i, v) for (c, i), v in got.items() if c == counter)
            amount = 11 if counter.endswith('MatchByteCountList') else (5 if 'InboundByteCountList' in counter else 1)
            at = where(means, ASN[item] if kind == 'as' else item, md5=kind == 'onion')
            want = [(len(lists) if at is None else at, amount)]
            ctx.evaluation()
            if got != want:
                ctx.violation('counted', '%s %r: after %r, %s holds %r, not %r' % (key, lists, line, counter, got, want), case)
    ctx.trace()


def run(ctx):
    for kind in sorted(VOCAB):
        vocab = VOCAB[kind]
        small = 4 if kind == 'word' and not ctx.thorough else len(vocab)
        for lists in collections(vocab[:small], 3, 2, 6 if ctx.thorough else 4):
            if ctx.mine():
                functions(ctx, kind, lists)
        if True:
            for lists in collections(vocab, 2, 2, 4):
                if ctx.mine():
                    functions(ctx, kind, lists)
    for kind in sorted(LINES):
        n = len(LINES[kind])
        for size in range(0, 4 if ctx.thorough else 3):
            for picks in itertools.product(range(n), repeat=size):
                for ending in ('\n', '\r\n'):
                    if ctx.mine():
                        files(ctx, kind, list(picks), ending)
    for key in sorted(END):
        vocab = END[key][0]
        one = [[]] + [[v] for v in vocab] + [list(p) for p in itertools.combinations(vocab, 2)]
        for n in range(0, 4 if ctx.thorough else 3):
            for lists in itertools.product(one, repeat=n):
                for reject in (None, True, False):
                    if n < 2 and reject is not None:
                        continue
                    if ctx.mine():
                        end_to_end(ctx, key, list(lists), reject)
        if not ctx.thorough:
            for lists in itertools.permutations([[v] for v in vocab], 3):
                for reject in (None, False):
                    if ctx.mine():
                        end_to_end(ctx, key, list(lists), reject)


def replay(ctx, case):
    case = plain(case)
    if case['kind'] == 'functions':
        functions(ctx, case['vocab'], case['lists'])
    elif case['kind'] == 'files':
        files(ctx, case['what'], case['picks'], case['ending'])
    else:
        end_to_end(ctx, case['key'], case['lists'], case['reject'])
