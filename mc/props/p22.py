'''
P22: every combination of circuit-close flags, versions, roles, outcomes and
amounts through a real collector that holds every circuit counter.
'''
import itertools
import math
import re

import account as A
import env
import fixtures as F
from explore import plain

INF = float('inf')
SUFFIX = '(?P<s>Count|(?:Inbound|Outbound)Cell(?:Count|Histogram)|CellRatio|LifeTime|ReasonCountList)$'
PLAIN = re.compile('^(?P<p>Origin|Entry|Mid|End|SingleHop|Exit|Dir)(?P<a>Active|Inactive|)(?P<f>Success|Failure|)Circuit' + SUFFIX)
ONION = re.compile('^(?P<p>HSDir|Intro|Rend)(?P<v>U|2|3|)(?P<h>Tor2Web|SingleOnion|MultiHop|)(?P<r>Client|Service|)(?P<a>Active|Inactive|)(?P<f>Success|Failure|)Circuit' + SUFFIX)
BOTH = re.compile('^ExitAndRend2(Client|Service)CircuitCount$')
LISTS = [['TIMEOUT', 'Destroyed'], ['none'], ['hangup']]
REASONS = [(None, None), ('timeout', 0), ('DESTROYED', 0), ('NONE', 1), ('HANGUP', 2), ('FINISHED', None)]

CELLS = [0, 1, 3, 4, 7, 8, 9, 1000, 2 ** 40]
CELL_EDGES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 1000, 1001, 2 ** 40]
RATIO_EDGES = [-100, -10, -3.3, -1, -0.5, -0.001, 0, 0.001, 0.5, 1, 3.3, 10, 100]
TIMES = [0.0, 0.5, 1.0, 3600.25, -1.0]


def names_of():
    'counters by what they need: {(family, position, version, hop, role, activity, outcome): [(suffix, name)]}'
    out, both = {}, []
    for n in A.valid_names():
        if 'ClientIP' in n:
            continue
        m = PLAIN.match(n)
        if m:
            k = ('plain', m.group('p'), '', '', '', m.group('a'), m.group('f'))
        else:
            m = ONION.match(n)
            if m:
                k = ('onion', m.group('p'), m.group('v'), m.group('h'), m.group('r'), m.group('a'), m.group('f'))
        if m:
            out.setdefault(k, []).append((m.group('s'), n))
        elif BOTH.match(n):
            both.append((n, BOTH.match(n).group(1)))
    return out, both


def layout(names):
    groups, both = names
    bins = dict((n, [(0.0, INF)]) for n, _ in both)
    for l in groups.values():
        for s, n in l:
            if s == 'ReasonCountList':
                bins[n] = A.list_bins(len(LISTS))
            elif s.endswith('Count'):
                bins[n] = [(0.0, INF)]
            elif s == 'CellRatio':
                bins[n] = A.edges(RATIO_EDGES)
            elif s == 'LifeTime':
                bins[n] = A.edges([0, 0.5, 1.0, 1.5, 3600])
            else:
                bins[n] = A.edges(CELL_EDGES)
    return A.Layout(bins)


FIELDS = ['where', 'what', 'side', 'version', 'reason', 'inbound', 'outbound', 'life', 'zeros']
WHERE = {'origin': 'IsOriginFlag', 'entry': 'IsEntryFlag', 'mid': 'IsMidFlag', 'end': 'IsEndFlag'}
WHAT = {'exit': 'IsExitFlag', 'dir': 'IsDirFlag', 'hsdir': 'IsHSDirFlag', 'intro': 'IsIntroFlag', 'rend': 'IsRendFlag'}
IN_CELLS = ['InboundReceivedCellCount', 'InboundSentCellCount', 'InboundExitCellCount']
OUT_CELLS = ['OutboundReceivedCellCount', 'OutboundSentCellCount', 'OutboundExitCellCount']


def words(e):
    w = ['PRIVCOUNT_CIRCUIT_CLOSE', 'EventTimestamp=%.6f' % (1.5e9 + e['life']), 'CreatedTimestamp=1500000000.000000', 'PreviousChannelId=1', 'PreviousCircuitId=2',
         'IsLegacyCircuitEndEventFlag=1', 'StateString=open', 'PurposeCode=5', 'PreviousNodeIPAddress=192.0.2.7', 'NextNodeIPAddress=192.0.2.8',
         'InboundExitByteCount=5', 'OutboundExitByteCount=6']
    for group, table in ((e['where'], WHERE), (e['what'], WHAT)):
        for k in sorted(table):
            if k in group:
                w.append(table[k] + '=1')
            elif e['zeros']:
                w.append(table[k] + '=0')
    if e['side'] is not None:
        w.append('IsHSClientSideFlag=%d' % e['side'])
    if e['version'] is not None:
        w.append('HiddenServiceVersionNumber=%d' % e['version'])
    if e['reason'] is not None:
        w.append('FailureReasonString=' + e['reason'])
    for fields, counts in ((IN_CELLS, e['inbound']), (OUT_CELLS, e['outbound'])):
        for f, v in zip(fields, counts):
            if v is not None:
                w.append('%s=%d' % (f, v))
    return w


def ratio(read, write):
    if read == 0 or write == 0:
        return 0 if read == write else 1e3 if write else -1e3
    return math.log(float(write) / read, 2)


def expected(names, e):
    groups, both = names
    inbound = max([0] + [v for v in e['inbound'] if v is not None])
    outbound = max([0] + [v for v in e['outbound'] if v is not None])
    what = set(e['what'])
    if len(what) > 1:
        # only a stream on a circuit makes it an exit
        what.discard('exit')
    where = set(e['where'])
    single = 'entry' in where and 'end' in where
    active = inbound + outbound >= 8
    if what & set(['exit', 'dir', 'hsdir']):
        active = True
    if what & set(['intro', 'rend']) and e['version'] is None:
        # the other side never connected
        active = False
    failed = e['reason'] is not None
    facts = set(['Active' if active else 'Inactive', 'Failure' if failed else 'Success', ''])
    positions = set(where | what)
    if single:
        positions.add('singlehop')
    versions = ('', 'U' if e['version'] is None else str(e['version']))
    role = None if e['side'] is None else 'Client' if e['side'] else 'Service'
    hop = None if role is None else 'MultiHop' if not single else 'Tor2Web' if role == 'Client' else 'SingleOnion'
    bin = dict(REASONS)[e['reason']]
    val = {'Count': (1, 1), 'InboundCellCount': (1, inbound), 'OutboundCellCount': (1, outbound), 'InboundCellHistogram': (inbound, 1), 'OutboundCellHistogram': (outbound, 1),
           'LifeTime': (e['life'], 1)}
    if active:
        val['CellRatio'] = (ratio(inbound, outbound), 1)
    if failed:
        val['ReasonCountList'] = (len(LISTS) if bin is None else bin, 1)
    out = []
    for (family, p, v, h, r, a, f), l in groups.items():
        if p.lower() not in positions or a not in facts or f not in facts:
            continue
        if family == 'onion' and (v not in versions or h not in ('', hop) or r not in ('', role)):
            continue
        out += [(n,) + val[s] for s, n in l if s in val]
    for n, r in both:
        if 'exit' in what or ('rend' in what and e['version'] == 2 and role == r):
            out.append((n, 1, 1))
    return out


BAD = [('EventTimestamp', ['-1', 'x', '', None]), ('CreatedTimestamp', ['-1', 'x', None]), ('IsLegacyCircuitEndEventFlag', ['2', 'x', None]), ('StateString', ['', 's' * 51, None]),
       ('PurposeCode', ['0', '21', 'x', None]), ('IsOriginFlag', ['2']), ('IsEntryFlag', ['x']), ('IsMidFlag', ['-1']), ('IsEndFlag', ['2']), ('IsHSClientSideFlag', ['2', 'x']),
       ('HiddenServiceVersionNumber', ['1', '4', 'x']), ('FailureReasonString', ['', 'f' * 51]), ('InboundReceivedCellCount', ['-1', 'x']), ('InboundSentCellCount', ['-1', 'x']),
       ('OutboundReceivedCellCount', ['-1', '1.5']), ('OutboundSentCellCount', ['-1', 'x']), ('InboundExitCellCount', ['-1']), ('OutboundExitCellCount', ['-1']),
       ('InboundExitByteCount', ['-1']), ('OutboundExitByteCount', ['-1']), ('PreviousNodeIPAddress', ['x']), ('NextNodeIPAddress', ['1.2.3']), ('PreviousChannelId', ['x', '-1']),
       ('PreviousNodeFingerprint', ['abc']), ('NextNodeFingerprint', ['abc']), ('OnionHandshakeType', ['3', 'x']), ('IsMarkedForCloseFlag', ['2']), ('HSStateString', ['']),
       ('PurposeString', ['p' * 51]), ('ExitStreamCount', ['0', 'x']), ('RendSpliceHiddenServiceVersionNumber', ['5']), ('IntroClientSinkIsEntryFlag', ['3']),
       ('InboundDirByteCount', ['-1']), ('OutboundDirByteCount', ['x'])]


def make(ctx):
    names = names_of()
    lay = layout(names)
    ctx.note('%d circuit counters' % len(lay.bins))
    return names, lay, F.Counting(lay.bins, **A.lists_config(circuit_failure=LISTS))


def one(ctx, names, lay, w, e):
    ctx.transition()
    ctx.trace()
    line = words(e)
    case = {'kind': 'valid', 'event': [e[f] for f in FIELDS]}
    ok = w.event(line)
    want = lay.expect(expected(names, e))
    A.compare(ctx, 'circuit', w.take(), want, ' '.join(line), case)
    if not ok:
        ctx.violation('refused', '%s was treated as an error' % ' '.join(line), case)
    ctx.outcome(len(want))
    ctx.state(case)


def bad(ctx, w, e, field, value):
    ctx.transition()
    line = [x for x in words(e) if not x.startswith(field + '=')]
    if value is not None:
        line.append('%s=%s' % (field, value))
    w.event(line)
    A.compare(ctx, 'invalid', w.take(), {}, ' '.join(line), {'kind': 'bad', 'event': [e[f] for f in FIELDS], 'field': field, 'value': value})
    ctx.state(line)


def three(a, b=None, c=None):
    return (a, b, c)


def run(ctx):
    names, lay, w = make(ctx)
    wheres = [c for n in range(5) for c in itertools.combinations(sorted(WHERE), n)]
    whats = [()] + [(x,) for x in sorted(WHAT)] + [('exit', x) for x in sorted(WHAT) if x != 'exit']
    common = [(), ('end',), ('end', 'entry'), ('mid',), ('entry',)]
    # every class of circuit
    for c in itertools.product(wheres, whats, [None, 0, 1], [None, 2, 3], [None, 'timeout'], [(three(3), three(4)), (three(3), three(5))], [0.5], [False]):
        if ctx.mine():
            one(ctx, names, lay, w, dict(zip(FIELDS, c[:5] + c[5] + c[6:])))
    # every amount
    pairs = [(three(a), three(b)) for a in CELLS for b in CELLS]
    for c in itertools.product(common if ctx.thorough else [('end', 'entry'), ('mid',)], [(), ('exit',), ('rend',)], [1], [None, 2], [None, 'NONE'], pairs, [1.0], [True]):
        if ctx.mine():
            one(ctx, names, lay, w, dict(zip(FIELDS, c[:5] + c[5] + c[6:])))
    # every place a cell count can be found
    odd = [(i, o) for i in itertools.product([None, 0, 4], repeat=3) for o in [three(None), (None, 4, None), (0, 4, 4), (5, None, 0), (None, None, 9)]]
    for c in itertools.product([('mid',)], [(), ('intro',)], [None], [3], [None], odd + [(o, i) for i, o in odd], [0.0], [False, True]):
        if ctx.mine():
            one(ctx, names, lay, w, dict(zip(FIELDS, c[:5] + c[5] + c[6:])))
    # every reason and lifetime
    for c in itertools.product(common, whats, [None, 1], [None, 3], [r for r, _ in REASONS], [(three(8), three(0))], TIMES, [True]):
        if ctx.mine():
            one(ctx, names, lay, w, dict(zip(FIELDS, c[:5] + c[5] + c[6:])))
    for what in [(), ('exit',), ('rend',)]:
        e = dict(zip(FIELDS, (('end', 'entry'), what, 1, 2, 'timeout', three(8), three(9), 1.0, False)))
        for field, values in BAD:
            for value in values:
                if ctx.mine():
                    bad(ctx, w, e, field, value)


def replay(ctx, case):
    case = plain(case)
    names, lay, w = make(ctx)
    e = dict(zip(FIELDS, case['event']))
    for k in ('where', 'what', 'inbound', 'outbound'):
        e[k] = tuple(e[k])
    if case['kind'] == 'valid':
        one(ctx, names, lay, w, e)
    else:
        bad(ctx, w, e, case['field'], case['value'])
