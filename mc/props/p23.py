'''
P23: every combination of connection-close fields, and every short sequence of
entry circuit ends and rotations, through a real collector that holds every
connection and client address counter.
'''
import itertools
import re

import account as A
import env
import fixtures as F
from env import REACTOR, CLOCK
from explore import plain

INF = float('inf')
NAME = re.compile('^(?P<p>Entry|NonEntry)(?P<r>RelayOnAddress|NoRelayOnAddress|)Connection(?P<m>CountryMatch|CountryNoMatch|ASMatch|ASNoMatch|)'
                  '(?P<s>(?:(?:Inbound|Outbound)?(?:Byte|Circuit))?Count|(?:(?:Inbound|Outbound)?(?:Byte|Circuit))?CountList|(?:Inbound|Outbound)?(?:Byte|Circuit)Histogram|LifeTime|OverlapHistogram)$')
COUNTRIES = [['AA', 'BB'], ['CC'], ['dd', '??']]
COUNTRY = [('aa', 0), ('BB', 0), ('cc', 1), ('DD', 2), ('??', 2), ('ee', None), (None, None)]
SYSTEMS = [[64500], [64501, 64502]]
PREFIX = {4: '192.0.2.0/24\t64500\n192.0.2.128/25\t64501\n198.51.100.0/24\t64503\n', 6: '2001:db8::/32\t64502\n2001:db8:1::/48\t64500\n'}
ADDRESSES = [('192.0.2.1', 0), ('192.0.2.200', 1), ('198.51.100.1', None), ('203.0.113.5', None), ('2001:db8::1', 1), ('2001:db8:1::1', 0), ('2001:db9::', None)]

AMOUNTS = [None, 0, 1, 600, 2 ** 40]
EDGES = [0, 1, 2, 600, 601, 602, 1200, 2 ** 40, 2 ** 40 + 1, 2 ** 41]
TIMES = [0.0, 0.5, 1.0, 86400.25, -1.0]


def names_of():
    out = {}
    for n in A.valid_names():
        m = NAME.match(n)
        if m:
            out[n] = m.groupdict()
    return out


def layout(names):
    bins = {}
    for n, m in names.items():
        s = m['s']
        if s.endswith('CountList'):
            bins[n] = A.list_bins(len(COUNTRIES if m['m'] == 'CountryMatch' else SYSTEMS))
        elif s.endswith('Count'):
            bins[n] = [(0.0, INF)]
        elif s == 'LifeTime':
            bins[n] = A.edges([0, 0.5, 1.0, 1.5, 86400])
        else:
            bins[n] = A.edges(EDGES)
    return A.Layout(bins)


FIELDS = ['client', 'relays', 'same', 'bytes', 'circuits', 'life', 'country', 'address']


def words(e):
    w = ['PRIVCOUNT_CONNECTION_CLOSE', 'EventTimestamp=%.6f' % (1.5e9 + e['life']), 'CreatedTimestamp=1500000000.000000', 'ChannelId=12',
         'RemoteIsClientFlag=%d' % e['client'], 'RemoteIPAddress=' + e['address'], 'RemoteIPAddressConnectionCount=%d' % e['same'],
         'PeerIPAddressConsensusRelayCount=%d' % e['relays']]
    for name, (a, b) in (('Byte', e['bytes']), ('Circuit', e['circuits'])):
        if a is not None:
            w.append('Inbound%sCount=%d' % (name, a))
        if b is not None:
            w.append('Outbound%sCount=%d' % (name, b))
    if e['country'] is not None:
        w.append('RemoteCountryCode=' + e['country'])
    return w


def expected(names, e):
    out = []
    country, system = dict(COUNTRY)[e['country']], dict(ADDRESSES)[e['address']]
    val = {'Count': (1, 1), 'LifeTime': (e['life'], 1), 'OverlapHistogram': (e['same'], 1), 'CountList': (None, 1)}
    for name, (a, b) in (('Byte', e['bytes']), ('Circuit', e['circuits'])):
        a, b = a or 0, b or 0
        for d, v in (('Inbound', a), ('Outbound', b), ('', a + b)):
            val[d + name + 'Count'] = (1, v)
            val[d + name + 'Histogram'] = (v, 1)
            val[d + name + 'CountList'] = (None, v)
    for n, m in names.items():
        if (m['p'] == 'Entry') != bool(e['client']):
            continue
        if m['r'] and (m['r'] == 'RelayOnAddress') != (e['relays'] > 0):
            continue
        v, amount = val[m['s']]
        if m['m']:
            b, lists = (country, COUNTRIES) if m['m'].startswith('Country') else (system, SYSTEMS)
            if m['s'].endswith('CountList'):
                v = len(lists) if b is None else b
            elif ('No' in m['m']) != (b != 0):
                continue
        out.append((n, v, amount))
    return out


BAD = [('EventTimestamp', ['-1', 'x', '', None]), ('CreatedTimestamp', ['-1', 'x', None]), ('ChannelId', ['-1', 'x', None]), ('RemoteIsClientFlag', ['2', '-1', 'x', '', None]),
       ('RemoteIPAddress', ['1.2.3', 'x', '', None]), ('RemoteIPAddressConnectionCount', ['-1', '131073', 'x', None]), ('PeerIPAddressConsensusRelayCount', ['-1', '101', 'x', None]),
       ('InboundByteCount', ['-1', 'x', '1.5']), ('OutboundByteCount', ['-1', 'x', '']), ('InboundCircuitCount', ['-1', 'x']), ('OutboundCircuitCount', ['-1', 'x']),
       ('RemoteCountryCode', ['a', 'aaa', '']), ('PeerIPAddress', ['x', '1.2.3.4.5'])]


def make(ctx):
    names = names_of()
    ctx.note('%d connection counters' % len(names))
    lay = layout(names)
    return names, lay, F.Counting(lay.bins, **A.lists_config(country=COUNTRIES, as_prefix=PREFIX, **{'as': SYSTEMS}))


def one(ctx, names, lay, w, e):
    ctx.transition()
    ctx.trace()
    line = words(e)
    case = {'kind': 'valid', 'event': [e[f] for f in FIELDS]}
    ok = w.event(line)
    want = lay.expect(expected(names, e))
    A.compare(ctx, 'connection', w.take(), want, ' '.join(line), case)
    if not ok:
        ctx.violation('refused', '%s was treated as an error' % ' '.join(line), case)
    ctx.outcome(len(want))
    ctx.state(case)


def bad(ctx, w, e, field, value):
    ctx.transition()
    line = [x for x in words(e) if not x.startswith(field + '=')]
    if value is not None:
        line.append('%s=%s' % (field, value))
    w.event(line)
    A.compare(ctx, 'invalid', w.take(), {}, ' '.join(line), {'kind': 'bad', 'event': [e[f] for f in FIELDS], 'field': field, 'value': value})
    ctx.state(line)


# ---- client addresses --------------------------------------------------
IP_NAMES = ['EntryClientIPCount', 'EntryActiveClientIPCount', 'EntryInactiveClientIPCount', 'EntryClientIPActiveCircuitHistogram', 'EntryClientIPInactiveCircuitHistogram']
PERIOD = 600


def ip_layout():
    return A.Layout(dict((n, [(0.0, INF)] if n.endswith('Count') else A.edges([0, 1, 2, 3, 4, 5])) for n in IP_NAMES))


def circuit(ip, active, created, entry=1, legacy=1):
    n = 4 if active else 3
    return ('PRIVCOUNT_CIRCUIT_CLOSE EventTimestamp=%.6f CreatedTimestamp=%.6f PreviousChannelId=1 PreviousCircuitId=2 '
            'IsLegacyCircuitEndEventFlag=%d IsEntryFlag=%d IsExitFlag=0 InboundReceivedCellCount=%d OutboundReceivedCellCount=4 InboundExitByteCount=0 OutboundExitByteCount=0 '
            'PreviousNodeIPAddress=%s NextNodeIPAddress=203.0.113.9 StateString=open PurposeCode=1' % (CLOCK.now, created, legacy, entry, n, ip)).split()


def window_adds(window):
    'what a window of circuits adds when it is rotated out: {ip: [active?, active circuits, inactive circuits]}'
    out = []
    for a, na, ni in window.values():
        out += [('EntryClientIPCount', 1, 1), ('EntryActiveClientIPCount' if a else 'EntryInactiveClientIPCount', 1, 1),
                ('EntryClientIPActiveCircuitHistogram', na, 1), ('EntryClientIPInactiveCircuitHistogram', ni, 1)]
    return out


IPS = ['192.0.2.1', '192.0.2.2', '2001:db8::1', '2001:db8::2']


def clients(ctx, ops):
    'circuits from clients end between rotations of the window'
    case = {'kind': 'clients', 'ops': ops}
    F.reset()
    lay = ip_layout()
    w = F.Counting(lay.bins)
    ctx.trace()
    now, last = {}, {}
    rotated = CLOCK.now
    started = REACTOR.seconds()
    done = []
    for op in list(ops) + [['rotate'], ['rotate'], ['rotate']]:
        ctx.transition()
        done.append(op)
        want = []
        if op[0] == 'rotate':
            gone = REACTOR.seconds() - started
            REACTOR.advance(PERIOD - gone % PERIOD + 1)
            want = window_adds(last)
            now, last = {}, now
            rotated = CLOCK.now - 1
        else:
            _, ip, active, before, entry, legacy = op
            REACTOR.jump(1.0)
            created = rotated - 30 if before else CLOCK.now - 0.25
            if entry and legacy:
                windows = [now] + ([last] if before else [])
                for x in windows:
                    c = x.setdefault(ip, [False, 0, 0])
                    c[0] = c[0] or bool(active)
                now[ip][1 if active else 2] += 1
            w.event(circuit(IPS[ip], active, created, entry, legacy))
        A.compare(ctx, 'client-address', w.take(), lay.expect(want), 'after %r' % (done,), case)
        ctx.outcome(len(want))
    w.dc.do_stop({'send_counters': False})
    ctx.state(ops)


def run(ctx):
    names, lay, w = make(ctx)
    pairs = [(a, b) for a in AMOUNTS for b in AMOUNTS]
    countries = [c for c, _ in COUNTRY]
    addresses = [a for a, _ in ADDRESSES]
    for c in itertools.product([0, 1], [0, 1, 2, 100], [0, 1], [(600, 1)], [(1, 0)], [1.0], countries, addresses):
        if ctx.mine():
            one(ctx, names, lay, w, dict(zip(FIELDS, c)))
    some = pairs if ctx.thorough else [(None, None), (0, 1), (600, 600), (2 ** 40, 2 ** 40), (1, None)]
    for c in itertools.product([0, 1], [0, 2], [1, 600], pairs, some, TIMES if ctx.thorough else TIMES[-2:], ['aa', 'cc'], addresses[:1]):
        if ctx.mine():
            one(ctx, names, lay, w, dict(zip(FIELDS, c)))
    for c in itertools.product([0, 1], [0, 2], [0, 1, 2, 600, 601, 131072], [(1, None)], some, TIMES, ['aa'], addresses[-2:]):
        if ctx.mine():
            one(ctx, names, lay, w, dict(zip(FIELDS, c)))
    for client in (0, 1):
        e = dict(zip(FIELDS, (client, 1, 1, (1, 2), (3, 4), 1.0, 'aa', '192.0.2.1')))
        for field, values in BAD:
            for value in values:
                if ctx.mine():
                    bad(ctx, w, e, field, value)
    w.dc.do_stop({'send_counters': False})
    alphabet = [['circuit', ip, a, b, 1, 1] for ip in (0, 1) for a in (0, 1) for b in (0, 1)] + [['circuit', 3, a, 0, 1, 1] for a in (0, 1)] + [['circuit', 0, 1, 0, 0, 1], ['circuit', 2, 1, 1, 1, 0], ['rotate']]
    for n in range(1, 6 if ctx.thorough else 5):
        for ops in itertools.product(alphabet, repeat=n):
            if ops[0][0] == 'circuit' and ops[0][1] == 0 and ctx.mine():
                clients(ctx, list(ops))


def replay(ctx, case):
    case = plain(case)
    if case['kind'] == 'clients':
        return clients(ctx, case['ops'])
    names, lay, w = make(ctx)
    e = dict(zip(FIELDS, case['event']))
    e['bytes'], e['circuits'] = tuple(e['bytes']), tuple(e['circuits'])
    if case['kind'] == 'valid':
        one(ctx, names, lay, w, e)
    else:
        bad(ctx, w, e, case['field'], case['value'])
