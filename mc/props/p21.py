'''
P21: every combination of stream-end fields, and every short sequence of streams
and circuit ends on several circuits, through a real collector whose counters
are all the exit stream counters; what changed is compared with what the names
of the counters say.
'''
import itertools
import math
import re

import account as A
import env
import fixtures as F
from explore import plain

INF = float('inf')

# the port classes
WEB = set([80, 443])
INTERACTIVE = set([22, 194, 994, 6679, 6697, 7000]) | set(range(6660, 6671))
P2P = set([1214, 6699, 45682, 51413]) | set(range(4661, 4667)) | set(range(6346, 6430)) | set(range(6881, 7000))

LISTS = [['www.example.com', 'Example.org'], ['net', 'mail.example.com'], ['news.example']]
HOSTS = [('www.example.com', 0, 0), ('WWW.Example.Com', 0, 0), ('a.www.example.com', None, 0), ('example.com', None, None), ('EXAMPLE.ORG', 0, 0),
         ('net', 1, 1), ('a.b.net', None, 1), ('mail.example.com', 1, 1), ('news.example', 2, 2), ('old.news.example', None, 2), ('localhost', None, None),
         ('magnet', None, None)]
LITERALS = [('198.51.100.1', 4), ('2001:db8::1', 6)]
# 1.2.3 is no IPv4 address
NAMES = [('1.2.3.4.com', None, None), ('999.1.1.1', None, None)]
IPS = [('198.51.100.1', 4), ('0.0.0.0', 4), ('2001:db8::2', 6), ('::', 6), ('(null)', None), ('!', None)]

NAME = re.compile('^Exit(?P<q>.*)Stream(?P<s>Count|(?:Outbound|Inbound)?Byte(?:Count|Histogram)|ByteRatio|LifeTime|(?:(?:Outbound|Inbound)?Byte)?CountList)$')
TOKENS = ['NonWeb', 'Web', 'Interactive', 'P2P', 'OtherPort', 'IPv4Literal', 'IPv6Literal', 'IPv4', 'IPv6', 'Hostname', 'Initial', 'Subsequent',
          'DomainExactMatch', 'DomainNoExactMatch', 'DomainSuffixMatch', 'DomainNoSuffixMatch']
CIRCUIT = re.compile('^Exit(?:Circuit(?P<a>Web|Interactive|P2P|OtherPort|)(?P<s>StreamHistogram|InterStreamCreationTime)|(?P<b>Web|Interactive|P2P|OtherPort)CircuitCount)$')


def tokens(q):
    out = []
    while q:
        for t in TOKENS:
            if q.startswith(t):
                out.append(t)
                q = q[len(t):]
                break
        else:
            raise AssertionError('what is %r?' % (q,))
    return out


def stream_names():
    out = {}
    for n in A.valid_names():
        m = NAME.match(n)
        if m and 'TrafficModel' not in n:
            out[n] = (tokens(m.group('q')), m.group('s'))
    return out


def circuit_names():
    return dict((n, (m.group('a') or m.group('b') or '', m.group('s') or 'Count')) for n, m in ((n, CIRCUIT.match(n)) for n in A.valid_names()) if m)


def port_class(port):
    return 'Web' if port in WEB else 'Interactive' if port in INTERACTIVE else 'P2P' if port in P2P else 'OtherPort'


READS = [0, 1, 10, 1023, 1024, 2 ** 31, 2 ** 40, 3 * 2 ** 39]
TIMES = [(0.0, 0.0), (0.0, 0.5), (0.0, 1.0), (1.5, 3600.25), (5.0, 4.0)]
BYTE_EDGES = [0, 1, 2, 10, 11, 20, 1023, 1024, 1025, 2046, 2047, 2 ** 31, 2 ** 31 + 1, 2 ** 40, 3 * 2 ** 39, 2 ** 41]
RATIO_EDGES = [-100, -10, -3.3, -1, -0.5, -0.001, 0, 0.001, 0.5, 1, 3.3, 10, 100]
TIME_EDGES = [0, 0.5, 1, 1.5, 2, 2.5, 3, 4, 5, 7, 3598.75, 3598.76]
COUNT_EDGES = [0, 1, 2, 3, 4, 5]


def layout(names):
    bins = {}
    for n in names:
        if n.endswith('CountList'):
            bins[n] = A.list_bins(len(LISTS))
        elif n.endswith('Count'):
            bins[n] = [(0.0, INF)]
        elif n.endswith('Ratio'):
            bins[n] = A.edges(RATIO_EDGES)
        elif n.endswith('Time'):
            bins[n] = A.edges(TIME_EDGES)
        elif n.endswith('StreamHistogram'):
            bins[n] = A.edges(COUNT_EDGES)
        else:
            bins[n] = A.edges(BYTE_EDGES)
    return A.Layout(bins)


def ratio(read, write):
    if read == 0:
        return 1e3 if write else 0
    if write == 0:
        return -1e3
    return math.log(float(write) / read, 2)


_applies = {}

def facts(port, host, ip, number):
    'the words that describe a stream, and the lists it matches'
    f = set([port_class(port), 'Initial' if number == 1 else 'Subsequent'])
    if port not in WEB:
        f.add('NonWeb')
    literal = dict(LITERALS).get(host)
    version = dict(IPS)[ip]
    if version:
        f.add('IPv%d' % version)
    exact = suffix = None
    if literal:
        f.add('IPv%dLiteral' % literal)
    else:
        f.add('Hostname')
        exact, suffix = [(e, s) for h, e, s in HOSTS + NAMES if h == host][0]
        f.add('DomainExactMatch' if exact == 0 else 'DomainNoExactMatch')
        f.add('DomainSuffixMatch' if suffix == 0 else 'DomainNoSuffixMatch')
    return frozenset(f), exact, suffix


def expected(names, port, read, write, start, end, host, ip, number):
    if read < 0 or write < 0 or read + write == 0:
        return []
    f, exact, suffix = facts(port, host, ip, number)
    k = (len(names), f, exact, suffix)
    if k not in _applies:
        _applies[k] = []
        for n, (toks, s) in names.items():
            if s.endswith('CountList'):
                # the bin of the list that matched
                toks2 = [t for t in toks if not t.startswith('Domain')] + ['Hostname']
                if all(t in f for t in toks2):
                    b = exact if 'DomainExactMatch' in toks else suffix
                    _applies[k].append((n, s, len(LISTS) if b is None else b))
            elif all(t in f for t in toks):
                _applies[k].append((n, s, None))
    total = read + write
    val = {'Count': (1, 1), 'ByteCount': (1, total), 'OutboundByteCount': (1, write), 'InboundByteCount': (1, read),
           'ByteHistogram': (total, 1), 'OutboundByteHistogram': (write, 1), 'InboundByteHistogram': (read, 1),
           'ByteRatio': (ratio(read, write), 1), 'LifeTime': (end - start, 1),
           'CountList': (None, 1), 'ByteCountList': (None, total), 'OutboundByteCountList': (None, write), 'InboundByteCountList': (None, read)}
    out = []
    for n, s, b in _applies[k]:
        v, amount = val[s]
        out.append((n, b if v is None else v, amount))
    return out


def words(chan, circ, port, read, write, start, end, host, ip, number):
    return ['PRIVCOUNT_STREAM_ENDED', str(chan), str(circ), '7', str(port), str(read), str(write), '%.6f' % (1.5e9 + start), '%.6f' % (1.5e9 + end), host, ip, str(number)]


def world(names, extra=None):
    lay = layout(names)
    return F.Counting(lay.bins, **(extra or {})), lay


def single(ctx, w, lay, names, port, read, write, start, end, host, ip, number, what='stream'):
    ctx.transition()
    ctx.trace()
    e = words(1, 2, port, read, write, start, end, host, ip, number)
    ok = w.event(e)
    got = w.take()
    want = lay.expect(expected(names, port, read, write, start, end, host, ip, number))
    case = {'kind': 'single', 'args': [port, read, write, start, end, host, ip, number]}
    A.compare(ctx, 'stream', got, want, ' '.join(e), case)
    if not ok:
        ctx.violation('stream-refused', '%s was treated as an error' % ' '.join(e), case)
    ctx.outcome(len(want))


def all_streams(ctx, cases):
    names = stream_names()
    ctx.note('%d stream counters' % len(names))
    w, lay = world(names, A.lists_config(domain=LISTS))
    for c in cases:
        single(ctx, w, lay, names, *c)
        ctx.state(c)


def ports(ctx):
    'every port'
    names = dict((n, v) for n, v in stream_names().items() if v[1] == 'Count' and len(v[0]) <= 1)
    w, lay = world(names)
    near = set(p + d for p in list(WEB | INTERACTIVE | P2P) + [0, 2 ** 13, 2 ** 14, 2 ** 15, 65535, 8080, 8443, 80 + 65536] for d in range(-12, 13))
    for port in range(0, 65536):
        if (ctx.thorough or port < 1024 or port in near) and ctx.mine():
            single(ctx, w, lay, names, port, 10, 20, 0.0, 1.0, 'localhost', '198.51.100.1', 2)


# ---- streams and circuits ----------------------------------------------
CIRCUITS = [(1, 1), (1, 2), (2, 1)]
KINDS = [(80, 10, 0.0), (443, 10, 2.5), (22, 10, 1.0), (1214, 10, 2.5), (9, 10, 7.0), (80, 0, 4.0)]


def close(chan, circ, exit=1, entry=0, legacy=1, cells=10):
    return ('PRIVCOUNT_CIRCUIT_CLOSE EventTimestamp=1500000100.000000 CreatedTimestamp=1500000000.000000 PreviousChannelId=%d PreviousCircuitId=%d '
            'IsLegacyCircuitEndEventFlag=%d IsEntryFlag=%d IsExitFlag=%d InboundReceivedCellCount=%d OutboundReceivedCellCount=%d InboundExitByteCount=1 OutboundExitByteCount=1 '
            'PreviousNodeIPAddress=192.0.2.1 NextNodeIPAddress=192.0.2.2 StateString=open PurposeCode=1' % (chan, circ, legacy, entry, exit, cells, cells)).split()


def gaps(times):
    t = sorted(times)
    return [b - a for a, b in zip(t, t[1:])]


def circuit_adds(names, streams):
    out = []
    for n, (cls, s) in names.items():
        mine = [t for p, t in streams if cls == '' or port_class(p) == cls]
        if not mine:
            continue
        if s == 'Count':
            out.append((n, 1, 1))
        elif s == 'StreamHistogram':
            out.append((n, len(mine), 1))
        else:
            out += [(n, g, 1) for g in gaps(mine)]
    return out


def sequence(ctx, w, lay, names, ops, base):
    case = {'kind': 'sequence', 'ops': ops}
    ctx.trace()
    known = {}
    script = list(ops) + [['close', c, 1, 0, 1, 10] for c in range(len(CIRCUITS))]
    done = []
    for op in script:
        ctx.transition()
        want = []
        chan, circ = CIRCUITS[op[1]]
        chan += base
        if op[0] == 'stream':
            port, n, start = KINDS[op[2]]
            e = words(chan, circ, port, n, n, start, start + 1, 'localhost', '198.51.100.1', 1)
            if n:
                known.setdefault(op[1], []).append((port, start))
        else:
            _, c, exit, entry, legacy, cells = op
            e = close(chan, circ, exit, entry, legacy, cells)
            # a circuit with a client as its previous hop is not an exit circuit
            if exit and not entry and legacy:
                want = circuit_adds(names, known.pop(c, []))
        done.append(op)
        ok = w.event(e)
        got = w.take()
        want = lay.expect(want)
        A.compare(ctx, 'circuit', got, want, 'after %r' % (done,), case)
        if not ok:
            ctx.violation('refused', '%s was treated as an error' % ' '.join(e), case)
        ctx.outcome(len(want))


def run(ctx):
    ports(ctx)
    hosts = [h for h, _, _ in HOSTS + NAMES] + [h for h, _ in LITERALS]
    ips = [i for i, _ in IPS]
    some_ports = [80, 443, 22, 6881, 9, 0, 8080, 65535]
    pairs = [(r, w) for r in READS for w in READS] + [(-1, 5), (5, -1), (-5, 5)]
    cases = []
    # every class of stream
    for c in itertools.product(some_ports, [(10, 20), (0, 1024), (0, 0)], [(0.0, 1.0)], hosts, ips, [1, 2, 0, 100]):
        cases.append((c[0], c[1][0], c[1][1], c[2][0], c[2][1], c[3], c[4], c[5]))
    # every amount
    for c in itertools.product([80, 22], pairs, TIMES, [('www.example.com', '198.51.100.1'), ('2001:db8::1', '2001:db8::2')] if not ctx.thorough else [(h, i) for h in hosts for i in ips[:3]], [1, 2]):
        cases.append((c[0], c[1][0], c[1][1], c[2][0], c[2][1], c[3][0], c[3][1], c[4]))
    all_streams(ctx, [c for c in cases if ctx.mine()])
    names = circuit_names()
    ctx.note('%d circuit counters' % len(names))
    w, lay = world(names)
    alphabet = [['stream', c, k] for c in range(len(CIRCUITS)) for k in range(len(KINDS))]
    alphabet += [['close', c, 1, 0, 1, 10] for c in range(len(CIRCUITS))] + [['close', 0, 1, 1, 1, 10], ['close', 0, 0, 0, 1, 10], ['close', 0, 1, 0, 0, 10], ['close', 0, 1, 0, 1, 0]]
    base = 0
    for depth in range(1, 5 if ctx.thorough else 4):
        for ops in itertools.product(alphabet, repeat=depth):
            # circuits are alike: the first one used is the first one
            if ops[0][1] != 0 or not ctx.mine():
                continue
            base += 10
            sequence(ctx, w, lay, names, list(ops), base)
            ctx.state(ops)


def replay(ctx, case):
    case = plain(case)
    if case['kind'] == 'single':
        all_streams(ctx, [tuple(case['args'])])
        names = dict((n, v) for n, v in stream_names().items() if v[1] == 'Count' and len(v[0]) <= 1)
        w, lay = world(names)
        single(ctx, w, lay, names, *case['args'])
    else:
        names = circuit_names()
        w, lay = world(names)
        sequence(ctx, w, lay, names, case['ops'], 10)
