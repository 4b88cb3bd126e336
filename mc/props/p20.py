'''
P20: every event type with every field removed, repeated, emptied and replaced
by every value of a hostile set, pairs of those, and every short run of
malformed words, through a real collector that holds every counter.
'''
import itertools
import re

import account as A
import fixtures as F

INF = float('inf')
HEX = F.FP_A

INT = re.compile(r'^[+-]?[0-9]+$')
FLOAT = re.compile(r'^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$')
ADDRESSES = set(['192.0.2.7', '0.0.0.0', '::', '2001:db8::1', '255.255.255.255'])


class Type(object):
    def __init__(self, kind, low=None, high=None, lenient=False):
        self.kind, self.low, self.high, self.lenient = kind, low, high, lenient

    def valid(self, v):
        if self.lenient:
            return True
        if self.kind == 'int':
            n = INT.match(v) and int(v)
        elif self.kind == 'float':
            n = FLOAT.match(v) and float(v)
        elif self.kind == 'text':
            n = len(v)
        elif self.kind == 'list':
            n = 0 if v == '' else v.count(',') + 1
        else:
            return v in ADDRESSES
        return n is not None and (self.low is None or n >= self.low) and (self.high is None or n <= self.high)


def i(low=0, high=None):
    return Type('int', low, high)

FLAG = i(0, 1)
TIME = Type('float', 0.0)
IP = Type('ip')
ANY = Type('any', lenient=True)


def text(low=1, high=50):
    return Type('text', low, high)


def common(prefix, must):
    t = {prefix + 'NextChannelId': i(), prefix + 'NextCircuitId': i(), prefix + 'PreviousChannelId': i(), prefix + 'PreviousCircuitId': i(),
         prefix + 'HiddenServiceVersionNumber': i(2, 3), prefix + 'OnionHandshakeType': i(0, 2), prefix + 'FailureReasonString': text(), prefix + 'ExitStreamCount': i(1)}
    for f in 'Origin Entry Mid End Exit Dir HSDir Intro Rend MarkedForClose HSClientSide ClientIntroLegacy'.split():
        t['%sIs%sFlag' % (prefix, f)] = FLAG
    t[prefix + 'HasReceivedCreateCellFlag'] = FLAG
    return t


def merged(*tables):
    out = {}
    for t in tables:
        out.update(t)
    return out


CIRCUIT = merged(common('', True), common('IntroClientSink', False), common('RendSplice', False),
                 {'EventTimestamp': TIME, 'CreatedTimestamp': TIME, 'IsLegacyCircuitEndEventFlag': FLAG, 'StateString': text(), 'PurposeCode': i(1, 20), 'PurposeString': text(),
                  'HSStateString': text()},
                 dict(('%sNode%s' % (p, k), t) for p in ('Previous', 'Next') for k, t in (('IPAddress', IP), ('Fingerprint', text(40, 40)), ('RelayFlagList', Type('list', 1, 20)))),
                 dict(('%s%sCount' % (d, k), i()) for d in ('Inbound', 'Outbound') for k in ('SentCell', 'ReceivedCell', 'ExitCell', 'ExitByte', 'DirByte')))
CELL = merged(common('', True), {'EventTimestamp': TIME, 'IsSentFlag': FLAG, 'CellCircuitId': i(), 'CellCommandString': text(), 'IsOutboundFlag': FLAG, 'RelayCellPayloadByteCount': i(),
                                 'RelayCellStreamId': i(), 'RelayCellCommandString': text(), 'IsRecognizedFlag': FLAG, 'WasRelayCryptSuccessfulFlag': FLAG})
CONNECTION = {'EventTimestamp': TIME, 'CreatedTimestamp': TIME, 'ChannelId': i(), 'RemoteIsClientFlag': FLAG, 'RemoteIPAddress': IP, 'RemoteIPAddressConnectionCount': i(0, 131072),
              'PeerIPAddressConsensusRelayCount': i(0, 100), 'PeerIPAddress': IP, 'InboundByteCount': i(), 'OutboundByteCount': i(), 'InboundCircuitCount': i(), 'OutboundCircuitCount': i(),
              'RemoteCountryCode': text(2, 2)}


def hsdir(version, store):
    high = 40960 if version == 2 else 1048576
    no = Type('int', 1, 0)
    only = lambda v, t: t if v == version else no
    t = {'HiddenServiceVersionNumber': i(2, 3), 'EventTimestamp': TIME, 'CacheReasonString': text(), 'HasExistingCacheEntryFlag': FLAG, 'EncodedIntroPointByteCount': i(0, high),
         'EncodedDescriptorByteCount': i(0, high), 'IntroPointCount': only(2, i(0, 10)), 'RequiresClientAuthFlag': only(2, FLAG), 'DescriptorCreationTime': only(2, TIME),
         'DescriptorIdBase32String': text(32, None), 'OnionAddress': only(2, text(16, 16)), 'RevisionNumber': only(3, i()), 'SupportedProtocolBitfield': only(2, ANY),
         'IntroPointFingerprintList': only(2, ANY), 'DescriptorLifetime': only(3, ANY), 'BlindedEd25519PublicKeyBase64String': only(3, text(43, 43))}
    if store:
        t['WasAddedToCacheFlag'] = FLAG
    else:
        t.update(CacheQueryByteCount=i(), HasCacheEntryFlag=FLAG, CacheLastServedTime=only(2, i()), CacheCreatedTime=only(3, i()))
    return t


MUST = {'CIRCUIT_CLOSE': ['EventTimestamp', 'CreatedTimestamp', 'IsLegacyCircuitEndEventFlag', 'StateString', 'PurposeCode'],
        'CIRCUIT_CELL': ['EventTimestamp', 'IsSentFlag', 'CellCircuitId', 'CellCommandString'],
        'CONNECTION_CLOSE': ['EventTimestamp', 'CreatedTimestamp', 'ChannelId', 'RemoteIsClientFlag', 'RemoteIPAddress', 'RemoteIPAddressConnectionCount', 'PeerIPAddressConsensusRelayCount'],
        'HSDIR_CACHE_STORE': ['HiddenServiceVersionNumber', 'EventTimestamp', 'CacheReasonString', 'WasAddedToCacheFlag'],
        'HSDIR_CACHE_FETCH': ['HiddenServiceVersionNumber', 'EventTimestamp', 'CacheReasonString', 'CacheQueryByteCount'],
        'VITERBI_PACKETS': ['EventTimestamp', 'ViterbiPathPackets'], 'VITERBI_STREAMS': ['EventTimestamp', 'ViterbiPathStreams']}

# code, fields, what each may be
EVENTS = [
    ('CIRCUIT_CLOSE', 'EventTimestamp=1500000001.5 CreatedTimestamp=1500000000 IsLegacyCircuitEndEventFlag=1 StateString=open PurposeCode=5 IsEntryFlag=1 PreviousChannelId=1 '
     'PreviousCircuitId=2 PreviousNodeIPAddress=192.0.2.7 NextNodeIPAddress=192.0.2.7 InboundExitByteCount=1 OutboundExitByteCount=2 InboundReceivedCellCount=3 OutboundReceivedCellCount=4', CIRCUIT),
    ('CIRCUIT_CLOSE', 'EventTimestamp=1500000001.5 CreatedTimestamp=1500000000 IsLegacyCircuitEndEventFlag=0 StateString=open PurposeCode=5 IsEndFlag=1 IsRendFlag=1 IsHSClientSideFlag=0 '
     'HiddenServiceVersionNumber=2 FailureReasonString=timeout InboundSentCellCount=9 PurposeString=x HSStateString=y NextNodeFingerprint=%s NextNodeRelayFlagList=Fast,Exit' % HEX, CIRCUIT),
    ('CIRCUIT_CELL', 'EventTimestamp=1500000001.5 IsSentFlag=1 CellCircuitId=5 CellCommandString=relay IsOriginFlag=1 RelayCellCommandString=data', CELL),
    ('CONNECTION_CLOSE', 'EventTimestamp=1500000001.5 CreatedTimestamp=1500000000 ChannelId=1 RemoteIsClientFlag=1 RemoteIPAddress=192.0.2.7 RemoteIPAddressConnectionCount=1 '
     'PeerIPAddressConsensusRelayCount=0 InboundByteCount=5 OutboundByteCount=6 InboundCircuitCount=1 OutboundCircuitCount=1 RemoteCountryCode=us', CONNECTION),
    ('CONNECTION_CLOSE', 'EventTimestamp=1500000001.5 CreatedTimestamp=1500000000 ChannelId=1 RemoteIsClientFlag=0 RemoteIPAddress=2001:db8::1 RemoteIPAddressConnectionCount=2 '
     'PeerIPAddressConsensusRelayCount=1 PeerIPAddress=192.0.2.7', CONNECTION),
    ('HSDIR_CACHE_STORE', 'EventTimestamp=1500000001.5 HiddenServiceVersionNumber=2 CacheReasonString=novel WasAddedToCacheFlag=1 HasExistingCacheEntryFlag=0 EncodedIntroPointByteCount=5 '
     'EncodedDescriptorByteCount=500 IntroPointCount=1 RequiresClientAuthFlag=0 DescriptorCreationTime=1500000000 OnionAddress=abcdefghijklmnop SupportedProtocolBitfield=0xc '
     'IntroPointFingerprintList=%s DescriptorIdBase32String=%s' % (HEX, 'a' * 32), hsdir(2, True)),
    ('HSDIR_CACHE_STORE', 'EventTimestamp=1500000001.5 HiddenServiceVersionNumber=3 CacheReasonString=novel WasAddedToCacheFlag=0 EncodedDescriptorByteCount=50000 RevisionNumber=3 '
     'DescriptorLifetime=10800 BlindedEd25519PublicKeyBase64String=%s' % ('b' * 43), hsdir(3, True)),
    ('HSDIR_CACHE_FETCH', 'EventTimestamp=1500000001.5 HiddenServiceVersionNumber=2 CacheReasonString=found CacheQueryByteCount=9 HasCacheEntryFlag=1 EncodedIntroPointByteCount=5 '
     'EncodedDescriptorByteCount=500 IntroPointCount=1 RequiresClientAuthFlag=1 DescriptorCreationTime=1500000000 OnionAddress=abcdefghijklmnop CacheLastServedTime=5', hsdir(2, False)),
    ('HSDIR_CACHE_FETCH', 'EventTimestamp=1500000001.5 HiddenServiceVersionNumber=3 CacheReasonString=found CacheQueryByteCount=9 HasCacheEntryFlag=0 RevisionNumber=3 CacheCreatedTime=5',
     hsdir(3, False)),
    ('VITERBI_PACKETS', 'EventTimestamp=1500000001.5 ViterbiPathPackets=[["m0s0";"+";35432];["m0s1";"-";0];["m0s1";"F";0]]', {'EventTimestamp': TIME}),
    ('VITERBI_STREAMS', 'EventTimestamp=1500000001.5 ViterbiPathStreams=[["Active";"$";35432];["Dwell";"$";7];["End";"F";0]]', {'EventTimestamp': TIME}),
]
MODEL = {'packet_model': {'state_space': ['m0s0', 'm0s1'], 'observation_space': ['+', '-', 'F'], 'start_probability': {'m0s0': 1.0}, 'transition_probability': {'m0s0': {'m0s1': 1.0}, 'm0s1': {'m0s1': 1.0}},
                          'emission_probability': {'m0s0': {'+': [1.0, 1.0, 1.0, 0.0]}, 'm0s1': {'-': [0.5, 1.0, 1.0, 0.0], 'F': [0.5]}}},
         'stream_model': {'state_space': ['Active', 'Dwell', 'End'], 'observation_space': ['$', 'F'], 'start_probability': {'Active': 1.0},
                          'transition_probability': {'Active': {'Dwell': 1.0}, 'Dwell': {'End': 1.0}, 'End': {}},
                          'emission_probability': {'Active': {'$': [1.0, 0.0, 0.0, 1.0]}, 'Dwell': {'$': [1.0, 1.0, 1.0, 0.0]}, 'End': {'F': [1.0]}}}}

NUMBERS = ['', '-1', '-0', '+1', '0', '1', '2', '3', '4', '5', '01', '11', '20', '21', '100', '101', '131072', '131073', '2147483648', '9223372036854775807', '1.0', '1.5', '1e3', '.5', '5.', '.', '-0.5',
           '-1e300', '0x1', '1L', '1_0', 'x', '1x', 'True', 'None', '--1', '1,2', '1-1', '\xd9\xa1', '\xff']
TEXTS = ['', 'a', 'aa', 'a' * 15, 'a' * 16, 'a' * 17, 'a' * 31, 'a' * 32, 'a' * 39, 'a' * 40, 'a' * 41, 'a' * 43, 'a' * 50, 'a' * 51, 'a' * 1000, ',' * 19, ',' * 20, '\xff\xfe', '{}', '{0}', '%s%n']
ADDRESS_TEXTS = sorted(ADDRESSES) + ['', '1.2.3', '1.2.3.4.5', '256.1.1.1', ':::', 'g::', '192.0.2.7/32', 'localhost']
HOSTILE = NUMBERS + TEXTS + ADDRESS_TEXTS
PATHS = ['[]', '[[]]', '[["m0s0"]]', '[["m0s0";"+"]]', '[["nosuch";"+";1]]', '[["m0s0";"+";"x"]]', '[["m0s0";"+";null]]', '[["m0s0";"+";1];5]', '[["m0s0";"+";1];null]', '5', 'null', '{', '[', ']', 'x',
         '[["m0s0";"+";1]', '[["m0s0";"+";1];["m0s1";"-";"x"]]', '[["m0s0";"+";-5]]', '[["m0s0";"+";1.5]]', '[["m0s0";"+";[]]]', '[["Active";"$";5];["Dwell";"$";{}]]', '[["m0s0";"+";1e999]]',
         '[["m0s0";"+";NaN]]', '[["m0s0","+",1]]', '"m0s0"', '[{}]', '[{"a":1;"b":2;"c":3}]', '\xff', '[["\xff";"+";1]]', '', '[["\\u00e9";"+";1]]']
# what a path that can be decoded must be: a list of lists, the third item of which is a number
GOOD_PATHS = ['[]', '[[]]', '[["m0s0"]]', '[["m0s0";"+"]]', '[["nosuch";"+";1]]', '[["m0s0";"+";-5]]', '[["m0s0","+",1]]']
UNSURE_PATHS = ['[["m0s0";"+";1.5]]', '[{}]', '"m0s0"']

STREAM = ['1', '2', '3', '443', '10', '20', '1500000000', '1500000001.5', 'example.com', '192.0.2.7', '1']
STREAM_TYPES = ['i', 'i', 'i', 'i', 'i', 'i', 'f', 'f', '', '', 'i']
BYTES = ['1', '2', '3', '1', '10', '1500000000']
BYTES_TYPES = ['i', 'i', 'i', 'i', 'i', 'f']
WORDS = ['', '=', 'A', 'A=', '=b', 'A=b', 'A=b=c', 'A==', 'A=b\0', 'A=\r', 'A\n=b', 'EventTimestamp=1500000001.5', 'EventTimestamp=', 'EventTimestamp']
TAGGED_WORD = re.compile(r'^[^=\0\r\n ]+=[^=\0\r\n ]*$')


def layout():
    bins = {}
    for n in A.valid_names():
        if n == 'ZeroCount':
            continue
        if n.endswith('List'):
            bins[n] = A.list_bins(1)
        elif n.endswith('Count') or ('TrafficModel' in n):
            bins[n] = [(0.0, INF)]
        else:
            bins[n] = A.edges([0.0, 1.0, 100.0])
    return A.Layout(bins)


class World(object):
    def __init__(self, ctx):
        self.ctx = ctx
        conf = A.lists_config(domain=[['example.com']], country=[['us']], as_prefix={4: '192.0.0.0/8\t1\n', 6: '2001::/16\t1\n'}, hsdir_store=[['novel']], hsdir_fetch=[['found']],
                              circuit_failure=[['timeout']], onion_address=[['abcdefghijklmnop']], **{'as': [['1']]})
        conf = dict(conf)
        conf['traffic_model'] = MODEL
        self.lay = layout()
        ctx.note('%d counters' % len(self.lay.bins))
        self.w = F.Counting(self.lay.bins, **conf)

    def send(self, words, valid, case, counts=True, want=None):
        ctx, case = self.ctx, clean(case)
        ctx.transition()
        ctx.trace()
        ctx.evaluation()
        ctx.state(words)
        line = ' '.join(repr(x)[1:-1] if len(x) < 200 else '%s...' % x[:40] for x in words)
        try:
            ok = self.w.event(words)
        except Exception as e:
            self.w.take()
            ctx.outcome('exception')
            ctx.violation('exception', '%s raised %s: %s' % (line, type(e).__name__, e), case)
            return None
        got = self.w.take()
        if valid is None:
            return got
        ctx.outcome((valid, words[:1], len(got)))
        if not valid:
            if got:
                k = sorted(got)[0]
                ctx.violation('malformed', '%s is malformed, but %s bin %d changed by %r (%d bins changed)' % (line, k[0], k[1], got[k], len(got)), case)
        else:
            if not ok:
                ctx.violation('rejected', '%s is well-formed, but was rejected' % line, case)
            if counts and not got:
                ctx.violation('uncounted', '%s is well-formed, but no counter changed' % line, case)
            if want is not None and got != want:
                k, g, x = A.differences(got, want)[0]
                ctx.violation('value', '%s: %s bin %d changed by %r, not %r' % (line, k[0], k[1], g, x), case)
        return got


def well_formed(code, types, fields):
    'fields: {name: value}'
    for f in MUST[code]:
        if f not in fields:
            return False
    for f, v in fields.items():
        if f in types and not types[f].valid(v):
            return False
    a, b = fields.get('EncodedIntroPointByteCount'), fields.get('EncodedDescriptorByteCount')
    if code.startswith('HSDIR') and a is not None and b is not None and int(a) > int(b):
        return False
    return True


POSITIONS = ['Is%sFlag' % p for p in 'Origin Entry Mid End Exit Dir HSDir Intro Rend'.split()]


def is_counted(code, fields):
    'do the counters have anything to say about it?'
    if code == 'CIRCUIT_CLOSE':
        return any(INT.match(fields.get(p, '')) and int(fields[p]) == 1 for p in POSITIONS)
    return code != 'CIRCUIT_CELL'


def version_types(code, types, fields):
    # the version decides what the other fields may be
    if code.startswith('HSDIR') and INT.match(fields.get('HiddenServiceVersionNumber', '')):
        v = int(fields['HiddenServiceVersionNumber'])
        if v in (2, 3):
            return hsdir(v, code.endswith('STORE'))
    return types


def tagged(world, n, changes, case):
    'event n with changes [(field, None or value)]'
    code, line, types = EVENTS[n]
    fields = [x.split('=', 1) for x in line.split(' ')]
    for f, v in changes:
        at = [k for k, x in enumerate(fields) if x[0] == f]
        if v is None:
            fields = [x for x in fields if x[0] != f]
        elif at:
            fields[at[0]] = [f, v]
        else:
            fields.append([f, v])
    d = dict((f, v) for f, v in fields)
    valid = well_formed(code, version_types(code, types, d), d)
    path = [v for f, v in d.items() if f.startswith('ViterbiPath')]
    if path and valid and any(f.startswith('ViterbiPath') for f, v in changes):
        valid = None if path[0] in UNSURE_PATHS else path[0] in GOOD_PATHS
    world.send(['PRIVCOUNT_' + code] + ['='.join(x) for x in fields], valid, case, counts=is_counted(code, d))


def worded(world, n, before, after, case):
    'event n with words around its fields'
    code, line, types = EVENTS[n]
    words = list(before) + line.split(' ') + list(after)
    keys = [x.split('=', 1)[0] for x in words if x]
    valid = all(TAGGED_WORD.match(x) for x in words if x) and len(set(keys)) == len(keys)
    want, d = None, {}
    if valid:
        d = dict(x.split('=', 1) for x in words if x)
        valid = well_formed(code, version_types(code, types, d), d)
    if valid and not any(x.split('=', 1)[0] in types for x in list(before) + list(after)):
        want = world.send(['PRIVCOUNT_' + code] + line.split(' '), None, case)
    world.send(['PRIVCOUNT_' + code] + words, valid, case, counts=is_counted(code, d), want=want)


def positional(world, code, items, types, case, counts):
    base = len(types)
    valid = len(items) == base
    if valid:
        for t, v in zip(types, items):
            if t and not (INT if t == 'i' else FLOAT).match(v):
                valid = False
    world.send(['PRIVCOUNT_' + code] + items, valid, case, counts=valid and counts(items))


def stream_counts(items):
    r, w = int(items[4]), int(items[5])
    return r >= 0 and w >= 0 and r + w > 0


POSITIONAL = {'STREAM_ENDED': (STREAM, STREAM_TYPES, stream_counts), 'STREAM_BYTES_TRANSFERRED': (BYTES, BYTES_TYPES, lambda x: False)}
# the same number written differently
SAME = {'int': ['%d', '+%d', '0%d', '000%d'], 'float': ['%r', '+%r', '0%r', '%.6f', '%.9e']}
PAIR = ['', '-1', 'x', '1']


def do(world, case):
    kind = case[0]
    if kind == 'field':
        tagged(world, case[1], [(f, v) for f, v in case[2]], case)
    elif kind == 'words':
        worded(world, case[1], case[2], case[3], case)
    elif kind == 'positional':
        base, types, counts = POSITIONAL[case[1]]
        items = list(base)
        for k, v in case[2]:
            items[k] = v
        positional(world, case[1], items, types, case, counts)
    elif kind == 'length':
        base, types, counts = POSITIONAL[case[1]]
        items = (list(base) * 3)[:case[2]]
        positional(world, case[1], items, types, case, counts)
    elif kind == 'same':
        code, line, types = EVENTS[case[1]]
        want = world.send(['PRIVCOUNT_' + code] + line.split(' '), None, case)
        words = [x if not x.startswith(case[2] + '=') else '%s=%s' % (case[2], case[3]) for x in line.split(' ')]
        world.send(['PRIVCOUNT_' + code] + words, True, case, counts=False, want=want)
    elif kind == 'raw':
        world.send(case[1], False, case)


def cases(thorough):
    for n, (code, line, types) in enumerate(EVENTS):
        present = [x.split('=', 1)[0] for x in line.split(' ')]
        for f in sorted(set(present) | set(types)):
            if f in present:
                yield ['field', n, [[f, None]]]
            for v in PATHS if f.startswith('Viterbi') else HOSTILE:
                yield ['field', n, [[f, v]]]
            for v in [x.split('=', 1)[1] for x in line.split(' ') if x.startswith(f + '=')] + ['', '1']:
                yield ['words', n, [], ['%s=%s' % (f, v)]]
                yield ['words', n, ['%s=%s' % (f, v)], []]
        pairs = sorted(set(present) | set(types)) if thorough else MUST[code] + ['IsExitFlag', 'IsRendFlag', 'EncodedIntroPointByteCount', 'EncodedDescriptorByteCount', 'IntroPointCount']
        for f, g in itertools.combinations([p for p in pairs if p in types], 2):
            for v, w in itertools.product(PAIR + [None], repeat=2):
                yield ['field', n, [[f, v], [g, w]]]
        for a in range(0, 3):
            for b in range(0, 4 - a if thorough else 3 - a):
                for w in itertools.product(WORDS, repeat=a + b):
                    yield ['words', n, list(w[:a]), list(w[a:])]
        for x in line.split(' '):
            f, v = x.split('=', 1)
            if f in types and types[f].kind in SAME and not types[f].lenient:
                number = float(v) if types[f].kind == 'float' else int(v)
                for form in SAME[types[f].kind]:
                    yield ['same', n, f, form % number]
    for code, (base, types, _) in sorted(POSITIONAL.items()):
        for k in range(len(base)):
            for v in HOSTILE:
                yield ['positional', code, [[k, v]]]
        for j, k in itertools.combinations(range(len(base)), 2):
            for v, w in itertools.product(PAIR, repeat=2):
                yield ['positional', code, [[j, v], [k, w]]]
        for k in range(2 * len(base)):
            yield ['length', code, k]
    # no such event, retired events, no fields
    for code in sorted(set(['PRIVCOUNT_' + e[0] for e in EVENTS] + ['PRIVCOUNT_' + k for k in POSITIONAL] + ['PRIVCOUNT_CIRCUIT_ENDED', 'PRIVCOUNT_CONNECTION_ENDED', 'PRIVCOUNT_DNS_RESOLVED',
                           'PRIVCOUNT_', '', 'privcount_circuit_close', 'PRIVCOUNT_CIRCUIT_CLOSE ']) - set(['PRIVCOUNT_STREAM_ENDED'])):
        yield ['raw', [code]]
        yield ['raw', [code, '']]
        if code[10:] not in [e[0] for e in EVENTS]:
            for n in range(0, 16):
                yield ['raw', [code] + ['1'] * n]
                yield ['raw', [code] + ['x'] * n]
            for e in EVENTS:
                yield ['raw', [code] + e[1].split(' ')]
    yield ['raw', []]


def clean(case):
    'the file format has no bytes'
    if isinstance(case, list):
        return [clean(c) for c in case]
    return case.decode('latin-1') if isinstance(case, str) else case


def dirty(case):
    if isinstance(case, list):
        return [dirty(c) for c in case]
    return case.encode('latin-1') if isinstance(case, unicode) else case


def run(ctx):
    world = World(ctx)
    for case in cases(ctx.thorough):
        if ctx.mine():
            do(world, case)


def replay(ctx, case):
    do(World(ctx), dirty(case))
