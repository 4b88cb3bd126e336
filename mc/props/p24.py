'''
P24: every combination of the fields of onion service directory store and fetch
events through a real collector that holds every HSDir store and fetch counter;
what changed is compared with what the names of the counters say.
'''
import hashlib
import itertools
import re

import account as A
import env
import fixtures as F
from explore import plain

INF = float('inf')
NAME = re.compile('^HSDir(?P<v>2|3|)(?P<e>Store|Fetch)(?P<a>Add|Reject|)(?P<c>Cached|Uncached|)(?P<k>ClientAuth|NoClientAuth|)'
                  '(?P<s>Count|(?:Intro|Descriptor)Byte(?:Count|Histogram)|ReasonCountList|OnionAddressCountList|IntroPointHistogram|UploadDelayTime|RevisionHistogram)$')
ONIONS = ['abcdefghijklmnop', 'ponmlkjihgfedcba', '2222222222222222', '7777777777777777']
# the second address is listed as the hash of its name
ONION_LISTS = [['ABCDEFGHIJKLMNOP'], [hashlib.md5('ponmlkjihgfedcba.onion').hexdigest(), '2222222222222222']]
STORE_LISTS = [['novel', 'UPDATED'], ['obsolete']]
FETCH_LISTS = [['found'], ['absent', 'stale'], ['obsolete']]
REASONS = {'Store': [('novel', 0), ('Updated', 0), ('obsolete', 1), ('found', None)],
           'Fetch': [('found', 0), ('ABSENT', 1), ('obsolete', 2), ('novel', None)]}
ONION_BIN = {None: None, ONIONS[0]: 0, ONIONS[0].upper(): 0, ONIONS[1]: 1, ONIONS[2]: 1, ONIONS[3]: None}

BYTES = [0, 1, 2, 500, 501, 40959, 40960, 40961, 1048576]
DELAYS = [-2, 0, 1, 1800, 3600, 3601]


def names_of():
    out = {}
    for n in A.valid_names():
        m = NAME.match(n)
        if m:
            out[n] = m.groupdict()
    return out


def layout(names):
    bins = {}
    for n, m in names.items():
        s = m['s']
        if s == 'ReasonCountList':
            bins[n] = A.list_bins(len(STORE_LISTS if m['e'] == 'Store' else FETCH_LISTS))
        elif s == 'OnionAddressCountList':
            bins[n] = A.list_bins(len(ONION_LISTS))
        elif s.endswith('Count'):
            bins[n] = [(0.0, INF)]
        elif s == 'UploadDelayTime':
            bins[n] = A.edges(DELAYS)
        elif s in ('IntroPointHistogram', 'RevisionHistogram'):
            bins[n] = A.edges([0, 1, 2, 3, 4, 10, 2 ** 31])
        else:
            bins[n] = A.edges(BYTES)
    return A.Layout(bins)


FIELDS = ['event', 'version', 'added', 'cached', 'auth', 'reason', 'onion', 'sizes', 'intros', 'delay', 'revision']


def words(e):
    'the tor event for a choice of fields'
    store = e['event'] == 'Store'
    w = ['HiddenServiceVersionNumber=%d' % e['version'], 'EventTimestamp=1500000000.500000', 'CacheReasonString=%s' % e['reason']]
    if store:
        w.append('WasAddedToCacheFlag=%d' % e['added'])
    else:
        w.append('CacheQueryByteCount=70')
    if e['cached'] is not None:
        w.append('%s=%d' % ('HasExistingCacheEntryFlag' if store else 'HasCacheEntryFlag', e['cached']))
    if e['auth'] is not None:
        w.append('RequiresClientAuthFlag=%d' % e['auth'])
    if e['onion'] is not None:
        w.append('OnionAddress=' + e['onion'])
    intro, desc = e['sizes']
    if intro is not None:
        w.append('EncodedIntroPointByteCount=%d' % intro)
    if desc is not None:
        w.append('EncodedDescriptorByteCount=%d' % desc)
    if e['intros'] is not None:
        w.append('IntroPointCount=%d' % e['intros'])
        w.append('IntroPointFingerprintList=' + ','.join('$' + F.FP_A for _ in range(e['intros'])))
    if e['delay'] is not None:
        w.append('DescriptorCreationTime=%.6f' % (1500000000.5 - e['delay']))
    if e['revision'] is not None:
        w.append('RevisionNumber=%d' % e['revision'])
    return ['PRIVCOUNT_HSDIR_CACHE_' + e['event'].upper()] + w


def expected(names, e):
    out = []
    lists = STORE_LISTS if e['event'] == 'Store' else FETCH_LISTS
    reason = dict(REASONS[e['event']]).get(e['reason'])
    onion = ONION_BIN.get(e['onion'])
    val = {'Count': (1, 1), 'ReasonCountList': (len(lists) if reason is None else reason, 1)}
    if e['onion'] is not None:
        val['OnionAddressCountList'] = (len(ONION_LISTS) if onion is None else onion, 1)
    intro, desc = e['sizes']
    for word, v in (('Intro', intro), ('Descriptor', desc)):
        if v is not None:
            val[word + 'ByteCount'] = (1, v)
            val[word + 'ByteHistogram'] = (v, 1)
    if e['intros'] is not None:
        val['IntroPointHistogram'] = (e['intros'], 1)
    if e['delay'] is not None and e['event'] == 'Store':
        val['UploadDelayTime'] = (e['delay'], 1)
    if e['revision'] is not None:
        val['RevisionHistogram'] = (e['revision'], 1)
    for n, m in names.items():
        if m['e'] != e['event'] or m['v'] not in ('', str(e['version'])) or m['s'] not in val:
            continue
        if m['a'] and (m['a'] == 'Add') != bool(e['added']):
            continue
        if m['c'] and (m['c'] == 'Cached') != bool(e['cached']):
            continue
        if m['k'] and (e['auth'] is None or (m['k'] == 'ClientAuth') != bool(e['auth'])):
            continue
        out.append((n,) + val[m['s']])
    return out


SIZES = [(None, None), (0, 0), (1, 500), (500, 500), (None, 501), (1, None), (40960, 40960), (2, 40959)]


def events(thorough):
    for event in ('Store', 'Fetch'):
        reasons = [r for r, _ in REASONS[event]]
        added = [0, 1] if event == 'Store' else [None]
        cached = [None, 0, 1]
        auth = [None, 0, 1]
        onions = [None] + sorted(o for o in ONION_BIN if o)
        intros = [None, 0, 3, 10]
        delays = [None] + DELAYS if event == 'Store' else [None, 0]
        if thorough:
            two = itertools.product(added, cached, auth, reasons, onions, SIZES, intros, delays)
        else:
            # every combination of classes with few values, and every combination of values with few classes
            two = itertools.chain(itertools.product(added, cached, auth, reasons, [None, ONIONS[0], ONIONS[3]], [SIZES[0], SIZES[2]], [None, 3], [delays[0], delays[-1]]),
                                  itertools.product(added[:1], [None, 1], [1], reasons[-2:], onions, SIZES, intros, delays))
        for c in two:
            yield dict(zip(FIELDS, (event, 2) + c + (None,)))
        for c in itertools.product(added, cached, reasons, SIZES + [(1048576, 1048576), (40961, 1048576)], [None, 0, 1, 4, 2 ** 31, 2 ** 40]):
            yield dict(zip(FIELDS, (event, 3, c[0], c[1], None, c[2], None, c[3], None, None, c[4])))


# an event with one of these is not valid
BAD = {'Store': [('HiddenServiceVersionNumber', ['1', '4', 'x', '', None]), ('EventTimestamp', ['-1.0', 'x', '', None]), ('CacheReasonString', ['', 'r' * 51, None]),
                 ('WasAddedToCacheFlag', ['2', '-1', 'x', '', None]), ('HasExistingCacheEntryFlag', ['2', 'x', '']),
                 ('EncodedIntroPointByteCount', ['-1', 'x', '1.5', '501']), ('EncodedDescriptorByteCount', ['-1', 'x', '1', '1048577'])],
       'Fetch': [('HiddenServiceVersionNumber', ['1', '4', 'x', '', None]), ('EventTimestamp', ['-1.0', 'x', '', None]), ('CacheReasonString', ['', 'r' * 51, None]),
                 ('CacheQueryByteCount', ['-1', 'x', '', None]), ('HasCacheEntryFlag', ['2', 'x', '']),
                 ('EncodedIntroPointByteCount', ['-1', 'x', '1.5', '501']), ('EncodedDescriptorByteCount', ['-1', 'x', '1', '1048577'])]}
BAD2 = [('EncodedDescriptorByteCount', ['40961']), ('IntroPointCount', ['-1', '11', 'x']), ('RequiresClientAuthFlag', ['2', 'x']), ('DescriptorCreationTime', ['-1.0', 'x']),
        ('OnionAddress', ['abc', 'a' * 17]), ('RevisionNumber', ['1'])]
BAD3 = [('IntroPointCount', ['1']), ('RequiresClientAuthFlag', ['0', '1']), ('DescriptorCreationTime', ['1500000000.0']), ('OnionAddress', [ONIONS[0]]), ('RevisionNumber', ['-1', 'x'])]


def make(ctx):
    names = names_of()
    ctx.note('%d store and fetch counters' % len(names))
    lay = layout(names)
    w = F.Counting(lay.bins, **A.lists_config(hsdir_store=STORE_LISTS, hsdir_fetch=FETCH_LISTS, onion_address=ONION_LISTS))
    return names, lay, w


def one(ctx, names, lay, w, e):
    ctx.transition()
    ctx.trace()
    line = words(e)
    ok = w.event(line)
    want = lay.expect(expected(names, e))
    A.compare(ctx, e['event'].lower(), w.take(), want, ' '.join(line), {'kind': 'valid', 'event': e})
    if not ok:
        ctx.violation('refused', '%s was treated as an error' % ' '.join(line), {'kind': 'valid', 'event': e})
    ctx.outcome((e['event'], len(want)))
    ctx.state([e[f] for f in FIELDS])


def bad(ctx, w, e, field, value):
    ctx.transition()
    line = [x for x in words(e) if not x.startswith(field + '=')]
    if value is not None:
        line.append('%s=%s' % (field, value))
    w.event(line)
    A.compare(ctx, 'invalid', w.take(), {}, ' '.join(line), {'kind': 'bad', 'event': e, 'field': field, 'value': value})
    ctx.state(line)


def run(ctx):
    names, lay, w = make(ctx)
    for e in events(ctx.thorough):
        if ctx.mine():
            one(ctx, names, lay, w, e)
    for event in ('Store', 'Fetch'):
        for version in (2, 3):
            for full in (True, False):
                e = dict(zip(FIELDS, (event, version, 1, None, None, REASONS[event][0][0], None, (500, 500), None, None, None)))
                if full and version == 2:
                    e.update(auth=1, onion=ONIONS[0], intros=3, delay=1, cached=1)
                elif full:
                    e.update(revision=4, cached=1)
                for field, values in BAD[event] + (BAD2 if version == 2 else BAD3):
                    for value in values:
                        if value == '1' and field == 'EncodedDescriptorByteCount' and not full:
                            continue
                        if ctx.mine():
                            bad(ctx, w, e, field, value)


def replay(ctx, case):
    case = plain(case)
    names, lay, w = make(ctx)
    case['event']['sizes'] = tuple(case['event']['sizes'])
    if case['kind'] == 'valid':
        one(ctx, names, lay, w, case['event'])
    else:
        bad(ctx, w, case['event'], case['field'], case['value'])
