'''
P15: every small data structure through the real encryption and transport, every
single-byte change, truncation, swap and key, and the length formula.
'''
import itertools
import json
from base64 import b64encode, b64decode
from copy import deepcopy

import env
import fixtures as F
from env import ENTROPY, REACTOR, HarnessExit
from explore import plain
import privcount.crypto as X

INF = float('inf')

LEAVES = [0, 1, -1, 2 ** 31, 2 ** 62 + 1, 2 ** 70 - 1, -(2 ** 70), 0.5, -2.5e300, 0.1 + 0.2, 1.0 / 3, INF, None, True, False,
          u'', u'a', u'"\\/\r\n\x00', u'\u00e9\u4e2d\U0001f600', u'A' * 300]


def structures(deep):
    for x in LEAVES:
        yield x
    for x in LEAVES:
        yield [x]
        yield {u'k': x}
    for x, y in itertools.product(LEAVES, LEAVES):
        yield [x, y]
        if deep:
            yield {u'a': [x], u'': {u'b': y}}
    yield []
    yield {}
    yield [[], {}, [[]]]
    yield {u'ZeroCount': {u'bins': [[0.0, INF, 2 ** 70 - 1]], u'sigma': 1.5}}
    yield dict((u'Counter%d' % i, {u'bins': [[float(j), float(j + 1), (i * j) ** 20 % 2 ** 70] for j in range(8)]}) for i in range(60))
    for n in (15, 16, 17, 31, 32, 33, 61, 62, 63, 64, 1000, 65535, 65536, 70000):
        yield u'x' * n


def same(a, b):
    'equal in value and in kind (a truth value is not a number)'
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) != isinstance(b, float):
        return False
    return a == b


def attempt(key, message):
    'the data, or the refusal'
    try:
        return True, X.decrypt(key, message)
    except HarnessExit:
        raise
    except Exception as e:
        return False, e


def roundtrip(ctx, i, x):
    F.reset(i)
    pub, priv = X.load_public_key_string(F.sk_pub(i % 3)), F.sk_private(i % 3)
    before = deepcopy(x)
    case = {'kind': 'roundtrip', 'index': i}
    ctx.evaluation()
    ctx.transition()
    try:
        m = F.wire(X.encrypt(pub, x))
    except HarnessExit:
        raise
    except Exception as e:
        ctx.violation('encrypt-raised', 'encrypting %r raised %r' % (x, e), case)
        return
    REACTOR.jump(3 * F.DAY if i % 2 else 0.5)
    ok, y = attempt(priv, m)
    ctx.outcome(('roundtrip', ok))
    ctx.state(('roundtrip', i))
    if not ok:
        ctx.violation('decrypt-failed', 'decrypting %.200r raised %r' % (x, y), case)
    elif not same(before, y):
        ctx.violation('changed', '%.200r came back as %.200r' % (before, y), case)
    if not same(before, x):
        ctx.violation('argument-changed', 'encrypting changed its argument', case)
    ok, y = attempt(F.sk_private((i + 1) % 3), m)
    if ok:
        ctx.violation('wrong-key', 'another key decrypted the message', case)
    try:
        z = X.decode_data(X.encode_data(x))
        if not same(before, z):
            ctx.violation('encode', '%.200r is encoded and decoded as %.200r' % (before, z), case)
        w = json.loads(X.json_serialise(x))
        if not same(before, w):
            ctx.violation('serialise', '%.200r is serialised as %.200r' % (before, w), case)
    except HarnessExit:
        raise
    except Exception as e:
        ctx.violation('encode', 'encoding %.200r raised %r' % (x, e), case)


FIELDS = ('pk_encrypted_secret_key', 'sym_encrypted_data')
SECRET = {u'ZeroCount': {u'bins': [[0.0, INF, 123456789012345678901]]}}


def message(i, seed, x=SECRET):
    F.reset(seed)
    return F.wire(X.encrypt(X.load_public_key_string(F.sk_pub(i)), x))


def judge(ctx, case, key, m, original=SECRET, must_fail=False):
    ctx.evaluation()
    ctx.transition()
    ok, y = attempt(key, m)
    ctx.outcome((case['kind'], ok))
    ctx.state(repr(case))
    if ok and (must_fail or not same(original, y)):
        ctx.violation(case['kind'], 'a %s message decrypted to %.300r' % (case['kind'], y), case)


def tamper(ctx, case):
    case = plain(case)
    m = message(0, 7)
    v = str(m[case['field']])
    p = case['pos']
    if case['how'] == 'cut':
        t = v[:p]
    elif case['how'] == 'drop':
        t = v[:p] + v[p + 1:]
    elif case['how'] == 'raw':
        # a change to one byte of what the text stands for
        alt = '-_' if case['field'] == FIELDS[1] else '+/'
        raw = b64decode(v, alt)
        raw = raw[:p] + chr(ord(raw[p]) ^ case['with']) + raw[p + 1:]
        t = b64encode(raw, alt)
    elif case['how'] == 'rawcut':
        alt = '-_' if case['field'] == FIELDS[1] else '+/'
        t = b64encode(b64decode(v, alt)[:p], alt)
    else:
        t = v[:p] + case['with'] + v[p + 1:]
        if t == v:
            return
    m[case['field']] = t
    judge(ctx, dict(case, kind='tampered'), F.sk_private(0), m, must_fail=case['how'] in ('raw', 'rawcut'))


def swap(ctx, case):
    'parts of two messages put together; each for a key, with contents and randomness of their own'
    case = plain(case)
    F.reset(3)
    a = F.wire(X.encrypt(X.load_public_key_string(F.sk_pub(case['a'])), {u'from': u'first', u'n': 2 ** 70 - 5}))
    REACTOR.jump(1.0 * case['later'])
    b = F.wire(X.encrypt(X.load_public_key_string(F.sk_pub(case['b'])), {u'from': u'second'}))
    mixed = {FIELDS[0]: a[FIELDS[0]], FIELDS[1]: b[FIELDS[1]]}
    judge(ctx, case, F.sk_private(case['key']), mixed, must_fail=True)
    for f in FIELDS:
        if a[f] == b[f]:
            ctx.violation('reused', 'two messages share their %s' % f, case)


def share(ctx, case):
    'a real collector\'s shares of a round, with one keeper\'s parts changed on the way'
    case = plain(case)
    F.reset(5)
    dc = F.make_dc(sks=2)
    r = F.wire(dc.do_start(F.start_config(sks=2)))
    sk = F.make_sk(0)
    c = F.start_config(sks=2)
    s = r[F.sk_digest(0)]
    other = r[F.sk_digest(1)]
    how = case['how']
    if how == 'other':
        s = other
    elif how == 'swap-key':
        s['secret'][FIELDS[0]] = other['secret'][FIELDS[0]]
    elif how == 'swap-data':
        s['secret'][FIELDS[1]] = other['secret'][FIELDS[1]]
    elif how == 'round':
        REACTOR.advance(1.0)
        dc.do_stop({})
        REACTOR.jump(1.0)
        r2 = F.wire(dc.do_start(F.start_config(sks=2)))
        s['secret'][FIELDS[1]] = r2[F.sk_digest(0)]['secret'][FIELDS[1]]
    c['shares'] = [s]
    ctx.evaluation()
    ctx.transition()
    ctx.trace()
    try:
        ok = sk.do_start(c) is not None
    except HarnessExit:
        ok = False
    except Exception:
        ok = False
    ctx.outcome(('share', how, ok))
    ctx.state(repr(case))
    if ok != (how == 'none'):
        ctx.violation('share', 'the share keeper %s a share with change %s' % ('accepted' if ok else 'refused', how), case)


def lengths(ctx, n):
    case = {'kind': 'length', 'n': str(n)}
    ctx.evaluation()
    raw, padded = X.b64_raw_length(n), X.b64_padded_length(n)
    if n <= 5000:
        text = b64encode('\xa5' * n)
        want = len(text), len(text.rstrip('='))
    else:
        want = (n + 2) // 3 * 4, (n * 8 + 5) // 6
    if (padded, raw) != want:
        ctx.violation('length', 'the base64 length of %d bytes is %r, not %r' % (n, want, (padded, raw)), case)


def run(ctx):
    i = -1
    for i, x in enumerate(structures(ctx.thorough)):
        if ctx.mine(i):
            roundtrip(ctx, i, x)
    m = message(0, 7)
    for f in FIELDS:
        v = m[f]
        step = 1
        withs = ['A', 'b', '9', '-', '=', '!', '\n'] if ctx.thorough else ['A', 'b', '=']
        for p in range(0, len(v), step):
            if not ctx.mine():
                continue
            for w in withs:
                tamper(ctx, {'kind': 'tampered', 'field': f, 'pos': p, 'how': 'replace', 'with': w})
            tamper(ctx, {'kind': 'tampered', 'field': f, 'pos': p, 'how': 'cut'})
            tamper(ctx, {'kind': 'tampered', 'field': f, 'pos': p, 'how': 'drop'})
            ctx.trace()
        n = len(b64decode(str(v), '-_' if f == FIELDS[1] else '+/'))
        for p in range(n):
            if not ctx.mine():
                continue
            for bit in (range(8) if ctx.thorough else (0, 6)):
                tamper(ctx, {'kind': 'tampered', 'field': f, 'pos': p, 'how': 'raw', 'with': 1 << bit})
            tamper(ctx, {'kind': 'tampered', 'field': f, 'pos': p, 'how': 'rawcut'})
    for a, b, k, later in itertools.product(range(3), range(3), range(3), (0, 1)):
        if ctx.mine():
            swap(ctx, {'kind': 'swapped', 'a': a, 'b': b, 'key': k, 'later': later})
    for how in ('none', 'other', 'swap-key', 'swap-data', 'round'):
        if ctx.mine():
            share(ctx, {'kind': 'share', 'how': how})
    if ctx.part == 0:
        for n in list(range(5001)) + [3 * 2 ** k + d for k in range(12, 45) for d in (-2, -1, 0, 1, 2)]:
            lengths(ctx, n)
        ctx.state('lengths')
        for n in (-1, -5):
            try:
                X.b64_padded_length(n)
                ctx.violation('length', 'a negative length was accepted', {'kind': 'length', 'n': str(n)})
            except ValueError:
                pass


def replay(ctx, case):
    case = plain(case)
    k = case['kind']
    if k == 'roundtrip':
        for i, x in enumerate(structures(ctx.thorough)):
            if i == case['index']:
                roundtrip(ctx, i, x)
    elif k == 'tampered':
        tamper(ctx, case)
    elif k == 'swapped':
        swap(ctx, case)
    elif k == 'share':
        share(ctx, case)
    elif k == 'length':
        lengths(ctx, int(case['n']))
