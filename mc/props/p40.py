'''
P40: every history of edits to the files of a data collector or share keeper, each
followed by a check-in. What is in force afterwards is compared with what a freshly
started client loads from the same files, and with the documented meaning of each
setting. All connection settings over a small alphabet: what is accepted, and where the
node then connects and listens.
'''
import itertools
import os
from collections import OrderedDict
from copy import deepcopy

import env
import fixtures as F
from env import REACTOR, CLOCK, ENTROPY, HarnessExit
from explore import World, plain, search, replay_path

ABSENT = '(absent)'


def path(name):
    return os.path.join(F.SCRATCH, name)


COMMON = [
    ('delay_period', ([300, 0, -1, ABSENT, 2.5], ['long', None])),
    ('always_delay', ([ABSENT, False, True], [1, 'yes', None])),
    ('sigma_decrease_tolerance', ([ABSENT, 1.0, 0.5], [0.0, -1.0, 'high'])),
    ('secret_handshake', ([path('a.yaml'), path('b.yaml'), ABSENT], [5])),
    ('state', ([ABSENT, 'old.state'], [])),
    ('note', ([ABSENT, 1, [2]], [])),
    ('tally_server_info', ([{'ip': '127.0.0.1', 'port': 20001}, {'ip': '192.0.2.1', 'port': 20001}, {'ip': '::1', 'port': 20002}],
                           [ABSENT, {'port': 20001}, {'ip': '127.0.0.1'}, {'ip': 'ts.example', 'port': 20001}, {'ip': '127.0.0.1', 'port': 0}, {'ip': '127.0.0.1', 'port': 'x'}, None, {}, {'unix': '/x'}, []])),
]
SLOTS = {
    'dc': OrderedDict(COMMON + [
        ('rotate_period', ([ABSENT, 60, 1], [0, -1, 'often', None])),
        ('use_setconf', ([ABSENT, False, True, 0], [])),
        ('name', (['dc0', 'dc1'], ['', ABSENT])),
        ('event_source', ([{'port': 20003}, {'unix': '/x'}, {'ip': '192.0.2.1', 'port': 20003, 'control_password': 'p'}, [{'unix': '/x'}, {'port': 20003}]],
                          [ABSENT, {'port': 0}, {'port': 'x'}, {'unix': ''}, {'port': 20003, 'control_password': ''}, {'ip': '192.0.2.1'}, None, [{'port': 20003}, {'port': 0}]])),
        ('share_keepers', ([[F.sk_digest(0)], [F.sk_digest(0), F.sk_digest(1)], [F.sk_digest(1)]], [ABSENT])),
        ('top:rotate_period', ([ABSENT, 100], [])),
        ('top:secret_handshake', ([ABSENT, path('c.yaml')], [])),
        ('(file)', (['(settings)'], ['(none)', '', '{', 'text', 'null', '[]', '{share_keeper: {}}', '{data_collector: null}', '{data_collector: []}', '{data_collector: {}}', 'data_collector: {a: b', '\x00'])),
    ]),
    'sk': OrderedDict(COMMON + [
        ('key', ([F.sk_key(0), F.sk_key(1)], [])),
        ('top:secret_handshake', ([ABSENT, path('c.yaml')], [])),
        ('(file)', (['(settings)'], ['(none)', '', '{', 'text', 'null', '[]', '{data_collector: {}}', '{share_keeper: null}', '{share_keeper: []}', 'share_keeper: {a: b', '\x00'])),
    ]),
}
SECTION = {'dc': 'data_collector', 'sk': 'share_keeper'}
FILE = {'dc': 'client-dc.yaml', 'sk': 'client-sk.yaml'}


def make(kind):
    if kind == 'dc':
        from privcount.data_collector import DataCollector
        return DataCollector(path(FILE[kind]))
    from privcount.share_keeper import ShareKeeper
    return ShareKeeper(path(FILE[kind]))


def fresh_load(kind):
    try:
        c = make(kind)
        c.refresh_config()
        return c.config
    except Exception:
        return None


_fresh = {}


class Client(World):
    kind = 'dc'
    frugal = False
    edits = 0

    def __init__(self):
        World.__init__(self)
        F.reset()
        F.remember_counter_names()
        ENTROPY.gauss_hook = lambda mu, sigma: 0.0
        self.slots = SLOTS[self.kind]
        self.at = dict((k, 0) for k in self.slots)
        for name in 'abc':
            F.write('%s.yaml' % name, F.SECRET)
        self.write()
        self.node = make(self.kind)
        self.node.refresh_config()
        if self.node.config is None:
            raise AssertionError('the first configuration was not accepted')
        self.last = None
    def value(self, k, i=None):
        good, bad = self.slots[k]
        return (good + bad)[self.at[k] if i is None else i]

    def good(self, k):
        return self.at[k] < len(self.slots[k][0])

    def conf(self):
        section, top = {}, {}
        for k in self.slots:
            v = self.value(k)
            if v is ABSENT or k == '(file)':
                continue
            if k.startswith('top:'):
                top[k[4:]] = v
            else:
                section[k] = v
        top[SECTION[self.kind]] = section
        return top

    def write(self):
        v = self.value('(file)')
        name = FILE[self.kind]
        if v == '(settings)':
            F.write_yaml(name, self.conf())
        elif v == '(none)':
            if os.path.exists(path(name)):
                os.remove(path(name))
            F._files.pop(path(name), None)
        else:
            F.write(name, v)

    def ops(self):
        o = [[k, i] for k, (g, b) in self.slots.items() for i in range(len(g) + len(b)) if i != self.at[k]]
        return o

    def apply(self, op):
        REACTOR.jump(1.0)
        self.edits += 1
        self.at[op[0]] = op[1]
        self.write()
        before = deepcopy(self.node.config) if self.final else None
        asked = len(REACTOR.connects)
        try:
            self.node.do_checkin()
        except HarnessExit as e:
            self.fail('exit', 'the node stopped: %r' % e)
            return
        except Exception as e:
            self.fail('exit', 'the check-in ended with %s: %s' % (type(e).__name__, e))
            return
        if self.final:
            self.judge(op, before, REACTOR.connects[asked:])

    def verdict(self):
        if self.value('(file)') != '(settings)':
            return False
        return all(self.good(k) for k in self.slots)

    def judge(self, op, before, connects):
        now = self.node.config
        key = (self.kind, tuple(sorted(self.at.items())))
        if key not in _fresh:
            if len(_fresh) > 5000:
                _fresh.clear()
            _fresh[key] = fresh_load(self.kind)
        fresh = _fresh[key]
        ok = self.verdict()
        if ok and fresh is None:
            self.fail('valid-rejected-' + op[0], 'a fresh node rejects a valid configuration (%s = %r)' % (op[0], self.value(*op)))
        if not ok and fresh is not None:
            self.fail('invalid-accepted-' + op[0], 'a fresh node accepts an invalid configuration: %r' % [(k, self.value(k)) for k in sorted(self.slots) if not self.good(k)])
        if fresh is None:
            if now != before:
                self.fail('partly-applied', 'a rejected edit of %s changed %r' % (op[0], differing(now, before)))
            self.last = 'rejected'
        else:
            if now != fresh:
                self.fail('not-applied' if now == before else 'differs', 'in force differs from what a fresh start loads in %r' % differing(now, fresh))
            self.last = 'accepted'
        if ok and fresh is not None:
            for k, v in sorted(self.expected().items()):
                if now.get(k, ABSENT) != v:
                    self.fail('value-' + k, '%s in force is %r, expected is %r' % (k, now.get(k, ABSENT), v))
            if 'state' in now:
                self.fail('value-state', 'the unused state setting was kept')
        info = now['tally_server_info']
        if [c.where for c in connects] != [(info['ip'], info['port'])]:
            self.fail('connects', 'the check-in connected to %r, in force is %r' % ([c.where for c in connects], info))
        if not os.path.isabs(self.node.get_secret_handshake_path()):
            self.fail('secret-path', 'the secret handshake path is relative')

    def expected(self):
        get = self.value
        default = lambda k, d: d if get(k) is ABSENT else get(k)
        d = default('delay_period', F.DAY)
        want = {'delay_period': F.DAY if d < 0 else d, 'always_delay': default('always_delay', False),
                'sigma_decrease_tolerance': default('sigma_decrease_tolerance', 1e-6), 'tally_server_info': get('tally_server_info')}
        want['secret_handshake'] = default('secret_handshake', default('top:secret_handshake', os.path.abspath('privcount.secret_handshake.yaml')))
        if get('note') is not ABSENT:
            want['note'] = get('note')
        if self.kind == 'dc':
            want['rotate_period'] = default('rotate_period', default('top:rotate_period', 600))
            want['use_setconf'] = bool(default('use_setconf', True))
            for k in ('name', 'event_source', 'share_keepers'):
                want[k] = get(k)
        else:
            want['name'] = F.sk_digest(0 if get('key') == F.sk_key(0) else 1)
        return want

    def canon(self):
        return (sorted(self.at.items()), repr(sorted(self.node.config.items())))

    def outcome(self):
        return self.last


def differing(a, b):
    if not isinstance(a, dict) or not isinstance(b, dict):
        return (a, b)
    return [(k, a.get(k, ABSENT), b.get(k, ABSENT)) for k in sorted(set(a) | set(b)) if a.get(k, ABSENT) != b.get(k, ABSENT)][:3]


class Sk(Client):
    kind = 'sk'

WORLDS = {'dc': Client, 'sk': Sk}


# ---- connection settings ----------------------------------------------------------------
ALPHABET = OrderedDict([
    ('ip', [ABSENT, '127.0.0.1', '192.0.2.1', '::1', '2001:db8::2', None, '', 'localhost', '1.2.3', '256.1.1.1', '::g']),
    ('port', [ABSENT, 1, 20003, 65535, None, 0, -1, 'x']),
    ('unix', [ABSENT, '/tmp/x', None, '']),
    ('control_password', [ABSENT, 'p', None, '']),
])
VALID_IP = ('127.0.0.1', '192.0.2.1', '::1', '2001:db8::2')


def is_valid(item):
    if 'ip' in item and (item['ip'] not in VALID_IP or 'port' not in item):
        return False
    if 'port' in item and not (isinstance(item['port'], int) and item['port'] > 0):
        return False
    return all(item[k] for k in ('unix', 'control_password') if k in item)


def items(sizes=None):
    keys = list(ALPHABET)
    for vals in itertools.product(*[ALPHABET[k] if sizes is None else [ALPHABET[k][i] for i in sizes[k]] for k in keys]):
        yield dict((k, v) for k, v in zip(keys, vals) if v is not ABSENT)


PAIR = {'ip': [0, 1, 6], 'port': [0, 2, 5], 'unix': [0, 1, 3], 'control_password': [0, 1]}


def targets(item):
    'where a valid item may lead: (kind, host or path, port)'
    out = []
    if 'unix' in item:
        out.append(('unix', item['unix'], None))
    if 'port' in item:
        out.append(('tcp', item.get('ip', '127.0.0.1'), item['port']))
    return out


def where(c):
    return ('unix', c.where, None) if c.kind == 'unix' else (c.kind,) + tuple(c.where)


def one_item(ctx, item, server):
    'as the event source of a collector, and as the tally server of both'
    c = {'item': item}
    ok = is_valid(item)
    ctx.evaluation()
    for kind, key, valid in (('dc', 'event_source', ok), ('dc', 'tally_server_info', ok and 'ip' in item), ('sk', 'tally_server_info', ok and 'ip' in item)):
        if key == 'event_source' and not item:
            continue
        conf = F.dc_config() if kind == 'dc' else F.sk_config()
        conf[SECTION[kind]][key] = item
        F.write_yaml(FILE[kind], conf)
        got = fresh_load(kind)
        ctx.outcome((kind, key, got is not None))
        if valid and got is None:
            ctx.violation('connection-rejected', '%s %s %r was rejected' % (kind, key, item), c)
        elif not valid and got is not None:
            ctx.violation('connection-accepted', '%s %s %r was accepted' % (kind, key, item), c)
        if got is not None and valid and key == 'tally_server_info':
            node = make(kind)
            node.refresh_config()
            n = len(REACTOR.connects)
            node.do_checkin()
            if [x.where for x in REACTOR.connects[n:]] != [(item['ip'], item['port'])]:
                ctx.violation('tally-server', '%s connects elsewhere for %r' % (kind, item), c)
    lead(ctx, item, c)


def lead(ctx, config, c):
    from privcount.connection import connect, listen, validate_connection_config, get_a_control_password
    rows = config if isinstance(config, list) else [config]
    good = [r for r in rows if is_valid(r)]
    if validate_connection_config(config) != (len(good) == len(rows)):
        ctx.violation('validate', 'validate_connection_config(%r) is %r' % (config, validate_connection_config(config)), c)
    want = sorted(t for r in good for t in targets(r))
    n = len(REACTOR.connects)
    connect('factory', config)
    new = REACTOR.connects[n:]
    if sorted(where(x) for x in new) != want:
        ctx.violation('connect', 'connect(%r) leads to %r' % (config, [where(x) for x in new]), c)
    # the file system is preferred to the network
    kinds = [x.kind for x in new]
    if kinds != sorted(kinds, reverse=True):
        ctx.violation('connect-order', 'connect(%r) tries %r' % (config, kinds), c)
    n = len(REACTOR.ports)
    listen('factory', config)
    got = sorted(where(x) for x in REACTOR.ports[n:])
    if got != want:
        ctx.violation('listen', 'listen(%r) opens %r' % (config, got), c)
    for version, local, everywhere in ((6, '::1', '::'), ([4, 6], None, None)):
        for flag in (True, False):
            n = len(REACTOR.ports)
            listen('factory', config, ip_local_default=flag, ip_version_default=version)
            got = sorted(where(x) for x in REACTOR.ports[n:])
            per = []
            for r in good:
                for t in targets(r):
                    if t[0] == 'tcp' and 'ip' not in r:
                        for v in (version if isinstance(version, list) else [version]):
                            per.append((t[0], {4: '127.0.0.1' if flag else '0.0.0.0', 6: '::1' if flag else '::'}[v], t[2]))
                    else:
                        per.append(t)
            if got != sorted(per):
                ctx.violation('listen-default', 'listen(%r, %r, %r) opens %r' % (config, flag, version, got), c)
    n = len(REACTOR.connects)
    connect('factory', config, ip_local_default=False)
    got = sorted(where(x) for x in REACTOR.connects[n:])
    if got != sorted(t for r in good for t in targets(r) if t[0] == 'unix' or 'ip' in r):
        ctx.violation('connect-no-default', 'connect(%r, ip_local_default=False) leads to %r' % (config, got), c)
    given = [r['control_password'] for r in rows if 'control_password' in r]
    p = get_a_control_password(config)
    if (p is None and any(given) and all(given)) or (p is not None and p not in given):
        ctx.violation('password', 'the control password of %r is %r' % (config, p), c)


def connections(ctx, case=None):
    for item in items():
        if case is None and ctx.mine() or case is not None and case.get('item') == item:
            F.reset()
            one_item(ctx, item, None)
            ctx.sample({'item': item})
    small = list(items(PAIR))
    pairs = itertools.product(small, small) if ctx.thorough else ((a, b) for a in small for b in small if is_valid(a) or is_valid(b))
    for a, b in pairs:
        if case is None and ctx.mine() or case is not None and case.get('list') == [a, b]:
            F.reset()
            ctx.evaluation()
            c = {'list': [a, b]}
            conf = F.dc_config()
            conf['data_collector']['event_source'] = [a, b]
            F.write_yaml(FILE['dc'], conf)
            got = fresh_load('dc')
            if (got is not None) != (is_valid(a) and is_valid(b)):
                ctx.violation('connection-list', 'the event source %r was %s' % ([a, b], 'rejected' if got is None else 'accepted'), c)
            lead(ctx, [a, b], c)


def run(ctx):
    connections(ctx)
    search(ctx, WORLDS['sk'], 3 if ctx.thorough else 2, 'sk', {'world': 'sk'}, max_states=400000)
    search(ctx, WORLDS['dc'], 3 if ctx.thorough else 2, 'dc', {'world': 'dc'}, max_states=400000)


def replay(ctx, case):
    if 'world' in case:
        return replay_path(ctx, WORLDS[case['world']], case)
    connections(ctx, plain(case))
