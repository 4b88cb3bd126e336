'''
P42: what a tally server writes about its rounds.

rounds: two rounds of real nodes in sequence, over every size, kind of match
list, way to end a round and point at which a client comes or goes; the result
files of each are compared with what was said on the wires.
crashes: a server that updates a traffic model stops at every operation on a
file while it writes its results; the next server in its place has to find a
complete model and publish its own round.
'''
import __builtin__
import itertools
import json
import os
import re

import env
import fixtures as F
import net
import p28
from env import ENTROPY, REACTOR, CLOCK, HarnessExit
from explore import plain

INF = float('inf')
COUNTED = 'ExitStreamCount'
LISTS = {'none': None,
         'domain': ('ExitDomainExactMatchWebInitialStreamCountList', ['secret%02d.example.com' % i for i in range(12)]),
         'country': ('EntryConnectionCountryMatchCountList', ['%s%s' % (a, b) for a in 'pqr' for b in 'pqrs']),
         'hsdir_store': ('HSDirStoreReasonCountList', ['HIDDENREASON' + c for c in 'ABCDEFGHIJKL']),
         'circuit_failure': ('OriginFailureCircuitReasonCountList', ['PRIVATEREASON' + c for c in 'ABCDEFGHIJKL']),
         'onion_address': ('HSDir2StoreOnionAddressCountList', ['abcdefghijklmn%s%s' % (a, b) for a in 'abc' for b in '234567'][:12])}
ENDS = ['complete', 'dc-refuses', 'sk-refuses', 'dc-restarts', 'sk-restarts', 'dc-silent']


class Rounds(net.Net):
    def __init__(self, dcs, sks, lists):
        bins = {COUNTED: {'bins': [[0.0, INF]]}, 'ExitStreamByteHistogram': {'bins': [[0.0, 10.0], [10.0, INF]]}}
        kw = {}
        if LISTS[lists]:
            name, entries = LISTS[lists]
            bins[name] = {'bins': [[0.0, INF]]}
            self.entries = entries
            kw[lists + '_files'] = [F.write('p42%s.txt' % lists, '\n'.join(entries) + '\n')]
        else:
            self.entries = []
        self.now = {}
        self.replies = {}
        net.Net.__init__(self, dcs, sks, cheap=True, counter_bins=bins, sigmas=dict((n, {'sigma': 0.001}) for n in bins), delay_period=0, **kw)
        ENTROPY.gauss_hook = lambda mu, sigma: 0.0
        for name in self.names:
            self.clients[name].refresh_config()

    def sent(self, name, line):
        self.now.setdefault(name, []).append((CLOCK.now, line))

    def delivered(self, name, side, line):
        if side == 's':
            self.replies.setdefault(name, []).append((CLOCK.now, line))
        else:
            self.now.setdefault(name, [])

    def tick(self, seconds=None):
        before = self.ts.collection_phase
        net.Net.tick(self, seconds)
        if self.ts.collection_phase is not before and self.ts.collection_phase is not None:
            self.began = CLOCK.now

    def state(self):
        return self.ts.get_status()['state']


def one_round(ctx, n, end, events, fail):
    'drives one round; what its files have to say'
    n.now, n.replies = {}, {}
    seen = {'start': None, 'stop': None, 'who': list(n.names), 'end': end, 'events': 0}
    for i in range(3):
        for name in n.names:
            n.visit(name)
        if n.state() == 'active':
            break
        n.tick()
    if n.state() != 'active':
        fail('not-started', 'no round began')
        return None
    seen['start'] = n.began
    for i in range(2):
        for name in n.names:
            n.visit(name)
        n.tick()
    for i, d in enumerate(n.dcs):
        for j in range(events + i if events else 0):
            if n.clients[d].aggregator.handle_event(net.stream_event()):
                seen['events'] += 1
    if end == 'dc-restarts':
        n.crash(n.dcs[0])
    if end == 'sk-restarts':
        n.crash(n.sks[-1])
    silent = [n.dcs[0]] if end == 'dc-silent' else []
    for i in range(25):
        n.tick()
        seen['files'] = n.results()
        if seen['files']:
            break
        if i == 12 and silent:
            # it comes back without its counts
            n.crash(silent.pop())
        for name in n.names:
            if name in silent:
                continue
            refuse = end == 'dc-refuses' and name == n.dcs[-1] or end == 'sk-refuses' and name == n.sks[0]
            n.step(name)
            most = 30
            while most and name in n.wires and n.wires[name].pending():
                most -= 1
                w = n.wires[name]
                if refuse and w.to_c and w.to_c[0].startswith('STOP'):
                    w.to_c[0] = 'STOP {"send_counters": false}'
                n.step(name)
    else:
        fail('not-ended', 'the round did not end')
        return None
    seen['over'] = CLOCK.now
    seen['sent'], seen['replies'] = n.now, n.replies
    return seen


def numbers(x):
    'every number of a reply that is too large to be a plain count'
    return set(re.findall('[0-9]{12,}', x))


def most_entries(x, entries):
    'the most entries of a list that one value of a file holds'
    if isinstance(x, basestring):
        return sum(len(e) > 2 and e in x.lower() for e in entries)
    if isinstance(x, (list, dict)):
        own = set(e for e in x if isinstance(e, basestring) and e.lower() in entries)
        inside = list(x.values()) if isinstance(x, dict) else x
        return max([len(own)] + [most_entries(y, entries) for y in inside])
    return 0


def judge(ctx, n, seen, fail):
    files = seen['files']
    kinds = sorted(f.rsplit('.', 2)[0] for f in files)
    complete = seen['end'] == 'complete'
    if kinds != (['privcount.outcome', 'privcount.tallies'] if complete else ['privcount.outcome']):
        fail('files', 'a round that ended with %s wrote %r' % (seen['end'], sorted(files)))
        return
    out = [c for f, c in files.items() if f.startswith('privcount.outcome')][0]
    text = json.dumps(out)
    # what happened
    if ('Tally' in out) != complete:
        fail('tally', 'a round that ended with %s %s a tally' % (seen['end'], 'has' if 'Tally' in out else 'has not'))
        return
    if complete:
        if out['Tally'] != [c for f, c in files.items() if f.startswith('privcount.tallies')][0]:
            fail('tallies-differ', 'the tallies file and the outcome file differ')
        got = [b[2] for b in out['Tally'][COUNTED]['bins']]
        if got != [seen['events']]:
            fail('amount', 'the tally of %d events is %r' % (seen['events'], got))
        sizes = [b[2] for b in out['Tally']['ExitStreamByteHistogram']['bins']]
        if sizes != [0, seen['events']]:
            fail('amount', 'the histogram of %d events of 30 bytes is %r' % (seen['events'], sizes))
    t = out['Context']['Time']
    start, stopping = t['Start'], t['Stopping']
    if start != seen['start'] or not start < stopping <= t['End'] or t['End'] != seen['over']:
        fail('times', 'a round from %r to %r has the times %r' % (seen['start'], seen['over'], t))
    if t['CollectStopping'] != stopping - start or t['CollectEnd'] != t['End'] - start or t['StoppingDelay'] != t['End'] - stopping:
        fail('times', 'the times of a round contradict each other: %r' % (t,))
    for f in files:
        if not f.endswith('.%d-%d.json' % (int(round(start)), int(round(stopping)))):
            fail('name', 'a round from %r to %r is in %s' % (start, stopping, f))
    # every client, and what it said
    kept = seen['kept'] = {}
    for kind, members in (('DataCollector', n.dcs), ('ShareKeeper', n.sks)):
        ctx_clients = out['Context'].get(kind, {})
        want = [m for m in members if m in n.ts.clients]
        if sorted(ctx_clients) != sorted(want):
            fail('clients', 'the outcome names the %ss %r of %r' % (kind, sorted(ctx_clients), want))
            continue
        for m in want:
            c = ctx_clients[m]
            said = [json.loads(l.split(' ', 2)[2]) for _, l in seen['replies'].get(m, []) if l.startswith('STATUS')]
            if c.get('Status', {}).get('state') != said[-1]['state'] and seen['end'] == 'complete':
                fail('status', '%s said it is %s, the outcome says %r' % (kind, said[-1]['state'], c.get('Status', {}).get('state')))
            stops = [json.loads(l.split(' ', 2)[2]) for _, l in seen['replies'].get(m, []) if l.startswith('STOP SUCCESS')]
            if stops and 'Config' in stops[0]:
                if 'Config' not in c:
                    fail('config', 'the outcome lacks the configuration %s gave when it stopped' % kind)
                    continue
                for k in ('Time', 'Stop', 'name', 'delay_period', 'sigma_decrease_tolerance', 'share_keepers', 'event_source'):
                    if c['Config'].get(k) != stops[0]['Config'].get(k):
                        fail('config', '%s: %s was %r, in the outcome it is %r' % (kind, k, stops[0]['Config'].get(k), c['Config'].get(k)))
                for k in ('collect_period', 'noise_weight', 'dc_threshold', 'defer_time'):
                    if c['Config'].get('Start', {}).get(k) != stops[0]['Config'].get('Start', {}).get(k):
                        fail('config', '%s: %s of its START was %r, in the outcome it is %r' % (kind, k, stops[0]['Config'].get('Start', {}).get(k), c['Config'].get('Start', {}).get(k)))
            elif 'Config' in c:
                fail('config', 'the outcome has a configuration of %s that gave none' % kind)
    own = out['Context'].get('TallyServer', {})
    for k in ('collect_period', 'event_period', 'checkin_period', 'dc_threshold', 'sk_threshold', 'delay_period', 'continue', 'noise_weight'):
        if own.get('Config', {}).get(k) != n.ts.config[k]:
            fail('own-config', 'the tally server has %s %r, the outcome says %r' % (k, n.ts.config[k], own.get('Config', {}).get(k)))
    if own.get('Config', {}).get('noise', {}).get('counters') != F.wire(n.ts.config['noise']['counters']):
        fail('own-noise', 'the outcome does not have the noise allocation of its round')
    # nothing that has to stay secret
    secrets = {F.SECRET: 'the handshake secret'}
    for name, said in seen['replies'].items():
        for _, line in said:
            if line.startswith('START SUCCESS') or line.startswith('STOP SUCCESS'):
                body = json.loads(line.split(' ', 2)[2])
                if line.startswith('START SUCCESS') and name in n.dcs:
                    for share in body.values():
                        for v in share['secret'].values():
                            secrets[v] = 'an encrypted share'
                for v in numbers(json.dumps(body.get('Counts'))):
                    secrets[v] = 'a blinded count of %s' % ('a collector' if name in n.dcs else 'a keeper')
    for i in range(n.n_sks):
        pub = json.dumps(F.sk_pub(i))[1:-1]
        secrets[pub[60:160]] = 'a public key'
        from base64 import b64encode
        secrets[b64encode(F.sk_pub(i))[60:160]] = 'a public key'
    for i in range(n.n_sks):
        secrets[os.path.basename(F.sk_key(i))] = 'the path of a key'
    secrets[os.path.basename(F.secret_file())] = 'the path of the handshake secret'
    secrets['privcount.ts.state'] = secrets['.pickle'] = 'the path of a state file'
    # a list may be summarised by its first and last entries, in any order
    for f, c in files.items():
        if most_entries(c, set(e.lower() for e in n.entries)) > 2:
            fail('list', '%s holds more of a match list than its ends' % f)
    for v, what in secrets.items():
        for f, c in files.items():
            whole = json.dumps(c)
            if len(v) > 6 and v in whole or len(v) <= 6 and '"%s"' % v in whole:
                fail('secret', '%s holds %s: %s' % (f, what, v[:40]))


def rounds(ctx, dcs, sks, lists, ends, events, case):
    ctx.trace()
    n = Rounds(dcs, sks, lists)
    bad = []

    def fail(key, msg):
        bad.append(key)
        ctx.violation('rounds/' + key, '%d collectors, %d keepers, %s lists, %s: %s' % (dcs, sks, lists, ' then '.join(ends), msg), case)
    done = []
    for i, end in enumerate(ends):
        ctx.transition()
        try:
            seen = one_round(ctx, n, end, events + i, fail)
        except HarnessExit:
            fail('died', 'a node stopped itself')
            return
        if seen is None or bad:
            return
        judge(ctx, n, seen, fail)
        if bad:
            return
        done.append(end)
        ctx.state((dcs, sks, lists, tuple(done), events))
    ctx.outcome((tuple(ends), lists))


# ---- crash points --------------------------------------------------------
class Crash(BaseException):
    'the machine stops here'


class Disk(object):
    'stops the process at the k-th operation that changes a file; a file that is being written keeps a part'
    def __init__(self, k):
        self.k, self.n, self.armed, self.log, self.dead = k, 0, False, [], False
        self.real = {'open': __builtin__.open, 'symlink': os.symlink, 'rename': os.rename, 'remove': os.remove, 'unlink': os.unlink}

    def point(self, what):
        if self.dead:
            raise Crash()
        if self.armed:
            self.n += 1
            self.log.append(what)
            if self.n == self.k:
                self.dead = True
                raise Crash()

    def __enter__(self):
        disk = self

        class File(object):
            'the content of a file reaches the disk in three parts'
            def __init__(self, path, mode):
                self.f, self.path, self.parts = disk.real['open'](path, mode), path, []
            def write(self, s):
                self.parts.append(s)
            def __enter__(self):
                return self
            def __exit__(self, *a):
                self.close()
            def flush(self):
                pass
            def fileno(self):
                return self.f.fileno()
            def close(self):
                if self.f is None:
                    return
                f, self.f = self.f, None
                data = ''.join(self.parts)
                third = max(1, len(data) // 3)
                try:
                    for part in (data[:third], data[third:2 * third], data[2 * third:]):
                        disk.point('write ' + os.path.basename(self.path).split('.')[1])
                        f.write(part)
                finally:
                    f.close()
                disk.point('close')

        def opened(path, mode='r', *a):
            if disk.armed and ('w' in mode or 'a' in mode or '+' in mode):
                disk.point('open')
                f = File(path, mode)
                return f
            return disk.real['open'](path, mode, *a)

        def hooked(name):
            def call(*a):
                disk.point(name)
                return disk.real[name](*a)
            return call
        __builtin__.open = opened
        for k in ('symlink', 'rename', 'remove', 'unlink'):
            setattr(os, k, hooked(k))
        self.armed = True
        return self

    def __exit__(self, *a):
        self.armed = False
        __builtin__.open = self.real['open']
        for k in ('symlink', 'rename', 'remove', 'unlink'):
            setattr(os, k, self.real[k])
        return False


LINK = 'traffic.model.latest.json'


class Writer(p28.Server):
    'a server whose settings name the latest model'
    def __init__(self, ctx, name, case):
        p28.Server.__init__(self, ctx, name, linked=True, case=case)

    def fail(self, key, msg):
        self.ctx.violation('crash/' + key, msg, self.case)

    def restart(self):
        self.ts = F.make_ts(**self.args)

    def in_force(self):
        'the model that the link names, or None'
        try:
            with open(LINK) as h:
                return json.load(h)
        except Exception:
            return None

    def until_results(self, tally):
        'everything but the loop that writes the results'
        ts = self.ts
        REACTOR.jump(30 * F.DAY)
        uid = F.sk_digest(0)
        conf = F.ts_begin(ts, sks=1)['dc0']
        if conf is None:
            self.fail('start', 'no round was started')
            return False
        ts.set_start_result('dc0', F.wire(dict((s, {'secret': 'x', 'dc_name': 'dc0'}) for s in conf['sharekeepers'])))
        REACTOR.jump(0.5)
        ts.set_client_status('dc0', F.dc_status('active'))
        ts.set_client_status(uid, F.sk_status(0))
        ts.get_start_config(uid)
        ts.set_start_result(uid, {})
        for i in range(8):
            REACTOR.jump(26)
            ts.set_client_status('dc0', F.dc_status('active'))
            ts.set_client_status(uid, F.sk_status(0, 'active'))
            ts.refresh_loop()
            if ts.get_stop_config('dc0') is not None:
                break
        else:
            self.fail('stop', 'the round did not end')
            return False
        full = dict((k, {'bins': [b[:2] + [tally.get(k, 0)] for b in v['bins']]}) for k, v in conf['counters'].items())
        ts.set_stop_result('dc0', F.wire({'Counts': full}))
        ts.get_stop_config(uid)
        ts.set_stop_result(uid, F.wire({'Counts': dict((k, {'bins': [b[:2] + [0] for b in v['bins']]}) for k, v in full.items())}))
        ts.set_client_status('dc0', F.dc_status())
        ts.set_client_status(uid, F.sk_status(0))
        REACTOR.jump(10)
        return True

    def complete(self):
        'a complete set of files, and the link'
        d = F.results_dir()
        names = sorted(os.listdir(d))
        kinds = [f.rsplit('.', 2)[0] for f in names]
        if kinds != ['privcount.outcome', 'privcount.tallies', 'privcount.traffic.model']:
            return 'wrote %r' % (names,)
        content = []
        for f in names:
            try:
                with open(os.path.join(d, f)) as h:
                    content.append(json.load(h))
            except Exception as e:
                return 'left %s damaged' % f
        if content[0].get('UpdatedTrafficModel') != content[2] or content[0].get('Tally') != content[1]:
            return 'wrote files that contradict each other'
        if self.in_force() != content[2]:
            return 'did not link its updated model as the latest'
        return None


def crash(ctx, name, first, second, k, moved, case):
    'the second round writes until its k-th file operation; then a third round: False if there is no k-th'
    ctx.trace()
    ctx.transition()
    m = p28.menu(p28.MODELS[name])
    w = Writer(ctx, name, case)
    if not w.until_results(m[first]):
        return False
    w.ts.refresh_loop()
    bad = w.complete()
    if bad:
        w.fail('plain', 'a round that nothing disturbs %s' % bad)
        return False
    old = w.in_force()
    kept = os.path.join(F.SCRATCH, 'traffic.kept.json')
    clear(w, kept)
    w.restart()
    if not w.until_results(m[second]):
        return False
    disk = Disk(k)
    crashed = False
    try:
        with disk:
            w.ts.refresh_loop()
    except Crash:
        crashed = True
    except HarnessExit:
        crashed = disk.dead
    if disk.dead:
        crashed = True
    REACTOR.stopped = False
    at = disk.log[-1] if disk.log else 'nothing'
    ctx.outcome(at)
    if not crashed:
        bad = w.complete()
        if bad:
            w.fail('plain', 'a second round %s' % bad)
        return False
    now = w.in_force()
    if now is None or now != old and p28.judge(old, now):
        w.fail('model', 'the server stopped at operation %d (%s) on its files: the latest model is %s' % (k, at, 'not readable' if now is None else 'not valid'))
        return True
    if moved:
        # the operator removes what the interrupted round left in the results, keeping the model in use
        clear(w, kept)
    else:
        for f in os.listdir(F.results_dir()):
            path = os.path.join(F.results_dir(), f)
            if os.path.realpath(LINK) != os.path.realpath(path):
                w.leftover = True
    w.restart()
    if w.ts.config is None:
        w.fail('restart', 'after operation %d (%s) the server does not start again' % (k, at))
        return True
    before = set(os.listdir(F.results_dir()))
    if not w.until_results(m[first]):
        return True
    try:
        w.ts.refresh_loop()
    except Exception as e:
        w.fail('next', 'after a stop at operation %d (%s)%s, the next round cannot write its results: %s' % (k, at, ' and moving its files' if moved else '', e))
        return True
    for f in before:
        path = os.path.join(F.results_dir(), f)
        if os.path.exists(path):
            os.remove(path)
    bad = w.complete()
    if bad:
        w.fail('next', 'after a stop at operation %d (%s)%s, the next round %s' % (k, at, ' and moving its files' if moved else '', bad))
    ctx.state((name, first, second, k, moved))
    return True


def clear(w, kept):
    'the results are moved away, the latest model is kept elsewhere'
    model = w.in_force()
    with open(kept, 'w') as h:
        json.dump(model, h)
    for f in os.listdir(F.results_dir()):
        os.remove(os.path.join(F.results_dir(), f))
    os.remove(LINK)
    os.symlink(kept, LINK)


def crashes(ctx, name, first, second, moved):
    for k in range(1, 200):
        if not crash(ctx, name, first, second, k, moved, {'kind': 'crash', 'model': name, 'first': first, 'second': second, 'k': k, 'moved': moved}):
            return
    raise AssertionError('too many file operations')


def run(ctx):
    lists = sorted(LISTS)
    for dcs, sks in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for ends in itertools.product(ENDS, repeat=2):
            for kind in lists:
                if kind != 'none' and not ctx.thorough and (ends[0] != 'complete' or dcs + sks == 3):
                    continue
                for events in ((0, 3) if ctx.thorough or kind == 'none' else (3,)):
                    if ctx.mine():
                        rounds(ctx, dcs, sks, kind, list(ends), events, {'kind': 'rounds', 'dcs': dcs, 'sks': sks, 'lists': kind, 'ends': list(ends), 'events': events})
    for name in sorted(p28.MODELS):
        size = len(p28.menu(p28.MODELS[name]))
        for first, second in [(i, j) for i in range(size) for j in range(size)] if ctx.thorough else [(0, 1), (1, 0)]:
            for moved in (False, True):
                if ctx.mine():
                    crashes(ctx, name, first, second, moved)


def replay(ctx, case):
    case = plain(case)
    if case['kind'] == 'rounds':
        rounds(ctx, case['dcs'], case['sks'], case['lists'], case['ends'], case['events'], case)
    else:
        crash(ctx, case['model'], case['first'], case['second'], case['k'], case['moved'], case)
