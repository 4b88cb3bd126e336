'''
Closes privcount's world before any privcount module is imported: the clock, the
reactor, the random sources, process exit, TLS and the git subprocess all belong
to the harness. privcount itself is the unmodified code in /repo.
'''
import hashlib
import imp
import logging
import os
import random as _random
import sys
import types

import time as _real_time


class HarnessExit(BaseException):
    'privcount asked for its process to end'
    def __init__(self, code):
        BaseException.__init__(self, code)
        self.code = code


# ---- clock -------------------------------------------------------------
class Clock(object):
    now = 1500000000.0

CLOCK = Clock()
real_time = _real_time.time

def _install_time():
    m = types.ModuleType('time')
    for k in dir(_real_time):
        if not k.startswith('_') and k not in ('class', 'getClass'):
            try:
                setattr(m, k, getattr(_real_time, k))
            except AttributeError:
                pass
    m.time = lambda: CLOCK.now
    m.sleep = lambda s: None
    real_strftime, real_gmtime, real_localtime = _real_time.strftime, _real_time.gmtime, _real_time.localtime
    m.strftime = lambda f, t=None: real_strftime(f, t if t is not None else real_gmtime(CLOCK.now))
    m.gmtime = lambda t=None: real_gmtime(CLOCK.now if t is None else t)
    m.localtime = lambda t=None: real_gmtime(CLOCK.now if t is None else t)
    sys.modules['time'] = m
    return m


# ---- randomness --------------------------------------------------------
class Entropy(object):
    'The default source: a deterministic stream; harnesses may replace .source'
    def __init__(self):
        self.reset()

    def reset(self, seed=0):
        self.seed = seed
        self.n = 0
        self.gauss_hook = None
        self.bits_hook = None
        self.range_hook = None
        self.urandom_hook = None
        self.gauss_calls = []

    def bytes(self, count):
        out = ''
        while len(out) < count:
            self.n += 1
            out += hashlib.sha256('%d/%d' % (self.seed, self.n)).digest()
        return out[:count]

    def getrandbits(self, k):
        if self.bits_hook is not None:
            return self.bits_hook(k)
        return int(self.bytes((k + 7) // 8).encode('hex'), 16) >> (-k % 8)

    def randrange(self, n):
        if self.range_hook is not None:
            return self.range_hook(n)
        k = n.bit_length() if hasattr(n, 'bit_length') else len(bin(n)) - 2
        while True:
            v = self.getrandbits(k)
            if v < n:
                return v

    def gauss(self, mu, sigma):
        self.gauss_calls.append((mu, sigma))
        if self.gauss_hook is not None:
            return self.gauss_hook(mu, sigma)
        # Irwin-Hall: good enough as "some real number near mu"
        z = sum(self.getrandbits(16) / 65536.0 for _ in range(12)) - 6.0
        return mu + sigma * z

    def urandom(self, n):
        if self.urandom_hook is not None:
            return self.urandom_hook(n)
        return self.bytes(n)

ENTROPY = Entropy()

class SystemRandom(object):
    'random.SystemRandom, drawing on ENTROPY'
    def __init__(self, *a):
        pass
    def seed(self, *a):
        pass
    def getrandbits(self, k):
        if k <= 0:
            raise ValueError('number of bits must be greater than zero')
        return long(ENTROPY.getrandbits(int(k)))
    def random(self):
        return ENTROPY.getrandbits(53) / float(1 << 53)
    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        n = (stop - start + step - 1) // step
        if n <= 0:
            raise ValueError('empty range for randrange()')
        return start + step * ENTROPY.randrange(n)
    def randint(self, a, b):
        return self.randrange(a, b + 1)
    def choice(self, seq):
        return seq[self.randrange(len(seq))]
    def uniform(self, a, b):
        return a + (b - a) * self.random()
    def shuffle(self, x):
        for i in reversed(range(1, len(x))):
            j = self.randrange(i + 1)
            x[i], x[j] = x[j], x[i]
    def sample(self, population, k):
        pool = list(population)
        self.shuffle(pool)
        return pool[:k]
    def gauss(self, mu, sigma):
        return ENTROPY.gauss(mu, sigma)
    normalvariate = gauss


# ---- reactor -----------------------------------------------------------
EXITS = []          # exit codes privcount asked for

def _os_exit(code=0):
    EXITS.append(code)
    raise HarnessExit(code)

def install():
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    _install_time()
    _random.SystemRandom = SystemRandom
    _random.normalvariate = lambda mu, sigma: mu
    os.urandom = lambda n: ENTROPY.urandom(n)
    os._exit = _os_exit
    sys.exit = lambda code=0: _os_exit(0 if code is None else code)

    import twisted.internet
    from twisted.internet import task, error

    class Connector(object):
        def __init__(self, kind, where, factory):
            self.kind, self.where, self.factory = kind, where, factory
            self.state = 'connecting'
        def disconnect(self):
            self.state = 'disconnected'
            REACTOR.on_disconnect(self)
        def stopConnecting(self):
            self.state = 'disconnected'
        def connect(self):
            self.state = 'connecting'
            REACTOR.connects.append(self)
        def getDestination(self):
            return self.where

    class Port(object):
        def __init__(self, kind, where, factory):
            self.kind, self.where, self.factory = kind, where, factory
            self.listening = True
        def stopListening(self):
            self.listening = False

    class FakeReactor(task.Clock):
        def __init__(self):
            task.Clock.__init__(self)
            self.base = 1500000000.0
            self.reset()
        def reset(self):
            self.calls = []
            self.rightNow = 0.0
            self.stopped = False
            self.connects = []
            self.ports = []
            self.disconnects = []
            self.running = True
            CLOCK.now = self.base
            del EXITS[:]
        def advance_to(self, t):
            task.Clock.advance(self, t - self.rightNow)
        def advance(self, amount):
            '''Run timers in order, moving the wall clock along with them'''
            end = self.rightNow + amount
            while True:
                self._sortCalls()
                if not self.calls or self.calls[0].getTime() > end:
                    break
                call = self.calls.pop(0)
                self.rightNow = max(self.rightNow, call.getTime())
                CLOCK.now = self.base + self.rightNow
                call.called = 1
                call.func(*call.args, **call.kw)
            self.rightNow = end
            CLOCK.now = self.base + end
        def next_timer(self):
            self._sortCalls()
            return self.calls[0].getTime() if self.calls else None
        def fire_next(self):
            t = self.next_timer()
            self.advance(t - self.rightNow)
        def jump(self, amount):
            'let time pass without running timers (a stalled process)'
            self.rightNow += amount
            CLOCK.now = self.base + self.rightNow
        def connectTCP(self, host, port, factory, timeout=30, bindAddress=None):
            c = Connector('tcp', (host, port), factory)
            self.connects.append(c)
            return c
        def connectSSL(self, host, port, factory, contextFactory=None, timeout=30, bindAddress=None):
            c = Connector('ssl', (host, port), factory)
            self.connects.append(c)
            return c
        def connectUNIX(self, path, factory, timeout=30, checkPID=0):
            c = Connector('unix', path, factory)
            self.connects.append(c)
            return c
        def listenTCP(self, port, factory, backlog=50, interface=''):
            p = Port('tcp', (interface, port), factory)
            self.ports.append(p)
            return p
        def listenSSL(self, port, factory, contextFactory=None, backlog=50, interface=''):
            p = Port('ssl', (interface, port), factory)
            self.ports.append(p)
            return p
        def listenUNIX(self, path, factory, backlog=50, mode=0o666, wantPID=0):
            p = Port('unix', path, factory)
            self.ports.append(p)
            return p
        def on_disconnect(self, connector):
            self.disconnects.append(connector)
        def stop(self):
            if self.stopped:
                raise error.ReactorNotRunning("Can't stop reactor that isn't running.")
            self.stopped = True
        def run(self, *a, **k):
            pass
        def callFromThread(self, f, *a, **k):
            f(*a, **k)
        def callWhenRunning(self, f, *a, **k):
            f(*a, **k)
        def addSystemEventTrigger(self, *a, **k):
            pass
        def removeSystemEventTrigger(self, *a, **k):
            pass

    global REACTOR
    REACTOR = FakeReactor()
    sys.modules['twisted.internet.reactor'] = REACTOR
    twisted.internet.reactor = REACTOR

    ssl = types.ModuleType('twisted.internet.ssl')
    class _Ctx(object):
        def __init__(self, *a, **k):
            pass
    ssl.DefaultOpenSSLContextFactory = _Ctx
    ssl.ClientContextFactory = _Ctx
    ssl.CertificateOptions = _Ctx
    sys.modules['twisted.internet.ssl'] = ssl
    twisted.internet.ssl = ssl

    # twisted.protocols replaces itself with a proxy that Jython cannot import
    # through; load the real source of the one module privcount needs
    import twisted.protocols
    pdir = os.path.join(os.path.dirname(twisted.__file__), 'protocols')
    mod = imp.new_module('twisted.protocols.basic')
    mod.__file__ = os.path.join(pdir, 'basic.py')
    with open(mod.__file__) as f:
        code = compile(f.read(), mod.__file__, 'exec', 0, 1)
    sys.modules['twisted.protocols.basic'] = mod
    exec code in mod.__dict__
    try:
        twisted.protocols.basic = mod
    except Exception:
        pass

    # YAML documents are parsed once per text (parsing dominates otherwise)
    import copy
    import warnings
    warnings.simplefilter('ignore')
    import yaml
    real_load, parsed = yaml.load, {}
    global known_yaml
    known_yaml = {}     # text the harness wrote: what it stands for
    def load(stream, *a, **k):
        text = stream.read() if hasattr(stream, 'read') else stream
        if text in known_yaml:
            return copy.deepcopy(known_yaml[text])
        key = (text, repr(a), repr(k))
        if key not in parsed:
            if len(parsed) > 2000:
                parsed.clear()
            parsed[key] = real_load(text, *a, **k)
        return copy.deepcopy(parsed[key])
    yaml.load = load

    import subprocess
    subprocess.check_output = lambda *a, **k: '0123456789abcdef\n'
    # Jython's json decoder/encoder must not use the real clock or randomness: they do not


class Addr(object):
    def __init__(self, host, port):
        self.host, self.port = host, port
        self.type = 'TCP'
    def __eq__(self, other):
        return isinstance(other, Addr) and (self.host, self.port) == (other.host, other.port)


class Transport(object):
    'A transport that records what is written'
    disconnecting = False
    def __init__(self, peer=None, host=None):
        self.peer = peer or Addr('127.0.0.1', 40001)
        self.host = host or Addr('127.0.0.1', 20001)
        self.written = ''
        self.closed = False
        self.on_write = None
        self.on_close = None
    def write(self, data):
        if self.closed:
            return
        assert isinstance(data, str), type(data)
        self.written += data
        if self.on_write is not None:
            self.on_write(data)
    def writeSequence(self, seq):
        # LineOnlyReceiver.sendLine writes line and delimiter in one sequence
        self.write(''.join(seq))
    def loseConnection(self):
        if not self.closed:
            self.closed = True
            self.disconnecting = True
            if self.on_close is not None:
                self.on_close()
    abortConnection = loseConnection
    def getPeer(self):
        return self.peer
    def getHost(self):
        return self.host
    def take(self):
        lines = self.written.split('\r\n')
        self.written = lines.pop()
        return lines
    def setTcpKeepAlive(self, *a):
        pass
    def setTcpNoDelay(self, *a):
        pass

install()
