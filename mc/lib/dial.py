'''
Connections under twisted's own reconnection: a connector that behaves as
twisted.internet.base.BaseConnector does, for a world that decides what happens
to each attempt. The world has attempts, links and dialled, and makes links.
'''
from env import CLOCK, Addr
from twisted.internet import error
from twisted.python import failure


class Connector(object):
    'as twisted.internet.base.BaseConnector'
    def __init__(self, world, where, factory):
        self.world, self.where, self.factory = world, where, factory
        self.state = 'disconnected'
        self.started = False
        self.link = None
        self.connect()

    def connect(self):
        if self.state != 'disconnected':
            raise RuntimeError("can't connect in this state")
        self.state = 'connecting'
        if not self.started:
            self.factory.doStart()
            self.started = True
        self.world.attempts.append(self)
        self.factory.startedConnecting(self)
        # twisted opens the connection when it returns to its loop
        if self.state == 'connecting':
            self.world.dialled.append((CLOCK.now, self.where))

    def stopConnecting(self):
        if self.state != 'connecting':
            raise error.NotConnectingError("we're not trying to connect")
        self.failed(error.UserError())

    def disconnect(self):
        if self.state == 'connecting':
            self.stopConnecting()
        elif self.state == 'connected':
            self.link.close()

    def getDestination(self):
        return Addr(*self.where)

    def done(self):
        if self.state == 'disconnected' and self.started:
            self.factory.doStop()
            self.started = False

    def failed(self, why):
        self.world.attempts.remove(self)
        self.state = 'disconnected'
        self.factory.clientConnectionFailed(self, failure.Failure(why))
        self.done()

    def accepted(self):
        self.world.attempts.remove(self)
        self.state = 'connected'
        self.link = self.world.make_link(self)
        self.world.links.append(self.link)

    def lost(self):
        self.state = 'disconnected'
        self.factory.clientConnectionLost(self, failure.Failure(error.ConnectionDone()))
        self.done()
