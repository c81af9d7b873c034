"""
The network between storage clients and their server: event loops of the kernel
connected by simulated links that delay, stall, cut and lose, and threads that
are tasks of the kernel.  One instance per simulated process; the seed decides
every delay and every cut.
"""
import asyncio
import errno
import importlib
import io
import threading
import types
from collections import deque

from sim import aio, kernel

SLOW = [.02, .2, 1.0, 4.0]


class Link:
    """One direction of a connection: messages arrive in order, or not."""

    def __init__(self, net, label):
        self.net = net
        self.label = label
        self.queue = deque()
        self.last = 0.0
        self.to = None
        self.cut = False

    def send(self, kind, payload=None, extra=0.0):
        if self.cut:
            return
        due = max(self.last, self.net.sim.now + self.net.delay(self.label)
                  + extra)
        self.last = due
        self.queue.append((due, kind, payload))
        self.wake(due)

    def wake(self, due):
        t = self.to
        if t is not None and not t.loop.is_closed():
            t.loop.call_soon_threadsafe(t.arrange, due)


class Transport(asyncio.Transport):
    def __init__(self, net, loop, protocol, peer, link_in, link_out, name):
        super().__init__()
        self.net = net
        self.loop = loop
        self.protocol = protocol
        self.peer = peer
        self.link_in = link_in
        self.link_out = link_out
        link_in.to = self
        self.name = name
        self.closing = False
        self.lost = False
        self.other = None

    def get_extra_info(self, name, default=None):
        return self.peer if name == 'peername' else default

    def is_closing(self):
        return self.closing

    def get_protocol(self):
        return self.protocol

    def set_protocol(self, protocol):
        self.protocol = protocol

    def write(self, data):
        if self.closing:
            return
        self.net.sim.count('net:message')
        self.link_out.send('data', bytes(data))

    def writelines(self, parts):
        self.write(b''.join(parts))

    def close(self):
        if self.closing:
            return
        self.closing = True
        self.link_out.send('eof')
        self.loop.call_soon(self.lose, None)

    abort = close

    def lose(self, exc):
        if self.lost:
            return
        self.lost = self.closing = True
        self.net.forget(self)
        self.protocol.connection_lost(exc)

    def arrange(self, due):
        self.loop.call_later(max(0.0, due - self.net.sim.now), self.pump)

    def pump(self):
        net = self.net
        q = self.link_in.queue
        while q and q[0][0] <= net.sim.now + 1e-9:
            if net.blocked(self):
                return                    # delivered when the network heals
            _, kind, payload = q.popleft()
            if self.lost:
                continue
            net.sim.point('net')
            if self.closing and kind == 'data':
                continue
            if kind == 'data':
                self.protocol.data_received(payload)
            elif kind == 'eof':
                self.link_out.send('eof')
                self.lose(None)
            else:
                self.lose(ConnectionResetError(errno.ECONNRESET,
                                               'connection reset'))


class Listener:
    def __init__(self, net, loop, factory, addr):
        self.net, self.loop, self.factory, self.addr = net, loop, factory, addr
        self.sockets = []

    def close(self):
        if self.net.listeners.get(self.addr) is self:
            del self.net.listeners[self.addr]

    async def wait_closed(self):
        return None


class Net:
    """All links of one simulated process."""

    def __init__(self, sim, opts):
        self.sim = sim
        self.opts = opts
        self.listeners = {}
        self.connections = []              # (client transport, server one)
        self.partitioned = {}              # client -> (until, kind)
        self.calm = False                  # faults are over
        self.disturbed = {}                # client -> times
        self.slowed = {}                   # client -> slow messages
        self.counts = {}
        self.serving = None                # client whose request is served

    # --------------------------------------------------------------- decisions
    def delay(self, label):
        o = self.opts
        base = o.get('delay', .0002)
        if self.calm:
            return base
        slow = self.sim.choose(
            'slow', lambda r: r.choice(SLOW) if r.random() < o.get('slow', 0)
            else 0, 0, label=label)
        if slow:
            self.sim.count('net:slow')
            client = label.split('.')[0]
            self.slowed[client] = self.slowed.get(client, 0) + 1
        return base + slow

    def blocked(self, transport):
        return self.client_of(transport) in self.partitioned

    def client_of(self, transport):
        return transport.name.split('|')[0]

    def disturb(self, client):
        self.disturbed[client] = self.disturbed.get(client, 0) + 1

    # -------------------------------------------------------------- connecting
    async def connect(self, loop, factory, host, port):
        sim = self.sim
        client = loop.owner
        label = f'{client}.net'
        await asyncio.sleep(self.delay(label))
        waited = 0.0
        while client in self.partitioned:
            await asyncio.sleep(.5)
            waited += .5
            if waited > 10:
                sim.count('net:timeout')
                raise TimeoutError(errno.ETIMEDOUT, 'timed out')
        listener = self.listeners.get((host, port))
        if listener is None:
            sim.count('net:refused')
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'refused')
        n = self.counts[client] = self.counts.get(client, 0) + 1
        up = Link(self, f'{client}.up')
        down = Link(self, f'{client}.down')
        protocol = factory()
        ct = Transport(self, loop, protocol, (host, port), down, up,
                       f'{client}|{n}')
        st = Transport(self, listener.loop, None, (client, 40000 + n), up,
                       down, f'{client}|{n}|server')
        ct.other, st.other = st, ct
        self.connections.append((ct, st))

        def accept():
            st.protocol = listener.factory()
            st.protocol.sim_client = client
            st.protocol.connection_made(st)
        listener.loop.call_soon_threadsafe(accept)
        sim.count('net:connect')
        sim.log('connected', client)
        self.on_connect(client)
        protocol.connection_made(ct)
        return ct, protocol

    def on_connect(self, client):
        pass

    async def listen(self, loop, factory, host, port):
        if (host, port) in self.listeners:
            raise OSError(errno.EADDRINUSE, 'address in use')
        listener = Listener(self, loop, factory, (host, port))
        self.listeners[(host, port)] = listener
        return listener

    def forget(self, transport):
        if self.client_of(transport) in self.partitioned:
            return
        self.connections = [c for c in self.connections
                            if not (c[0].lost and c[1].lost)]

    # ------------------------------------------------------------------ faults
    def cut(self, client, up=1.0, down=1.0, lag_up=0.0, lag_down=0.0):
        """
        Resets the connections of a client.  ``up`` and ``down`` are the
        shares of what is on its way that still arrives; each side learns of
        it after its lag.
        """
        done = False
        for ct, st in self.connections:
            if self.client_of(ct) != client or ct.lost and st.lost:
                continue
            done = True
            for link, share, lag in ((ct.link_out, up, lag_up),
                                     (ct.link_in, down, lag_down)):
                if link.cut:
                    continue
                keep = int(len(link.queue) * share + .5)
                while len(link.queue) > keep:
                    link.queue.pop()
                    self.sim.count('net:lost')
                link.send('rst', None, lag)
                link.cut = True
        if done:
            self.disturb(client)
            self.sim.count('fault:cut')
            self.sim.log('cut', client)
        return done

    def partition(self, client):
        self.disturb(client)
        self.partitioned[client] = True
        self.sim.count('fault:partition')
        self.sim.log('partition', client)

    def heal(self, client):
        if self.partitioned.pop(client, None) is None:
            return
        self.sim.log('heal', client)
        for ct, st in list(self.connections):
            if self.client_of(ct) == client:
                ct.link_in.wake(self.sim.now)
                st.link_in.wake(self.sim.now)

    def server_gone(self, owner):
        """The server's process has died: its connections are reset."""
        for addr, listener in list(self.listeners.items()):
            if listener.loop.owner == owner:
                del self.listeners[addr]
        for ct, st in self.connections:
            if st.loop.owner == owner:
                st.lost = st.closing = True
                ct.link_out.cut = True
                ct.link_out.queue.clear()
                if not ct.link_in.cut:
                    ct.link_in.send('rst')
                    ct.link_in.cut = True
                self.disturb(self.client_of(ct))


class Loop(aio.SimLoop):
    owner = None

    def __init__(self):
        super().__init__()
        self.owner = kernel.SIM.task().name.split('.')[0]

    async def create_connection(self, protocol_factory, host=None, port=None,
                                **kw):
        return await kernel.SIM.znet.connect(self, protocol_factory, host,
                                             port)

    async def create_server(self, protocol_factory, host=None, port=None,
                            **kw):
        return await kernel.SIM.znet.listen(self, protocol_factory, host,
                                            port)

    def call_exception_handler(self, context):
        sim = kernel.SIM
        if sim is not None:
            sim.count('loop-exception')
            sim.log('loop exception', str(context.get('message'))[:40],
                    type(context.get('exception')).__name__)


class Thread:
    """threading.Thread as a task of the kernel."""

    def __init__(self, target=None, args=(), name=None, daemon=None, **kw):
        self.target, self.args = target, args
        self.name = name
        self.daemon = True
        self.task = None

    def start(self):
        sim = kernel.SIM
        owner = sim.task().name.split('.')[0]
        n = sim.thread_count = getattr(sim, 'thread_count', 0) + 1
        self.task = sim.spawn(f'{owner}.io{n}',
                              lambda: self.target(*self.args), daemon=True)

    def join(self, timeout=None):
        kernel.SIM.join(self.task, timeout)

    def is_alive(self):
        return self.task is not None and self.task.state != 'done'


class MemFile(io.BytesIO):
    name = 'memory'

    def fileno(self):
        return -77


def prepare():
    """Imports ZEO and puts it on the kernel (once, in a worker process)."""
    import ZEO                                          # noqa
    client = importlib.import_module('ZEO.asyncio.client')
    server = importlib.import_module('ZEO.asyncio.server')
    futures = importlib.import_module('ZEO.asyncio.futures')
    storage = importlib.import_module('ZEO.ClientStorage')
    ss = importlib.import_module('ZEO.StorageServer')
    cache = importlib.import_module('ZEO.cache')
    tb = importlib.import_module('ZEO.TransactionBuffer')
    importlib.import_module('citrine.client.container_client')
    import os
    import zc.lockfile
    from sim import disk
    client.new_event_loop = Loop
    server.new_event_loop = Loop
    ns = types.SimpleNamespace(**{k: getattr(threading, k) for k in
                                  ('Event', 'Lock', 'RLock', 'Condition',
                                   'get_ident', 'current_thread')})
    ns.Thread = Thread
    client.threading = ns
    storage.threading = ns
    mem = types.SimpleNamespace(TemporaryFile=lambda *a, **k: MemFile())
    cache.tempfile = mem
    ss.tempfile = mem
    tb.tempfile = mem
    lockfile = types.SimpleNamespace(LockFile=disk.SimLockFile,
                                     LockError=zc.lockfile.LockError)
    cache.zc = storage.zc = types.SimpleNamespace(lockfile=lockfile)
    real = cache.sync
    cache.sync = lambda f: None if isinstance(f, MemFile) else real(f)
    storage.socket = types.SimpleNamespace(
        gethostbyaddr=lambda host: (host, [], [host]))
    assert futures.sleep is not None and os.fsync is not None
