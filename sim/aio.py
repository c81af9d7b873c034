"""asyncio on the kernel: event loops without file descriptors, whose timers
are the virtual clock's."""
import asyncio
from asyncio import base_events

from sim import kernel


class SimLoop(base_events.BaseEventLoop):
    class _Selector:
        def __init__(self, loop):
            self.loop = loop

        def select(self, timeout):
            sim = kernel.SIM
            loop = self.loop
            if loop._woken:
                loop._woken = False
                return []
            if timeout == 0:
                sim.point('loop')
                return []
            loop._sleeper = sim.task()
            sim.wait_on('event loop', timeout)
            loop._sleeper = None
            loop._woken = False
            return []

    def __init__(self):
        super().__init__()
        self._selector = self._Selector(self)
        self._woken = False
        self._sleeper = None

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        self._woken = True
        if self._sleeper is not None:
            kernel.SIM.wake(self._sleeper)

    def call_soon_threadsafe(self, callback, *args, context=None):
        handle = super().call_soon_threadsafe(callback, *args,
                                              context=context)
        return handle


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    _loop_factory = SimLoop


def install():
    asyncio.set_event_loop_policy(SimPolicy())
