"""
The simulated web: what ``requests`` reaches instead of sockets.

``HTTPAdapter.send`` is the seam: sessions, redirects, body reading, decoding
and JSON parsing above it are the real code.  A site maps URLs to responses;
the scenario decides per request which fault, if any, meets it.
"""
import io

import requests
import urllib3
from requests import exceptions as rex
from requests.adapters import HTTPAdapter

from sim import kernel

FOREVER = 2_000_000.0      # until the operating system gives a socket up
_real_send = HTTPAdapter.send


class Body(io.BytesIO):
    """A response body with delays and an end that may come too early."""

    def __init__(self, data, chunks, fail, read_timeout):
        super().__init__(data)
        self.delays = list(chunks)
        self.fail = fail
        self.read_timeout = read_timeout
        self.at = len(data) // 2 if fail else None

    def read(self, n=-1):
        sim = kernel.SIM
        if self.delays:
            wait(sim, self.delays.pop(0), self.read_timeout)
        sim.point('net')
        if self.at is not None:
            left = self.at - self.tell()
            if left <= 0 or n is None or n < 0:
                if self.fail == 'cut':
                    self.seek(0, 2)
                    raise ConnectionResetError(104, 'Connection reset by peer')
                if self.fail == 'stall':
                    wait(sim, FOREVER, self.read_timeout)
                    raise ConnectionResetError(104, 'Connection reset by peer')
            else:
                n = min(n, left)
        return super().read(n)

    def read1(self, n=-1):
        return self.read(n)

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)


def wait(sim, seconds, timeout):
    """Waits for the other side, no longer than the socket's timeout."""
    if timeout is not None and seconds >= timeout:
        sim.sleep(timeout)
        raise TimeoutError('timed out')
    sim.sleep(seconds)


def split(timeout):
    if isinstance(timeout, tuple):
        return timeout
    total = getattr(timeout, 'total', None)
    if total is not None:
        return total, total
    return timeout, timeout


def _send(self, request, stream=False, timeout=None, verify=True, cert=None,
          proxies=None):
    sim = kernel.SIM
    if sim is None or sim.net is None:
        raise rex.ConnectionError('no network in here', request=request)
    connect, read = split(timeout)
    sim.point('net')
    plan = sim.net.request(request)
    try:
        wait(sim, plan.get('connect', 0.0), connect)
    except TimeoutError as e:
        raise rex.ConnectTimeout(e, request=request)
    if plan.get('error') == 'refused':
        raise rex.ConnectionError(urllib3.exceptions.NewConnectionError(
            None, 'Connection refused'), request=request)
    if plan.get('error') == 'dns':
        raise rex.ConnectionError(urllib3.exceptions.NameResolutionError(
            'host', None, OSError(-2, 'Name or service not known')),
            request=request)
    if plan.get('error') == 'tls':
        raise rex.SSLError('certificate verify failed', request=request)
    try:
        wait(sim, plan.get('header', 0.0), read)
    except TimeoutError as e:
        raise rex.ReadTimeout(e, request=request)
    if plan.get('error') == 'reset':
        raise rex.ConnectionError(urllib3.exceptions.ProtocolError(
            'Connection aborted.', ConnectionResetError(104, 'reset')),
            request=request)
    data = plan['body']
    headers = {'content-type': plan.get('type', 'application/ld+json')}
    if headers['content-type'] is None:
        headers = {}
    headers.update(plan.get('headers', {}))
    if plan.get('short') is not None:
        data = data[:plan['short']]
    elif plan.get('length', True):
        headers['content-length'] = str(len(data))
    raw = urllib3.HTTPResponse(
        body=Body(data, plan.get('chunks', ()), plan.get('fail'), read),
        status=plan.get('status', 200), headers=headers,
        preload_content=False, decode_content=False,
        request_method=request.method)
    response = self.build_response(request, raw)
    if not stream:
        response.content
    sim.point('net')
    return response


def install():
    HTTPAdapter.send = _send
