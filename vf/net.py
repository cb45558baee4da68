"""Fake HTTP: replaces the transport below `requests`, so that the real session,
streaming and error code of the library and of the code under test run."""
import io
import threading
import time
from contextlib import contextmanager
import requests
from requests.adapters import HTTPAdapter
from requests.structures import CaseInsensitiveDict


class Reply:
    """body is cut in pieces by `cut(n) -> size`; fault after `fail_at` bytes"""

    def __init__(self, status=200, body=b'', headers=None, cut=None, fail_at=None, fault=None, delay=0):
        self.status, self.body, self.headers = status, body, headers or {}
        self.cut, self.fail_at, self.fault, self.delay = cut, fail_at, fault, delay


class Raw:
    """Body stream without `.stream`, so that short reads reach iter_content()"""

    def __init__(self, reply, entry):
        self.r, self.pos, self.entry = reply, 0, entry
        self.closed = False

    def read(self, n=-1, *a, **kw):
        r = self.r
        if n is None or n < 0:
            n = len(r.body)
        if r.cut:
            n = max(1, min(n, r.cut(n)))
        end = len(r.body)
        if r.fail_at is not None:
            if self.pos >= r.fail_at:
                self.entry['failed'] = True
                if r.fault == 'eof':
                    return b''
                raise r.fault if isinstance(r.fault, BaseException) else requests.exceptions.ChunkedEncodingError("injected")
            end = min(end, r.fail_at)
        data = r.body[self.pos:min(end, self.pos + n)]
        self.pos += len(data)
        self.entry['sent'] = self.pos
        return data

    def close(self):
        self.closed = True

    def release_conn(self):
        pass


class Net:
    """handler(url) -> Reply or None (404). Every request is logged in order."""

    def __init__(self, handler):
        self.handler = handler
        self.log = []           # {'url', 'start', 'end', 'status', 'inflight'}
        self.lock = threading.Lock()
        self.inflight = 0
        self.max_inflight = 0

    def urls(self, since=0):
        return [e['url'] for e in self.log[since:]]

    def send(self, adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        entry = {'url': request.url, 'method': request.method, 'start': time.monotonic(), 'thread': threading.get_ident(), 'sent': 0}
        with self.lock:
            self.inflight += 1
            self.max_inflight = max(self.max_inflight, self.inflight)
            entry['seq'] = len(self.log)
            self.log.append(entry)
        try:
            # handlers marked 'full' get the request
            reply = self.handler(request if getattr(self.handler, 'full', False) else request.url)
            if reply is None:
                reply = Reply(404, b'not found')
            if reply.delay:
                time.sleep(reply.delay)
            if reply.fault is not None and reply.fail_at is None:
                entry['failed'] = True
                raise reply.fault
        finally:
            with self.lock:
                self.inflight -= 1
                self.order = getattr(self, 'order', [])
                self.order.append(entry['seq'])
        entry['status'] = reply.status
        r = requests.Response()
        r.status_code = reply.status
        r.headers = CaseInsensitiveDict(reply.headers)
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
        r.raw = Raw(reply, entry)
        r.url = request.url
        r.request = request
        r.reason = {200: 'OK', 404: 'Not Found', 403: 'Forbidden', 500: 'Server Error'}.get(reply.status, '')
        r.connection = adapter
        return r

    @contextmanager
    def active(self):
        saved = HTTPAdapter.send
        net = self
        HTTPAdapter.send = lambda adapter, request, **kw: net.send(adapter, request, **kw)
        try:
            yield self
        finally:
            HTTPAdapter.send = saved
