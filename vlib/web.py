"""A stand-in for the network: every HTTP request of the process is answered by a handler; nothing leaves the process."""
import contextlib
import io
import zipfile
from urllib.parse import urlsplit, parse_qsl

import requests
import requests.adapters
from urllib3.response import HTTPResponse


class Event:
    def __init__(self, request, kw):
        self.method, self.url, self.headers = request.method, request.url, dict(request.headers)
        u = urlsplit(request.url)
        self.scheme, self.host, self.path = u.scheme, u.netloc, u.path
        self.query = dict(parse_qsl(u.query, keep_blank_values=True))
        self.kw = kw


class Answer:
    def __init__(self, body=b'', status=200, headers=None, reason='OK', length=None, error=None):
        self.body = body.encode() if isinstance(body, str) else body
        self.status, self.reason, self.length, self.error = status, reason, length, error
        self.headers = {'Content-Type': 'text/html; charset=UTF-8'}
        self.headers.update(headers or {})


@contextlib.contextmanager
def serve(handler):
    """handler(Event) -> Answer; yields the log of events."""
    log = []
    real = requests.adapters.HTTPAdapter.send

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        ev = Event(request, dict(timeout=timeout, verify=verify))
        log.append(ev)
        a = handler(ev)
        if a.error is not None:
            raise a.error
        h = dict(a.headers)
        h['Content-Length'] = str(len(a.body) if a.length is None else a.length)
        raw = HTTPResponse(body=io.BytesIO(a.body), headers=h, status=a.status, reason=a.reason, preload_content=False,
                           enforce_content_length=True, request_method=request.method)
        r = self.build_response(request, raw)
        if not stream:
            r.content
        return r
    requests.adapters.HTTPAdapter.send = send
    try:
        yield log
    finally:
        requests.adapters.HTTPAdapter.send = real


def zipped(name, text):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', zipfile.ZIP_DEFLATED) as z:
        z.writestr(name, text)
    return b.getvalue()
