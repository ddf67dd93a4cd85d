"""C12: downloads are retried exactly as configured and fail cleanly."""

import errno
import io
import socket

import six.moves.urllib.request as urlrequest
from six.moves import http_client

from mc.engine import Harness
from mc import env
from mc.sizes import sizes

PROPERTY = 'C12'
LOUD = True
ASSUMPTIONS = [
    'urllib and http.client run for real down to a scripted socket; the '
    'waiting time is observed on a virtual clock',
]

TEXT = 'k: {ubuntu: \u00e4\u4e2d}\n'
LATIN = 'k: \u00e4\n'


def http(status, body=b'', ctype=None, length=True, extra=()):
    h = ['HTTP/1.1 %s' % status]
    if ctype is not None:
        h.append('Content-Type: ' + ctype)
    if length:
        h.append('Content-Length: %d' % (len(body) if length is True
                                         else length))
    h += list(extra) + ['Connection: close', '', '']
    return '\r\n'.join(h).encode('latin-1') + body


# name -> (exception while connecting | None, bytes, exception after the
#          bytes | None, meaning)
# meaning: text | 'transient' | 'fatal' | 'redirect'
U8 = TEXT.encode('utf-8')
RESPONSES = {
    'ok': (None, http('200 OK', U8), None, TEXT),
    'ok plain': (None, http('200 OK', U8, 'text/plain'), None, TEXT),
    'ok utf8': (None, http('200 OK', U8, 'text/plain; charset=utf-8'), None,
                TEXT),
    'ok quoted': (None, http('200 OK', U8, 'text/x-yaml; a=b; Charset="UTF-8"'),
                  None, TEXT),
    'ok latin': (None, http('200 OK', LATIN.encode('latin-1'),
                            'text/plain;charset=ISO-8859-1'), None, LATIN),
    'ok second': (None, http('200 OK', LATIN.encode('latin-1'),
                             'text/yaml; version=1; charset=latin-1'), None,
                  LATIN),
    'ok upper': (None, http('200 OK', LATIN.encode('latin-1'),
                            'TEXT/Yaml;CHARSET="Latin-1";q="a;charset=utf-8"'),
                 None, LATIN),
    'ok utf16': (None, http('200 OK', LATIN.encode('utf-16'),
                            'text/plain;charset=utf-16'), None, LATIN),
    'ok empty': (None, http('200 OK'), None, ''),
    'ok no length': (None, http('200 OK', U8, length=False), None, TEXT),
    'ok chunked': (None, http('200 OK', b'3\r\nk: \r\n1\r\nv\r\n0\r\n\r\n',
                              length=False,
                              extra=['Transfer-Encoding: chunked']), None,
                   'k: v'),
    'ok undecodable': (None, http('200 OK', b'k: \xff'), None, 'k: \ufffd'),
    'bad charset': (None, http('200 OK', U8, 'text/plain; charset=bogus'),
                    None, 'fatal'),
    '503': (None, http('503 Unavailable', b'later'), None, 'transient'),
    '503 bare': (None, http('503 ', length=False), None, 'transient'),
    '404': (None, http('404 Not Found', b'x'), None, 'fatal'),
    '500': (None, http('500 Error'), None, 'fatal'),
    '502': (None, http('502 Bad'), None, 'fatal'),
    '504': (None, http('504 Gateway Timeout'), None, 'fatal'),
    '429': (None, http('429 Slow'), None, 'fatal'),
    '302 nowhere': (None, http('302 Found'), None, 'fatal'),
    'redirect': (None, http('302 Found', extra=['Location: /other']), None,
                 'redirect'),
    'refused': (OSError(errno.ECONNREFUSED, 'refused'), b'', None, 'fatal'),
    'unknown host': (socket.gaierror(-2, 'unknown'), b'', None, 'fatal'),
    'timeout connect': (socket.timeout('timed out'), b'', None, 'transient'),
    'timeout header': (None, b'HTTP/1.1 200', socket.timeout('timed out'),
                       'transient'),
    'timeout status': (None, b'', socket.timeout('timed out'), 'transient'),
    'timeout body': (None, http('200 OK', U8, length=99)[:-2],
                     socket.timeout('timed out'), 'transient'),
    'reset header': (None, b'', OSError(errno.ECONNRESET, 'reset'), 'fatal'),
    'reset body': (None, http('200 OK', U8, length=99),
                   OSError(errno.ECONNRESET, 'reset'), 'fatal'),
    'truncated': (None, http('200 OK', U8, length=99), None, 'fatal'),
    'truncated chunk': (None, http('200 OK', b'9\r\nk: ', length=False,
                                   extra=['Transfer-Encoding: chunked']),
                        None, 'fatal'),
    'closed': (None, b'', None, 'fatal'),
    'not http': (None, b'hello\r\n', None, 'fatal'),
}


class Raw(io.RawIOBase):
    def __init__(self, data, exc):
        self.data, self.exc = data, exc

    def readable(self):
        return True

    def readinto(self, b):
        if not self.data:
            if self.exc is not None:
                raise self.exc
            return 0
        n = min(len(b), len(self.data))
        b[:n] = self.data[:n]
        self.data = self.data[n:]
        return n


class Sock(object):
    def __init__(self, data, exc):
        self.raw = Raw(data, exc)

    def makefile(self, *a, **kw):
        return io.BufferedReader(self.raw)

    def sendall(self, *a):
        pass

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def close(self):
        pass

    def shutdown(self, how):
        pass


class Net(urlrequest.HTTPHandler):
    def http_open(self, req):
        net = self

        class Conn(http_client.HTTPConnection):
            def connect(self):
                net.timeouts.append(self.timeout)
                exc, data, then, _m = net.next_()
                if exc is not None:
                    raise exc
                self.sock = Sock(data, then)
        return self.do_open(Conn, req)


class NoTLS(urlrequest.BaseHandler):
    def https_open(self, req):
        raise AssertionError('unexpected request %s' % req.full_url)


_net = []


def load(c, next_, url, kw):
    from xylem.load_url import load_url
    if not _net:
        # (creating the default TLS context is slow)
        real = urlrequest.HTTPSHandler
        urlrequest.HTTPSHandler = NoTLS
        try:
            n = Net()
            _net.extend([n, urlrequest.build_opener(n)])
        finally:
            urlrequest.HTTPSHandler = real
    net, opener = _net
    net.next_ = next_
    net.timeouts = []
    urlrequest.install_opener(opener)
    env.clock.reset()
    try:
        got = c.call(load_url, url, **kw)
        return got, list(env.clock.sleeps), net.timeouts
    finally:
        urlrequest.install_opener(None)
        env.clock.reset(False)


def h_sequences(kinds, retries, periods, first=None):
    names = sorted(kinds)

    def fn(c):
        from xylem.load_url import DownloadFailure
        retry = c.pick(retries, 'retry')
        period, timeout = c.pick(periods, 'period, timeout')
        kw = {}
        if retry is not None:
            kw['retry'] = retry
        if period is not None:
            kw['retry_period'] = period
        if timeout is not None:
            kw['timeout'] = timeout
        seq = []
        left = [max(2 if retry is None else retry, 0)]
        state = {'result': None, 'sleeps': 0, 'hops': 0}

        def next_():
            if state['result'] is not None or state['hops'] > 2:
                seq.append('one too many')
                return RESPONSES['404']
            k = c.pick([n for n in names if n != 'redirect' or
                        state['hops'] < 1], 'response')
            seq.append(k)
            c.event(k)
            m = RESPONSES[k][3]
            if m == 'redirect':
                state['hops'] += 1
            elif m == 'transient' and left[0]:
                left[0] -= 1
                state['sleeps'] += 1
            elif m in ('transient', 'fatal'):
                state['result'] = 'failure'
            else:
                state['result'] = ('text', m)
            return RESPONSES[k]
        got, sleeps, timeouts = load(c, next_, 'http://host/rules.yaml', kw)
        what = 'responses %r with %r' % (seq, kw)
        c.check('one too many' not in seq, what + ': requested again')
        c.check(state['result'] is not None, lambda: '%s: gave up early: %r' %
                (what, got))
        if state['result'] == 'failure':
            c.check(got[0] == 'exc' and isinstance(got[1], DownloadFailure),
                    lambda: '%s: %r' % (what, got))
            c.check('http://host/rules.yaml' in str(got[1]),
                    lambda: '%s: URL not named in %s' % (what, got[1]))
        else:
            c.eq(got, ('ok', state['result'][1]), what)
        c.eq(sleeps, [1 if period is None else period] * state['sleeps'],
             what + ': waiting')
        c.eq(set(timeouts), {10 if timeout is None else timeout},
             what + ': timeouts')
        c.observe((retry, period, seq))
    return fn


def h_urls(c):
    """URLs that cannot be requested at all."""
    from xylem.load_url import DownloadFailure
    url = c.pick(['foo', '', 'nosuch://host/x', 'http://', 'http:///x',
                  'http://host:port/x', 'http://ho st/x', 'http://host/a b',
                  'file:///nonexistent/x', 'file://otherhost/x', 'file:',
                  'http://[::1/x', 'http://host/\n', '://', 'data:x',
                  'file:///'], 'url')

    def next_():
        return RESPONSES['404']
    got, sleeps, _t = load(c, next_, url, {})
    c.check(got[0] == 'exc' and isinstance(got[1], DownloadFailure),
            lambda: 'loading %r: %r' % (url, got))
    c.eq(sleeps, [], 'loading %r: waiting' % url)
    c.observe(url)


def h_file(c):
    import os
    from xylem.load_url import load_url
    data = c.pick([b'', U8, b'\xef\xbb\xbfk: v', b'k: \xff', b'a\r\nb'],
                  'data')
    name = c.pick(['r.yaml', 'r', 'r.html', 'r.txt', 'a b.yaml'], 'name')
    p = os.path.join(c.tmp(), name)
    with open(p, 'wb') as f:
        f.write(data)
    got = c.call(load_url, 'file://' + p.replace(' ', '%20'))
    c.eq(got, ('ok', data.decode('utf-8', 'replace')), 'file ' + name)
    c.observe(data)


def h_sizes(tier):
    """Documents of many sizes, whole or cut off, and many retries."""
    import os
    from xylem.load_url import DownloadFailure

    def fn(c):
        route = c.pick(['http', 'chunked', 'no length', 'truncated', 'file',
                        'file latin', 'timeout body', 'retries'], 'route')
        n = c.pick(sizes(tier), 'number')
        base = 0 if route == 'retries' else c.pick(
            [0, 1000, 4090, 8185, 65530], 'base')
        size = base + n
        text = ('k%d: \u00e4\n' % size) * (size // 6 + 1)
        text = text[:size]
        body = text.encode('utf-8')
        what = '%s of %d characters' % (route, size)
        if route.startswith('file'):
            p = os.path.join(c.tmp(), 'r.yaml')
            if route == 'file latin':
                # cannot be decoded in the middle of the document
                body = body.replace(b'\xc3\xa4', b'\xe4')
            with open(p, 'wb') as f:
                f.write(body)
            from xylem.load_url import load_url
            c.eq(c.call(load_url, 'file://' + p),
                 ('ok', body.decode('utf-8', 'replace')), what)
            c.observe(size)
            return
        if route == 'retries':
            answers = [RESPONSES[c.pick(['503', 'timeout body'], 'failure')]
                       ] * n + [RESPONSES['ok']]
            extra = c.pick([0, -1, 1], 'allowed')
            kw = {'retry': max(n + extra, 0), 'retry_period': 3}
        else:
            kw = {'retry': 0}
            if route == 'chunked':
                k = c.pick([7, 1000, 8192], 'chunk')
                body = b''.join(
                    b'%x\r\n%s\r\n' % (len(body[i:i + k]), body[i:i + k])
                    for i in range(0, len(body), k)) + b'0\r\n\r\n'
                answers = [(None, http(
                    '200 OK', body, length=False,
                    extra=['Transfer-Encoding: chunked']), None, text)]
            elif route == 'no length':
                answers = [(None, http('200 OK', body, length=False), None,
                            text)]
            elif route == 'http':
                answers = [(None, http('200 OK', body), None, text)]
            else:
                answers = [(None, http('200 OK', body,
                                       length=len(body) + 1),
                            socket.timeout('timed out')
                            if route == 'timeout body' else None, None)]
        asked = []

        def next_():
            asked.append(1)
            return answers[min(len(asked), len(answers)) - 1]
        got, sleeps, _t = load(c, next_, 'http://host/rules.yaml', kw)
        if route == 'retries':
            fine = kw['retry'] >= n
            tries = n + 1 if fine else kw['retry'] + 1
            c.eq((len(asked), sleeps), (tries, [3] * (tries - 1)),
                 '%d failures with %r: requests, waiting' % (n, kw))
            text = TEXT
        else:
            fine = route not in ('truncated', 'timeout body')
            c.eq((len(asked), sleeps), (1, []), what + ': requests, waiting')
        if fine:
            c.eq(got, ('ok', text), what)
        else:
            c.check(got[0] == 'exc' and isinstance(got[1], DownloadFailure),
                    lambda: '%s: %r' % (what, got))
        c.observe((route, size, fine))
    return Harness('sizes', fn, split=1)


def harnesses(tier):
    some = ['ok', 'ok latin', '503', '503 bare', 'timeout connect',
            'timeout header', 'timeout body', '404', '500', 'refused',
            'reset body', 'truncated', 'redirect', 'bad charset']
    periods = [(None, None), (0, 3), (2.5, 0.5)]
    big = tier == 'thorough'
    return [
        Harness('all_responses', h_sequences(RESPONSES, [-1, 0, 1, 2],
                                             [(None, None)]), split=3),
        Harness('retries', h_sequences(
            RESPONSES if big else some, [None, -2, 3, 4] if big else
            [None, -2, 3], periods), split=3),
        Harness('urls', h_urls, split=1),
        Harness('files', h_file, split=1),
        h_sizes(tier)]
