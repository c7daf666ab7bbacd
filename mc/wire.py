"""what the client adapters put on the wire: a recording HTTP server on the loopback interface for requests and tornado,
a recording WSGI application for the flask test client. One of each per process, started when first used."""
import os
import socket
import threading

from six.moves.urllib.parse import unquote_to_bytes

os.environ.update(NO_PROXY='*', no_proxy='*')
for _k in ('http_proxy', 'https_proxy', 'HTTP_PROXY', 'HTTPS_PROXY', 'all_proxy', 'ALL_PROXY'):
    os.environ.pop(_k, None)
os.environ['NETRC'] = '/dev/null'
TRANSPORT = set(['host', 'connection', 'accept-encoding', 'user-agent', 'content-length', 'transfer-encoding'])
REASON = 'Whatever'


class Wire(object):
    """a request as received"""
    def __init__(self, method, path, query, headers, body, host, scheme='http'):
        self.method, self.path, self.query, self.headers, self.body, self.host, self.scheme = method, path, query, headers, body, host, scheme

    def own(self):
        """headers which are not chosen by the transport"""
        return sorted((k, v) for k, v in self.headers if k not in TRANSPORT and not (k == 'accept' and v == '*/*'))


class Server(object):
    def __init__(self):
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(64)
        self.netloc = '127.0.0.1:%d' % self.sock.getsockname()[1]
        self.seen = []
        self.script = []
        t = threading.Thread(target=self.run)
        t.daemon = True
        t.start()

    def run(self):
        while True:
            s, _ = self.sock.accept()
            s.settimeout(20)
            f = s.makefile('rb')
            try:
                self.serve(s, f)
            except Exception as e:      # noqa
                self.seen.append(e)
            finally:
                try:
                    s.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass
                f.close()
                s.close()

    def serve(self, s, f):
        line = f.read(1)
        if line != b'\x16':
            line += f.readline()
        else:
            self.seen.append(Wire('', '', '', [], b'', '', 'https'))
            return
        method, target, version = line.decode('latin-1').split()
        headers = []
        while True:
            h = f.readline().rstrip(b'\r\n')
            if not h:
                break
            k, _, v = h.decode('latin-1').partition(':')
            headers.append((k.strip().lower(), v.strip()))
        d = dict(headers)
        body = b''
        if d.get('transfer-encoding', '').lower() == 'chunked':
            while True:
                n = int(f.readline().split(b';')[0], 16)
                body += f.read(n)
                f.readline()
                if not n:
                    break
        elif 'content-length' in d:
            body = f.read(int(d['content-length']))
        path, _, query = target.partition('?')
        self.seen.append(Wire(method, path, query, headers, body, d.get('host')))
        status, hs, raw = self.script.pop(0) if self.script else (200, [], b'')
        out = b'HTTP/1.1 %d %s\r\n' % (status, REASON.encode())
        for k, v in hs:
            out += ('%s: %s\r\n' % (k, v)).encode('latin-1')
        if status not in (204, 304):
            out += b'Content-Length: %d\r\n' % len(raw)
        s.sendall(out + b'Connection: close\r\n\r\n' + (raw if method != 'HEAD' else b''))


_server = {}


def server():
    if os.getpid() not in _server:
        _server[os.getpid()] = Server()
    s = _server[os.getpid()]
    del s.seen[:]
    del s.script[:]
    return s


class Wsgi(object):
    """records the request; answers as told"""
    def __init__(self, answer):
        self.seen = []
        self.answer = answer

    def __call__(self, env, start_response):
        n = int(env.get('CONTENT_LENGTH') or 0)
        body = env['wsgi.input'].read(n) if n else env['wsgi.input'].read() if env.get('wsgi.input_terminated') else b''
        headers = [(k[5:].replace('_', '-').lower(), v) for k, v in env.items() if k.startswith('HTTP_') and not k.startswith('HTTP_CONTENT_')]
        if env.get('CONTENT_TYPE'):
            headers.append(('content-type', env['CONTENT_TYPE']))
        path = (env['SCRIPT_NAME'] + env['PATH_INFO']).encode('latin-1')
        self.seen.append(Wire(env['REQUEST_METHOD'], path, env['QUERY_STRING'], headers, body, env['HTTP_HOST'], env['wsgi.url_scheme']))
        status, hs, raw = self.answer
        start_response('%d %s' % (status, REASON), list(hs) + [('Content-Length', str(len(raw)))])
        return [raw if env['REQUEST_METHOD'] != 'HEAD' else b'']


def path_bytes(w):
    return w.path if isinstance(w.path, bytes) else unquote_to_bytes(w.path)


def flask_client(answer):
    from flask import Flask
    app = Flask('wire')
    wsgi = Wsgi(answer)
    app.wsgi_app = wsgi
    return app.test_client(), wsgi


def send(kind, pair, opt=None, headers=None, answer=(200, [], b''), security=None, client=None):
    """-> (Wire received or None, response or exception)"""
    if kind == 'flask':
        from pyswagger.contrib.client.flask import FlaskTestClient
        fc, wsgi = flask_client(answer)
        try:
            r = FlaskTestClient(fc, auth=security).request(pair, opt, headers)
        except Exception as e:      # noqa
            r = e
        return (wsgi.seen[-1] if wsgi.seen else None), r
    s = server()
    s.script.append(answer)
    opt = dict(opt or {})
    if kind == 'requests':
        from pyswagger.contrib.client.requests import Client
        try:
            r = (client or Client(auth=security)).request(pair, opt, headers)
        except Exception as e:      # noqa
            r = e
    else:
        from tornado.ioloop import IOLoop
        from pyswagger.contrib.client.tornado import TornadoClient
        loop = _loop()
        try:
            r = loop.run_sync(lambda: TornadoClient(auth=security).request(pair, opt, headers))
        except Exception as e:      # noqa
            r = e
    return (s.seen[-1] if s.seen else None), r


_loops = {}


def _loop():
    from tornado.ioloop import IOLoop
    if os.getpid() not in _loops:
        import asyncio
        asyncio.set_event_loop(asyncio.new_event_loop())
        _loops[os.getpid()] = IOLoop.current()
    return _loops[os.getpid()]
