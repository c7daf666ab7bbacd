import io
import os
import re
import shutil
import tempfile

from six.moves.urllib.parse import unquote_to_bytes
from mc import engine
from mc.engine import Skip
from mc.lib import P, one_op

ASSUMPTIONS = ['names and file names in multipart bodies hold no quotes or line breaks', 'encodings are supersets of ASCII and can represent the text; urlencoded bodies are UTF-8',
               'part headers are Content-Type and Content-Transfer-Encoding', 'file objects are positioned where reading starts']
URLENC, MULTI = 'application/x-www-form-urlencoded', 'multipart/form-data'
VALUES = ['v', '', 'a b', 'a&b=c', '+', '%41', 'x\r\ny', '\r\n', '--', u'\u00e9', u'\u6f22', '"q"', ';', '0', '\n', '\x00', 'a%', '\r\n--x--\r\n', u'\U0001f600', "'", '\t']
NAMES = ['f', 'a b', 'x[]', 'a&b', 'n=', u'\u00e9', 'p%', "it's", 'A;b', '0']


def decode_urlenc(text):
    """a decoder by the book (HTML 4.01 / URL standard)"""
    if isinstance(text, bytes):
        text = text.decode('ascii')
    assert re.match(r"^[\x21-\x7e]*$", text), 'not ASCII: %r' % text
    out = []
    for pair in text.split('&'):
        k, eq, v = pair.partition('=')
        assert eq, 'no = in %r' % pair
        for x in (k, v):
            assert not re.search('%(?![0-9A-Fa-f]{2})', x), x
        out.append(tuple(unquote_to_bytes(x.replace('+', ' ')).decode('utf-8') for x in (k, v)))
    return out


def decode_multipart(ctype, body, enc, longest=70):
    """strict RFC 2046/2388 parser -> [(name, filename or None, headers, content)]"""
    m = re.match(r'^multipart/form-data; *boundary=("?)([^";]+)\1$', ctype)
    assert m, 'content type %r' % ctype
    b = m.group(2).encode('ascii')
    assert 1 <= len(b) <= longest
    assert isinstance(body, bytes), type(body)
    chunks = (b'\r\n' + body).split(b'\r\n--' + b)
    assert chunks[0] == b'', 'preamble %r' % chunks[0]
    assert chunks[-1] in (b'--', b'--\r\n'), 'no closing boundary: %r' % chunks[-1]
    out = []
    for ch in chunks[1:-1]:
        assert ch.startswith(b'\r\n'), 'boundary inside of the content: %r' % ch
        if ch.startswith(b'\r\n\r\n'):
            head, content = b'', ch[4:]
        else:
            head, sep, content = ch[2:].partition(b'\r\n\r\n')
            assert sep, 'no end of the part headers: %r' % ch
        headers = {}
        for line in head.decode(enc).split('\r\n'):
            k, sep, v = line.partition(':')
            assert sep and re.match("^[A-Za-z-]+$", k), 'part header %r' % line
            assert k.lower() not in headers, 'twice: %r' % line
            headers[k.lower()] = v.strip()
        cd = headers.pop('content-disposition')
        assert cd.split(';')[0].strip() == 'form-data', cd
        par = dict(re.findall(r';\s*(name|filename)="([^"\r\n]*)"', cd))
        rest = re.sub(r';\s*(name|filename)="([^"\r\n]*)"', '', cd)
        assert rest == 'form-data', 'disposition %r' % cd
        out.append((par['name'], par.get('filename'), headers, content))
    return out


def guard(c, f, *a):
    try:
        return f(*a)
    except (AssertionError, KeyError, UnicodeError) as e:
        c.fail('cannot be decoded: %s' % e, 'not decodable')


def urlencoded(c):
    n = c.free('fields', [1, 2])
    names = [c.free('name0', NAMES)]
    if n == 2:
        names.append(c.pick('name1', [x for x in NAMES + ['g'] if x != names[0]]))
    cons = c.pick('consumes', [None, [URLENC], [MULTI, URLENC], ['application/json', URLENC]])
    multi = c.flag('first is multi')
    encoding = c.pick('encoding', [None, 'latin-1', 'utf-16'])
    ps = [P(nm, 'formData') for nm in names]
    if multi:
        ps[0] = P(names[0], 'formData', 'array', items={'type': 'string'}, collectionFormat='multi')
    app = one_op(ps, method='post', **(dict(consumes=cons) if cons else {}))
    second = VALUES if engine.TIER == 'thorough' else VALUES[:8]
    for v in VALUES:
        for w in (second if n == 2 or multi else ['']):
            args, want = {}, []
            args[names[0]] = [v, w, v] if multi else v
            want += [(names[0], x) for x in ([v, w, v] if multi else [v])]
            if n == 2:
                args[names[1]] = w
                want.append((names[1], w))
            req, _ = app.op['op'](**args)
            req.prepare(scheme='http', **(dict(encoding=encoding) if encoding else {}))
            c.step()
            c.eq(req.header.get('Content-Type'), URLENC, 'content type')
            c.eq(guard(c, decode_urlenc, req.data), want, 'decoded')
            c.check(not req.query and not req.files, 'elsewhere')
            c.state(req.data if isinstance(req.data, str) else repr(req.data))


def content_of(c, k, tmp, boundary):
    """-> (value for the caller, filename, headers, bytes)"""
    kind = c.pick('content%d' % k, ['plain', 'empty', 'binary', 'crlf', 'dashes', 'boundary', 'closing', 'near', 'header', 'text', 'unicode text', 'trailing crlf'])
    b = boundary.encode('ascii')
    data = {'plain': b'DATA', 'empty': b'', 'binary': bytes(range(256)), 'crlf': b'\r\n\r\na\nb\r', 'dashes': b'--\r\n----', 'boundary': b'x\r\n--' + b + b'\r\ny',
            'closing': b'--' + b + b'--\r\n', 'near': b'\r\n--' + b[:-1] + b'\r\n', 'header': b'Content-Disposition: form-data; name="z"\r\n\r\n',
            'text': u'plain text', 'unicode text': u'd\u00e9j\u00e0', 'trailing crlf': b'abc\r\n'}[kind]
    fname = c.pick('file name%d' % k, ['a.txt', '', u'd\u00e9.txt', 'a b;c.txt', 'x/y.bin'])
    hdr = c.pick('part headers%d' % k, [{}, {'Content-Type': 'text/plain'}, {'Content-Type': 'text/plain; charset=utf-8', 'Content-Transfer-Encoding': 'binary'}, {'Content-Transfer-Encoding': '8bit'}])
    src = c.pick('source%d' % k, ['object', 'disk', 'object without name', 'advanced object'])
    raw = data
    if isinstance(data, bytes) and src == 'disk':
        path = os.path.join(tmp, 'file%d.bin' % k)
        with open(path, 'wb') as f:
            f.write(data)
        val, fname = dict(filename=path), path
    elif isinstance(data, bytes) and src == 'advanced object':
        o = io.BytesIO(b'skipped' + data)
        o.read(7)
        val = dict(filename=fname, data=o)
    else:
        o = io.StringIO(data, newline='') if not isinstance(data, bytes) else io.BytesIO(data)
        val = dict(data=o)
        if src == 'object without name':
            fname = ''
        else:
            val['filename'] = fname
    if hdr:
        val['header'] = dict(hdr)
    return val, fname, hdr, raw


def multipart(c):
    layout = c.free('layout', ['file', 'field+file', 'file+field', '2 files', 'files array', '2 fields+2 files', 'array+file'])
    enc = c.free('encoding', [None, 'utf-8', 'latin-1', 'cp1252'])
    real = enc or 'utf-8'
    cons = c.pick('consumes', [[MULTI], None, [URLENC, MULTI], [MULTI, 'application/json']])
    fname0 = c.pick('name of field', ['fld', 'a b', u'\u00e9', 'x[]', 'a;b=c'])
    filename0 = c.pick('name of file param', ['up', u'\u00fc p', 'f[]'])
    v0 = c.pick('value of field', [x for x in VALUES if x != '\x00'])
    F = lambda nm: P(nm, 'formData', 'file')
    S = lambda nm: P(nm, 'formData')
    A = lambda nm: P(nm, 'formData', 'array', items={'type': 'file'})
    ps = {'file': [F(filename0)], 'field+file': [S(fname0), F(filename0)], 'file+field': [F(filename0), S(fname0)], '2 files': [F(filename0), F('second')],
          'files array': [A(filename0)], '2 fields+2 files': [S(fname0), F(filename0), S('zz'), F('second')], 'array+file': [A(filename0), S(fname0), F('second')]}[layout]
    app = one_op(ps, method='post', **(dict(consumes=cons) if cons else {}))
    tmp = tempfile.mkdtemp(prefix='mc11-')
    try:
        # the boundary of an earlier body is a natural attack on the next one
        args0 = dict((p['name'], 'v' if p['type'] == 'string' else [dict(data=io.BytesIO(b'q'), filename='q')] if p['type'] == 'array' else dict(data=io.BytesIO(b'q'), filename='q')) for p in ps)
        req, _ = app.op['op'](**args0)
        req.prepare(scheme='http')
        m = re.search('boundary="?([^";]+)', req.header['Content-Type'])
        c.check(m, 'no boundary')
        boundary = m.group(1)
        args, fields, files, k = {}, [], [], 0
        for p in ps:
            if p['type'] == 'string':
                v = v0 if p['name'] == fname0 else 'zz-value'
                args[p['name']] = v
                fields.append((p['name'], v))
            else:
                n = c.pick('number of files', [2, 1, 3]) if p['type'] == 'array' else 1
                lst = []
                for _ in range(n):
                    val, fn, hdr, raw = content_of(c, k, tmp, boundary)
                    k += 1
                    lst.append(val)
                    files.append((p['name'], fn, hdr, raw))
                args[p['name']] = lst if p['type'] == 'array' else lst[0]
        texts = [x for f in fields for x in f] + [x for f in files for x in (f[0], f[1]) + ((f[3],) if not isinstance(f[3], bytes) else ())]
        try:
            for x in texts:
                x.encode(real)
        except UnicodeError:
            raise Skip()
        req, _ = app.op['op'](**args)
        req.prepare(scheme='http', **(dict(encoding=enc) if enc else {}))
        c.step(2)
        parts = guard(c, decode_multipart, req.header['Content-Type'], req.data, real)
        got_fields = [(n, ct.decode(real)) for n, fn, h, ct in parts if fn is None]
        got_files = [(n, fn, h, ct) for n, fn, h, ct in parts if fn is not None]
        c.check(all(not h or set(h) <= {'content-type'} for n, fn, h, ct in parts if fn is None), 'headers of a field')
        c.eq(got_fields, fields, 'fields', 'fields')
        c.eq(got_files, [(n, fn, dict((a.lower(), b) for a, b in h.items()), raw if isinstance(raw, bytes) else raw.encode(real)) for n, fn, h, raw in files], 'files', 'files')
        c.check(not req.query, 'query')
        c.state([(a, b, sorted(h.items()), d) for a, b, h, d in parts])
    finally:
        shutil.rmtree(tmp)


def consumes(c):
    lst = c.free('consumes', [None, [], [URLENC], [MULTI], [MULTI, URLENC], [URLENC, MULTI], ['application/json'], ['text/plain', URLENC], ['application/json', MULTI]])
    where = c.free('declared at', ['operation', 'document'])
    decl = c.free('declared', ['field', 'field+file', 'file', 'two fields'])
    give = c.subset('given', ['field', 'file', 'two'])
    chosen = c.pick('chosen by the caller', [None, URLENC, MULTI, 'application/json'])
    handle = c.free('handle_files', [True, False])
    if 'two' in give and decl != 'two fields' or 'file' in give and 'file' not in decl or 'field' in give and 'field' not in decl:
        raise Skip()
    ps = []
    if 'field' in decl:
        ps.append(P('fld', 'formData'))
    if decl == 'two fields':
        ps.append(P('two', 'formData'))
    if 'file' in decl:
        ps.append(P('up', 'formData', 'file'))
    kw = {} if lst is None else dict(consumes=lst)
    if where == 'operation':
        app = one_op(ps, method='post', **kw)
    else:
        from mc.lib import mem_app, doc, op
        app = mem_app(doc(paths={'/a': {'post': op(ps, operationId='op')}}, **kw))
    args = {}
    if 'field' in give:
        args['fld'] = 'v'
    if 'two' in give:
        args['two'] = 'w'
    if 'file' in give:
        args['up'] = dict(data=io.BytesIO(b'D'), filename='n')
    req, _ = app.op['op'](**args)
    if chosen:
        req.consume(chosen)
    kind = None if not give else MULTI if 'file' in give else URLENC
    allowed = not lst or kind is None or kind in lst or (kind == MULTI and not handle)
    try:
        req.prepare(scheme='http', handle_files=handle)
    except Exception as e:      # noqa
        c.check(not allowed, 'refused although %s allows %s: %r' % (lst, kind, e), 'refused')
        c.state('refused')
        return
    c.check(allowed, '%s sent although only %s is consumed' % (kind, lst), 'accepted')
    ct = req.header.get('Content-Type')
    if kind is None:
        c.eq((ct, req.data), (None, None), 'nothing to send')
    elif kind == URLENC:
        c.eq(ct, URLENC, 'content type')
        c.eq(guard(c, decode_urlenc, req.data), [(k, args[k]) for k in ('fld', 'two') if k in args], 'decoded')
    elif handle:
        c.check(ct.startswith(MULTI + ';'), 'content type %r' % ct)
        parts = guard(c, decode_multipart, ct, req.data, 'utf-8')
        c.eq([p[0] for p in parts], [{'field': 'fld', 'file': 'up'}[g] for g in give], 'parts')
    else:
        # the client does the encoding: it gets the fields and the files
        c.eq(ct, None, 'content type')
        c.eq([tuple(x) for x in req.data], [('fld', 'v')] if 'field' in give else [], 'fields for the client')
        c.eq(sorted(req.files), ['up'], 'files for the client')
        c.eq((req.files['up'].filename, req.files['up'].data.read()), ('n', b'D'), 'file for the client')
    c.state(kind, ct and ct.split(';')[0])


SCENARIOS = [
    dict(name='urlencoded', fn=urlencoded, bound=dict(quick=1, thorough=2), space='10 names x 21 values (pairs), multi entries, consumes lists, encodings'),
    dict(name='multipart', fn=multipart, bound=dict(quick=2, thorough=3), space='7 layouts x 4 encodings; up to `bound` of names, values, contents (12), file names, part headers, sources, consumes'),
    dict(name='consumes', fn=consumes, bound=1, space='consumes lists x declared and given fields and files x handle_files'),
]
