import datetime
import itertools
import json
import uuid

from six.moves.urllib.parse import unquote
from mc import engine
from mc.engine import Skip
from mc.lib import P, mem_app, doc, op as mkop

ASSUMPTIONS = ['timestamps are in UTC', 'ASCII digits, no trailing line break', 'one-digit seconds, a space instead of T, and offsets in whole hours are tolerated as input']


def days_in(y, m):
    if m == 2:
        return 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28
    return 30 if m in (4, 6, 9, 11) else 31


def num(s, lo, hi):
    if not s or any(ch not in '0123456789' for ch in s):
        return None
    v = int(s)
    return v if lo <= v <= hi else None


def parse(s):
    """hand-written reader -> (y, m, d) or (y, m, d, H, M, S, micro, offset in minutes or None); None when not valid"""
    if len(s) < 10 or s[4] != '-' or s[7] != '-':
        return None
    y, m = num(s[:4], 1, 9999), num(s[5:7], 1, 12)
    if y is None or m is None:
        return None
    d = num(s[8:10], 1, days_in(y, m))
    if d is None:
        return None
    if len(s) == 10:
        return (y, m, d)
    if s[10] not in 'Tt ':
        return None
    t = s[11:]
    off, cut = None, len(t)
    for i, ch in enumerate(t):
        if ch in 'Zz':
            if i != len(t) - 1:
                return None
            off, cut = 0, i
            break
        if ch in '+-':
            z = t[i + 1:]
            if len(z) == 2:
                hh, mm = z, '00'
            elif len(z) == 4:
                hh, mm = z[:2], z[2:]
            elif len(z) == 5 and z[2] == ':':
                hh, mm = z[:2], z[3:]
            else:
                return None
            hh, mm = num(hh, 0, 23), num(mm, 0, 59)
            if hh is None or mm is None:
                return None
            off, cut = (hh * 60 + mm) * (-1 if ch == '-' else 1), i
            break
    t = t[:cut]
    if len(t) < 5 or t[2] != ':':
        return None
    H, M, S, us = num(t[:2], 0, 23), num(t[3:5], 0, 59), 0, 0
    if H is None or M is None:
        return None
    r = t[5:]
    if r:
        if r[0] != ':':
            return None
        sec, dot, frac = r[1:].partition('.')
        if len(sec) not in (1, 2):
            return None
        S = num(sec, 0, 59)
        if S is None:
            return None
        if dot:
            if not frac or any(ch not in '0123456789' for ch in frac):
                return None
            us = int((frac + '000000')[:6])
    return (y, m, d, H, M, S, us, off)


def wire(txt):
    """what a text on the wire denotes"""
    return parse(txt)


PLACES = ['query', 'path', 'header', 'body', 'items', 'response', 'response header', 'response items']


def app_for(place, fmt):
    s = dict(type='string', format=fmt)
    o = dict(operationId='op')
    ps, rs = [], {'200': {'description': ''}}
    if place in ('query', 'path', 'header'):
        ps = [P('x', place, format=fmt)]
    elif place == 'body':
        ps = [P('x', 'body', schema={'type': 'object', 'properties': {'v': s}})]
    elif place == 'items':
        ps = [P('x', 'query', 'array', items=s, collectionFormat='pipes')]
    elif place == 'response':
        rs['200']['schema'] = {'type': 'object', 'properties': {'v': s}}
    elif place == 'response header':
        rs['200']['headers'] = {'X-V': s}
    elif place == 'response items':
        rs['200']['schema'] = {'type': 'array', 'items': s}
    return mem_app(doc(paths={'/a/{x}' if place == 'path' else '/a': {'post': mkop(ps, rs, **o)}}))


def native(v):
    """what a native object denotes"""
    if isinstance(v, datetime.datetime):
        off = v.utcoffset()
        off = None if off is None else off.days * 1440 + off.seconds // 60
        return (v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, off)
    return (v.year, v.month, v.day)


def through(app, place, v):
    """-> list of (kind, what it denotes) seen for `v`, or raises"""
    if place.startswith('response'):
        _, resp = app.op['op']()
        if place == 'response':
            resp.apply_with(status=200, raw=json.dumps({'v': v}))
            got = resp.data.v
        elif place == 'response items':
            resp.apply_with(status=200, raw=json.dumps([v]))
            got = resp.data[0]
        else:
            resp.apply_with(status=200, header={'X-V': v})
            got = resp.header['X-V'][0]
        return [native(got.v), wire(str(got)), wire(got.to_json())]
    req, _ = app.op['op'](x={'v': v} if place == 'body' else [v, v] if place == 'items' else v)
    req.prepare(scheme='http')
    if place == 'body':
        txt = [json.loads(req.data)['v']]
    elif place == 'path':
        txt = [unquote(req.path[3:])]
    elif place == 'header':
        txt = [req.header['x']]
    else:
        txt = req.query[0][1].split('|')
    return [wire(t.replace(' ', 'T') if t.count(' ') else t) for t in txt]


def expect(fmt, den):
    if den is None:
        return None
    if fmt == 'date':
        return den[:3]
    return den if len(den) == 8 else den + (0, 0, 0, 0, None)


def judge(c, app, place, fmt, v, den):
    want = expect(fmt, den)
    c.step()
    try:
        seen = through(app, place, v)
    except Exception as e:      # noqa
        c.check(want is None, '%s %r refused at %s: %r' % (fmt, v, place, e), 'refused')
        c.state('refused', v)
        return
    c.check(want is not None, '%s %r is not valid, but was accepted as %r' % (fmt, v, seen), 'accepted')
    for s in seen:
        c.check(s == want, '%s %r at %s became %r' % (fmt, v, place, s), 'value')
    c.state(want)


YEARS, MONTHS, DAYS = ['0001', '1900', '1970', '1999', '2000', '2004', '9999'], ['01', '02', '04', '12'], ['01', '28', '29', '30', '31']
FRACS = ['1', '01', '10', '000001', '999999', '9999999', '0000001', '123456789', '00', '5000000']
TZ = ['', 'Z', 'z', '+00:00', '-00:00', '+01:30', '-03:30', '+0530', '-08', '+14:00', '-12:00', '+23:59', '-00:30', '+00:01']


def grammar(c):
    place = c.pick('place', PLACES)
    fmt = c.free('format', ['date-time', 'date'])
    date = '%s-%s-%s' % (c.free('year', YEARS), c.free('month', MONTHS), c.free('day', DAYS))
    sep = c.pick('separator', ['T', 't', ' '])
    app = app_for(place, fmt)
    judge(c, app, place, fmt, date, parse(date))
    for H in ('00', '12', '23'):
        for M in ('00', '59'):
            secs = ['', ':00', ':59'] + [':05.' + f for f in FRACS]
            for S in secs:
                for z in (TZ if S in ('', ':00', ':05.1', ':05.9999999') else TZ[:1] + TZ[5:7]):
                    v = date + sep + H + ':' + M + S + z
                    judge(c, app, place, fmt, v, parse(v))


TEMPLATES = ['2001-02-03', '2001-02-03T04:05', '2001-02-03T04:05Z', '2001-02-03T04:05:06', '2001-02-03t04:05:06.7z', '2001-12-31T23:59:59.123456+01:30', '2001-12-31T23:59:59.1234567-0330', '2001-12-31 23:59:59-08', '0001-01-01T00:00:00Z']
ALPHA = ['0', '1', '2', '3', '5', '6', '9', '-', ':', '.', 'T', 'Z', '+', ' ', 'x', '', ',', '/', 't', 'z']


def corrupted(c):
    fmt = c.free('format', ['date-time', 'date'])
    t = c.free('template', TEMPLATES)
    place = c.free('place', ['query', 'response', 'header', 'response header'])
    kind = c.free('change', ['replace', 'insert', 'two'] if engine.TIER == 'thorough' else ['replace', 'insert'])
    app = app_for(place, fmt)
    out = set()
    for i in range(len(t) + (1 if kind == 'insert' else 0)):
        for a in ALPHA:
            if kind == 'replace':
                out.add(t[:i] + a + t[i + 1:])
            elif kind == 'insert':
                out.add(t[:i] + a + t[i:])
            else:
                for j in range(i + 1, len(t)):
                    for b in ALPHA[::3]:
                        out.add(t[:i] + a + t[i + 1:j] + b + t[j + 1:])
    for v in sorted(out):
        if v:
            judge(c, app, place, fmt, v, parse(v))


class TZ_(datetime.tzinfo):
    def __init__(self, mins):
        self.m = mins

    def utcoffset(self, dt):
        return datetime.timedelta(minutes=self.m)

    def dst(self, dt):
        return datetime.timedelta(0)


def natives(c):
    place = c.free('place', [p for p in PLACES if not p.startswith('response')])
    fmt = c.free('format', ['date-time', 'date'])
    app = app_for(place, fmt)
    for y in (1, 1969, 1970, 2000, 9999):
        for m, d in ((1, 1), (2, 28), (12, 31)):
            if fmt == 'date':
                judge(c, app, place, fmt, datetime.date(y, m, d), (y, m, d))
            for H, M, S, us in ((0, 0, 0, 0), (23, 59, 59, 999999), (4, 5, 6, 7)):
                for off in (None, 0, 90, -210, 1439, -1):
                    v = datetime.datetime(y, m, d, H, M, S, us, None if off is None else TZ_(off))
                    judge(c, app, place, fmt, v, native(v))
    for sec in (0, 1, 86399, 86400, 951782400, 1e9, 253402300799):
        for fr in (0.0, 0.5, 0.25):
            v = float(sec) + fr
            days, rest = divmod(int(sec), 86400)
            dt = datetime.date.fromordinal(datetime.date(1970, 1, 1).toordinal() + days)
            for v in ([v, int(v)] if fr == 0 else [v]):
              judge(c, app, place, fmt, v, (dt.year, dt.month, dt.day, rest // 3600, rest // 60 % 60, rest % 60, int(fr * 1000000), None))
    for v in ([], {}, b'2001-02-03'):
        judge(c, app, place, fmt, v, None)


def uuids(c):
    place = c.free('place', ['query', 'path', 'header', 'body', 'items', 'response', 'response header', 'response items'])
    n = c.free('uuid', [0, 2 ** 128 - 1, 0x12345678123456781234567812345678, 0xabcdef01abcdef01abcdef01abcdef01, 1, 2 ** 127])
    app = app_for(place, 'uuid')
    h = '%032x' % n
    dashed = '-'.join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
    good = [dashed, dashed.upper(), h, '{%s}' % dashed, 'urn:uuid:' + dashed]
    if not place.startswith('response'):
        good += [uuid.UUID(int=n), bytes(bytearray.fromhex(h))]
    bad = [dashed[:-1], dashed + '0', dashed[:-1] + 'g', 'x', dashed.replace('-', '')[:-1], 'abcdefghijklmnop', h + h]
    for i in range(len(dashed)):
        bad.append(dashed[:i] + 'g' + dashed[i + 1:])
    for v in good + bad:
        c.step()
        try:
            if place.startswith('response'):
                _, resp = app.op['op']()
                if place == 'response header':
                    resp.apply_with(status=200, header={'x-v': v})
                    got = resp.header['x-v'][0]
                else:
                    resp.apply_with(status=200, raw=json.dumps({'v': v} if place == 'response' else [v]))
                    got = resp.data.v if place == 'response' else resp.data[0]
                seen = [str(got), got.to_json(), str(got.v)]
            else:
                req, _ = app.op['op'](x={'v': v} if place == 'body' else [v, v] if place == 'items' else v)
                req.prepare(scheme='http')
                seen = [json.loads(req.data)['v']] if place == 'body' else [req.path[3:]] if place == 'path' else [req.header['x']] if place == 'header' else req.query[0][1].split('|')
        except Exception as e:      # noqa
            c.check(v in bad, 'uuid %r refused: %r' % (v, e), 'refused')
            continue
        c.check(v not in bad, '%r is no uuid, but was accepted as %r' % (v, seen), 'accepted')
        c.check(all(s == dashed for s in seen), 'uuid %r became %r' % (v, seen), 'value')
    c.state(place, n)


SCENARIOS = [
    dict(name='grammar', fn=grammar, bound=dict(quick=0, thorough=2), space='7 years x 4 months x 5 days x times, fractions of length 1..9, 14 offsets; thorough: 8 places, 3 separators'),
    dict(name='corrupted', fn=corrupted, bound=0, space='every single-character replacement, deletion and insertion (20 characters) of 9 templates; thorough: pairs'),
    dict(name='natives', fn=natives, bound=0, space='native dates, datetimes with offsets, timestamps'),
    dict(name='uuids', fn=uuids, bound=0, space='spellings and corruptions of uuids in 8 places'),
]
