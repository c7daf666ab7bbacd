#!/opt/venv/bin/python
"""DESIGN.md = tools/design_head.md + a section for every property (from meta.py, the scenarios of its check, ORACLE below,
and the figures of the last run in evidence/) + tools/design_tail.md + the planted bugs"""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path[:0] = [here, root, os.environ.get('VERIF_REPO', '/repo')]
import meta

ORACLE = {
 'C01': 'a walk over the JSON of the document itself: each (pointer, value) pair of it must be what App.resolve and attribute access give; table of defaults of the 2.0 specification.',
 'C02': 'the source document (every value has to be in the dump), and behaviour (operations, requests, responses) of the App of the dump reloaded at the same and at another URL.',
 'C03': 'differential: the same API with every reference written in place.',
 'C04': 'reachability closure and brute-force elementary cycles of the generated graph.',
 'C05': 'a fresh App or Resolver on which the reference is resolved first; log of the fetches.',
 'C06': 'differential: the same documents served by one in-memory getter.',
 'C07': 'a plain re-implementation of "exact key, else unique suffix" over the list of keys.',
 'C08': 'table derived from the declarations: which value is sent where, or refused.',
 'C09': 'RFC 3986 split and decode of the URL received by a stand-in client.',
 'C10': 'separately written split/join of collection formats; decode of what is sent must give the items back.',
 'C11': 'strict parsers of urlencoded and multipart bodies in mc/wire.py (RFC 7578, boundaries, encodings).',
 'C12': 'the value built independently from the schema; JSON on the wire compared with type strictness, and the round trip.',
 'C13': 'a 60-line validator of the limits (JSON Schema draft 4 subset of 2.0).',
 'C14': 'a set model of allOf: which property is declared by which schema, required, read-only, additional.',
 'C15': 'a separately written RFC 3339 grammar; datetime arithmetic in integers.',
 'C16': 'selection of the response by status and default; decode by media type; headers by declaration.',
 'C17': 'negotiation re-stated from the documentation; reference map of codecs.',
 'C18': 'the set of admissible schemes by the documented order of precedence.',
 'C19': 'table credentials -> header/query; base64 from the standard library.',
 'C20': 'differential over the three adapters: what a scripted HTTP server (or WSGI app) receives, parsed strictly, and the model of the request; the same answer gives the same response.',
 'C21': 'a pair made just before the send: the n-th send must equal the first of a fresh pair; two exchanges must equal each alone.',
 'C22': 'deep fingerprints of arguments before and after; fingerprint of the App; a second identical call gives the same result.',
 'C23': 'serialisability of outcomes: each thread must get what it gets alone; the App has to behave afterwards as before.',
 'C24': 'the validator of C13 and the operation itself (has to accept what was rendered).',
 'C25': 'differential: a 2.0 document written by hand from the same scenario choices.',
 'C26': 'an independent validator of the plain JSON; exact set of (object, rule) pairs.',
 'C27': 'inheritance re-stated: own declaration, else path item, else document.',
 'C28': 'handlers that tag values and record calls; three factories, of which only one is registered with.',
 'C29': 'reference composition of (request headers, custom headers) to a list of pairs.',
 'C30': 'reference map; explicit-state search with deduplicated states.',
 'C32': 'a fresh App prepared once under the same conditions; the App alone.',
 'C33': 'the reference content of the arguments, patched the same way, against the decoded wire content.',
 'C34': 'a walk over the raw document by the containment rules of the specification: pointer and class of every object.',
 'C35': 'the edits that turn one document into the other, with the places and values they change.',
 'C31': 'the App of the 1.2 API; a small list of rules of Swagger 2.0 checked on the dump.',
}

out = [open(here + '/design_head.md').read()]
out.append('## Properties\n\nFor each: what is enumerated (scenarios; `q`/`t` = deviation bound of the quick/thorough tier), the oracle, what is assumed, the size of the last quick run.\n')
for p in meta.PROPS:
    m = importlib.import_module('mc.checks.' + p['id'].lower())
    ev = root + '/evidence/%s.json' % p['id']
    cov = {}
    wall = None
    if os.path.exists(ev):
        e = json.load(open(ev))
        if e['tier'] == 'quick':
            cov = {b['scenario']: b for b in e['coverage']['bounds']}
            wall = e['wall_s']
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('Out of reach of tests: %s.\n' % p['why'].rstrip('.'))
    out.append('Oracle: %s\n' % ORACLE[p['id']])
    out.append('Enumerated:')
    for s in m.SCENARIOS:
        b = s.get('bound', 0)
        b = 'q %s, t %s' % (b['quick'], b['thorough']) if isinstance(b, dict) else 'all, or bound %s' % b if b else 'all'
        n = cov.get(s['name'])
        out.append('- `%s` (%s)%s: %s' % (s['name'], b, ' — %d executions, %d distinct observations' % (n['executions'], n['distinct_observations']) if n else '', s.get('space')))
    if wall:
        out.append('\nQuick run: about %d s with 8 processes.' % wall)
    if getattr(m, 'ASSUMPTIONS', None):
        out.append('\nAssumed: ' + '; '.join(m.ASSUMPTIONS) + '.')
    out.append('')
out.append(open(here + '/design_tail.md').read())
MISSED = dict(l.split(None, 1) for l in open(here + '/missed.txt').read().split('\n') if l.strip())
out.append('## Planted bugs and the checks that catch them\n')
out.append('Every one of these compiles, passes the 294 stable tests and fails its demonstration; every one is caught by the quick check of its property '
           '(`tools/seedtool.py detect`). "missed first" tells what had to be strengthened.\n')
out.append('| bug | property | needs | history |\n|---|---|---|---|')
for d in sorted(os.listdir(root + '/seeded')):
    f = root + '/seeded/%s/meta.json' % d
    if os.path.exists(f):
        e = json.load(open(f))
        out.append('| %s | %s | %s | %s |' % (d, e['property'], e['needs'].replace('|', '/'), MISSED.get(d, 'caught')))
open(root + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len('\n'.join(out).split('\n')), 'lines')
