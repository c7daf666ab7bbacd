From b95cd24e07489458df5006f3df6c662edd8d1f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 01/51] fix: resolve fragments of a document independently of
 which ones were cached before

A cached fragment answered for every pointer it is a textual prefix of
(#/definitions/User for #/definitions/UserList), and once a whole external
file was cached, pointers outside of the cached object could not be loaded.
---
 pyswagger/core.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 1860d32..a0e470c 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -223,7 +223,8 @@ class App(object):
                 self.__objs[url] = {jp: obj}
         else:
             if not isinstance(self.__objs[url], dict):
-                raise Exception('it should be able to resolve with BaseObj')
+                # something under this url is not reachable from its cached root
+                self.__objs[url] = {'#': self.__objs[url]}
             self.__objs[url].update({jp: obj})
 
         # pre resolve Schema Object
@@ -396,11 +397,16 @@ class App(object):
         o = self.__objs.get(url, None)
         if o:
             if isinstance(o, BaseObj):
-                obj = o.resolve(utils.jp_split(jp)[1:])
-            elif isinstance(o, dict):
-                for k, v in six.iteritems(o):
-                    if jp.startswith(k):
-                        obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
+                o = {'#': o}
+            if isinstance(o, dict):
+                # prefer the object cached at the closest (longest) pointer
+                for k in sorted(o, key=len, reverse=True):
+                    if jp == k or jp.startswith(k + '/'):
+                        try:
+                            obj = o[k].resolve(utils.jp_split(jp[len(k):])[1:])
+                        except (AttributeError, LookupError, ValueError):
+                            # not part of the cached object, try to load it
+                            continue
                         break
             else:
                 raise Exception('Unknown Cached Object: {0}'.format(str(type(o))))
-- 
2.43.0


From 894ff05159bcaf642291872dd26b8385f39c2d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 02/51] fix: relative $ref from a document at the root of a
 site, and absolute-path $ref

The joined url got a double slash (http://h//ext.json) when the folder of the
referring document is '/', or when the reference is an absolute path.
---
 pyswagger/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 485b245..cd394b0 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -387,7 +387,9 @@ def normalize_jr(jr, url=None):
         if p.scheme == '' and url:
             p = six.moves.urllib.parse.urlparse(url)
             # it's the path of relative file
-            path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([os.path.dirname(p.path), path]),)+p[3:])
+            if not path.startswith('/'):
+                path = '/'.join([os.path.dirname(p.path).rstrip('/'), path])
+            path = six.moves.urllib.parse.urlunparse(p[:2]+(path,)+p[3:])
             path = derelativise_url(path)
     else:
         path = url
-- 
2.43.0


From ceea338ec16f24bc2e9a52145d23e8f082ed750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 03/51] fix: percent-encode a space in path parameters as %20,
 not '+'

'+' only stands for a space in the query part of an URL: 'a b' in a path
parameter was received as 'a+b' by servers.
---
 pyswagger/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 75569c2..20c3e62 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -195,7 +195,7 @@ class Request(object):
         # TODO: 'dot' is allowed in swagger, but it won't work in python-format
         path_params = {}
         for k, v in six.iteritems(self.__p['path']):
-            path_params[k] = six.moves.urllib.parse.quote_plus(v)
+            path_params[k] = six.moves.urllib.parse.quote(v, safe='')
 
         self.__path = self.__path.format(**path_params)
 
-- 
2.43.0


From 7947794a8af1b03d936e3ef3eca68fe570b4e0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 04/51] fix: keep leading empty elements when an array is
 converted to string

['', 'a'] was sent as 'a' (one element) instead of ',a'.
---
 pyswagger/primitives/_array.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index e79bb73..363a328 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -64,10 +64,7 @@ class Array(list):
         :rtype: str
         """
         def _conv(p):
-            s = ''
-            for v in self:
-                s = ''.join([s, p if s else '', str(v)])
-            return s
+            return p.join([str(v) for v in self])
 
         if self.__collection_format == 'csv':
             return _conv(',')
-- 
2.43.0


From 282322ace5b8695f6a1c5bafed5774669fe5e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:44 +0000
Subject: [PATCH 05/51] fix: exchange boolean as 'true'/'false' inside of
 arrays, and read 'false' as False

Python's 'True'/'False' were put into arrays in query, path, header and form,
and the string 'false' (ex. from a response header) was read as True.
---
 pyswagger/primitives/_array.py | 5 +++--
 pyswagger/primitives/_bool.py  | 4 ++++
 pyswagger/primitives/comm.py   | 6 ++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index 363a328..ab615d4 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import
 from ..errs import ValidationError, SchemaError
+from .comm import to_wire
 import functools
 import six
 
@@ -64,7 +65,7 @@ class Array(list):
         :rtype: str
         """
         def _conv(p):
-            return p.join([str(v) for v in self])
+            return p.join([to_wire(v) for v in self])
 
         if self.__collection_format == 'csv':
             return _conv(',')
@@ -82,7 +83,7 @@ class Array(list):
         refer to Swagger 2.0, Parameter Object, collectionFormat
         """
         if self.__collection_format == 'multi':
-            return [str(s) for s in self]
+            return [to_wire(s) for s in self]
         else:
             return [str(self)]
 
diff --git a/pyswagger/primitives/_bool.py b/pyswagger/primitives/_bool.py
index 3ce12eb..83e4563 100644
--- a/pyswagger/primitives/_bool.py
+++ b/pyswagger/primitives/_bool.py
@@ -1,7 +1,11 @@
 from __future__ import absolute_import
+import six
 
 
 def create_bool(_, v, ctx=None):
+    # the way a boolean is represented outside of JSON, ex. in headers
+    if isinstance(v, six.string_types) and v.lower() == 'false':
+        return False
     return bool(v)
 
 
diff --git a/pyswagger/primitives/comm.py b/pyswagger/primitives/comm.py
index a1eab3f..74b9a9f 100644
--- a/pyswagger/primitives/comm.py
+++ b/pyswagger/primitives/comm.py
@@ -11,6 +11,12 @@ class PrimJSONEncoder(json.JSONEncoder):
             return obj.to_json()
         return json.JSONEncoder.default(self, obj)
 
+def to_wire(v):
+    """ string representation of a primitive outside of JSON,
+    ex. in path, query, header, form
+    """
+    return str(v).lower() if isinstance(v, bool) else str(v)
+
 def min_max(obj, val, is_max):
     """ min/max validator for float and integer
     """
-- 
2.43.0


From 9c00d93c64e6c54ad715a1a9b22b5a94c2b84945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 06/51] fix: do not silently drop what follows a date, or the
 offset after a long fraction, in ISO-8601 strings

'...T12:30:00.1234567Z' lost its offset, and lower-case 't'/'z', a space
instead of 'T' or anything unparsable after the date turned a date-time into
midnight.
---
 pyswagger/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index cd394b0..8ce8ee0 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -128,11 +128,11 @@ class FixedTZ(datetime.tzinfo):
 
 _iso8601_fmt = re.compile(''.join([
     '(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})', # YYYY-MM-DD
-    'T', # T
-    '(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{1,2})(\.(?P<microsecond>\d{1,6}))?)?', # hh:mm:ss.ms
-    '(?P<tz>Z|[+-]\d{2}:\d{2})?' # Z or +/-hh:mm
+    '[Tt ]', # T
+    '(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{1,2})(\.(?P<microsecond>\d{1,6})\d*)?)?', # hh:mm:ss.ms
+    '(?P<tz>[Zz]|[+-]\d{2}(:?\d{2})?)?$' # Z or +/-hh:mm
 ]))
-_iso8601_fmt_date = re.compile('(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})') # YYYY-MM-DD
+_iso8601_fmt_date = re.compile('(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})$') # YYYY-MM-DD
 
 def from_iso8601(s):
     """ convert iso8601 string to datetime object.
@@ -186,10 +186,10 @@ def from_iso8601(s):
 
         negtive = hh = mm = 0
 
-        if tz_s != 'Z':
+        if tz_s not in ('Z', 'z'):
             negtive = -1 if tz_s[0] == '-' else 1
             hh = int(tz_s[1:3])
-            mm = int(tz_s[4:6]) if len(tz_s) > 5 else 0
+            mm = int(tz_s[-2:]) if len(tz_s) > 3 else 0
 
         tz = FixedTZ(h=hh*negtive, m=mm*negtive)
 
-- 
2.43.0


From 41a2026ff29b32abb3c71efc6cd4da6fbfe0f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 07/51] fix: check multipleOf of integers, not only of numbers

---
 pyswagger/primitives/_int.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyswagger/primitives/_int.py b/pyswagger/primitives/_int.py
index a4a9eba..901b26a 100644
--- a/pyswagger/primitives/_int.py
+++ b/pyswagger/primitives/_int.py
@@ -1,10 +1,13 @@
 from __future__ import absolute_import
+from ..errs import ValidationError
 from .comm import min_max
 
 
 def validate_int(obj, ret, val, ctx):
     min_max(obj, ret, False)
     min_max(obj, ret, True)
+    if obj.multipleOf and ret % obj.multipleOf != 0:
+        raise ValidationError('{0} should be multiple of {1}'.format(val, obj.multipleOf))
 
     return val
  
-- 
2.43.0


From b1fb8f3b55fe9acebd0e51435602fdddb940f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 08/51] fix: do not ignore maxLength/maxItems when they are 0

---
 pyswagger/primitives/_array.py | 2 +-
 pyswagger/primitives/_str.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index ab615d4..5bbc31f 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -52,7 +52,7 @@ class Array(list):
         # init array as list
         if obj.minItems and len(self) < obj.minItems:
             raise ValidationError('Array should be more than {0}, not {1}'.format(obj.minItems, len(self)))
-        if obj.maxItems and len(self) > obj.maxItems:
+        if obj.maxItems is not None and len(self) > obj.maxItems:
             raise ValidationError('Array should be less than {0}, not {1}'.format(obj.maxItems, len(self)))
 
         return val
diff --git a/pyswagger/primitives/_str.py b/pyswagger/primitives/_str.py
index a60b51b..1385497 100644
--- a/pyswagger/primitives/_str.py
+++ b/pyswagger/primitives/_str.py
@@ -7,7 +7,7 @@ from validate_email import validate_email
 def validate_str(obj, ret, val, ctx):
     if obj.enum and ret not in obj.enum:
         raise ValidationError('{0} is not a valid enum for {1}'.format(ret, str(obj.enum)))
-    if obj.maxLength and len(ret) > obj.maxLength:
+    if obj.maxLength is not None and len(ret) > obj.maxLength:
         raise ValidationError('[{0}] is longer than {1} characters'.format(ret, str(obj.maxLength)))
     if obj.minLength and len(ret) < obj.minLength:
         raise ValidationError('[{0}] is shorter than {1} characters'.format(ret, str(obj.minLength)))
-- 
2.43.0


From 91138f902cb46be806224bdc224406c4b1b07fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 09/51] fix: apply all parts of allOf to falsy values

With allOf, the constraints in its parts were skipped when the value was 0 or
'', and the properties of a part were lost when another one matched nothing.
---
 pyswagger/primitives/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index edac8cd..dc63063 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -222,18 +222,18 @@ class Primitive(object):
             not_applied = []
             for a in allOf:
                 a = deref(a)
-                if not ret:
+                if ret is None:
                     # try to find right type for this primitive.
                     ret = self.produce(a, val, ctx)
                     is_member = hasattr(ret, 'apply_with')
                 else:
                     val = _apply(a, ret, val, ctx)
 
-                if not ret:
+                if ret is None:
                     # if we still can't determine the type,
                     # keep this Schema object for later use.
                     not_applied.append(a)
-            if ret:
+            if ret is not None:
                 for a in not_applied:
                     val = _apply(a, ret, val, ctx)
 
-- 
2.43.0


From 2f695af5ea623dc5818d37d84a6aa9deb3f4fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 10/51] fix: process allOf inside of the second and later parts
 of allOf

Only the first part was handled recursively, properties inherited through
another part were neither converted nor validated.
---
 pyswagger/primitives/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index dc63063..ce16e7a 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -1,4 +1,5 @@
 from __future__ import absolute_import
+from ..errs import CycleDetectionError
 from ..utils import deref, CycleGuard
 from ._int import create_int, validate_int
 from ._str import create_str, validate_str, validate_email_
@@ -203,7 +204,10 @@ class Primitive(object):
             # it's meanless to handle allOf for these types.
             return ret
 
-        def _apply(o, r, v, c):
+        def _apply(o, r, v, c, parents=()):
+            if o in parents:
+                raise CycleDetectionError('Cycle detected in allOf: {0}'.format(getattr(o, 'name', None)))
+
             if hasattr(ret, 'apply_with'):
                 v = r.apply_with(o, v, c)
             else:
@@ -214,6 +218,10 @@ class Primitive(object):
                     _2nd(o, r, v, c)
                     # update it back to context
                     c['2nd_pass'] = _2nd
+
+            # a part of allOf might be composed by allOf, too
+            for a in getattr(o, 'allOf', None) or []:
+                v = _apply(deref(a), r, v, c, parents + (o,))
             return v
 
         # handle allOf for Schema Object
-- 
2.43.0


From 0ea69d137e550edf5978c507e78ed66a83593ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 11/51] fix: check required properties after all parts of allOf
 are applied

A schema requiring a property defined by one of the parts of its allOf (or
covered by additionalProperties) could never be satisfied.
---
 pyswagger/primitives/_model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 087df19..110b2b0 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -44,9 +44,9 @@ class Model(dict):
             if p.is_set("default"):
                 self[k] = ctx['factory'].produce(p, p.default)
 
-        not_found = set(obj.required) - set(six.iterkeys(self))
-        if len(not_found):
-            raise ValueError('Model missing required key(s): {0}'.format(', '.join(not_found)))
+        # properties required here might be provided by other parts of allOf,
+        # they can be checked only when all parts are applied.
+        ctx.setdefault('required', set()).update(obj.required)
 
         # remove assigned properties to avoid duplicated
         # primitive creation
@@ -72,6 +72,10 @@ class Model(dict):
                 self[k] = ctx['factory'].produce(obj.additionalProperties, v)
             ctx['addp_schema'] = None
 
+        not_found = ctx.pop('required', set()) - set(six.iterkeys(self))
+        if len(not_found):
+            raise ValueError('Model missing required key(s): {0}'.format(', '.join(not_found)))
+
         return {}
 
     def __eq__(self, other):
-- 
2.43.0


From aeb6cb6c402bd8c484b358efd46596f2b8c9b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 12/51] fix: match names of response headers case-insensitively
 when converting them

Clients and servers are free to change the case of header names (tornado does),
such headers were left as string, without being converted or validated.
---
 pyswagger/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 20c3e62..ac512ed 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -363,8 +363,11 @@ class Response(object):
         self.__url = self.__op.url
 
     def _convert_header(self, resp, k, v):
-        if resp and resp.headers and k in resp.headers:
-            v = resp.headers[k]._prim_(v, self.__op._prim_factory, ctx=dict(read=True))
+        for name, h in six.iteritems((resp and resp.headers) or {}):
+            # names of headers are case-insensitive
+            if name.lower() == k.lower():
+                v = h._prim_(v, self.__op._prim_factory, ctx=dict(read=True))
+                break
 
         if k in self.__header:
             self.__header[k].append(v)
-- 
2.43.0


From 821269d9e9eab157d44e4333cbf2c75b3ac2bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 13/51] fix: no double slash in urls when basePath ends with a
 slash

---
 pyswagger/scanner/v2_0/patch_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index e4b1d2b..cc84522 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -62,7 +62,7 @@ class PatchObject(object):
             url = six.moves.urllib.parse.urlunparse((
                     '',                            # schema
                     host,                          # netloc
-                    (app.root.basePath or '') + k, # path
+                    (app.root.basePath or '').rstrip('/') + k, # path
                     '', '', '',                    # param, query, fragment
             ))
             base_path = app.root.basePath
-- 
2.43.0


From 1a761111be97c0af18c9d065756fe5b3af75f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 14/51] fix: do not write headers of a request into the dict
 passed by caller

With the requests client, credentials and content-type of one request leaked
into the next one when the same dict of customized headers is reused.
---
 pyswagger/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index a0e470c..3d17c2e 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -586,7 +586,8 @@ class BaseClient(object):
         join_headers = opt.pop(BaseClient.join_headers, None)
         if as_dict and not join_headers:
             # pick the most efficient way for special case
-            headers = dict(headers) if isinstance(headers, list) else headers
+            # note: do not update the one passed by caller
+            headers = dict(headers)
             headers.update(req.header)
             return headers
 
-- 
2.43.0


From 001b788cb86255d9b62da3b63b727f8b7b8e839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 15/51] fix: do not remove options from the dict passed by
 caller

Options like url_netloc were applied to the first request only, when the same
dict is reused for several ones.
---
 pyswagger/contrib/client/flask.py    | 2 +-
 pyswagger/contrib/client/requests.py | 2 +-
 pyswagger/contrib/client/tornado.py  | 2 +-
 pyswagger/contrib/client/webapp2.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyswagger/contrib/client/flask.py b/pyswagger/contrib/client/flask.py
index 24cee92..49310be 100644
--- a/pyswagger/contrib/client/flask.py
+++ b/pyswagger/contrib/client/flask.py
@@ -28,7 +28,7 @@ class FlaskTestClient(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        opt = dict(opt or {})
         req, resp = super(FlaskTestClient, self).request((req, resp), opt)
 
         # apply request-related options before preparation.
diff --git a/pyswagger/contrib/client/requests.py b/pyswagger/contrib/client/requests.py
index a7bce1d..15ff8c4 100644
--- a/pyswagger/contrib/client/requests.py
+++ b/pyswagger/contrib/client/requests.py
@@ -32,7 +32,7 @@ class Client(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        opt = dict(opt or {})
         req, resp = super(Client, self).request((req, resp), opt)
 
         # apply request-related options before preparation.
diff --git a/pyswagger/contrib/client/tornado.py b/pyswagger/contrib/client/tornado.py
index 4acac00..4da0643 100644
--- a/pyswagger/contrib/client/tornado.py
+++ b/pyswagger/contrib/client/tornado.py
@@ -28,7 +28,7 @@ class TornadoClient(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        opt = dict(opt or {})
         req, resp = super(TornadoClient, self).request((req, resp), opt)
 
         req.prepare(scheme=self.prepare_schemes(req), handle_files=True)
diff --git a/pyswagger/contrib/client/webapp2.py b/pyswagger/contrib/client/webapp2.py
index c733542..df691b9 100644
--- a/pyswagger/contrib/client/webapp2.py
+++ b/pyswagger/contrib/client/webapp2.py
@@ -40,7 +40,7 @@ class Webapp2TestClient(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        opt = dict(opt or {})
         req, resp = super(Webapp2TestClient, self).request((req, resp), opt)
 
         req.prepare(scheme=self.prepare_schemes(req), handle_files=True)
-- 
2.43.0


From fd0e09e54aaab6441fe0cc0d43b306f2b6e075b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 16/51] fix: send forms with the flask client

Forms without file made werkzeug fail, and with files only the last one of
multiple values for one key was sent.
---
 pyswagger/contrib/client/flask.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyswagger/contrib/client/flask.py b/pyswagger/contrib/client/flask.py
index 49310be..630deaf 100644
--- a/pyswagger/contrib/client/flask.py
+++ b/pyswagger/contrib/client/flask.py
@@ -40,8 +40,9 @@ class FlaskTestClient(BaseClient):
         # prepare data, flask's data is composed of form and file
         if req.files:
             data = {}
-            # form
-            data.update(req._p['formData'])
+            # form, there might be multiple values for one key
+            for k, v in req._p['formData']:
+                data.setdefault(k, []).append(v)
             # file
             for k, v in six.iteritems(req.files):
                 if isinstance(v, list):
@@ -60,7 +61,7 @@ class FlaskTestClient(BaseClient):
                     )
 
         else:
-            data = req.data if req._p['body'] else req._p['formData']
+            data = req.data
 
         r = self.__client.open(
             path=req.url,
-- 
2.43.0


From 687ad6c6ae9a2756a0533850245ad1a1940bb556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:03 +0000
Subject: [PATCH 17/51] fix: send content and type of files given by name with
 the flask client

An empty file was sent when only 'filename' is provided.
---
 pyswagger/contrib/client/flask.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyswagger/contrib/client/flask.py b/pyswagger/contrib/client/flask.py
index 630deaf..5129bad 100644
--- a/pyswagger/contrib/client/flask.py
+++ b/pyswagger/contrib/client/flask.py
@@ -51,13 +51,15 @@ class FlaskTestClient(BaseClient):
                         data[k].append(FileStorage(
                             name=k,
                             filename=vv.filename,
-                            stream=vv.data
+                            stream=vv.data or open(vv.filename, 'rb'),
+                            content_type=vv.header.get('Content-Type')
                         ))
                 else:
                     data[k] = FileStorage(
                         name=k,
                         filename=v.filename,
-                        stream=v.data
+                        stream=v.data or open(v.filename, 'rb'),
+                        content_type=v.header.get('Content-Type')
                     )
 
         else:
-- 
2.43.0


From 40f35bccc2af361efc24c4d925f4ce3d3d5505d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:46 +0000
Subject: [PATCH 18/51] fix: resolve a JSON pointer to a floating point number

---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 3d17c2e..d1bfddb 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -427,7 +427,7 @@ class App(object):
         if obj == None:
             raise ValueError('Unable to resolve path, [{0}]'.format(jref))
 
-        if isinstance(obj, (six.string_types, six.integer_types, list, dict)):
+        if isinstance(obj, (six.string_types, six.integer_types, float, list, dict)):
             return obj
         return weakref.proxy(obj)
 
-- 
2.43.0


From de92826aaf6521acf262d3420e65d2020c9de045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:25 +0000
Subject: [PATCH 19/51] fix: honour default and readOnly of schemas behind $ref
 in properties

---
 pyswagger/primitives/__init__.py |  3 ++-
 pyswagger/primitives/_model.py   | 16 +++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index ce16e7a..44e5d95 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -158,10 +158,11 @@ class Primitive(object):
         :return: the created primitive
         """
         val = obj.default if val == None else val
+        obj = deref(obj)
+        val = obj.default if val == None else val
         if val == None:
             return None
 
-        obj = deref(obj)
         ctx = {} if ctx == None else ctx
         if 'name' not in ctx and hasattr(obj, 'name'):
             ctx['name'] = obj.name
diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 110b2b0..6bb0970 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -1,6 +1,19 @@
 from __future__ import absolute_import
+from ..errs import CycleDetectionError
+from ..utils import deref
 import six
 
+
+def _target(obj):
+    """ the Schema Object referred by obj, or obj itself when
+    nothing is referred (or the reference is cyclic)
+    """
+    try:
+        return deref(obj)
+    except CycleDetectionError:
+        return obj
+
+
 class Model(dict):
     """ for complex type: models
     """
@@ -23,7 +36,7 @@ class Model(dict):
         for k, v in six.iteritems(val):
             if k in obj.properties:
                 pobj = obj.properties.get(k)
-                if pobj.readOnly == True and ctx['read'] == False:
+                if ctx['read'] == False and (pobj.readOnly == True or _target(pobj).readOnly == True):
                     raise Exception('read-only property is set in write context.')
 
                 self[k] = ctx['factory'].produce(pobj, v)
@@ -41,6 +54,7 @@ class Model(dict):
         other_prop = in_obj - in_self
         for k in other_prop:
             p = obj.properties[k]
+            p = p if p.is_set("default") else _target(p)
             if p.is_set("default"):
                 self[k] = ctx['factory'].produce(p, p.default)
 
-- 
2.43.0


From 2a89db22ae2d8361cae24e5efbbcbcacb2697a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:22 +0000
Subject: [PATCH 20/51] fix: $ref of parameters and responses inside of a
 referred path item

---
 pyswagger/scanner/v2_0/merge.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v2_0/merge.py b/pyswagger/scanner/v2_0/merge.py
index 107153f..b9a339b 100644
--- a/pyswagger/scanner/v2_0/merge.py
+++ b/pyswagger/scanner/v2_0/merge.py
@@ -1,6 +1,6 @@
 from __future__ import absolute_import
 from ...errs import CycleDetectionError
-from ...scan import Dispatcher
+from ...scan import Dispatcher, Scanner
 from ...spec.v2_0.parser import (
     ParameterContext,
     ResponseContext,
@@ -13,6 +13,7 @@ from ...spec.v2_0.objects import (
     )
 from ...spec.base import NullContext
 from ...utils import CycleGuard
+import six
 
 
 def _merge(obj, app, creator, parser):
@@ -58,3 +59,9 @@ class Merge(object):
     def _path_item(self, _, obj, app):
         obj.merge(_merge(obj, app, PathItem, PathItemContext), PathItemContext)
 
+        if getattr(obj, '$ref'):
+            # what is merged from elsewhere would not be visited by
+            # the running scan.
+            for child in six.itervalues(obj._children_):
+                Scanner(app).scan(root=child, route=[self])
+
-- 
2.43.0


From f17c6e8d44d597e87d331aa53e08232c7bc19d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 21/51] fix: do not keep objects whose references could not be
 resolved

---
 pyswagger/core.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index d1bfddb..df2256c 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -58,6 +58,8 @@ class App(object):
         # - spec.BaseObj
         # - a map from json-pointer to spec.BaseObj
         self.__objs = {}
+        # (url, json-pointer) of things in __objs, in the order they are cached
+        self.__cached = []
 
         if url_load_hook and resolver:
             raise ValueError('when use customized Resolver, please pass url_load_hook to that one')
@@ -229,7 +231,20 @@ class App(object):
 
         # pre resolve Schema Object
         # note: make sure this object is cached before using 'Resolve' scanner
-        s.scan(root=obj, route=[Resolve()])
+        self.__cached.append((url, jp))
+        n = len(self.__cached)
+        try:
+            s.scan(root=obj, route=[Resolve()])
+        except Exception:
+            # neither this object nor those cached since then are completely
+            # resolved, do not keep them.
+            for u, p in self.__cached[n-1:]:
+                if isinstance(self.__objs.get(u, None), dict):
+                    self.__objs[u].pop(p, None)
+                else:
+                    self.__objs.pop(u, None)
+            del self.__cached[n-1:]
+            raise
         return obj
 
     def _validate(self):
-- 
2.43.0


From a82e0b4e758d82638363a29842b971a99538ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 22/51] fix: load local files whose path contains characters
 quoted in urls

---
 pyswagger/getter.py  | 2 +-
 pyswagger/resolve.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index abdc8fb..1b48eaa 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -67,7 +67,7 @@ class LocalGetter(Getter):
 
         if path.startswith('file://'):
             parsed = six.moves.urllib.parse.urlparse(path)
-            path = parsed.path
+            path = six.moves.urllib.parse.unquote(parsed.path)
         if re.match('^/[A-Z]+:', path) is not None:
             path = os.path.abspath(path[1:])
 
diff --git a/pyswagger/resolve.py b/pyswagger/resolve.py
index 9597d9e..2c0ade9 100644
--- a/pyswagger/resolve.py
+++ b/pyswagger/resolve.py
@@ -51,7 +51,7 @@ class Resolver(object):
                 getter = self.__default_getter or UrlGetter
                 p = six.moves.urllib.parse.urlparse(local_url)
                 if p.scheme == 'file' and p.path:
-                    getter = LocalGetter(os.path.join(p.netloc, p.path))
+                    getter = LocalGetter(os.path.join(p.netloc, six.moves.urllib.parse.unquote(p.path)))
 
             if inspect.isclass(getter):
                 # default initialization is passing the url
-- 
2.43.0


From 3fcfe1a7ba2620b7cd7bfd6e8c1a4461ecdc5d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:49 +0000
Subject: [PATCH 23/51] fix: let allOf give the type of a schema without type
 for values that are not objects

---
 pyswagger/primitives/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index 44e5d95..325b870 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -197,7 +197,8 @@ class Primitive(object):
             if _2nd:
                 val = _2nd(obj, ret, val, ctx)
                 ctx['2nd_pass'] = _2nd
-        elif len(obj.properties) or obj.additionalProperties:
+        elif len(obj.properties) or (obj.additionalProperties and (isinstance(val, dict) or not obj.allOf)):
+            # when val is not an object, its type is given by parts of allOf
             ret = Model()
             val = ret.apply_with(obj, val, ctx)
 
-- 
2.43.0


From 1d28c215e324f53fe8a6cadaf87c1c8096774e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 24/51] fix: send the day only when a datetime is given for
 format date

---
 pyswagger/primitives/_time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/primitives/_time.py b/pyswagger/primitives/_time.py
index 31063aa..517eb40 100644
--- a/pyswagger/primitives/_time.py
+++ b/pyswagger/primitives/_time.py
@@ -30,6 +30,8 @@ class Date(Time):
         self.v = None
         if isinstance(v, float):
             self.v = datetime.date.fromtimestamp(v)
+        elif isinstance(v, datetime.datetime):
+            self.v = v.date()
         elif isinstance(v, datetime.date):
             self.v = v
         elif isinstance(v, six.string_types):
-- 
2.43.0


From 1ecff05a53841cef9b0962e853646e388bbe9f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 25/51] fix: refuse time zone offsets which are out of range

---
 pyswagger/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 8ce8ee0..d9e6156 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -130,7 +130,7 @@ _iso8601_fmt = re.compile(''.join([
     '(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})', # YYYY-MM-DD
     '[Tt ]', # T
     '(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{1,2})(\.(?P<microsecond>\d{1,6})\d*)?)?', # hh:mm:ss.ms
-    '(?P<tz>[Zz]|[+-]\d{2}(:?\d{2})?)?$' # Z or +/-hh:mm
+    '(?P<tz>[Zz]|[+-]([01]\d|2[0-3])(:?[0-5]\d)?)?$' # Z or +/-hh:mm
 ]))
 _iso8601_fmt_date = re.compile('(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})$') # YYYY-MM-DD
 
-- 
2.43.0


From 0cf418525dc7bf336b22295e3da53992f20f0a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 26/51] fix: accept integer timestamps for date and date-time,
 as documented

---
 pyswagger/primitives/_time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/_time.py b/pyswagger/primitives/_time.py
index 517eb40..d580e16 100644
--- a/pyswagger/primitives/_time.py
+++ b/pyswagger/primitives/_time.py
@@ -28,7 +28,7 @@ class Date(Time):
         :type v: timestamp in float, datetime.date object, or ISO-8601 in str
         """
         self.v = None
-        if isinstance(v, float):
+        if isinstance(v, (float,) + six.integer_types):
             self.v = datetime.date.fromtimestamp(v)
         elif isinstance(v, datetime.datetime):
             self.v = v.date()
@@ -51,7 +51,7 @@ class Datetime(Time):
         :type v: timestamp in float, datetime.datetime object, or ISO-8601 in str
         """
         self.v = None
-        if isinstance(v, float):
+        if isinstance(v, (float,) + six.integer_types):
             self.v = datetime.datetime.utcfromtimestamp(v)
         elif isinstance(v, datetime.datetime):
             self.v = v
-- 
2.43.0


From a8f3b6a57e168971afc5920e33e8991ff717a22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 27/51] fix: decode the bytes of text/plain responses

---
 pyswagger/primitives/codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/primitives/codec.py b/pyswagger/primitives/codec.py
index 1fa261f..aea4b4d 100644
--- a/pyswagger/primitives/codec.py
+++ b/pyswagger/primitives/codec.py
@@ -40,6 +40,8 @@ class PlainCodec:
         return value
 
     def unmarshal(self, data, **kwargs):
+        if isinstance(data, six.binary_type) and kwargs.get('_format') not in ('byte', 'binary'):
+            data = data.decode('utf-8')
         return data
 
 
-- 
2.43.0


From 7f47d6c5a4a545cff9ab5902f455cd0c97bbb935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:50 +0000
Subject: [PATCH 28/51] fix: do not keep credentials of an earlier send in a
 request

---
 pyswagger/core.py |  6 ++----
 pyswagger/io.py   | 23 +++++++++++++++++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index df2256c..af54cac 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -531,10 +531,8 @@ class Security(object):
                 logger.info('applying: [{0}]'.format(k))
 
                 header, cred = self.__info[k]
-                if header:
-                    req._p['header'].update(cred)
-                else:
-                    utils.nv_tuple_list_replace(req._p['query'], utils.get_dict_as_tuple(cred))
+                name, value = utils.get_dict_as_tuple(cred)
+                req._add_credential(header, name, value)
 
         return req
 
diff --git a/pyswagger/io.py b/pyswagger/io.py
index ac512ed..295323e 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -1,6 +1,6 @@
 from __future__ import absolute_import
 from .primitives.comm import PrimJSONEncoder
-from .utils import final, deref, CaseInsensitiveDict
+from .utils import final, deref, CaseInsensitiveDict, nv_tuple_list_replace
 from pyswagger import errs
 from uuid import uuid4
 import six
@@ -34,6 +34,8 @@ class Request(object):
         self.__url = self.__op.url
         self.__path = self.__op.path
         self.__header = CaseInsensitiveDict()
+        # credentials applied for the current send
+        self.__cred = dict(header={}, query=[])
 
         self.__consume = None
         self.__produce = None
@@ -43,8 +45,18 @@ class Request(object):
         self.__url = self.__op.url
         self.__path = self.__op.path
         self.__header = CaseInsensitiveDict()
+        self.__cred = dict(header={}, query=[])
         self.__data = None
 
+    def _add_credential(self, header, name, value):
+        """ private function for Security, credentials are kept apart from
+        parameters to not be sent again by another client.
+        """
+        if header:
+            self.__cred['header'][name] = value
+        else:
+            nv_tuple_list_replace(self.__cred['query'], (name, value))
+
     def consume(self, consume):
         self.__consume = consume
         return self
@@ -204,6 +216,7 @@ class Request(object):
 
         # header parameters
         self.__header.update(self.__p['header'])
+        self.__header.update(self.__cred['header'])
 
         # update data parameter
         content_type = None
@@ -278,7 +291,13 @@ class Request(object):
 
         :type: dict
         """
-        return self.__p['query']
+        if not self.__cred['query']:
+            return self.__p['query']
+
+        query = list(self.__p['query'])
+        for v in self.__cred['query']:
+            nv_tuple_list_replace(query, v)
+        return query
 
     @property
     def method(self):
-- 
2.43.0


From 4c3f66580cdf85f5f65da27e3c777a2ef5bb1ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:50 +0000
Subject: [PATCH 29/51] fix: accept schemes of a client given as list, as
 documented

---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index af54cac..04009a2 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -581,7 +581,7 @@ class BaseClient(object):
         """
 
         # fix test bug when in python3 scheme, more details in commint msg
-        ret = sorted(self.__schemes__ & set(req.schemes), reverse=True)
+        ret = sorted(set(self.__schemes__) & set(req.schemes), reverse=True)
 
         if len(ret) == 0:
             raise ValueError('No schemes available: {0}'.format(req.schemes))
-- 
2.43.0


From c2b7c264e1e4615f608f39bed436251240e72226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:50 +0000
Subject: [PATCH 30/51] fix: do not modify the list of schemes passed to
 Request.prepare

---
 pyswagger/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 295323e..34d81aa 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -194,7 +194,7 @@ class Request(object):
 
         if isinstance(scheme, list):
             if self.__scheme is None:
-                scheme = scheme.pop()
+                scheme = scheme[-1]
             else:
                 if self.__scheme in scheme:
                     scheme = self.__scheme
-- 
2.43.0


From be24804fe4c8a5470c592d6e441de6a7c7870dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:14 +0000
Subject: [PATCH 31/51] fix: send requests without body by POST/PUT/PATCH, and
 with body by other methods, with the tornado client

---
 pyswagger/contrib/client/tornado.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyswagger/contrib/client/tornado.py b/pyswagger/contrib/client/tornado.py
index 4da0643..10c6514 100644
--- a/pyswagger/contrib/client/tornado.py
+++ b/pyswagger/contrib/client/tornado.py
@@ -40,12 +40,20 @@ class TornadoClient(BaseClient):
             tornado_headers.add(*h)
 
         url = url_concat(req.url, req.query)
+        method = req.method.upper()
+
+        # tornado insists on a body for these methods
+        body = req.data
+        if body is None and method in ('POST', 'PUT', 'PATCH'):
+            body = ''
 
         rq = HTTPRequest(
             url=url,
-            method=req.method.upper(),
+            method=method,
             headers=tornado_headers,
-            body=req.data
+            body=body,
+            # a body is also possible for other methods, ex. DELETE
+            allow_nonstandard_methods=True
             )
         rs = yield self.__client.fetch(rq)
 
-- 
2.43.0


From 5596ba2d21d2c2d783810d88a0ed47d503c58cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:31 +0000
Subject: [PATCH 32/51] fix: render parameters given by $ref

---
 pyswagger/primitives/render.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index d606ea7..3d7734c 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -276,6 +276,7 @@ class Renderer(object):
             raise ValueError('Not a dict: {0}'.format(opt))
 
         if isinstance(obj, Parameter):
+            obj = final(obj)
             if getattr(obj, 'in', None) == 'body':
                 return self._generate(obj.schema, opt)
             return self._generate(obj, opt=opt)
@@ -302,6 +303,7 @@ class Renderer(object):
         max_p = opt['max_parameter']
         out = {}
         for p in op.parameters:
+            p = final(p)
             if p.name in exclude:
                 continue
             if p.name in template:
-- 
2.43.0


From 929a4c4908385adb87aa8e11b4fb18d90e4c368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:31 +0000
Subject: [PATCH 33/51] fix: render additional properties without
 minProperties, and not by names of declared ones

---
 pyswagger/primitives/render.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 3d7734c..d1cb8ec 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -179,11 +179,12 @@ class Renderer(object):
             max_p = opt['max_property']
             out = {}
             max_ = obj.maxProperties if obj.maxProperties else opt['max_prop_count']
-            min_ = obj.minProperties if obj.minProperties else None
+            min_ = obj.minProperties if obj.minProperties else 0
             count = 0
             for name, prop in six.iteritems(obj.properties or {}):
                 if name in template:
                     out[name] = template[name]
+                    count = count + 1
                     continue
                 if not max_p and not name in obj.required:
                     if random.randint(0, 1) == 0 or opt['minimal_property']:
@@ -202,7 +203,7 @@ class Renderer(object):
                         while True:
                             length = random.randint(0, opt['max_name_length'])
                             name = ''.join([random.choice(string.ascii_letters) for _ in six.moves.xrange(length)])
-                            if name not in out:
+                            if name not in out and name not in obj.properties:
                                 out[name] = self._generate(obj.additionalProperties, opt)
                                 break
 
-- 
2.43.0


From 23c140c015e4808ef59a11eba36a8c517d4de336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:31 +0000
Subject: [PATCH 34/51] fix: do not render read-only properties, they are
 refused in requests

---
 pyswagger/primitives/render.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index d1cb8ec..aa1eb82 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -186,6 +186,9 @@ class Renderer(object):
                     out[name] = template[name]
                     count = count + 1
                     continue
+                if deref(prop).readOnly or prop.readOnly:
+                    # it can't be part of a request
+                    continue
                 if not max_p and not name in obj.required:
                     if random.randint(0, 1) == 0 or opt['minimal_property']:
                         continue
-- 
2.43.0


From 46e01ee66db0508cec32c8661ab8e4e42e4de6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:31 +0000
Subject: [PATCH 35/51] fix: honor limits and enum values which are 0 or empty,
 or beyond the default range when rendering

---
 pyswagger/primitives/render.py | 73 ++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index aa1eb82..c6b7f7e 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 from ..spec.v2_0.objects import Parameter, Operation, Schema
 from ..utils import deref, final, from_iso8601
 from decimal import Decimal
+import math
 import random
 import six
 import sys
@@ -17,55 +18,77 @@ import time
 # TODO: enum of object, array
 
 # min/max of integer
-maxInt32 = 1 << 31 - 1
+maxInt32 = (1 << 31) - 1
 minInt32 = -maxInt32
-maxInt64 = 1 << 63 - 1
+maxInt64 = (1 << 63) - 1
 minInt64 = -maxInt64
 
 def _int_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
-    max_ = maxInt32 if getattr(obj, 'format') in ['int32', None] else maxInt64
-    max_ = obj.maximum if obj.maximum else max_
-    max_ = max_-1 if obj.exclusiveMaximum else max_
+    multiple = obj.multipleOf if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf else 1
 
-    min_ = minInt32 if getattr(obj, 'format') in ['int32', None] else minInt64
-    min_ = obj.minimum if obj.minimum else min_
-    min_ = min_+1 if obj.exclusiveMinimum else min_
+    max_ = min_ = None
+    if obj.maximum is not None:
+        max_ = int(math.floor(obj.maximum))
+        max_ = max_-1 if obj.exclusiveMaximum and max_ == obj.maximum else max_
+    if obj.minimum is not None:
+        min_ = int(math.ceil(obj.minimum))
+        min_ = min_+1 if obj.exclusiveMinimum and min_ == obj.minimum else min_
 
-    out = random.randint(min_, max_)
-    return out - (out % obj.multipleOf) if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf != 0 else out
+    # the default range, unless what is declared is not part of it
+    is_32 = getattr(obj, 'format') in ['int32', None]
+    if max_ is None:
+        max_ = maxInt32 if is_32 else maxInt64
+        max_ = max_ if min_ is None else max(max_, min_ + multiple)
+    if min_ is None:
+        min_ = minInt32 if is_32 else minInt64
+        min_ = min(min_, max_ - multiple)
+
+    return random.randint(-(-min_ // multiple), max_ // multiple) * multiple
 
 def _float_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
-    # TODO: exclusiveMaximum == False is not implemented.
-    max_ = obj.maximum if obj.maximum else sys.float_info.max
-    min_ = obj.minimum if obj.minimum else sys.float_info.min
+    max_, min_ = obj.maximum, obj.minimum
+    if obj.multipleOf:
+        # choose among multiples
+        if max_ is None:
+            max_ = max(maxInt32, (min_ or 0) + obj.multipleOf)
+        if min_ is None:
+            min_ = min(0, max_ - obj.multipleOf)
+
+        low, high = int(math.ceil(min_ / float(obj.multipleOf))), int(math.floor(max_ / float(obj.multipleOf)))
+        low = low+1 if obj.exclusiveMinimum and low * obj.multipleOf <= min_ else low
+        high = high-1 if obj.exclusiveMaximum and high * obj.multipleOf >= max_ else high
+        return float(random.randint(low, high) * obj.multipleOf)
+
+    if max_ is None:
+        max_ = sys.float_info.max
+    if min_ is None:
+        min_ = sys.float_info.min if max_ > sys.float_info.min else -sys.float_info.max
 
     out = None
     while out == None:
         out = min_ + (max_ - min_) * random.random()
-        if obj.multipleOf and obj.multipleOf != 0:
-            out = int(out / obj.multipleOf) * obj.multipleOf
-        if out <= min_ and obj.exclusiveMinimum:
+        if (out <= min_ and obj.exclusiveMinimum) or (out >= max_ and obj.exclusiveMaximum):
             out = None
     return float(out)
 
 def _str_(obj, opt, val=None):
-    if val:
+    if val is not None:
         return val
 
-    max_ = obj.maxLength if obj.maxLength else opt['max_str_length']
     min_ = obj.minLength if obj.minLength else 0
+    max_ = obj.maxLength if obj.maxLength is not None else max(opt['max_str_length'], min_)
 
     # note: length is 0~100, characters are limited to ASCII
     return ''.join([random.choice(string.ascii_letters) for _ in range(random.randint(min_, max_))])
 
 def _bool_(obj, _, val=None):
-    return bool(val) if val else random.randint(0, 1) == 0
+    return bool(val) if val is not None else random.randint(0, 1) == 0
 
 def _uuid_(obj, _, val=None):
     return uuid.UUID(val) if val else uuid.uuid4()
@@ -77,7 +100,7 @@ def _email_name_():
     + random.choice(string.ascii_letters)
 
 def _email_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
     host_length = random.randint(2, 100)
@@ -91,7 +114,7 @@ def _email_(obj, _, val=None):
         + ''.join([random.choice(names) for _ in six.moves.xrange(region_length)])
 
 def _byte_(obj, opt, val=None):
-    return val if val else base64.b64encode(
+    return val if val is not None else base64.b64encode(
         six.b(''.join([random.choice(string.ascii_letters) for _ in range(random.randint(0, opt['max_byte_length']))]))
     )
 
@@ -178,8 +201,8 @@ class Renderer(object):
         if type_ == 'object':
             max_p = opt['max_property']
             out = {}
-            max_ = obj.maxProperties if obj.maxProperties else opt['max_prop_count']
             min_ = obj.minProperties if obj.minProperties else 0
+            max_ = obj.maxProperties if obj.maxProperties is not None else max(opt['max_prop_count'], min_)
             count = 0
             for name, prop in six.iteritems(obj.properties or {}):
                 if name in template:
@@ -212,7 +235,7 @@ class Renderer(object):
 
         elif type_ == 'array':
             min_ = obj.minItems if obj.minItems else 0
-            max_ = obj.maxItems if obj.maxItems else opt['max_array_length']
+            max_ = obj.maxItems if obj.maxItems is not None else max(opt['max_array_length'], min_)
             out = []
             for _ in six.moves.xrange(random.randint(min_, max_)):
                 out.append(self._generate(obj.items, opt))
-- 
2.43.0


From 6f26374f3d996a534eaf24da13710e16232b5c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:12 +0000
Subject: [PATCH 36/51] fix: encode names of resources and models in JSON
 pointers when upgrading from 1.2

---
 pyswagger/scanner/v1_2/upgrade.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index f65a5f9..70be730 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -2,7 +2,7 @@ from __future__ import absolute_import
 from ...spec.base import NullContext
 from ...scan import Dispatcher
 from ...errs import SchemaError
-from ...utils import scope_compose, get_or_none
+from ...utils import scope_compose, get_or_none, jp_compose, jp_split
 from ...consts import private
 from ...spec.v1_2.objects import (
     ResourceList,
@@ -17,15 +17,19 @@ import os
 import six
 
 
+def get_name(obj, path):
+    """ name of a Resource or an Authorization, which is a (encoded) token of 'path' """
+    return jp_split(obj.get_name(path))[0]
+
 def update_type_and_ref(dst, src, scope, sep, app):
     ref = getattr(src, '$ref')
     if ref:
-        dst.update_field('$ref', '#/definitions/' + scope_compose(scope, ref, sep=sep))
+        dst.update_field('$ref', jp_compose(scope_compose(scope, ref, sep=sep), '#/definitions'))
 
     if app.prim_factory.is_primitive(getattr(src, 'type', None)):
         dst.update_field('type', src.type.lower())
     elif src.type:
-        dst.update_field('$ref', '#/definitions/' + scope_compose(scope, src.type, sep=sep))
+        dst.update_field('$ref', jp_compose(scope_compose(scope, src.type, sep=sep), '#/definitions'))
 
 def convert_min_max(dst, src):
     def _from_str(name):
@@ -132,7 +136,7 @@ class Upgrade(object):
 
     @Disp.register([Resource])
     def _resource(self, path, obj, app):
-        name = obj.get_name(path)
+        name = get_name(obj, path)
         for t in self.__swagger.tags:
             if t.name == name:
                 break
@@ -144,7 +148,7 @@ class Upgrade(object):
     @Disp.register([Operation])
     def _operation(self, path, obj, app):
         o = objects.Operation(NullContext())
-        scope = obj._parent_.get_name(path)
+        scope = get_name(obj._parent_, path)
 
         o.update_field('tags', [scope])
         o.update_field('operationId', obj.nickname)
@@ -204,12 +208,12 @@ class Upgrade(object):
             o.update_field('name', obj.keyname)
             o.update_field('in', obj.passAs)
 
-        self.__swagger.securityDefinitions[obj.get_name(path)] = o
+        self.__swagger.securityDefinitions[get_name(obj, path)] = o
 
     @Disp.register([Parameter])
     def _parameter(self, path, obj, app):
         o = objects.Parameter(NullContext())
-        scope = obj._parent_._parent_.get_name(path)
+        scope = get_name(obj._parent_._parent_, path)
 
         o.update_field('name', obj.name)
         o.update_field('required', obj.required)
@@ -254,7 +258,7 @@ class Upgrade(object):
 
     @Disp.register([Model])
     def _model(self, path, obj, app):
-        scope = obj._parent_.get_name(path)
+        scope = get_name(obj._parent_, path)
 
         s = scope_compose(scope, obj.get_name(path), sep=self.__sep)
         o = self.__swagger.definitions.get(s, None)
@@ -281,7 +285,7 @@ class Upgrade(object):
                 self.__swagger.definitions[sub_s] = sub_o
 
             new_ref = objects.Schema(NullContext())
-            new_ref.update_field('$ref', '#/definitions/' + s)
+            new_ref.update_field('$ref', jp_compose(s, '#/definitions'))
             sub_o.allOf.append(new_ref)
 
     @property
-- 
2.43.0


From 47a08c0047387dc4e6d0ad081a3cd832a1a25687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:27 +0000
Subject: [PATCH 37/51] fix: info is optional in a 1.2 resource listing

---
 pyswagger/scanner/v1_2/upgrade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 70be730..b662445 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -102,12 +102,12 @@ class Upgrade(object):
         info.update_field('description', get_or_none(obj, 'info', 'description'))
         info.update_field('termsOfService', get_or_none(obj, 'info', 'termsOfServiceUrl'))
         #       Contact Object
-        if obj.info.contact:
+        if get_or_none(obj, 'info', 'contact'):
             contact = objects.Contact(NullContext())
             contact.update_field('email', get_or_none(obj, 'info', 'contact'))
             info.update_field('contact', contact)
         #       License Object
-        if obj.info.license or obj.info.licenseUrl:
+        if get_or_none(obj, 'info', 'license') or get_or_none(obj, 'info', 'licenseUrl'):
             license = objects.License(NullContext())
             license.update_field('name', get_or_none(obj, 'info', 'license'))
             license.update_field('url', get_or_none(obj, 'info', 'licenseUrl'))
-- 
2.43.0


From e0d66821eba5a2b11ea38f044b4401fe605251a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 38/51] fix: accept authorizations with scopes in a 1.2 API
 declaration

---
 pyswagger/scanner/v1_2/upgrade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index b662445..2d324b1 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -169,7 +169,8 @@ class Upgrade(object):
         _auth = obj.authorizations if obj.authorizations and len(obj.authorizations) > 0 else obj._parent_.authorizations
         if _auth:
             for name, scopes in six.iteritems(_auth):
-                o.security.append({name: [v.scope for v in scopes]})
+                # those of resource objects are not parsed
+                o.security.append({name: [v['scope'] if isinstance(v, dict) else v.scope for v in scopes]})
 
         # Operation return value
         o.update_field('responses', {})
-- 
2.43.0


From dbdec72ed72de8b1690863463e5e856704d67077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:56 +0000
Subject: [PATCH 39/51] fix: keep responseModel of 1.2 response messages when
 upgrading

---
 pyswagger/scanner/v1_2/upgrade.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 2d324b1..a3e67d9 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -178,6 +178,14 @@ class Upgrade(object):
         if obj.type != 'void':
             resp.update_field('schema', convert_schema_from_datatype(obj, scope, self.__sep, app))
         o.responses['default'] = resp
+        for msg in obj.responseMessages or []:
+            if msg.responseModel:
+                r = objects.Response(NullContext())
+                r.update_field('description', msg.message)
+                s = objects.Schema(NullContext())
+                s.update_field('$ref', jp_compose(scope_compose(scope, msg.responseModel, sep=self.__sep), '#/definitions'))
+                r.update_field('schema', s)
+                o.responses[str(msg.code)] = r
 
         path = obj._parent_.basePath + obj.path
         if path not in self.__swagger.paths:
-- 
2.43.0


From d772e79dcc52dbd35c7f83f857cef027a63f84ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:08 +0000
Subject: [PATCH 40/51] fix: upgrade a 1.2 API without any operation

---
 pyswagger/scanner/v1_2/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index a3e67d9..325d7ce 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -308,7 +308,7 @@ class Upgrade(object):
         common_path = os.path.commonprefix(list(self.__swagger.paths))
         # remove tailing slash,
         # because all paths in Paths Object would prefixed with slah.
-        common_path = common_path[:-1] if common_path[-1] == '/' else common_path
+        common_path = common_path[:-1] if common_path.endswith('/') else common_path
 
         if len(common_path) > 0:
             p = six.moves.urllib.parse.urlparse(common_path)
-- 
2.43.0


From 07598749f2fa23d3305bfe2b0822297e4350d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:46 +0000
Subject: [PATCH 41/51] fix: accept primitive types as responseModel

---
 pyswagger/scanner/v1_2/upgrade.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 325d7ce..1e70cc0 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -183,7 +183,10 @@ class Upgrade(object):
                 r = objects.Response(NullContext())
                 r.update_field('description', msg.message)
                 s = objects.Schema(NullContext())
-                s.update_field('$ref', jp_compose(scope_compose(scope, msg.responseModel, sep=self.__sep), '#/definitions'))
+                if app.prim_factory.is_primitive(msg.responseModel):
+                    s.update_field('type', msg.responseModel.lower())
+                else:
+                    s.update_field('$ref', jp_compose(scope_compose(scope, msg.responseModel, sep=self.__sep), '#/definitions'))
                 r.update_field('schema', s)
                 o.responses[str(msg.code)] = r
 
-- 
2.43.0


From efe8a9303149d180057b6709437ff5b90190c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:02 +0000
Subject: [PATCH 42/51] fix: names of models upgraded from 1.2 with a
 customized scope separator

---
 pyswagger/core.py                   | 2 +-
 pyswagger/scanner/v2_0/patch_obj.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 04009a2..01eb99d 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -343,7 +343,7 @@ class App(object):
 
         s = Scanner(self)
         s.scan(root=self.__root, route=[Merge()])
-        s.scan(root=self.__root, route=[PatchObject()])
+        s.scan(root=self.__root, route=[PatchObject(self.__sep)])
         s.scan(root=self.__root, route=[Aggregate()])
 
         # reducer for Operation
diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index cc84522..1f51f3e 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 from ...scan import Dispatcher
 from ...spec.v2_0.objects import PathItem, Operation, Schema, Swagger
 from ...spec.v2_0.parser import PathItemContext
+from ...consts import private
 from ...utils import jp_split, scope_split, final
 import six
 import copy
@@ -16,6 +17,9 @@ class PatchObject(object):
 
     class Disp(Dispatcher): pass
 
+    def __init__(self, sep=private.SCOPE_SEPARATOR):
+        self.__sep = sep
+
     @Disp.register([Operation])
     def _operation(self, path, obj, app):
         """
@@ -90,7 +94,7 @@ class PatchObject(object):
         if path.startswith('#/definitions'):
             last_token = jp_split(path)[-1]
             if app.version == '1.2':
-                obj.update_field('name', scope_split(last_token)[-1])
+                obj.update_field('name', scope_split(last_token, sep=self.__sep)[-1])
             else:
                 obj.update_field('name', last_token)
 
-- 
2.43.0


From c745220f5ce38d6ef30336126209c19f1af4c792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:14 +0000
Subject: [PATCH 43/51] fix: keep minimum/maximum of 1.2 parameters with
 allowMultiple

---
 pyswagger/scanner/v1_2/upgrade.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 1e70cc0..a6f8af7 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -250,6 +250,7 @@ class Upgrade(object):
                 if obj.is_set("defaultValue"):
                     o.update_field('default', [obj.defaultValue])
                 o.items.update_field('enum', obj.enum)
+                convert_min_max(o.items, obj)
             else:
                 o.update_field('type', obj.type.lower())
                 o.update_field('format', obj.format)
-- 
2.43.0


From a8b022edd0e09486bcf664ee627de68cd40611a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:31 +0000
Subject: [PATCH 44/51] fix: report a missing path of 1.2 Api objects

---
 pyswagger/scanner/v1_2/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index ea1d80a..fd80ab9 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -191,7 +191,7 @@ class Validate(object):
 
     @Disp.register([Operation])
     def operation_require(self, path, obj, _):
-        return self._check_reqs(path, obj, ['method', 'nickname', 'parameters'])
+        return self._check_reqs(path, obj, ['path', 'method', 'nickname', 'parameters'])
 
     @Disp.register([Api])
     def api_require(self, path, obj, _):
-- 
2.43.0


From 655da35dbc4250f035f9d98d539d5f299d5fe9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:45 +0000
Subject: [PATCH 45/51] fix: report unknown authorizations of 1.2 operations
 instead of raising KeyError

---
 pyswagger/scanner/v1_2/validate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index fd80ab9..3493e1d 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -129,10 +129,10 @@ class Validate(object):
         errs = []
 
         for k, v in six.iteritems(obj.authorizations or {}):
-            if k not in app.raw.authorizations:
+            if k not in (app.raw.authorizations or {}):
                 errs.append('auth {0} not found in resource list'.format(k))
 
-            if app.raw.authorizations[k].type in ('basicAuth', 'apiKey') and v != []:
+            elif app.raw.authorizations[k].type in ('basicAuth', 'apiKey') and v != []:
                 errs.append('auth {0} should be an empty list'.format(k))
 
         return path, obj.__class__.__name__, errs
-- 
2.43.0


From 248405f25ef00ccb3e4952b1ceb997e6dd175b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:57 +0000
Subject: [PATCH 46/51] fix: consumes is optional when validating File
 parameters, and inherited from the API declaration

---
 pyswagger/scanner/v1_2/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index 3493e1d..4887983 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -66,7 +66,7 @@ class Validate(object):
         if obj.type == 'File':
             if obj.paramType != 'form':
                 errs.append('File parameter should be form type: {0}'.format(obj.name))
-            if 'multipart/form-data' not in obj._parent_.consumes:
+            if 'multipart/form-data' not in (obj._parent_.consumes or obj._parent_._parent_.consumes or []):
                 errs.append('File parameter should consume multipart/form-data: {0}'.format(obj.name))
 
         if obj.type == 'void':
-- 
2.43.0


From e6adbb3b2ec451c0f750f72db305d268b0031f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:08 +0000
Subject: [PATCH 47/51] fix: limits and enum from other parts of allOf for
 email strings

---
 pyswagger/primitives/_str.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/primitives/_str.py b/pyswagger/primitives/_str.py
index 1385497..3e868c6 100644
--- a/pyswagger/primitives/_str.py
+++ b/pyswagger/primitives/_str.py
@@ -24,6 +24,8 @@ def create_str(obj, v, ctx=None):
     return r
 
 def validate_email_(obj, ret, val, ctx):
+    # limits might be declared by another part of allOf
+    validate_str(obj, ret, val, ctx)
     if not validate_email(ret):
         raise ValidationError('{0} is not a valid email for {1}'.format(ret, obj))
 
-- 
2.43.0


From ca6c73302ff20425634d3b3b2f91c7c7839a1380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:21 +0000
Subject: [PATCH 48/51] fix: dump references to the same document without its
 url, to be able to place it elsewhere

---
 pyswagger/core.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 01eb99d..4597902 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -5,7 +5,7 @@ from .spec.v1_2.parser import ResourceListContext
 from .spec.v2_0.parser import SwaggerContext
 from .spec.v2_0.objects import Operation
 from .spec.base import BaseObj
-from .scan import Scanner
+from .scan import Scanner, default_tree_traversal
 from .scanner import TypeReduce, CycleDetector
 from .scanner.v1_2 import Upgrade
 from .scanner.v2_0 import AssignParent, Merge, Resolve, PatchObject, YamlFixer, Aggregate, NormalizeRef
@@ -466,7 +466,22 @@ class App(object):
         :rtype: dict
         :return: dict representation of Swagger
         """
-        return self.root.dump()
+        ret = self.root.dump()
+
+        # refer to things in this document by their pointers only, or it's
+        # not possible to place the dumped document elsewhere.
+        url, _ = utils.jr_split(self.__url)
+        for path, obj in default_tree_traversal(self.root, []):
+            r = getattr(obj, '$ref', None)
+            if not r:
+                continue
+            ref_url, jp = utils.jr_split(r)
+            if ref_url == url:
+                dumped = ret
+                for token in utils.jp_split(path)[1:]:
+                    dumped = dumped[int(token) if isinstance(dumped, list) else token]
+                dumped['$ref'] = jp
+        return ret
 
 
 
-- 
2.43.0


From ad2257289b82338b6a3703a0b0e2cbcf33fd942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:35 +0000
Subject: [PATCH 49/51] fix: scopes without description could not be dumped
 after converted from 1.2

---
 pyswagger/scanner/v1_2/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index a6f8af7..c7a89c2 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -207,7 +207,7 @@ class Upgrade(object):
             o.update_field('type', obj.type)
         o.update_field('scopes', {})
         for s in obj.scopes or []:
-            o.scopes[s.scope] = s.description
+            o.scopes[s.scope] = s.description or ''
 
         if o.type == 'oauth2':
             o.update_field('authorizationUrl', get_or_none(obj, 'grantTypes', 'implicit', 'loginEndpoint', 'url'))
-- 
2.43.0


From 4efa4f0562232261fae301f57a7a036aa2980c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:39 +0000
Subject: [PATCH 50/51] fix: locate the resources of Swagger 1.2 listings
 stored as .yml

---
 pyswagger/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index d9e6156..cb1041e 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -333,7 +333,7 @@ def url_dirname(url):
     """ Return the folder containing the '.json' file
     """
     p = six.moves.urllib.parse.urlparse(url)
-    for e in [private.FILE_EXT_JSON, private.FILE_EXT_YAML]:
+    for e in private.VALID_FILE_EXT:
         if p.path.endswith(e):
             return six.moves.urllib.parse.urlunparse(
                 p[:2]+
-- 
2.43.0


From 27bd96be547ff6f03740e1002921d1764e7af821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:39 +0000
Subject: [PATCH 51/51] fix: do not sort the lists to be compared, their
 elements might have no order

---
 pyswagger/utils.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index cb1041e..747d3bc 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -538,13 +538,6 @@ def _diff_(src, dst, ret=None, jp=None, exclude=[], include=[]):
                 ret.append((jp, str(ts), str(td),))
                 return
 
-            if ts != dict:
-                ss, sd = sorted(src), sorted(dst)
-            else:
-                # process dict without sorting
-                # TODO: find a way to sort list of dict, (ooch)
-                ss, sd = src, dst
-
             for idx, (s, d) in enumerate(zip(src, dst)):
                 _diff_(s, d, ret, jp_compose(str(idx), base=jp), exclude, include)
 
-- 
2.43.0

