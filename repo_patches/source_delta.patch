From a31c2fca47c3a1e9f359bd07bd2c4e0097abd3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:58 +0000
Subject: [PATCH 01/77] fix: reject time specs with missing or unknown units;
 read exponents

T('12'), T('2x') and T('') were silently zero frames, and T('1e-05f')
was read as minus five frames.
---
 sangfroid/t.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 68b7815..3c84003 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -139,6 +139,9 @@ class T:
         for spec in found:
             if spec.strip()=='':
                 continue
+
+            if spec[-1] not in 'hmsf':
+                complain(f"'{spec.strip()}' is not a time with a unit.")
             elif spec[-1] in parts:
                 complain(
                         f"The '{spec[-1]}' part was specified "
@@ -150,6 +153,9 @@ class T:
                 complain(
                         f"'{spec[:-1]}' is not a valid number.")
 
+        if not parts:
+            complain("This doesn't look like a time specification at all.")
+
         seconds = None
 
         for unit, size in [
@@ -291,7 +297,7 @@ class T:
 # It doesn't matter that you can produce invalid decimals with this regex:
 # that will be discovered when we do the float conversion.
 TIMESPEC_RE = re.compile(
-        r'(-?[0-9.]+[hmsf])'
+        r'(-?[0-9.]+(?:e[-+]?[0-9]+)?[hmsf])'
         )
 
 def _canvas_root(tag):
-- 
2.43.0


From 3f918d24102dea14b9846b82299e64f295b758a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:01 +0000
Subject: [PATCH 02/77] fix: time specs mixing seconds and frames need a ref,
 as documented

T('0s 2f') was accepted without a ref, which the class documentation
rules out.
---
 sangfroid/t.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 3c84003..bb8175b 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -168,7 +168,8 @@ class T:
 
         result = 0.0
 
-        if seconds is not None and seconds!=0.0:
+        if seconds is not None and (
+                seconds!=0.0 or parts.get('f', 0.0)!=0.0):
 
             if self._fps is None:
                 complain("Time specifications in seconds require "
-- 
2.43.0


From d3f4890d22a0c7e065b8625fa3d253204fcc9634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:05 +0000
Subject: [PATCH 03/77] fix: read negative times of a minute or more the way
 they are written

str() of minus 65 seconds is '-1m 5s', but that was read back as minus
55 seconds.
---
 sangfroid/t.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index bb8175b..bf431bc 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -164,7 +164,11 @@ class T:
                 ('s', 1),
                 ]:
             if unit in parts:
-                seconds = (seconds or 0.0) + parts[unit]*size
+                part = parts[unit]*size
+                if seconds is not None and seconds<0:
+                    # as in "-1m 5s", meaning -(1m 5s)
+                    part = -abs(part)
+                seconds = (seconds or 0.0) + part
 
         result = 0.0
 
-- 
2.43.0


From 217a4363ffde8c0e91528b50d7d6be5a1a5c6882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:08 +0000
Subject: [PATCH 04/77] fix: never write a time with an exponent

A time with a tiny fraction of a frame was written like '1s 1e-11f', and
a frame count of a million or more like '1.23457e+06f': wrong, and not
something Synfig can read.
---
 sangfroid/t.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index bf431bc..0993da5 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -260,7 +260,7 @@ class T:
 
     def __str__(self):
         if self._fps is None:
-            return '%gf' % (self._frames, )
+            return '%sf' % (_format_frames(self._frames), )
 
         frames = self._frames
         seconds = abs(self._frames/self._fps)
@@ -279,7 +279,7 @@ class T:
 
         if seconds!=0 or result==[]:
             frames = abs(frames) % self._fps
-            result.append('%gf' % (frames,))
+            result.append('%sf' % (_format_frames(frames),))
 
         if self._frames<0:
             minus = '-'
@@ -305,6 +305,16 @@ TIMESPEC_RE = re.compile(
         r'(-?[0-9.]+(?:e[-+]?[0-9]+)?[hmsf])'
         )
 
+def _format_frames(frames):
+    """
+    Formats a number of frames without using an exponent, since
+    Synfig wouldn't understand one.
+    """
+    result = ('%.6f' % (frames,)).rstrip('0').rstrip('.')
+    if result=='-0':
+        result = '0'
+    return result
+
 def _canvas_root(tag):
     parents = tag.find_parents()
 
-- 
2.43.0


From 317af68251f8108331b67f6d6933db9e5ddd1d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:28 +0000
Subject: [PATCH 05/77] fix: equal Ts hash equally

T(20) equals T(20, ref=animation) and 20, but they hashed differently, so
one couldn't be used to look up the other.
---
 sangfroid/t.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 0993da5..15c8c21 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -293,11 +293,9 @@ class T:
     __repr__ = __str__
 
     def __hash__(self):
-        if self._frames == 0:
-            return 0
-
-        s = (self._frames, self._fps)
-        return hash(s)
+        # Ts which differ only in whether the FPS is known are equal,
+        # and so are a T and the equivalent number of frames.
+        return hash(self._frames)
 
 # It doesn't matter that you can produce invalid decimals with this regex:
 # that will be discovered when we do the float conversion.
-- 
2.43.0


From 84c5b3842d8f0ed1c93bf28951fa2b672f8958d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:33 +0000
Subject: [PATCH 06/77] fix: let Ts of zero frames compare across frame rates,
 as documented

---
 sangfroid/t.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 15c8c21..bdad2ff 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -238,7 +238,9 @@ class T:
             if (
                     other.fps is not None and
                     self.fps is not None and
-                    other.fps!=self.fps):
+                    other.fps!=self.fps and
+                    other.frames!=0 and
+                    self.frames!=0):
                 raise ValueError(
                         "Comparison between two Ts with different FPS: "
                         f"{self}, {other}"
-- 
2.43.0


From b5a9cb2e126acc8ef9e20614b36573ddd854e6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:36 +0000
Subject: [PATCH 07/77] fix: a T made from another T is the same instant

T(T('-2f'), ref=...) counted back from the end of the animation, so a
waypoint before the start moved to near the end as soon as its timeline
was read back.
---
 sangfroid/t.py           | 4 ++++
 sangfroid/value/value.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index bdad2ff..66ac2e5 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -94,6 +94,10 @@ class T:
         try:
             if isinstance(value, str):
                 self._frames = self._parse_time_spec(value)
+            elif isinstance(value, T):
+                self._frames = value._frames
+                if self._fps is None:
+                    self._fps = value._fps
             else:
                 self._frames = float(value)
 
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 2f83224..2582189 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -305,7 +305,7 @@ class Timeline:
             return T(t, ref = self.parent._tag)
         elif isinstance(t, T):
             if t._fps is None:
-                return T(t._frames, self.parent._tag)
+                return T(t, ref = self.parent._tag)
             else:
                 return t
         else:
-- 
2.43.0


From abacca2a78d9354d948df542d5322b986f385bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:21 +0000
Subject: [PATCH 08/77] fix: let time values use the frame rate of their
 animation when set

timeloop.duration = '2s' raised ValueError, and timeloop.duration=='2s' was
always False, because the string was read without a ref. Comparing a simple
value with something which can't be coerced is now False, even when the
coercion fails with TypeError.
---
 sangfroid/layer/layer.py  |  3 +++
 sangfroid/value/simple.py | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index e3ecbd3..9d91620 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -451,6 +451,9 @@ class _TimeButString(v.Time):
     """
     our_type = str
 
+    def _coerce(self, v):
+        return str(v)
+
     @classmethod
     def get_name_for_tag(cls):
         return 'time'
diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 9c1f0a2..3864407 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -28,6 +28,12 @@ class Simple(Value):
     def _construct_value(self, v):
         return self.our_type(v)
 
+    def _coerce(self, v):
+        """
+        Turns something the user gave us into a value of our type.
+        """
+        return self.our_type(v)
+
     @value.setter
     def value(self, v):
         if self.our_type is None:
@@ -38,7 +44,7 @@ class Simple(Value):
 
         else:
             try:
-                result = self.our_type(v)
+                result = self._coerce(v)
             except TypeError:
                 raise TypeError("I need a value of type "
                                 f"{self.our_type.__name__}, "
@@ -63,8 +69,8 @@ class Simple(Value):
             v = other.value
         else:
             try:
-                v = self.our_type(other)
-            except ValueError:
+                v = self._coerce(other)
+            except (ValueError, TypeError):
                 v = other
 
         return self._compare_with(v)
@@ -150,6 +156,9 @@ class Time(Simple):
                 ref = self._tag,
                 )
 
+    def _coerce(self, v):
+        return self._construct_value(v)
+
     def as_python_expression(self):
         v = self.value
 
-- 
2.43.0


From f152326fe36f8b64e292626805fb8c45d01aebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:43 +0000
Subject: [PATCH 09/77] fix: Animation's hyphenated attributes read and write
 the file's attributes

end_time was always five seconds, and gamma_r and friends were always 1.0,
because the attributes are called 'end-time' and so on in the file; setting
them added a stray attribute which Synfig ignores. begin_time couldn't be
set, and now times are written in Synfig's format.
---
 sangfroid/animation.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 1a24900..de7b081 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -33,6 +33,11 @@ class TagTimeAttrField(TagAttrField):
                  ref = obj._tag,
                  )
 
+    def __set__(self, obj, value):
+        super().__set__(obj,
+                        T(value, ref = obj._tag),
+                        )
+
 class Animation(Group):
     """
     A Synfig animation.
@@ -55,10 +60,11 @@ class Animation(Group):
     yres = TagAttrField(float,       2834.645669,
                         doc = "The vertical resolution.",
                         )
-    gamma_r = TagAttrField(float,       1.0)
-    gamma_g = TagAttrField(float,       1.0)
-    gamma_b = TagAttrField(float,       1.0)
-    view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25') # XXX wrong
+    gamma_r = TagAttrField(float,       1.0, name='gamma-r')
+    gamma_g = TagAttrField(float,       1.0, name='gamma-g')
+    gamma_b = TagAttrField(float,       1.0, name='gamma-b')
+    view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25',
+                            name='view-box') # XXX wrong
     antialias = TagAttrField(int,         1) # XXX enum?
     fps = TagAttrField(float,       24.0,
         doc = """
@@ -67,12 +73,14 @@ class Animation(Group):
             (Can this be non-integer?)""",
            )
     begin_time = TagTimeAttrField(0,
+           name = 'begin-time',
            doc = """
             The time at which this animation starts.
 
             Almost always zero.""",
            )
     end_time = TagTimeAttrField('5s',
+            name = 'end-time',
             doc = 'The time at which this animation ends.',
            )
     bgcolor = TagAttrField(str,         '0.5 0.5 0.5 1.0')
@@ -165,20 +173,6 @@ class Animation(Group):
             ])
 
 
-    @property
-    def begin_time(self):
-        """
-        The time at which this animation starts.
-
-        Almost always zero.
-
-        Type:
-            T
-        """
-        return T(self._tag.attrs['begin-time'],
-                 ref = self._tag,
-                 )
-
     @property
     def framecount(self):
         """
-- 
2.43.0


From 7e5e10a215c1e1df8bf08483e94200f1f5d8ce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:02 +0000
Subject: [PATCH 10/77] fix: let the name and desc of an animation be set

name was read-only, and setting desc raised AttributeError if the file had
none. Both also looked inside layers and bones for a tag of that name.
---
 sangfroid/animation.py |  4 ----
 sangfroid/field.py     | 10 +++++++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index de7b081..966911a 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -139,10 +139,6 @@ class Animation(Group):
     def canvas_tag(self):
         return self._tag
 
-    @property
-    def name(self):
-        return self._tag.find('name').string
-
     @property
     def size(self):
         """
diff --git a/sangfroid/field.py b/sangfroid/field.py
index bb1b3e1..aaeb538 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -283,8 +283,8 @@ class NamedChildField(Field):
                 )
 
     def get_subtag_for_obj(self, obj):
-        return obj._tag.find(self.name)
- 
+        return obj._tag.find(self.name, recursive=False)
+
     def __get__(self, obj, obj_type=None):
 
         subtag = self.get_subtag_for_obj(obj)
@@ -292,12 +292,16 @@ class NamedChildField(Field):
         if subtag is None:
             return ''
         else:
-            return subtag.string
+            return subtag.text
 
     def __set__(self, obj, value):
 
         subtag = self.get_subtag_for_obj(obj)
 
+        if subtag is None:
+            subtag = bs4.Tag(name=self.name)
+            obj._tag.insert(0, subtag)
+
         subtag.string = value
 
 """
-- 
2.43.0


From e6c422c5bbcbee90d0bac07bdd86d8d8fa015a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:04 +0000
Subject: [PATCH 11/77] fix: raise ValueError where we meant to

There is no sangfroid.value.ValueError, so these were AttributeErrors or
UnboundLocalErrors.
---
 sangfroid/layer/layer.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 9d91620..8110b72 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -171,7 +171,7 @@ class Layer:
         matching_special = None
 
         if len(args)>1:
-            raise v.ValueError(
+            raise ValueError(
                     "You can only give one positional argument.")
         elif len(args)==1:
 
@@ -181,7 +181,7 @@ class Layer:
                      issubclass(args[0], Layer))
                     ):
                 if 'type' in kwargs:
-                    raise v.ValueError(
+                    raise ValueError(
                             "You can't give a type in both the positional "
                             "and keyword arguments.")
 
@@ -199,7 +199,7 @@ class Layer:
         if 'attrs' in kwargs:
             for k,v in kwargs['attrs'].items():
                 if k in kwargs:
-                    raise v.ValueError("{k} specified both as a kwarg and in attrs")
+                    raise ValueError(f"{k} specified both as a kwarg and in attrs")
                 kwargs[k] = v
 
             del kwargs['attrs']
@@ -267,7 +267,7 @@ class Layer:
                 logger.debug("  -- callback says: %s", result)
                 return result
 
-            raise v.ValueError(found_tag)
+
 
         result = [
                 self.from_tag(x) for x in
@@ -329,7 +329,7 @@ class Layer:
         """
         tag_type = tag.get('type', None)
         if tag_type is None:
-            raise v.ValueError(
+            raise ValueError(
                     f"tag has no 'type' field: {tag}")
         return cls.handles_type.from_name(name=tag_type)(tag)
 
@@ -417,18 +417,18 @@ class Layer:
 
 def _name_and_value_of(tag):
     if tag.name!='param':
-        raise v.ValueError(f"param is not a <param>: {tag}")
+        raise ValueError(f"param is not a <param>: {tag}")
 
     name = tag.get('name', None)
     if name is None:
-        raise v.ValueError(f"param has no 'name' field: {tag}")
+        raise ValueError(f"param has no 'name' field: {tag}")
 
     value_tags = [tag for tag in tag.children
                   if isinstance(tag, bs4.element.Tag)
                   ]
 
     if len(value_tags)!=1:
-        raise v.ValueError(f"param should have one value: {tag}")
+        raise ValueError(f"param should have one value: {tag}")
 
     value_tag = value_tags[0]
 
-- 
2.43.0


From b11babfd62f50cfb2eb3dd36b9e837b7de93e895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:26 +0000
Subject: [PATCH 12/77] fix: find layers whose type name has an underscore, or
 which have a type param

find_all('solid_color') and find_all(Solid_Color) never matched anything,
because only one side was normalised; nor did find_all('blur'), because
Blur.type_ is a param. Searching by class now matches that class, rather
than the name of the class, so that Layer matches every layer as
documented.
---
 sangfroid/layer/layer.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 8110b72..905f4e6 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -205,11 +205,8 @@ class Layer:
             del kwargs['attrs']
 
         for k,v in kwargs.items():
-            if k=='type':
-                if not isinstance(v, str):
-                    v = v.__name__
-
-                kwargs[k] = v.lower().replace('_', '')
+            if k=='type' and isinstance(v, str):
+                kwargs[k] = normalise_synfig_layer_type_name(v)
 
         logger.debug("begin find_all")
 
@@ -224,22 +221,22 @@ class Layer:
 
             if matching_special is None:
 
-                def munge(k,v):
-                    if k=='type':
-                        k = 'type_'
-                        v = v.lower()
-
-                    return (k,v)
-
-                targets = [
-                    munge(k,v)
-                    for k,v in kwargs.items()
-                    ]
-
-                logger.debug("want: %s", targets)
+                logger.debug("want: %s", kwargs)
 
-                for k, want_value in targets:
+                for k, want_value in kwargs.items():
                     try:
+                        if k=='type':
+                            # Some kinds of layer have a param called
+                            # "type", so don't go via getattr().
+                            if isinstance(want_value, type):
+                                if isinstance(found_layer, want_value):
+                                    return True
+                                continue
+
+                            if normalise_synfig_layer_type_name(
+                                    found_tag['type'])==want_value:
+                                return True
+                            continue
                         found_value = getattr(found_layer, k)
                         logger.debug("  -- %s field is %s; want %s", k,
                                      repr(found_value),
-- 
2.43.0


From db68c11caff43abb81a72f76ecba38e4f4bd050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:41 +0000
Subject: [PATCH 13/77] fix: find_all() with several criteria finds layers
 which match them all

It found layers which matched any of them, unlike Beautiful Soup.
---
 sangfroid/layer/layer.py | 59 ++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 905f4e6..80a0f99 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -223,38 +223,37 @@ class Layer:
 
                 logger.debug("want: %s", kwargs)
 
+                if not kwargs:
+                    return False
+
                 for k, want_value in kwargs.items():
-                    try:
-                        if k=='type':
-                            # Some kinds of layer have a param called
-                            # "type", so don't go via getattr().
-                            if isinstance(want_value, type):
-                                if isinstance(found_layer, want_value):
-                                    return True
-                                continue
 
-                            if normalise_synfig_layer_type_name(
-                                    found_tag['type'])==want_value:
-                                return True
-                            continue
-                        found_value = getattr(found_layer, k)
-                        logger.debug("  -- %s field is %s; want %s", k,
-                                     repr(found_value),
-                                     repr(want_value),
-                                     )
-                    except AttributeError:
-                        logger.debug("  -- it does not have a %s", k)
-                        continue
-
-                    logger.debug("  want: %s  found: %s",
-                                 want_value, found_value)
-
-                    if found_value==want_value:
-                        logger.debug("    -- a match!")
-                        return True
-
-                logger.debug("  -- no matches.")
-                return False
+                    if k=='type':
+                        # Some kinds of layer have a param called
+                        # "type", so don't go via getattr().
+                        if isinstance(want_value, type):
+                            matched = isinstance(found_layer, want_value)
+                        else:
+                            matched = want_value==(
+                                normalise_synfig_layer_type_name(
+                                    found_tag['type']))
+                    else:
+                        try:
+                            found_value = getattr(found_layer, k)
+                        except AttributeError:
+                            logger.debug("  -- it does not have a %s", k)
+                            return False
+
+                        logger.debug("  want: %s  found: %s",
+                                     want_value, found_value)
+                        matched = found_value==want_value
+
+                    if not matched:
+                        logger.debug("  -- %s does not match.", k)
+                        return False
+
+                logger.debug("  -- a match!")
+                return True
 
             elif isinstance(matching_special, bool):
                 return matching_special
-- 
2.43.0


From dc9f464c6a2c03d804d2e0824692fa4bd24bd224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:44 +0000
Subject: [PATCH 14/77] fix: non-recursive find_all() on a Group searches its
 children

It only looked at the immediate children of the <layer> tag, where there
are never any layers.
---
 sangfroid/layer/layer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 80a0f99..aae51a9 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -265,9 +265,15 @@ class Layer:
 
 
 
+        if recursive:
+            search_in = self._tag
+        else:
+            # the tag which immediately contains our children
+            search_in = getattr(self, 'canvas_tag', self._tag)
+
         result = [
                 self.from_tag(x) for x in
-                self._tag.find_all(matcher,
+                search_in.find_all(matcher,
                                   recursive=recursive,
                                   )
                 ]
-- 
2.43.0


From 68d4727bc979aa82713a77507f697ee2db42eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:09 +0000
Subject: [PATCH 15/77] fix: a layer's own params take precedence over those of
 layers inside it

Since the canvas param comes in the middle of a group's params,
outer.time_dilation read and wrote the inner group's time_dilation; and so
on for the other params which come after the canvas.
---
 sangfroid/field.py       |  7 ++-----
 sangfroid/layer/group.py |  7 ++-----
 sangfroid/layer/layer.py | 10 ++++------
 sangfroid/util.py        | 21 +++++++++++++++++++++
 4 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index aaeb538..7e7cb44 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -2,6 +2,7 @@ import logging
 from enum import Enum
 import bs4
 import sangfroid.value as v
+from sangfroid.util import find_param_tag
 
 logger = logging.getLogger('sangfroid')
 
@@ -209,11 +210,7 @@ class ParamTagField(Field):
         assert self.type_.__module__!='builtins', self.type_
 
     def _get_value(self, obj):
-        holder = obj._tag.find('param',
-                               attrs={
-                                   'name': self.name,
-                                   },
-                               )
+        holder = find_param_tag(obj._tag, self.name)
 
         if holder is None:
             raise AttributeError(self.name)
diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index e29342b..7314873 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -1,6 +1,7 @@
 from sangfroid.layer import Layer
 import sangfroid.value as v
 import sangfroid.field as f
+from sangfroid.util import find_param_tag
 import bs4
 
 @f.ShortcutField.include_from("transformation")
@@ -57,11 +58,7 @@ class Group(Layer):
 
     @property
     def canvas_tag(self):
-        param = self._tag.find('param',
-                              attrs={
-                                  'name': 'canvas',
-                                  },
-                              )
+        param = find_param_tag(self._tag, 'canvas')
 
         if param is None:
             raise ValueError(
diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index aae51a9..795b328 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -13,6 +13,7 @@ from sangfroid.field import (
         DescField,
         )
 from sangfroid.util import (
+        find_param_tag,
         normalise_synfig_layer_type_name,
         type_and_str_to_value,
         type_and_value_to_str,
@@ -89,13 +90,13 @@ class Layer:
         return result
 
     def __getitem__(self, f):
-        found = self._tag.find('param', attrs={'name': f})
+        found = find_param_tag(self._tag, f)
         if found is None:
             raise KeyError(f)
         return _name_and_value_of(found)[1]
 
     def __setitem__(self, f, val):
-        found = self._tag.find('param', attrs={'name': f})
+        found = find_param_tag(self._tag, f)
         if found is None:
             raise KeyError(f)
         old_value = _name_and_value_of(found)[1]
@@ -111,10 +112,7 @@ class Layer:
         old_value.tag.replace_with(new_value.tag)
 
     def __contains__(self, f):
-        found = self._tag.find(
-                'param',
-                attrs={'name': f},
-                )
+        found = find_param_tag(self._tag, f)
         return found is not None
     
     @property
diff --git a/sangfroid/util.py b/sangfroid/util.py
index e498747..1e6e8e4 100644
--- a/sangfroid/util.py
+++ b/sangfroid/util.py
@@ -26,3 +26,24 @@ def type_and_str_to_value(t, s):
         return v.lower()=='true'
     else:
         return t(v)
+
+def find_param_tag(tag, name):
+    """
+    Finds the <param> tag with the given name belonging to a layer.
+
+    If the layer has no such param of its own, we look in the layers
+    inside it.
+
+    Args:
+        tag (bs4.Tag): the layer's tag
+        name (str): the name of the param
+
+    Returns:
+        bs4.Tag, or None if there's no such param
+    """
+    attrs = {'name': name}
+
+    return (
+            tag.find('param', attrs=attrs, recursive=False) or
+            tag.find('param', attrs=attrs)
+            )
-- 
2.43.0


From 9d194994c1447ece6a8afca878b83383bb206d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:00 +0000
Subject: [PATCH 16/77] fix: setting a value keeps the other attributes of its
 tag

Setting blend_method lost static="true", for example.
---
 sangfroid/value/simple.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 3864407..9f8b9c1 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -54,10 +54,11 @@ class Simple(Value):
 
         result = self._value_to_str(result)
 
+        if self.is_animated:
+            self._tag.attrs = {}
+
         self._tag.name = self.get_name_for_tag()
-        self._tag.attrs = {
-                'value': result,
-                }
+        self._tag['value'] = result
         self._tag.clear()
 
     @classmethod
-- 
2.43.0


From fb52363d2ea654a2b4278099962b61341ffddbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:04 +0000
Subject: [PATCH 17/77] fix: let blend_method be read

Reading the blend_method of any layer raised AssertionError, because it's
stored as an integer.
---
 sangfroid/field.py             |  6 ++++++
 sangfroid/value/blendmethod.py | 15 +++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index 7e7cb44..d9ec35e 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -229,6 +229,12 @@ class ParamTagField(Field):
 
     def __get__(self, obj, obj_type=None):
         result = self._get_value(obj)
+
+        if result.__class__!=self.type_ and issubclass(
+                self.type_, result.__class__):
+            # BlendMethod, for example, is stored as an Integer
+            result = self.type_(result.tag)
+
         assert isinstance(result, self.type_), f"{result} {type(result)} {self.type_}"
         return result
 
diff --git a/sangfroid/value/blendmethod.py b/sangfroid/value/blendmethod.py
index 23f360c..2b5e2f8 100644
--- a/sangfroid/value/blendmethod.py
+++ b/sangfroid/value/blendmethod.py
@@ -30,16 +30,19 @@ class BlendMethod(Integer):
     
     ### }}}
 
-    def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
+    @classmethod
+    def get_name_for_tag(cls):
+        return 'integer'
 
-        self._tag['static'] = 'true'
-        self._tag.name = 'integer'
+    @classmethod
+    def _get_empty_tag(cls, name=None):
+        result = super()._get_empty_tag(name)
+        result['static'] = 'true'
+        return result
 
     @classmethod
     def from_tag(cls, t):
-        v = Integer.from_tag(t)
-        return cls(v.value)
+        return cls(t)
 
     def as_python_expression(self):
         return 'v.'+str(self)
-- 
2.43.0


From 297d40c4de0b51c44d52bc557525d6fb13aa9926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:09 +0000
Subject: [PATCH 18/77] fix: the type param of layers which have one is called
 type in the file

It's spelt type_ in Python, and that was being used as the name of the
param too.
---
 sangfroid/layer/blurs.py   | 1 +
 sangfroid/layer/stylise.py | 2 ++
 sangfroid/layer/tbd.py     | 3 +++
 3 files changed, 6 insertions(+)

diff --git a/sangfroid/layer/blurs.py b/sangfroid/layer/blurs.py
index db34a24..f0361cf 100644
--- a/sangfroid/layer/blurs.py
+++ b/sangfroid/layer/blurs.py
@@ -18,6 +18,7 @@ class Blur(Layer):
     size                 = f.ParamTagField(v.X_Y, (0.1000000015, 0.1000000015),
                         )
     type_                = f.ParamTagField(v.Integer, 1,
+                                  name="type",
                         )
 
     ### }}}
diff --git a/sangfroid/layer/stylise.py b/sangfroid/layer/stylise.py
index d72ea10..21b176e 100644
--- a/sangfroid/layer/stylise.py
+++ b/sangfroid/layer/stylise.py
@@ -22,6 +22,7 @@ class Shade(Layer):
     size                 = f.ParamTagField(v.X_Y, (0.1000000015, 0.1000000015),
                         )
     type_                = f.ParamTagField(v.Integer, 1,
+                                  name="type",
                         )
     invert               = f.ParamTagField(v.Bool, False,
                         )
@@ -42,6 +43,7 @@ class Bevel(Layer):
     blend_method         = f.ParamTagField(v.BlendMethod, v.BlendMethod.ONTO,
                         )
     type_                = f.ParamTagField(v.Integer, 1,
+                                  name="type",
                         )
     color1               = f.ParamTagField(v.Color, (1.0, 1.0, 1.0, 1.0),
                         )
diff --git a/sangfroid/layer/tbd.py b/sangfroid/layer/tbd.py
index 938be98..b0bc656 100644
--- a/sangfroid/layer/tbd.py
+++ b/sangfroid/layer/tbd.py
@@ -498,6 +498,7 @@ class Halftone3(Layer):
     size                 = f.ParamTagField(v.X_Y, (0.25, 0.25),
                         )
     type_                = f.ParamTagField(v.Integer, 0,
+                                  name="type",
                         )
     subtractive          = f.ParamTagField(v.Bool, True,
                         )
@@ -530,6 +531,7 @@ class Halftone2(Layer):
     color_dark           = f.ParamTagField(v.Color, (0.0, 0.0, 0.0, 1.0),
                         )
     type_                = f.ParamTagField(v.Integer, 0,
+                                  name="type",
                         )
 
     ### }}}
@@ -717,6 +719,7 @@ class Spherize(Layer):
     clip                 = f.ParamTagField(v.Bool, False,
                         )
     type_                = f.ParamTagField(v.Integer, 0,
+                                  name="type",
                         )
 
     ### }}}
-- 
2.43.0


From b49ffe9119d95cb23f28d5f9c9c75b3b3db6a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:29 +0000
Subject: [PATCH 19/77] fix: setting a vector replaces its old members

The new members were added after the old ones, so the tag had two of each,
and circle.origin.x was still the old value.
---
 sangfroid/value/vector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 6cb34ce..7abb966 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -61,8 +61,11 @@ class Vector(Value):
         else:
             self._raise_type_error()
 
+        if self.is_animated:
+            self._tag.attrs = {}
+
         self._tag.name = self.TAG_NAME
-        self._tag.attrs = {}
+        self._tag.clear()
 
         for k, v in members.items():
             addendum = bs4.element.Tag(name=k)
-- 
2.43.0


From 1eb10cab0b674774c28dde68a0f5a3775bdd3bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:33 +0000
Subject: [PATCH 20/77] fix: an empty string is '', not 'None'

Text layers set to '', including by bywords, became 'None' when they
were loaded again.
---
 sangfroid/value/string.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sangfroid/value/string.py b/sangfroid/value/string.py
index 4e9a420..9271c18 100644
--- a/sangfroid/value/string.py
+++ b/sangfroid/value/string.py
@@ -8,8 +8,7 @@ class String(Value):
 
     @property
     def value(self):
-        result = str(self._tag.string)
-        return result
+        return self._tag.get_text()
 
     @value.setter
     def value(self, v):
-- 
2.43.0


From ec57728fcf3964255a30096345f87cf3827e798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:35 +0000
Subject: [PATCH 21/77] fix: setting an animated string or gradient makes it
 static

As with all other types. It left an <animated> tag with something other
than waypoints inside. Also, setting a gradient to something with an
invalid colour no longer empties it, and setting a colour keeps its tag's
other attributes.
---
 sangfroid/value/color.py    |  4 +++-
 sangfroid/value/gradient.py | 11 ++++++++++-
 sangfroid/value/string.py   |  8 +++++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index 235d345..83b96f0 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -91,8 +91,10 @@ class Color(Value):
         assert isinstance(result, tuple), result
         assert [type(n) for n in result]==[float]*4, result
 
+        if self.is_animated:
+            self._tag.attrs = {}
+
         self._tag.name = self.get_name_for_tag()
-        self._tag.attrs = {}
         self._tag.clear()
 
         for i, dimension in enumerate(RGBA):
diff --git a/sangfroid/value/gradient.py b/sangfroid/value/gradient.py
index 308dd0f..faf4d82 100644
--- a/sangfroid/value/gradient.py
+++ b/sangfroid/value/gradient.py
@@ -27,12 +27,21 @@ class Gradient(Value):
         if len(v)<2:
             self._raise_colour_count_error()
 
-        self._tag.clear()
+        colour_tags = []
 
         for pos, colour in sorted(v.items()):
 
             colour_tag = Color(colour).tag
             colour_tag['pos'] = '%.06g' % (pos,)
+            colour_tags.append(colour_tag)
+
+        if self.is_animated:
+            self._tag.attrs = {}
+
+        self._tag.name = self.get_name_for_tag()
+        self._tag.clear()
+
+        for colour_tag in colour_tags:
             self._tag.append(colour_tag)
 
     def _raise_colour_count_error(self):
diff --git a/sangfroid/value/string.py b/sangfroid/value/string.py
index 9271c18..1f779d9 100644
--- a/sangfroid/value/string.py
+++ b/sangfroid/value/string.py
@@ -12,7 +12,13 @@ class String(Value):
 
     @value.setter
     def value(self, v):
-        self._tag.string = str(v)
+        v = str(v)
+
+        if self.is_animated:
+            self._tag.attrs = {}
+
+        self._tag.name = self.get_name_for_tag()
+        self._tag.string = v
 
     def as_python_expression(self):
         return repr(self.value)
-- 
2.43.0


From ddfa583fb529a982af4cf07e7843c8c0c38d9eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:08 +0000
Subject: [PATCH 22/77] fix: setting part of a transformation keeps the rest of
 it

---
 sangfroid/value/transformation.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index 4d23e79..ecf90f5 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -66,15 +66,28 @@ class Composite(Value):
                     f"We can accept: "
                     f"{' '.join(sorted(self.REQUIRED_KEYS.keys()))}")
 
-        self.tag.clear()
+        # Make all the subtags before changing anything, so that we're
+        # left as we were if any of the values is no good.
+        new_subtags = {}
 
         for remaining, v in new_value.items():
 
-            v_as_value = self.REQUIRED_KEYS[remaining](v)
+            if isinstance(v, self.REQUIRED_KEYS[remaining]):
+                v_as_value = v
+            else:
+                v_as_value = self.REQUIRED_KEYS[remaining](v)
 
             new_subtag = bs4.Tag(name=remaining)
             new_subtag.append(copy(v_as_value.tag))
             new_subtag.append("\n")
+            new_subtags[remaining] = new_subtag
+
+        # Keys which weren't mentioned keep their existing values.
+        for old_subtag in self._tag.find_all(True, recursive=False):
+            if old_subtag.name in new_subtags:
+                old_subtag.replace_with(new_subtags.pop(old_subtag.name))
+
+        for new_subtag in new_subtags.values():
             self.tag.append(new_subtag)
 
     def __getattr__(self, key):
-- 
2.43.0


From 016724c681ec5d00ad2aef68ab9600c8bfdf333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:11 +0000
Subject: [PATCH 23/77] fix: a canvas value can be set to a list of layers

---
 sangfroid/value/canvas.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index 3d5856a..3b28a73 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -26,10 +26,14 @@ class Canvas(Value):
 
         from sangfroid.layer.layer import Layer
 
-        self._tag.clear()
+        v = list(v)
 
         for layer in v:
             if not isinstance(layer, Layer):
                 raise TypeError(type(layer))
-            self._tag.append(layer)
+
+        self._tag.clear()
+
+        for layer in v:
+            self._tag.append(layer.tag)
             self._tag.append("\n")
-- 
2.43.0


From 02dd0958c58162967125855e853f73990c10d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:51 +0000
Subject: [PATCH 24/77] fix: look up waypoints by any kind of time, and let +=
 work on timelines

---
 sangfroid/value/value.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 2582189..a6d5e69 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -322,7 +322,7 @@ class Timeline:
         return list(self.parent._waypoints().items())
 
     def __iadd__(self, waypoints):
-        self.add(waypoints,
+        return self.add(waypoints,
             overwrite = True,
                  )
 
@@ -378,13 +378,11 @@ class Timeline:
         return self
 
     def __getitem__(self, time):
-        if 'x_y' in str(self.parent._tag):
-            raise ValueError()
+        time = self._ensure_fps(time)
+
         for t, wt in self.parent._waypoints().items():
             if t==time:
                 return wt
-            elif t>time:
-                raise KeyError(time)
 
         raise KeyError(time)
 
-- 
2.43.0


From 74e83bf48caab76863772747eff087d4d1c507b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:37 +0000
Subject: [PATCH 25/77] fix: timelines refuse bad waypoints without losing the
 good ones

---
 sangfroid/value/value.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index a6d5e69..e902bb8 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -96,7 +96,7 @@ class Value:
     @timeline.setter
     def timeline(self, v):
 
-        if isinstance(v, list) and all([n for n in v if isinstance(n, Waypoint)]):
+        if isinstance(v, list) and all([isinstance(n, Waypoint) for n in v]):
             self._set_waypoints(v)
         elif isinstance(v, dict):
             self.timeline = list(v.values())
@@ -171,16 +171,32 @@ class Value:
                     )
             return
 
+        if self.is_animated:
+            our_type = self._tag['type']
+        else:
+            our_type = self._tag.name
+
+        for w in v:
+            if w.value.tag.name!=our_type:
+                raise TypeError(
+                        "Waypoint type must match parent: "
+                        f"parent={our_type}, child={w.value.tag.name}")
+
+        # Make all the tags before changing anything. If two waypoints
+        # are for the same time, the later one wins.
+        waypoints = dict([(w.time, w) for w in v])
+        tags = [w.tag for w in sorted(waypoints.values())]
+
         self._set_animated(
                 whether = True,
                 adjust_contents = False,
                 )
         self._tag.clear()
 
-        for i, w in enumerate(sorted(v)):
+        for i, waypoint_tag in enumerate(tags):
             if i!=0:
                 self._tag.append('\n')
-            self._tag.append(w.tag)
+            self._tag.append(waypoint_tag)
 
     def __len__(self):
         return len(self._waypoints())
@@ -366,14 +382,12 @@ class Timeline:
                              "times in this timeline:\n"
                              f"{clashes}")
 
-        self.parent.is_animated = True
+        if not waypoints:
+            return self
 
         existing |= dict([(w.time, w) for w in waypoints])
 
-        self.parent.tag.clear()
-
-        for w in sorted(existing.values()):
-            self.parent.tag.append(w.tag)
+        self.parent._set_waypoints(existing.values())
 
         return self
 
@@ -406,13 +420,6 @@ class Timeline:
                     ref = self.parent.tag,
                     )
 
-        if not self.parent.is_animated:
-            self.parent._tag.clear()
-            self.parent._set_animated(
-                    whether = True,
-                    adjust_contents = False,
-                    )
-
         waypoints = self.parent._waypoints()
 
         waypoints[t] = new_waypoint
-- 
2.43.0


From ca5a13e96b13764c40a3a1dd8ccaacaeed5816ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:54 +0000
Subject: [PATCH 26/77] fix: changing whether a value is animated keeps the
 exact value, even outside a document

---
 sangfroid/value/value.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index e902bb8..56bc6e6 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -56,7 +56,9 @@ class Value:
         elif whether:
 
             if adjust_contents:
-                former_value = self.value
+                # a copy of the tag, rather than self.value, because
+                # some values are rounded when they're read
+                former_value = self.__class__(copy.copy(self._tag))
 
             our_type = self._tag.name
             self._tag.attrs = {}
@@ -70,22 +72,31 @@ class Value:
 
             if adjust_contents:
                 timeline = self.timeline
-                first_value = timeline.values()[0]
+                new_tag = timeline.values()[0].value._tag
             else:
-                first_value = None
+                new_tag = self._get_empty_tag()
 
-            self._tag.clear()
+            self._replace_contents(new_tag)
 
-            new_tag = self._get_empty_tag()
-            self._tag.replace_with(new_tag)
-            self._tag = new_tag
+    def _replace_contents(self, new_tag):
+        """
+        Makes our tag into a copy of another tag.
+
+        We change the existing tag, rather than replacing it, so that
+        this works even if we're not part of a document, and so that
+        other Values with the same tag see the change.
+
+        Args:
+            new_tag (bs4.Tag): the tag to copy
+        """
+        new_tag = copy.copy(new_tag)
 
-            if first_value is not None:
-                old_tag = self._tag
+        self._tag.name = new_tag.name
+        self._tag.attrs = new_tag.attrs
+        self._tag.clear()
 
-                self._tag = copy.deepcopy(first_value.value._tag)
-                if old_tag.parent is not None:
-                    old_tag.replace_with(self._tag)
+        for child in list(new_tag.contents):
+            self._tag.append(child)
 
     @property
     def timeline(self):
-- 
2.43.0


From 4d94a26ed8be62e00ceb6537045aa38334841ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:13 +0000
Subject: [PATCH 27/77] fix: write waypoints using the names of interpolation
 types which Synfig uses

---
 sangfroid/value/value.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 56bc6e6..7b7dd7c 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -557,8 +557,9 @@ class Waypoint:
     def tag(self):
         result = bs4.Tag(name="waypoint")
         result['time'] = self.time
-        result['before'] = self._before
-        result['after'] = self._after
+        # the file uses its own names for some interpolation types
+        result['before'] = INTERPOLATION_TYPES[self._before][0]
+        result['after'] = INTERPOLATION_TYPES[self._after][0]
         result.append(
                 copy.copy(
                     self.value.tag
-- 
2.43.0


From 7ccfff3b431d426cccfa14517cbc1ca620cb6823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:16 +0000
Subject: [PATCH 28/77] fix: keep attributes of waypoints which we don't know
 about

---
 sangfroid/value/value.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 7b7dd7c..2071f9f 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -512,6 +512,7 @@ class Waypoint:
 
         self._before = self._check_interpolation_type(before, True)
         self._after = self._check_interpolation_type(after, True)
+        self._other_attrs = {}
         self.value = value
 
     @property
@@ -555,7 +556,9 @@ class Waypoint:
 
     @property
     def tag(self):
-        result = bs4.Tag(name="waypoint")
+        result = bs4.Tag(name="waypoint",
+                         attrs=self._other_attrs,
+                         )
         result['time'] = self.time
         # the file uses its own names for some interpolation types
         result['before'] = INTERPOLATION_TYPES[self._before][0]
@@ -605,6 +608,8 @@ class Waypoint:
                 before = tag['before'],
                 after = tag['after'],
                 )
+        # such as tension and bias: they must survive a rewrite
+        result._other_attrs = dict(tag.attrs)
 
         return result
 
-- 
2.43.0


From 1836c3adc4cbcc3eafd013965e511b4636182218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:49 +0000
Subject: [PATCH 29/77] fix: assigning a value to a param copies it, keeping
 the tag's other attributes

---
 sangfroid/layer/layer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 795b328..a9d554a 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -105,11 +105,11 @@ class Layer:
             if not isinstance(val, old_value.__class__):
                 raise TypeError(val.__class__)
 
-            new_value = val
+            if val.tag is not old_value.tag:
+                # Take a copy, because the tag might already be in use.
+                old_value._replace_contents(val.tag)
         else:
-            new_value = old_value.__class__(val)
-
-        old_value.tag.replace_with(new_value.tag)
+            old_value.value = val
 
     def __contains__(self, f):
         found = find_param_tag(self._tag, f)
-- 
2.43.0


From 56ef70090e9a4dde0c59044d5989f54bc778a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:03 +0000
Subject: [PATCH 30/77] fix: assigning an animated value to an attribute copies
 its animation

---
 sangfroid/field.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index d9ec35e..f2cbdf8 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -240,7 +240,13 @@ class ParamTagField(Field):
 
     def __set__(self, obj, value):
         value_obj = self._get_value(obj)
-        value_obj.value = value
+
+        if isinstance(value, value_obj.__class__):
+            # it may be animated, so copy the whole thing
+            if value.tag is not value_obj.tag:
+                value_obj._replace_contents(value.tag)
+        else:
+            value_obj.value = value
 
 class TagField(Field):
     """
-- 
2.43.0


From f7a94861e87dda0410e63f97d6774845bacdffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:28 +0000
Subject: [PATCH 31/77] fix: the length of a group is the number of its
 children

---
 sangfroid/layer/group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index 7314873..3183753 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -129,6 +129,9 @@ class Group(Layer):
         before._tag.insert_after(layer._tag)
         before._tag.insert_after("\n")
 
+    def __len__(self):
+        return len(list(self.children))
+
     def __getitem__(self, f):
         if isinstance(f, int):
             return list(self.children)[f]
-- 
2.43.0


From b658ce470075385b4727193c74111f91232e0f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:31 +0000
Subject: [PATCH 32/77] fix: refuse to put a layer inside itself

---
 sangfroid/layer/group.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index 3183753..557b2c3 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -98,10 +98,19 @@ class Group(Layer):
                 include_descendants = True,
                 )
 
-    def append(self, layer):
+    def _check_can_contain(self, layer):
         if not isinstance(layer, Layer):
             raise TypeError(type(layer))
 
+        cursor = self._tag
+        while cursor is not None:
+            if cursor is layer._tag:
+                raise ValueError("You can't put a layer inside itself.")
+            cursor = cursor.parent
+
+    def append(self, layer):
+        self._check_can_contain(layer)
+
         after = None
         # "after" from our perspective; *before* in the XML
 
@@ -115,16 +124,18 @@ class Group(Layer):
 
         if after is None:
             canvas.append(layer._tag)
-        else:
+        elif after is not layer._tag:
             after.insert_before(layer._tag)
 
     def insert(self, index, layer):
-        if not isinstance(layer, Layer):
-            raise TypeError(type(layer))
+        self._check_can_contain(layer)
 
         before = self[index]
         # "before" from our perspective; *after* in the XML
 
+        if before._tag is layer._tag:
+            return
+
         before._tag.insert_after("\n")
         before._tag.insert_after(layer._tag)
         before._tag.insert_after("\n")
-- 
2.43.0


From 291dae477d4a5c0b79c79ffdf238e709479a7b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:17 +0000
Subject: [PATCH 33/77] fix: let animated values be compared

---
 sangfroid/value/color.py  |  3 +++
 sangfroid/value/simple.py |  3 +++
 sangfroid/value/value.py  | 28 ++++++++++++++++++++++++++++
 sangfroid/value/vector.py |  3 +++
 4 files changed, 37 insertions(+)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index 83b96f0..9ecd76a 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -27,6 +27,9 @@ class Color(Value):
 
     def __eq__(self, other):
 
+        if self._either_is_animated(other):
+            return self._equal_as_animated(other)
+
         if isinstance(other, Color):
             return self.value == other.value
         elif isinstance(other, str):
diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 9f8b9c1..283419c 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -66,6 +66,9 @@ class Simple(Value):
         return str(v)
 
     def __eq__(self, other):
+        if self._either_is_animated(other):
+            return self._equal_as_animated(other)
+
         if isinstance(other, self.__class__):
             v = other.value
         else:
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 2071f9f..73317c6 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -258,11 +258,39 @@ class Value:
         raise NotImplementedError()
 
     def __eq__(self, other):
+        if self._either_is_animated(other):
+            return self._equal_as_animated(other)
+
         if isinstance(other, Value):
             return self.value == other.value
 
         return self.value == other
 
+    def _either_is_animated(self, other):
+        return self.is_animated or (
+                isinstance(other, Value) and other.is_animated)
+
+    def _equal_as_animated(self, other):
+        """
+        Compares two values, at least one of which is animated.
+
+        They're only equal if both are animated, in the same way.
+        """
+        if not isinstance(other, Value):
+            return False
+
+        if not self.is_animated or not other.is_animated:
+            return False
+
+        def summary(value):
+            return [(w.time, w.before, w.after, w.value)
+                    for w in value.timeline]
+
+        return (
+                self._tag.get('type')==other._tag.get('type') and
+                summary(self)==summary(other)
+                )
+
     def as_python_expression(self):
         """
         A Python expression which could be passed to the constructor
diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 7abb966..c9a0da5 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -129,6 +129,9 @@ class Vector(Value):
             return str(self.value)
 
     def __eq__(self, other):
+        if self._either_is_animated(other):
+            return self._equal_as_animated(other)
+
         try:
             if len(other)!=len(self):
                 return False
-- 
2.43.0


From af6ffd2853f40ed5e056f75641e0334f34cc835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:19 +0000
Subject: [PATCH 34/77] fix: let transformations be compared with any dict

---
 sangfroid/value/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index ecf90f5..6fab6f8 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -158,7 +158,7 @@ class Composite(Value):
             return False
 
         for key, value in self.items():
-            if other[key]!=value:
+            if key not in other.keys() or other[key]!=value:
                 return False
 
         return True
-- 
2.43.0


From 3df900fe4274968d9582ec5dcc713c4bf7a50a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:04 +0000
Subject: [PATCH 35/77] fix: bywords: weight pauses by the letters of each
 word, as documented

---
 bywords/bywords.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 28c1375..bf76989 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -23,8 +23,9 @@ bywords_groups = None
 
 @functools.total_ordering
 class WordTiming:
-    def __init__(self, text, item):
+    def __init__(self, text, item, letters):
         self.text = text
+        self.letters = letters
         self.item = item
         self.time = 0
 
@@ -91,6 +92,7 @@ class BywordsGroup:
                         WordTiming(
                             text = item.desc[:i],
                             item = item,
+                            letters = len(word),
                             ))
 
                 if words and words[0].strip()=='':
@@ -98,13 +100,13 @@ class BywordsGroup:
 
             s = s[len(item.desc):]
 
-        total_letters = sum([len(w.text) for w in word_timings])
+        total_letters = sum([w.letters for w in word_timings])
         ms_per_letter = duration/total_letters
 
         time = start
         for w in word_timings:
             w.time = time/1000
-            time += len(w.text)*ms_per_letter
+            time += w.letters*ms_per_letter
 
         return word_timings
 
-- 
2.43.0


From d33b7cde916b05a7430678702d9e3c8471f36da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:20 +0000
Subject: [PATCH 36/77] fix: bywords: don't divide by zero when a line and a
 group both have no text

---
 bywords/bywords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index bf76989..88322e4 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -72,7 +72,7 @@ class BywordsGroup:
         else:
             splitting_re = WHITESPACE
 
-        if s!=self.full_text:
+        if s!=self.full_text or s.strip()=='':
             return None
 
         for _, item in self.texts:
-- 
2.43.0


From b494f6d97f3456c160b835af0af41939fb3c2c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:23 +0000
Subject: [PATCH 37/77] fix: bywords: keep words which appear at the same
 moment on different layers

---
 bywords/bywords.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 88322e4..73668fd 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -146,7 +146,7 @@ class Bywords:
             and group.desc.lower().startswith('bywords')
             ])
 
-        result = {}
+        self.words = []
         found = None
 
         for start, duration, text in self.lines:
@@ -159,12 +159,11 @@ class Bywords:
                 if found:
                     break
             if found:
-                for word in found:
-                    result[word.time] = word
+                self.words.extend(found)
             else:
                 self.no_matches.append(text)
 
-        self.words = sorted(list(result.values()))
+        self.words.sort()
 
     def dump_findings_to_logger(self):
         logger.info("\n\n=== Source timings ===\n")
-- 
2.43.0


From 6a125daf9dd44a99b3de982832159083c3e97730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:26 +0000
Subject: [PATCH 38/77] fix: bywords: cope with text layers which have no
 description

---
 bywords/bywords.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 73668fd..9094305 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -49,7 +49,7 @@ class BywordsGroup:
         self.group = group
 
         self.texts = [
-                (self.tidy_string(item.desc), item,)
+                (self.tidy_string(self.text_of(item)), item,)
                 for item in
                 list(reversed(group.find_all('text')))
                 ]
@@ -57,6 +57,17 @@ class BywordsGroup:
         self.full_text = ' '.join(
                 [s[0] for s in self.texts])
 
+    @classmethod
+    def text_of(cls, item):
+        if item.desc is not None:
+            return item.desc
+
+        text = item['text']
+        if text.is_animated:
+            return str(text.timeline.values()[-1].value)
+        else:
+            return str(text)
+
     @classmethod
     def tidy_string(self, n):
         return NON_WORD_LETTERS.sub('', n.lower())
@@ -76,9 +87,10 @@ class BywordsGroup:
             return None
 
         for _, item in self.texts:
+            text = self.text_of(item)
             item['text'].is_animated = False
 
-            words = [w for w in splitting_re.split(item.desc)
+            words = [w for w in splitting_re.split(text)
                      if w!=''
                      ]
 
@@ -90,7 +102,7 @@ class BywordsGroup:
 
                 word_timings.append(
                         WordTiming(
-                            text = item.desc[:i],
+                            text = text[:i],
                             item = item,
                             letters = len(word),
                             ))
@@ -98,7 +110,7 @@ class BywordsGroup:
                 if words and words[0].strip()=='':
                     i += len(words.pop(0))
 
-            s = s[len(item.desc):]
+            s = s[len(text):]
 
         total_letters = sum([w.letters for w in word_timings])
         ms_per_letter = duration/total_letters
-- 
2.43.0


From b36c642007b8552e931ee00918fe0cb13ac97ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:41 +0000
Subject: [PATCH 39/77] fix: load files in the encoding they say they're in

---
 sangfroid/format.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 9648c52..c6fb7e8 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -169,7 +169,9 @@ class Sif(Format):
     extensions = ('sif',)
 
     def main_file(self):
-        return FileContextHandler(open(self.filename, 'r'))
+        # Binary, because the XML says what encoding it's in.
+        with open(self.filename, 'rb') as f:
+            return FileContextHandler(f)
 
     def save(self, content, filename=None):
         filename = self._filename_for_saving(filename)
@@ -183,7 +185,8 @@ class Sifz(Format):
     extensions = ('sifz',)
 
     def main_file(self):
-        return FileContextHandler(gzip.open(self.filename, 'r'))
+        with gzip.open(self.filename, 'r') as f:
+            return FileContextHandler(f)
 
     def save(self, content, filename=None):
         filename = self._filename_for_saving(filename)
-- 
2.43.0


From b480f9d4643bc844ed603b0f75843c1e50c0580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:56 +0000
Subject: [PATCH 40/77] fix: load files which have comments outside the root
 tag

---
 sangfroid/animation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 966911a..fcae9b4 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -129,10 +129,11 @@ class Animation(Group):
         with self._format.main_file() as soup:
             self._soup = soup
 
-        assert len(self._soup.contents)==1
-        tag = self._soup.contents[0]
+        # there may also be comments outside the root tag
+        tags = [t for t in self._soup.contents if isinstance(t, bs4.Tag)]
+        assert len(tags)==1
         super().__init__(
-                tag = tag,
+                tag = tags[0],
                 )
 
     @property
-- 
2.43.0


From 1d309ce0f4666331126427b189f86721e402de84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:59 +0000
Subject: [PATCH 41/77] fix: keep the whitespace in strings which are nothing
 but whitespace

---
 sangfroid/format.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index c6fb7e8..8aee53a 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -150,11 +150,15 @@ class Format:
                 and h!=Format
                 ]
 
+# Tags whose text is the user's own, so that whitespace is significant.
+PRESERVE_WHITESPACE_TAGS = {'string', 'name', 'desc', 'keyframe'}
+
 class FileContextHandler:
     def __init__(self, f):
         self.soup = BeautifulSoup(
                 f,
                 features = 'xml',
+                preserve_whitespace_tags = PRESERVE_WHITESPACE_TAGS,
                 )
 
     def __enter__(self):
-- 
2.43.0


From 44af2043ae8433fc00d2646725cd08c19b4a63ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:02 +0000
Subject: [PATCH 42/77] fix: escape newlines and tabs in attributes when saving

---
 sangfroid/format.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 8aee53a..0b1140e 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -1,6 +1,8 @@
 import gzip
 import os
 from bs4 import BeautifulSoup
+from bs4.dammit import EntitySubstitution
+from bs4.formatter import XMLFormatter
 
 class Format:
     """
@@ -136,7 +138,7 @@ class Format:
         return filename
 
     def _write_to_file(self, f, content):
-        f.write(str(content).encode('UTF-8'))
+        f.write(content.decode(formatter=SifFormatter()).encode('UTF-8'))
 
     @classmethod
     def handlers(cls):
@@ -150,6 +152,22 @@ class Format:
                 and h!=Format
                 ]
 
+class SifFormatter(XMLFormatter):
+    """
+    Like Beautiful Soup's usual formatter, except that it also escapes
+    the whitespace characters which XML parsers would turn into others.
+    """
+    def __init__(self):
+        super().__init__(entity_substitution = self._escape)
+
+    @classmethod
+    def _escape(cls, s):
+        return EntitySubstitution.substitute_xml(s).replace('\r', '&#13;')
+
+    def attribute_value(self, value):
+        result = super().attribute_value(value)
+        return result.replace('\n', '&#10;').replace('\t', '&#9;')
+
 # Tags whose text is the user's own, so that whitespace is significant.
 PRESERVE_WHITESPACE_TAGS = {'string', 'name', 'desc', 'keyframe'}
 
-- 
2.43.0


From 3822799e81e77b2c8b31b32b996da741794dfa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:22 +0000
Subject: [PATCH 43/77] fix: don't lose the existing file if a save fails

---
 sangfroid/format.py | 53 +++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 0b1140e..92ff310 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -1,5 +1,7 @@
 import gzip
 import os
+import shutil
+import uuid
 from bs4 import BeautifulSoup
 from bs4.dammit import EntitySubstitution
 from bs4.formatter import XMLFormatter
@@ -129,16 +131,45 @@ class Format:
         """
         raise NotImplementedError()
 
-    def _filename_for_saving(self, filename):
+    def _save_bytes(self, content, filename):
+        """
+        Writes some data to disk.
+
+        If this fails, or is interrupted, any existing file of that name
+        is left as it was.
+
+        Args:
+            content (bytes): what to write
+            filename (str or None): the filename, as for save()
+        """
         if filename is None:
             filename = self.filename
-        else:
-            self.filename = filename
 
-        return filename
+        target = os.path.realpath(filename)
+        temporary = os.path.join(
+                os.path.dirname(target),
+                f'.sangfroid-{uuid.uuid4().hex}.tmp',
+                )
 
-    def _write_to_file(self, f, content):
-        f.write(content.decode(formatter=SifFormatter()).encode('UTF-8'))
+        try:
+            with open(temporary, 'xb') as f:
+                f.write(content)
+                f.flush()
+                os.fsync(f.fileno())
+
+            if os.path.exists(target):
+                shutil.copymode(target, temporary)
+
+            os.replace(temporary, target)
+        except BaseException:
+            if os.path.exists(temporary):
+                os.unlink(temporary)
+            raise
+
+        self.filename = filename
+
+    def _as_bytes(self, content):
+        return content.decode(formatter=SifFormatter()).encode('UTF-8')
 
     @classmethod
     def handlers(cls):
@@ -196,10 +227,7 @@ class Sif(Format):
             return FileContextHandler(f)
 
     def save(self, content, filename=None):
-        filename = self._filename_for_saving(filename)
-
-        with open(filename, 'wb') as f:
-            self._write_to_file(f, content)
+        self._save_bytes(self._as_bytes(content), filename)
 
 class Sifz(Format):
 
@@ -211,10 +239,7 @@ class Sifz(Format):
             return FileContextHandler(f)
 
     def save(self, content, filename=None):
-        filename = self._filename_for_saving(filename)
-
-        with gzip.open(filename, 'wb') as f:
-            self._write_to_file(f, content)
+        self._save_bytes(gzip.compress(self._as_bytes(content)), filename)
 
 class Sfg(Format):
     
-- 
2.43.0


From 3379a5661bd5516bf956a1155aed2d7934c8a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:25 +0000
Subject: [PATCH 44/77] fix: a failed save-as doesn't change what file an
 animation is from

---
 sangfroid/animation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index fcae9b4..f4fd36d 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -217,25 +217,27 @@ class Animation(Group):
         """
 
         if filename is None:
-            if self._format is None:
+            if self._format.filename is None:
                 raise ValueError(
                         "If you didn't give a filename at creation, "
                         "you must give one when you save."
                         )
+            new_format = self._format
             filename = self._format.filename
         else:
             new_format = Format.from_filename(filename,
                                               load = False,
                                               )
-            if new_format!=self._format:
-                # XXX copy the images over
-                self._format = new_format
 
-        self._format.save(
+        new_format.save(
                 content = self._soup,
                 filename = filename,
                 )
 
+        # Only now, in case saving failed.
+        # XXX copy the images over
+        self._format = new_format
+
 __all__ = [
         'Animation',
         ]
-- 
2.43.0


From 4e49b09a68902f9f4ae3582f0c8e285c38e7e47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:58 +0000
Subject: [PATCH 45/77] fix: new layers' time params have a unit, so they can
 be read

---
 sangfroid/layer/layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index a9d554a..a9c75cb 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -452,7 +452,10 @@ class _TimeButString(v.Time):
     our_type = str
 
     def _coerce(self, v):
-        return str(v)
+        if isinstance(v, (int, float)):
+            return f'{v}f'
+        else:
+            return str(v)
 
     @classmethod
     def get_name_for_tag(cls):
-- 
2.43.0


From 4f07cfb2dc017f08936eb3cbfa28988b84ebf029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:12 +0000
Subject: [PATCH 46/77] fix: the parts of a vector are always in the same order

---
 sangfroid/value/vector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index c9a0da5..4ba334a 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -108,10 +108,11 @@ class Vector(Value):
     def values(self):
         if self.is_animated:
             return None
-        return [self.our_type(v) for v in self.value.values()]
+        # in the same order as keys(), whatever the order in the file
+        return [v for k,v in self.items()]
 
     def items(self):
-        return [(k, self.our_type(v)) for k,v in self.value.items()]
+        return [(k, self.our_type(v)) for k,v in sorted(self.value.items())]
 
     def __len__(self):
         return len(self.value)
-- 
2.43.0


From 00a312b2c2dd3121e12e77862fb1d6db96e84f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:19 +0000
Subject: [PATCH 47/77] fix: refuse vectors which couldn't be read back

---
 sangfroid/value/vector.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 4ba334a..12e257e 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -61,6 +61,8 @@ class Vector(Value):
         else:
             self._raise_type_error()
 
+        members = self._check_members(members)
+
         if self.is_animated:
             self._tag.attrs = {}
 
@@ -75,6 +77,20 @@ class Vector(Value):
                 addendum.string = str(v)
             self._tag.append(addendum)
 
+    def _check_members(self, members):
+        """
+        Checks the members we've been given, before anything is changed.
+
+        Subclasses can override this if they need particular members.
+
+        Args:
+            members (dict): the proposed members
+
+        Returns:
+            dict
+        """
+        return members
+
     def __getitem__(self, key):
         result = self.get(key, default=None)
 
@@ -188,4 +204,15 @@ class Vector(Value):
         return c(tag)
 
 class X_Y(Vector):
-    pass
+    def _check_members(self, members):
+        if len(members)==0:
+            return dict([(k, 0.0) for k in self.FIELDS])
+
+        if sorted(members.keys())!=sorted(self.FIELDS):
+            self._raise_type_error()
+
+        for m in members.values():
+            # raises ValueError if it's not a number
+            self.our_type(m)
+
+        return dict([(k, members[k]) for k in self.FIELDS])
-- 
2.43.0


From 60245c872a4353f9e908e060d231909d0d990811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:37 +0000
Subject: [PATCH 48/77] fix: refuse to animate values which can't be animated

---
 sangfroid/value/canvas.py         | 2 ++
 sangfroid/value/transformation.py | 3 +++
 sangfroid/value/value.py          | 6 ++++++
 3 files changed, 11 insertions(+)

diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index 3b28a73..34da6b1 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -3,6 +3,8 @@ from sangfroid.value.value import Value
 
 @Value.handles_type()
 class Canvas(Value):
+
+    CAN_BE_ANIMATED = False
     @property
     def value(self):
 
diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index 6fab6f8..de99688 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -7,6 +7,9 @@ from copy import copy
 @Value.handles_type()
 class Composite(Value):
 
+    # as a whole, that is; the values inside it can be animated
+    CAN_BE_ANIMATED = False
+
     REQUIRED_KEYS = None
 
     def __init__(self, *args, **kwargs):
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 73317c6..5222e57 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -8,6 +8,7 @@ from sangfroid.t import T
 class Value:
 
     ANIMATED = 'animated'
+    CAN_BE_ANIMATED = True
 
     def __init__(self, *args):
 
@@ -55,6 +56,11 @@ class Value:
             pass
         elif whether:
 
+            if not self.CAN_BE_ANIMATED:
+                raise TypeError(
+                        f"{self.__class__.__name__} values "
+                        "can't be animated.")
+
             if adjust_contents:
                 # a copy of the tag, rather than self.value, because
                 # some values are rounded when they're read
-- 
2.43.0


From 77622017f7888175ce0d43737a1b8a3992f99899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:14 +0000
Subject: [PATCH 49/77] fix: attributes of a layer never mean those of a layer
 inside it

---
 sangfroid/field.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index f2cbdf8..47e063d 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -215,6 +215,11 @@ class ParamTagField(Field):
         if holder is None:
             raise AttributeError(self.name)
 
+        if obj._tag.name in ('layer', 'canvas') and \
+                holder.find_parent('layer') is not obj._tag:
+            # it belongs to a layer inside us
+            raise AttributeError(self.name)
+
         contents = [t for t in holder.children
                     if isinstance(t, bs4.Tag)]
         if len(contents)!=1:
-- 
2.43.0


From bdd5fd1da6070e918a835c47b50a72d0e52369d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:17 +0000
Subject: [PATCH 50/77] fix: keyframes are active unless the file says
 otherwise

---
 sangfroid/keyframe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sangfroid/keyframe.py b/sangfroid/keyframe.py
index 626fb76..7890045 100644
--- a/sangfroid/keyframe.py
+++ b/sangfroid/keyframe.py
@@ -16,7 +16,8 @@ class Keyframe:
 
     @property
     def active(self):
-        if self._tag['active']=='true':
+        # it's optional in the file
+        if self._tag.get('active', 'true')=='true':
             return True
         else:
             return False
-- 
2.43.0


From 79016ecda2539de73a94edfe6aca0134fb3be10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:27 +0000
Subject: [PATCH 51/77] fix: bywords: a line which appears twice is animated
 both times

---
 bywords/bywords.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 9094305..4def84a 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -48,14 +48,15 @@ class BywordsGroup:
     def __init__(self, group):
         self.group = group
 
+        # find the text only once, since adjusting a layer can change it
         self.texts = [
-                (self.tidy_string(self.text_of(item)), item,)
+                (self.text_of(item), item,)
                 for item in
                 list(reversed(group.find_all('text')))
                 ]
 
         self.full_text = ' '.join(
-                [s[0] for s in self.texts])
+                [self.tidy_string(s[0]) for s in self.texts])
 
     @classmethod
     def text_of(cls, item):
@@ -86,8 +87,7 @@ class BywordsGroup:
         if s!=self.full_text or s.strip()=='':
             return None
 
-        for _, item in self.texts:
-            text = self.text_of(item)
+        for text, item in self.texts:
             item['text'].is_animated = False
 
             words = [w for w in splitting_re.split(text)
-- 
2.43.0


From 60adf7ec984f1a0c2ba0d08d23cfe43dd7ef9fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:38 +0000
Subject: [PATCH 52/77] fix: an integer never equals a number it would have to
 be rounded to

---
 sangfroid/value/simple.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 283419c..b766355 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -110,6 +110,18 @@ class Integer(Numeric):
     def __int__(self):
         return self.value
 
+    def __eq__(self, other):
+        if self._either_is_animated(other):
+            return self._equal_as_animated(other)
+
+        # int() would round these
+        if isinstance(other, Real):
+            other = other.value
+        if isinstance(other, float):
+            return self.value==other
+
+        return super().__eq__(other)
+
 @Value.handles_type()
 class Bool(Simple):
     our_type = bool
-- 
2.43.0


From a86cc391b4ee02265ad33b3bd2f0374cf63815b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:05 +0000
Subject: [PATCH 53/77] fix: a T equals a Time value if that equals the T

---
 sangfroid/t.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 66ac2e5..65d8799 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -262,6 +262,9 @@ class T:
         return self._compare(other, lambda a,b:a<b)
 
     def __eq__(self, other):
+        if not isinstance(other, (T, float, int)):
+            # it may know how to compare itself with us
+            return NotImplemented
         return self._compare(other, lambda a,b:a==b)
 
     def __str__(self):
-- 
2.43.0


From bded7442bd8c13523dfa191c79f81c95991ea3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:27 +0000
Subject: [PATCH 54/77] fix: setting a canvas refuses to put a layer inside
 itself

---
 sangfroid/value/canvas.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index 34da6b1..4b93632 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -34,6 +34,9 @@ class Canvas(Value):
             if not isinstance(layer, Layer):
                 raise TypeError(type(layer))
 
+            if any(layer.tag is t for t in self._tag.parents):
+                raise ValueError("You can't put a layer inside itself.")
+
         self._tag.clear()
 
         for layer in v:
-- 
2.43.0


From 52a47973fd4a25cca6608a4fd6304b4bd70ac888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:01 +0000
Subject: [PATCH 55/77] fix: refuse colour strings with signs or spaces in them

---
 sangfroid/value/color.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index 9ecd76a..7f3a726 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -1,3 +1,4 @@
+import string
 import bs4
 from sangfroid.value.value import Value
 
@@ -80,6 +81,10 @@ class Color(Value):
             else:
                 _raise_format_error()
 
+            # int() would take spaces and signs as well
+            if not all(c in string.hexdigits for c in v):
+                _raise_format_error()
+
             result = tuple(
                 round(int(v[i*2:i*2+2], 16)/255, 6)
                 for i in range(4))
-- 
2.43.0


From 47afbb4f57d6c24e6fbe9243631904b4bbd37675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 56/77] fix: say which waypoint has no value, or several

---
 sangfroid/value/value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 5222e57..e8b995e 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -624,10 +624,10 @@ class Waypoint:
         v = [t for t in tag.children if isinstance(t, bs4.element.Tag)]
 
         if len(v)==0:
-            raise ValueError(f"Waypoint without a value: {w}")
+            raise ValueError(f"Waypoint without a value: {tag}")
         elif len(v)!=1:
             raise ValueError(
-                    f"Waypoint with multiple values: {w}")
+                    f"Waypoint with multiple values: {tag}")
         elif v[0].name==Value.ANIMATED:
             raise ValueError("Values in waypoints cannot themselves "
                              "be animated")
-- 
2.43.0


From e9fb477c1bb95a94ff246fd7001ea4728bf9580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:07 +0000
Subject: [PATCH 57/77] fix: the waypoints of a timeline are in order, even if
 those in the file aren't

---
 sangfroid/value/value.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index e8b995e..4bad758 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -146,7 +146,7 @@ class Value:
 
     def _waypoints(self):
         """
-        A dict of Waypoints on our timeline.
+        A dict of Waypoints on our timeline, in order of time.
 
         If we're not animated, the dict will have no members.
 
@@ -161,10 +161,10 @@ class Value:
 
         our_type = self._tag['type']
 
-        values = [Waypoint.from_tag(wt,
-                                    our_type = our_type,
-                                    )
-                  for wt in waypoints]
+        values = sorted([Waypoint.from_tag(wt,
+                                           our_type = our_type,
+                                           )
+                         for wt in waypoints])
 
         result = dict([(v.time, v) for v in values])
 
-- 
2.43.0


From 2fd6c2f333c532cc384776dd289980bdaa73e079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:07 +0000
Subject: [PATCH 58/77] fix: colours brighter than white, or darker than black,
 have sensible hex and are distinct

---
 sangfroid/value/color.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index 7f3a726..628c6e4 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -7,12 +7,18 @@ RGBA = 'rgba'
 @Value.handles_type()
 class Color(Value):
 
+    def _levels(self):
+        """
+        Our channels, as integers. 0 to 255 is the range of a hex string,
+        but colours in Synfig may lie outside it.
+        """
+        return [int(round(c*255.0)) for c in self.as_tuple()]
+
     @property
     def value(self):
         result = '#' + (''.join([
-                '%02x' % (
-                    int(round(float(self._tag(dimension)[0].string)*255.0)),)
-            for dimension in RGBA
+                '%02x' % (min(max(level, 0), 255),)
+                for level in self._levels()
             ]))
 
         if result.endswith('ff'):
@@ -32,14 +38,12 @@ class Color(Value):
             return self._equal_as_animated(other)
 
         if isinstance(other, Color):
-            return self.value == other.value
+            return self._levels() == other._levels()
         elif isinstance(other, str):
-            other = other.lower()
-            if not other.startswith('#'):
-                other = f'#{other}'
-            if len(other)==9 and other.endswith('ff'):
-                other = other[:-2]
-            return str(self) == other
+            try:
+                return self == Color(other)
+            except ValueError:
+                return False
         elif isinstance(other, tuple):
             if len(other)==3:
                 other = other+(1.0,)
-- 
2.43.0


From 6f522ed73ba85d459a30ac623d999c7c158c8e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:47 +0000
Subject: [PATCH 59/77] fix: write down blend methods as Python expressions
 which work

---
 sangfroid/value/blendmethod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/blendmethod.py b/sangfroid/value/blendmethod.py
index 2b5e2f8..bddab5e 100644
--- a/sangfroid/value/blendmethod.py
+++ b/sangfroid/value/blendmethod.py
@@ -45,4 +45,8 @@ class BlendMethod(Integer):
         return cls(t)
 
     def as_python_expression(self):
-        return 'v.'+str(self)
+        for name, value in vars(BlendMethod).items():
+            if name.isupper() and value==self.value:
+                return f'v.BlendMethod.{name}'
+
+        return super().as_python_expression()
-- 
2.43.0


From f079ff6e24be8abdc1d2824da2edd3934ae2fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:55 +0000
Subject: [PATCH 60/77] fix: refuse times which aren't finite

---
 sangfroid/t.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 65d8799..047f997 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -88,7 +88,7 @@ class T:
         else:
             self._fps = float(root_tag['fps'])
         
-            if self._fps<=0.0:
+            if not 0.0<self._fps<math.inf:
                 raise ValueError(f"FPS must be positive: {self._fps}")
 
         try:
@@ -121,6 +121,9 @@ class T:
         except TypeError:
             raise ValueError(f"Invalid time specification: {value}")
 
+        if not math.isfinite(self._frames):
+            raise ValueError(f"Invalid time specification: {value}")
+
         assert isinstance(self._frames, float)
 
     def _parse_time_spec(self, s):
-- 
2.43.0


From 3ef5878d0d20b947c527a22fc874cb0dae0de31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:00 +0000
Subject: [PATCH 61/77] fix: refuse colours whose channels aren't finite

---
 sangfroid/value/color.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index 628c6e4..aced093 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -1,3 +1,4 @@
+import math
 import string
 import bs4
 from sangfroid.value.value import Value
@@ -73,6 +74,9 @@ class Color(Value):
 
             result = tuple([float(d) for d in result])
 
+            if not all(math.isfinite(d) for d in result):
+                _raise_format_error()
+
         elif isinstance(v, str):
 
             if v.startswith('#'):
-- 
2.43.0


From dc9840bdf36df954b4cd23652d37af64604fd7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:03 +0000
Subject: [PATCH 62/77] fix: write vectors as numbers, even if they were given
 as something else

---
 sangfroid/value/vector.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 12e257e..d5ba23d 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -211,8 +211,5 @@ class X_Y(Vector):
         if sorted(members.keys())!=sorted(self.FIELDS):
             self._raise_type_error()
 
-        for m in members.values():
-            # raises ValueError if it's not a number
-            self.our_type(m)
-
-        return dict([(k, members[k]) for k in self.FIELDS])
+        # raises ValueError if it's not a number
+        return dict([(k, self.our_type(members[k])) for k in self.FIELDS])
-- 
2.43.0


From b348ad0a2a71eaeb7654056199b7a05be4bcac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:20 +0000
Subject: [PATCH 63/77] fix: waypoints read the same before and after saving,
 if the frame rate was different

---
 sangfroid/value/value.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 4bad758..20d23bd 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -614,6 +614,12 @@ class Waypoint:
 
         try:
             time = T(tag['time'], ref=tag)
+
+            if isinstance(tag['time'], T) and tag['time'].fps not in (
+                    None, time.fps):
+                # It was made for a different frame rate.
+                # Treat it the way it'll be saved.
+                time = T(str(tag['time']), ref=tag)
         except ValueError:
             raise ValueError(
                     "If a value isn't attached to a document, "
-- 
2.43.0


From 9cd19ff4df3503985a211f68a26fe52e40e3f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:24 +0000
Subject: [PATCH 64/77] fix: refuse frame rates which would make every time
 unreadable

---
 sangfroid/animation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index f4fd36d..af15f2c 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -6,6 +6,7 @@ from sangfroid.keyframe import Keyframe
 from sangfroid.value.color import Color
 from sangfroid.t import T
 import bs4
+import math
 import sangfroid.value as v
 
 class MetadataTagField(Field):
@@ -38,6 +39,13 @@ class TagTimeAttrField(TagAttrField):
                         T(value, ref = obj._tag),
                         )
 
+class FPSField(TagAttrField):
+    def __set__(self, obj, value):
+        if not 0.0<float(value)<math.inf:
+            raise ValueError(f"FPS must be positive: {value}")
+
+        super().__set__(obj, value)
+
 class Animation(Group):
     """
     A Synfig animation.
@@ -66,7 +74,7 @@ class Animation(Group):
     view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25',
                             name='view-box') # XXX wrong
     antialias = TagAttrField(int,         1) # XXX enum?
-    fps = TagAttrField(float,       24.0,
+    fps = FPSField(float,       24.0,
         doc = """
             The number of frames per second. Usually 24.
 
-- 
2.43.0


From 3f2b2f4ea209329d2c4da6e94017b02e0a78e9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:29 +0000
Subject: [PATCH 65/77] fix: setting part of a transformation is seen by values
 fetched from it before

---
 sangfroid/value/transformation.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index de99688..f22e920 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -88,11 +88,35 @@ class Composite(Value):
         # Keys which weren't mentioned keep their existing values.
         for old_subtag in self._tag.find_all(True, recursive=False):
             if old_subtag.name in new_subtags:
-                old_subtag.replace_with(new_subtags.pop(old_subtag.name))
+                self._replace_subtag(
+                        old_subtag,
+                        new_subtags.pop(old_subtag.name),
+                        new_value[old_subtag.name],
+                        )
 
         for new_subtag in new_subtags.values():
             self.tag.append(new_subtag)
 
+    def _replace_subtag(self, old_subtag, new_subtag, v):
+        """
+        Replaces the value of one of our keys.
+
+        Where we can, we change the existing tag, so that other Values
+        with the same tag see the change.
+        """
+        value_type = self.REQUIRED_KEYS[old_subtag.name]
+        old_tags = old_subtag.find_all(True, recursive=False)
+        new_tag = new_subtag.find(True)
+
+        if len(old_tags)!=1:
+            old_subtag.replace_with(new_subtag)
+        elif isinstance(v, value_type) or (
+                old_tags[0].name not in (new_tag.name, self.ANIMATED)):
+            # it may be animated, so copy the whole thing
+            value_type(old_tags[0])._replace_contents(new_tag)
+        else:
+            value_type(old_tags[0]).value = v
+
     def __getattr__(self, key):
         result = self.get(key, default=None)
 
-- 
2.43.0


From 1d5e8ad4f944cd97b0592388417352c077506eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 66/77] fix: setting a co-ordinate of a vector changes the
 vector

---
 sangfroid/value/vector.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index d5ba23d..4d782d3 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -39,6 +39,20 @@ class Vector(Value):
         v = self.our_type(s.text)
         return v
 
+    def __setattr__(self, f, v):
+        if f not in self.FIELDS:
+            super().__setattr__(f, v)
+            return
+
+        if self.is_animated:
+            raise ValueError(
+                    f"I can't set {f} by itself, because I'm animated.")
+
+        members = self._check_members(self.value | {f: v})
+
+        for field in self._tag.find_all(f, recursive=False):
+            field.string = '%.010f' % (members[f],)
+
     @value.setter
     def value(self, v):
 
-- 
2.43.0


From 9ecb7b4f0f46064676ab395156b9b3e1a9f88e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:12 +0000
Subject: [PATCH 67/77] fix: setting part of a transformation as an attribute
 changes the transformation

---
 sangfroid/value/transformation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index f22e920..81f1ae7 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -125,6 +125,12 @@ class Composite(Value):
 
         return result
 
+    def __setattr__(self, key, v):
+        if key in (self.REQUIRED_KEYS or ()):
+            self.value = {key: v}
+        else:
+            super().__setattr__(key, v)
+
     def __getitem__(self, key):
         result = self.get(key=key, default=None)
         if result is None:
-- 
2.43.0


From f772d2513d8bf988dc41fff2ae8cfc5ecd3ef31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:58 +0000
Subject: [PATCH 68/77] fix: putting a waypoint in a timeline leaves the
 original waypoint as it was

---
 sangfroid/value/value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 20d23bd..97ce015 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -450,7 +450,8 @@ class Timeline:
         t = self._ensure_fps(t)
 
         if isinstance(v, Waypoint):
-            new_waypoint = v
+            # Take a copy, because the original might be in use elsewhere.
+            new_waypoint = copy.copy(v)
             new_waypoint.time = t
         elif isinstance(v, self.parent.__class__):
             new_waypoint = Waypoint(
-- 
2.43.0


From ae5633bf9144f065508521b0b68b8a81034b78a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:11 +0000
Subject: [PATCH 69/77] fix: the template replacer keeps the line endings of a
 file

---
 sangfroid/template/replacer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sangfroid/template/replacer.py b/sangfroid/template/replacer.py
index 33ba3a2..a66370f 100644
--- a/sangfroid/template/replacer.py
+++ b/sangfroid/template/replacer.py
@@ -41,7 +41,7 @@ class Replacer:
         changed = False
         ignore = False
 
-        with open(filename, 'r') as f:
+        with open(filename, 'r', newline='') as f:
 
             for i, line in enumerate(f):
                 if self.verbose:
@@ -92,7 +92,7 @@ class Replacer:
                         result += '\n'
                         ignore = False
 
-                    line = (' '*current_indent) + line.strip() + '\n'
+                    line = (' '*current_indent) + line.lstrip()
                     current_block_name = None
                     current_indent = None
 
@@ -114,7 +114,7 @@ class Replacer:
     def write_to(cls, filename, text):
         temp_filename = filename+'.1'
 
-        with open(temp_filename, 'w') as f:
+        with open(temp_filename, 'w', newline='') as f:
             f.write(text)
         os.rename(temp_filename, filename)
         print("Written:", filename)
-- 
2.43.0


From 1f32df39d98fc379f9daf3cc1574a91c576d9b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:17 +0000
Subject: [PATCH 70/77] fix: the template replacer does not use a file which is
 already there as its temporary file

---
 sangfroid/template/replacer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sangfroid/template/replacer.py b/sangfroid/template/replacer.py
index a66370f..b442ee7 100644
--- a/sangfroid/template/replacer.py
+++ b/sangfroid/template/replacer.py
@@ -1,6 +1,7 @@
 import os
 import glob
 import re
+import uuid
 
 CLASSNAME_RE = re.compile(r'^class ([A-Za-z0-9_]+)')
 START_BLOCK_RE = re.compile(r'^( *)### {{{ *([A-Za-z0-9_]*)')
@@ -112,9 +113,9 @@ class Replacer:
 
     @classmethod
     def write_to(cls, filename, text):
-        temp_filename = filename+'.1'
+        temp_filename = f'{filename}.{uuid.uuid4().hex}.tmp'
 
-        with open(temp_filename, 'w', newline='') as f:
+        with open(temp_filename, 'x', newline='') as f:
             f.write(text)
         os.rename(temp_filename, filename)
         print("Written:", filename)
-- 
2.43.0


From b51a1ad5d2c99d2c235e99baa3864401a129374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:40 +0000
Subject: [PATCH 71/77] fix: a gradient with something in it other than colours
 is refused when it is read

---
 sangfroid/value/gradient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/gradient.py b/sangfroid/value/gradient.py
index faf4d82..f556603 100644
--- a/sangfroid/value/gradient.py
+++ b/sangfroid/value/gradient.py
@@ -6,7 +6,10 @@ from sangfroid.value.color import Color
 class Gradient(Value):
     @property
     def value(self):
-        colours = self._tag.find_all('color')
+        colours = self._tag.find_all(True, recursive=False)
+        if any(c.name!='color' for c in colours):
+            raise ValueError(
+                    f"there should only be colours in a gradient: {self._tag}")
         if len(colours)<2:
             self._raise_colour_count_error()
 
-- 
2.43.0


From bf66747925c6eb0007b9caf04ceed735519ce0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:52 +0000
Subject: [PATCH 72/77] fix: the size of an animation agrees with its width and
 height when the file lacks them

---
 sangfroid/animation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index af15f2c..7c70d62 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -156,10 +156,7 @@ class Animation(Group):
         Type:
             (int, int)
         """
-        return (
-                int(self._tag.attrs['width']),
-                int(self._tag.attrs['height']),
-                )
+        return (self.width, self.height)
 
     @property
     def viewbox(self):
-- 
2.43.0


From 22ab6c54f54bfbf5df1cc5b583baf37ea54a81ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:54 +0000
Subject: [PATCH 73/77] fix: a block begun inside another is refused, not run
 together with it

---
 sangfroid/template/replacer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/template/replacer.py b/sangfroid/template/replacer.py
index b442ee7..039dea5 100644
--- a/sangfroid/template/replacer.py
+++ b/sangfroid/template/replacer.py
@@ -57,6 +57,9 @@ class Replacer:
 
                 m = START_BLOCK_RE.search(line)
                 if m:
+                    if current_block_name is not None:
+                        raise ValueError(f"{filename}:{i}: beginning block inside another")
+
                     current_indent = len(m.groups()[0])
                     current_block_name = m.groups()[1]
                     if current_block_name == '':
-- 
2.43.0


From a5415392a30a79c09d2407fc0b1b7aec71cc7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:07 +0000
Subject: [PATCH 74/77] fix: the view box and background of an animation have
 their defaults when the file lacks them

---
 sangfroid/animation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 7c70d62..c5cfe62 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -171,7 +171,7 @@ class Animation(Group):
         """
         return tuple([
             float(n) for n in
-            self._tag.attrs['view-box'].split(' ')
+            self.view_box.split(' ')
             ])
 
 
@@ -200,7 +200,7 @@ class Animation(Group):
         """
         triplet = tuple([
             float(n) for n in
-            self._tag.attrs['bgcolor'].split(' ')
+            self.bgcolor.split(' ')
             ])
         result = Color(*triplet)
         return result
-- 
2.43.0


From 1de77fd07cc65b80bf7c66c5bcfceed5cc180e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:29 +0000
Subject: [PATCH 75/77] fix: blank comments are kept as they were

---
 sangfroid/format.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 92ff310..905fc43 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -2,7 +2,7 @@ import gzip
 import os
 import shutil
 import uuid
-from bs4 import BeautifulSoup
+from bs4 import BeautifulSoup, Comment
 from bs4.dammit import EntitySubstitution
 from bs4.formatter import XMLFormatter
 
@@ -202,9 +202,21 @@ class SifFormatter(XMLFormatter):
 # Tags whose text is the user's own, so that whitespace is significant.
 PRESERVE_WHITESPACE_TAGS = {'string', 'name', 'desc', 'keyframe'}
 
+class SifSoup(BeautifulSoup):
+    """
+    Like BeautifulSoup, except that blank comments stay as they are.
+    """
+    def endData(self, containerClass=None):
+        if containerClass is Comment:
+            comment = ''.join(self.current_data)
+            self.current_data = []
+            self.object_was_parsed(Comment(comment))
+        else:
+            super().endData(containerClass)
+
 class FileContextHandler:
     def __init__(self, f):
-        self.soup = BeautifulSoup(
+        self.soup = SifSoup(
                 f,
                 features = 'xml',
                 preserve_whitespace_tags = PRESERVE_WHITESPACE_TAGS,
-- 
2.43.0


From f2ead0cce5dc85b7a93a0ff87a0db3ef9de150ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:47 +0000
Subject: [PATCH 76/77] fix: a vector with two of the same co-ordinate is
 refused

---
 sangfroid/value/vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 4d782d3..1766e85 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -200,12 +200,12 @@ class Vector(Value):
                 start_tag = first_child_tag(waypoint_tag)
 
         if c is None:
-            fields = set([
+            fields = sorted([
                 f.name for f in start_tag.children
                 if isinstance(f, bs4.Tag)
                 ])
 
-            if fields=={'x', 'y'}:
+            if fields==['x', 'y']:
                 c = X_Y
             else:
                 raise TypeError(
-- 
2.43.0


From 06c4aeda5b434d276ee3ec8d268dcab412dbbc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:52 +0000
Subject: [PATCH 77/77] fix: a colour with two of the same channel is refused

---
 sangfroid/value/color.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index aced093..5346770 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -27,10 +27,15 @@ class Color(Value):
         return result
 
     def as_tuple(self):
-        result = tuple([
-            float(self._tag(dimension)[0].string)
-            for dimension in RGBA
-            ])
+        def channel(dimension):
+            found = self._tag(dimension)
+            if len(found)!=1:
+                raise ValueError(
+                        f"there should be one {dimension} in a colour: "
+                        f"{self._tag}")
+            return float(found[0].string)
+
+        result = tuple([channel(dimension) for dimension in RGBA])
         return result
 
     def __eq__(self, other):
-- 
2.43.0

