From 319750d1842e2c28d143313e84b58dec2a5abb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 01/80] fix: save exactly the current labels, whatever the old
 paux file holds

Labels of earlier runs were kept forever in the section of the renderer,
and an old file that could be unpickled but did not contain the expected
dictionaries (or could not be removed) made saving raise.
---
 plasTeX/Context.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index aaca1e9..c16134b 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -243,15 +243,14 @@ class Context(object):
         if os.path.exists(filename):
             try:
                 with open(filename, 'rb') as fh:
-                    d = pickle.load(fh)
-                    if rtype not in list(d.keys()):
-                        d[rtype] = {}
-            except:
-                os.remove(filename)
-                d = {rtype:{}}
+                    d = dict(pickle.load(fh))
+            except Exception:
+                # Unusable file, it is overwritten below
+                d = {}
         else:
-            d = {rtype:{}}
-        data = d[rtype]
+            d = {}
+        # Labels from previous runs may not exist anymore
+        data = d[rtype] = {}
         for key, value in list(self.persistentLabels.items()):
             data[key] = value.persist()
         try:
-- 
2.43.0


From 2c3ae9699dc6cbe81e159c01c8c1446ca96b72fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 02/80] fix: restore all labels of a paux file or none, and
 reset warnOnUnrecognized

An exception while restoring a damaged paux file left warnings about
unrecognized commands switched off and a part of the labels loaded.
---
 plasTeX/Context.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index c16134b..1c8d138 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -275,19 +275,23 @@ class Context(object):
         import pickle
         if not os.path.exists(filename):
             return
+        wou = self.warnOnUnrecognized
         try:
-            d = pickle.load(open(filename, 'rb'))
+            with open(filename, 'rb') as fh:
+                d = pickle.load(fh)
             try: data = d[rtype]
             except KeyError: return
-            wou = self.warnOnUnrecognized
             self.warnOnUnrecognized = False
+            labels = {}
             for key, value in list(data.items()):
                 n = self[value.get('macroName', 'Macro')]()
                 n.restore(value)
-                self.labels[key] = n
-            self.warnOnUnrecognized = wou
+                labels[key] = n
+            self.labels.update(labels)
         except Exception as msg:
             log.warning('Could not load auxiliary information. (%s)' % msg)
+        finally:
+            self.warnOnUnrecognized = wou
 
     @property
     def isMathMode(self):
-- 
2.43.0


From c5463714c5fd35d6a015b04ef5781774755f7c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 03/80] fix: detect damaged paux files by a checksum after the
 pickled data

A flipped bit in a paux file went unnoticed whenever the file could still be
unpickled, so that wrong numbers, titles or link targets were restored.
---
 plasTeX/Context.py | 47 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 1c8d138..a77a949 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1,5 +1,8 @@
 import sys
 import os
+import io
+import pickle
+import zlib
 import configparser
 import contextlib
 import re
@@ -27,6 +30,39 @@ stacklog = getLogger('context.stack')
 macrolog = getLogger('context.macros')
 
 
+# Tag of the checksum at the end of the files written by Context.persist
+PAUX_TAG = b'\n#crc32:'
+
+def pauxChecksum(content):
+    """ Checksum line that is written after the pickled data in a paux file """
+    return PAUX_TAG + b'%08x' % zlib.crc32(content)
+
+def readPaux(filename):
+    """
+    Load the data saved by Context.persist
+
+    Required Arguments:
+    filename -- the name of the file with the saved data
+
+    Returns: dictionary of saved data, indexed by renderer name.  An exception
+    is raised if the file is damaged.
+
+    """
+    with open(filename, 'rb') as fh:
+        content = fh.read()
+    size = len(content) - len(pauxChecksum(b''))
+    if size > 0 and content.startswith(PAUX_TAG, size):
+        if content[size:] != pauxChecksum(content[:size]):
+            raise ValueError('checksum mismatch in %s' % filename)
+        content = content[:size]
+    # Files without a checksum contain the pickled data and nothing else
+    fh = io.BytesIO(content)
+    data = pickle.load(fh)
+    if fh.read(1) or not isinstance(data, dict):
+        raise ValueError('unexpected data in %s' % filename)
+    return data
+
+
 class ContextItem(dict):
     """
     Localized macro/category code stack element
@@ -239,11 +275,9 @@ class Context(object):
             renderer may be different.
 
         """
-        import pickle
         if os.path.exists(filename):
             try:
-                with open(filename, 'rb') as fh:
-                    d = dict(pickle.load(fh))
+                d = readPaux(filename)
             except Exception:
                 # Unusable file, it is overwritten below
                 d = {}
@@ -255,7 +289,8 @@ class Context(object):
             data[key] = value.persist()
         try:
             with open(filename, 'wb') as fh:
-                pickle.dump(d, fh)
+                content = pickle.dumps(d)
+                fh.write(content + pauxChecksum(content))
         except Exception as msg:
             log.warning('Could not save auxiliary information. (%s)' % msg)
 
@@ -272,13 +307,11 @@ class Context(object):
             renderer may be different.
 
         """
-        import pickle
         if not os.path.exists(filename):
             return
         wou = self.warnOnUnrecognized
         try:
-            with open(filename, 'rb') as fh:
-                d = pickle.load(fh)
+            d = readPaux(filename)
             try: data = d[rtype]
             except KeyError: return
             self.warnOnUnrecognized = False
-- 
2.43.0


From 8a76d6e2cbdf18cfd0c59292acfabf46a83cf484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 04/80] fix: xr: ignore damaged paux files

---
 plasTeX/Packages/xr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Packages/xr.py b/plasTeX/Packages/xr.py
index 00a10c7..017ffc0 100644
--- a/plasTeX/Packages/xr.py
+++ b/plasTeX/Packages/xr.py
@@ -1,7 +1,7 @@
-import pickle
 import os
 from typing import Dict
 from plasTeX import Command
+from plasTeX.Context import readPaux
 from plasTeX.Logging import getLogger
 
 log = getLogger()
@@ -11,8 +11,8 @@ def load_paux(name: str) -> Dict:
         log.warning('Could not find {}'.format(name))
         return dict()
     try:
-        data = pickle.load(open(name, 'rb'))
-    except:
+        data = readPaux(name)
+    except Exception:
         log.warning('Failed to load {}'.format(name))
         return dict()
     return data
-- 
2.43.0


From fcc7ca556c06260590cc1c3ce4f5f9a8dc203360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 05/80] fix: xr: only use the labels saved by the current
 renderer

---
 plasTeX/Packages/xr.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Packages/xr.py b/plasTeX/Packages/xr.py
index 017ffc0..751077b 100644
--- a/plasTeX/Packages/xr.py
+++ b/plasTeX/Packages/xr.py
@@ -29,8 +29,9 @@ class externaldocument(Command):
         if url:
             url = url.textContent.rstrip('/') + '/'
         labels = self.ownerDocument.context.labels
-        for block in load_paux(pauxname).values():
-            for lbl, val in block.items():
-                labels[prefix + lbl] = val
-                if url:
-                    labels[prefix + lbl]['url'] = url + labels[prefix + lbl]['url']
+        rname = self.config['general']['renderer']
+        block = load_paux(pauxname).get(rname, {})
+        for lbl, val in block.items():
+            labels[prefix + lbl] = val
+            if url:
+                labels[prefix + lbl]['url'] = url + labels[prefix + lbl]['url']
-- 
2.43.0


From 94a8b3f2eea8a3d45850696cbf3fe8023d6983a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 06/80] fix: ignore paux files that do not contain label data

---
 plasTeX/Context.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index a77a949..a73b4f2 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -58,8 +58,12 @@ def readPaux(filename):
     # Files without a checksum contain the pickled data and nothing else
     fh = io.BytesIO(content)
     data = pickle.load(fh)
-    if fh.read(1) or not isinstance(data, dict):
+    if fh.read(1):
         raise ValueError('unexpected data in %s' % filename)
+    for section in data.values():
+        for attrs in section.values():
+            if not isinstance(attrs, dict):
+                raise ValueError('unexpected data in %s' % filename)
     return data
 
 
-- 
2.43.0


From 5876b260f595a43eb41abcd9d879d45f982c3c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:09 +0000
Subject: [PATCH 07/80] fix: labels containing _ or ^ in math mode

The characters were expanded to sub- and superscripts when the \label or \ref
was inside a formula, so that the label was never found.
---
 plasTeX/TeX.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 31d8073..85dcf1c 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -83,10 +83,10 @@ class TeX(object):
             chr: self.castString,
             'char': self.castString,
             'cs': self.castControlSequence,
-            'label': self.castLabel,
-            'id': self.castLabel,
-            'idref': self.castRef,
-            'ref': self.castRef,
+            'label': (self.castLabel, {'_':12,'^':12}),
+            'id': (self.castLabel, {'_':12,'^':12}),
+            'idref': (self.castRef, {'_':12,'^':12}),
+            'ref': (self.castRef, {'_':12,'^':12}),
             'nox': lambda x,**y: x,
             'list': self.castList,
             list: self.castList,
-- 
2.43.0


From 03093b59e4c1562d6ca47656b19417d130af534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:23 +0000
Subject: [PATCH 08/80] fix: keep the math and list nesting trackers per
 document

---
 plasTeX/Base/LaTeX/Lists.py    | 10 +++++-----
 plasTeX/Base/TeX/Primitives.py |  7 +++----
 plasTeX/Context.py             |  6 ++++++
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index 0a989d7..880c6c7 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -13,7 +13,6 @@ class enumivname(Command): str = ''
 
 class List(Environment):
     """ Base class for all list-based environments """
-    depth = 0
     counters = ['enumi','enumii','enumiii','enumiv']
     blockType = True
 
@@ -26,7 +25,7 @@ class List(Environment):
         def invoke(self, tex):
             """ Set up counter for this list depth """
             try:
-                self.counter = List.counters[List.depth-1]
+                self.counter = List.counters[self.ownerDocument.context.listDepth-1]
                 self.position = self.ownerDocument.context.counters[self.counter].value + 1
             except (KeyError, IndexError):
                 pass
@@ -50,12 +49,13 @@ class List(Environment):
 
     def invoke(self, tex):
         """ Set list nesting depth """
+        context = self.ownerDocument.context
         if self.macroMode != Environment.MODE_END:
-            List.depth += 1
+            context.listDepth += 1
         else:
-            List.depth -= 1
+            context.listDepth -= 1
         try:
-            for i in range(List.depth, len(List.counters)):
+            for i in range(context.listDepth, len(List.counters)):
                 self.ownerDocument.context.counters[List.counters[i]].setcounter(0)
         except (IndexError, KeyError):
             pass
diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 288f62e..05018bf 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -46,9 +46,9 @@ class BoxCommand(Command):
     args = 'self'
     mathMode = False
     def parse(self, tex):
-        MathShift.inEnv.append(None)
+        self.ownerDocument.context.mathShifts.append(None)
         Command.parse(self, tex)
-        MathShift.inEnv.pop()
+        self.ownerDocument.context.mathShifts.pop()
         return self.attributes
 
 class hbox(BoxCommand): pass
@@ -64,7 +64,6 @@ class MathShift(Command):
 
     """
     macroName = 'active::$'
-    inEnv = []
 
     def invoke(self, tex):
         r"""
@@ -73,7 +72,7 @@ class MathShift(Command):
         account \mbox{}es.
 
         """
-        inEnv = type(self).inEnv
+        inEnv = self.ownerDocument.context.mathShifts
 
         current = self.ownerDocument.createElement('math')
         for t in tex.itertokens():
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index a73b4f2..d3b25e2 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -236,6 +236,12 @@ class Context(object):
         # Holds the current environment name stack
         self._currenvir = []
 
+        # Math shifts (and boxes, as None) that are currently open
+        self.mathShifts = []
+
+        # Nesting depth of list environments
+        self.listDepth = 0
+
         # Holds the terms for various languages
         self.languages = {}
         self.terms = {}
-- 
2.43.0


From a2559d9391ee02d29ad0f3d6b600a1d5d98094d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 09/80] fix: re-enable parameters after reading an argument of
 type any

---
 plasTeX/TeX.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 85dcf1c..23bd7c5 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -721,7 +721,9 @@ class TeX(object):
                 if t.catcode == Token.CC_SPACE:
                     break
                 toks.append(t)
-            return self.expandTokens(toks, parentNode=parentNode), self.source(toks)
+            res = self.expandTokens(toks, parentNode=parentNode)
+            ParameterCommand.enable()
+            return res, self.source(toks)
 
         if type in ['cs']:
             expanded = False
-- 
2.43.0


From 58449790a890843a4393f7b753eace549fb3acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 10/80] fix: keep register values per document

---
 plasTeX/Context.py | 50 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index d3b25e2..96177e4 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -239,6 +239,9 @@ class Context(object):
         # Math shifts (and boxes, as None) that are currently open
         self.mathShifts = []
 
+        # Subclasses of macro classes that are specific to this document
+        self._localClasses = {}
+
         # Nesting depth of list environments
         self.listDepth = 0
 
@@ -769,10 +772,53 @@ class Context(object):
 #           if obj.categories is not None:
 #               newcontext.categories = obj.categories
 
-            newcontext.update(obj.locals())
+            for key, value in obj.locals().items():
+                newcontext[key] = self.localClass(value)
 
         return newcontext
 
+    def localClass(self, cls):
+        """
+        Get the class to use for a macro class in this document
+
+        The values of registers are stored in their classes, so each
+        document needs its own.  For all other macros the class itself
+        is used, unless it has been customized.
+
+        Required Arguments:
+        cls -- the macro class
+
+        See Also:
+        self.customize()
+
+        """
+        if cls not in self._localClasses and \
+           isinstance(cls, type) and issubclass(cls, plasTeX.ParameterCommand):
+            self.customize(cls)
+        return self._localClasses.get(cls, cls)
+
+    def customize(self, cls, **attributes):
+        """
+        Change class attributes of a macro in this document only
+
+        Required Arguments:
+        cls -- the macro class.  In this document, a subclass of it will
+            be used in its place.
+
+        Keyword Arguments:
+        attributes -- the class attributes to set
+
+        """
+        newclass = self._localClasses.get(cls)
+        if newclass is None:
+            newclass = type(cls.__name__, (cls,), {'__module__': cls.__module__})
+            self._localClasses[cls] = self._localClasses[newclass] = newclass
+        for key, value in attributes.items():
+            setattr(newclass, key, value)
+        name = macroName(cls)
+        if self.contexts[0].get(name) is cls:
+            self[name] = newclass
+
     def importMacros(self, context):
         """
         Import macros from given context into the global namespace
@@ -783,7 +829,7 @@ class Context(object):
         """
         for value in list(context.values()):
             if ismacro(value):
-                self[macroName(value)] = value
+                self[macroName(value)] = self.localClass(value)
 #           elif isinstance(value, Context):
 #               self.importMacros(value)
 
-- 
2.43.0


From 6c3f055eac3902a175db7fbf3c7bf93680849cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 11/80] fix: apply class and package customizations of macros
 to the current document only

---
 plasTeX/Packages/article.py  | 13 +++----
 plasTeX/Packages/beamer.py   | 68 +++++++++++++++++++-----------------
 plasTeX/Packages/cleveref.py |  2 ++
 plasTeX/Packages/hyperref.py |  7 ++--
 plasTeX/Packages/natbib.py   |  6 +++-
 plasTeX/Packages/verse.py    |  5 +--
 6 files changed, 57 insertions(+), 44 deletions(-)

diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index dd4607d..db455b9 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -5,12 +5,13 @@ from plasTeX.Packages import report
 def ProcessOptions(options, document): # type: ignore
     report.ProcessOptions(options, document)
     document.context['thesection'].format = '${section}'
-    document.context['theindex'].counter = 'section'
-    document.context['theindex'].level = Environment.SECTION_LEVEL
-    document.context['printindex'].counter = 'section'
-    document.context['printindex'].level = Command.SECTION_LEVEL
-    document.context['bibliography'].counter = 'section'
-    document.context['bibliography'].level = Command.SECTION_LEVEL
+    context = document.context
+    context.customize(context['theindex'],
+                      counter='section', level=Environment.SECTION_LEVEL)
+    context.customize(context['printindex'],
+                      counter='section', level=Command.SECTION_LEVEL)
+    context.customize(context['bibliography'],
+                      counter='section', level=Command.SECTION_LEVEL)
 
 class appendix(Command): # type: ignore
 
diff --git a/plasTeX/Packages/beamer.py b/plasTeX/Packages/beamer.py
index 716cd5e..410a007 100644
--- a/plasTeX/Packages/beamer.py
+++ b/plasTeX/Packages/beamer.py
@@ -8,6 +8,7 @@ from plasTeX.Base import tableofcontents, thebibliography
 from plasTeX.Base import abstract, verse, quotation, quote, footnote, footnotetext
 from plasTeX.Packages.color import color
 from plasTeX.Packages.graphicx import includegraphics
+from plasTeX.Packages import hyperref
 from plasTeX.Packages.hyperref import hypertarget, hyperlink
 from plasTeX.Packages.article import appendix
 
@@ -22,6 +23,41 @@ def ProcessOptions(options, document):
 ''')
     document.userdata.setdefault('imager_preamble_extra', extras)
 
+    # Add overlay specifications to standard commands
+    hyperref.ProcessOptions({}, document)
+    customize = document.context.customize
+    customize(List.item, args='< alert >' + List.item.args + '< alert2 >')
+    customize(textbf, args='< overlay >' + textbf.args)
+    customize(textit, args='< overlay >' + textit.args)
+    customize(textsl, args='< overlay >' + textsl.args)
+    customize(textrm, args='< overlay >' + textrm.args)
+    customize(textsf, args='< overlay >' + textsf.args)
+    customize(color, args='< overlay >' + color.args)
+    customize(label, args='< overlay >' + label.args)
+    customize(includegraphics, args='< overlay >' + includegraphics.args)
+    customize(newcommand, args='< overlay >' + newcommand.args)
+    customize(renewcommand, args='< overlay >' + renewcommand.args)
+    customize(newenvironment, args='< overlay >' + newenvironment.args)
+    customize(renewenvironment, args='< overlay >' + renewenvironment.args)
+    customize(itemize, args='[ overlay ]')
+    customize(enumerate_, args='[ overlay ] [ template ]')
+    customize(description, args='[ overlay ] [ longtext ]')
+    customize(section, args='< overlay >' + section.args)
+    customize(subsection, args='< overlay >' + subsection.args)
+    customize(subsubsection, args='< overlay >' + subsubsection.args)
+    customize(part, args='< overlay >' + part.args)
+    customize(thebibliography.bibitem, args='< overlay >' + thebibliography.bibitem.args)
+    customize(appendix, args='< overlay >' + appendix.args)
+    customize(hypertarget, args='< overlay >' + hypertarget.args)
+    customize(hyperlink, args='< overlay >' + hyperlink.args + '< overlay2 >')
+    customize(tableofcontents, args='[ options:dict ]' + tableofcontents.args)
+    customize(abstract, args='< overlay >' + abstract.args)
+    customize(verse, args='< overlay >' + verse.args)
+    customize(quotation, args='< overlay >' + quotation.args)
+    customize(quote, args='< overlay >' + quote.args)
+    customize(footnote, args='< overlay > [ options:dict ] self') # modify options int -> dict
+    customize(footnotetext, args='< overlay > [ options:dict ] self') # modify options int -> dict
+
 class frame(Command):
     args = '< overlay > self'
     subtitle = None
@@ -138,38 +174,6 @@ class overlayarea(Environment):
 class overprint(Environment):
     args = 'width'
 
-List.item.args = '< alert >' + List.item.args + '< alert2 >'
-textbf.args = '< overlay >' + textbf.args
-textit.args = '< overlay >' + textit.args
-textsl.args = '< overlay >' + textsl.args
-textrm.args = '< overlay >' + textrm.args
-textsf.args = '< overlay >' + textsf.args
-color.args = '< overlay >' + color.args
-label.args = '< overlay >' + label.args
-includegraphics.args = '< overlay >' + includegraphics.args
-newcommand.args = '< overlay >' + newcommand.args
-renewcommand.args = '< overlay >' + renewcommand.args
-newenvironment.args = '< overlay >' + newenvironment.args
-renewenvironment.args = '< overlay >' + renewenvironment.args
-itemize.args = '[ overlay ]'
-enumerate_.args = '[ overlay ] [ template ]'
-description.args = '[ overlay ] [ longtext ]'
-section.args = '< overlay >' + section.args
-subsection.args = '< overlay >' + subsection.args
-subsubsection.args = '< overlay >' + subsubsection.args
-part.args = '< overlay >' + part.args
-thebibliography.bibitem.args = '< overlay >' + thebibliography.bibitem.args
-appendix.args = '< overlay >' + appendix.args
-hypertarget.args = '< overlay >' + hypertarget.args
-hyperlink.args = '< overlay >' + hyperlink.args + '< overlay2 >'
-tableofcontents.args = '[ options:dict ]' + tableofcontents.args
-abstract.args = '< overlay >' + abstract.args
-verse.args = '< overlay >' + verse.args
-quotation.args = '< overlay >' + quotation.args
-quote.args = '< overlay >' + quote.args
-footnote.args = '< overlay > [ options:dict ] self' # modify options int -> dict
-footnotetext.args = '< overlay > [ options:dict ] self' # modify options int -> dict
-
 class resetcounteronoverlays(Command):
     args = 'counter'
 
diff --git a/plasTeX/Packages/cleveref.py b/plasTeX/Packages/cleveref.py
index 9873014..4fb86c9 100644
--- a/plasTeX/Packages/cleveref.py
+++ b/plasTeX/Packages/cleveref.py
@@ -6,6 +6,8 @@ from plasTeX.DOM import Node
 from typing import Union, Tuple
 
 class CleverRef(ref):
+    args = '* label:idref'
+
     def refname_raw(self) -> Union[str, Tuple[str, str]]:
         """
         The type of the object being referenced.
diff --git a/plasTeX/Packages/hyperref.py b/plasTeX/Packages/hyperref.py
index 46b276e..e1e34b8 100644
--- a/plasTeX/Packages/hyperref.py
+++ b/plasTeX/Packages/hyperref.py
@@ -19,10 +19,11 @@ def addBaseURL(self, urlarg):
     except KeyError: pass
     return self.attributes[urlarg]
 
-# Basic macros
+def ProcessOptions(options, document):
+    for cls in [ref, pageref]:
+        document.context.customize(cls, args='* %s' % cls.args)
 
-ref.args = '* %s' % ref.args
-pageref.args = '* %s' % pageref.args
+# Basic macros
 
 class href(Command):
     args = 'url:url self'
diff --git a/plasTeX/Packages/natbib.py b/plasTeX/Packages/natbib.py
index 6be9f62..bba39d6 100644
--- a/plasTeX/Packages/natbib.py
+++ b/plasTeX/Packages/natbib.py
@@ -15,6 +15,10 @@ from plasTeX import Base, Text
 def ProcessOptions(options, document):
     """ Process package options """
     options = options or dict()
+    context = document.context
+    # Our bibliography is the same kind of section as the standard one
+    context.customize(bibliography, counter=context['bibliography'].counter,
+                      level=context['bibliography'].level)
     new_options = dict()
     punct = {'post': bstyleoption(', '),
              'open': bstyleoption('('),
@@ -50,7 +54,7 @@ def ProcessOptions(options, document):
         elif key == 'colon':
             punct['sep'] = ';'
         elif key == 'sectionbib':
-            Base.bibliography.level = Base.section.level
+            context.customize(bibliography, level=Base.section.level)
         elif key == 'sort':
             pass
         elif key in ['sort&compress','sortandcompress']:
diff --git a/plasTeX/Packages/verse.py b/plasTeX/Packages/verse.py
index 2259395..4a60844 100644
--- a/plasTeX/Packages/verse.py
+++ b/plasTeX/Packages/verse.py
@@ -1,6 +1,7 @@
-from plasTeX.Base.LaTeX.Quotations import verse
+from plasTeX.Base.LaTeX import Quotations
 
-verse.args = '[ width:nox ]'
+class verse(Quotations.verse):
+    args = '[ width:nox ]'
 
 class altverse(verse):
     pass
-- 
2.43.0


From 6f3856227b9e20f27f897bf8e70adb94aba4b5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 12/80] fix: take the date registers from the time a document
 is processed

---
 plasTeX/Context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 96177e4..c808c7b 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -352,6 +352,11 @@ class Context(object):
         """ Import all builtin macros """
         from plasTeX import Base
         self.importMacros(vars(Base))
+        # The time at which this document is processed
+        now = time.localtime()
+        for name, value in [('time', now.tm_hour*60 + now.tm_min), ('day', now.tm_mday),
+                            ('month', now.tm_mon), ('year', now.tm_year)]:
+            self.customize(self[name], value=plasTeX.count(value))
 
     def loadLanguage(self, lang, document):
         """
-- 
2.43.0


From a607a94918a74eff89c1de77675331f638c56325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 13/80] fix: keep natbib citation aliases per document

---
 plasTeX/Packages/natbib.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Packages/natbib.py b/plasTeX/Packages/natbib.py
index bba39d6..d44767f 100644
--- a/plasTeX/Packages/natbib.py
+++ b/plasTeX/Packages/natbib.py
@@ -864,21 +864,25 @@ class citetext(Base.Command):
 
 class defcitealias(Base.Command):
     args = 'key:str text'
-    aliases = {}
+
+    @staticmethod
+    def aliases(document):
+        return document.userdata.setdefault('natbib', {}).setdefault('aliases', {})
+
     def invoke(self, tex):
         res = Base.Command.invoke(self, tex)
-        defcitealias.aliases[self.attributes['key']] = self.attributes['text']
+        self.aliases(self.ownerDocument)[self.attributes['key']] = self.attributes['text']
         return res
 
 class citetalias(citet):
     args = 'bibkeys:list:str'
     def citation(self):
-        return citet.citation(self, text=defcitealias.aliases.get(self.attributes['bibkeys'][0],''))
+        return citet.citation(self, text=defcitealias.aliases(self.ownerDocument).get(self.attributes['bibkeys'][0],''))
 
 class citepalias(citep):
     args = 'bibkeys:list:str'
     def citation(self):
-        return citep.citation(self, text=defcitealias.aliases.get(self.attributes['bibkeys'][0],''))
+        return citep.citation(self, text=defcitealias.aliases(self.ownerDocument).get(self.attributes['bibkeys'][0],''))
 
 class shortcites(Base.Command):
     args = 'bibkeys:list:str'
-- 
2.43.0


From bd95f2a284fa69ea9325ab0062ca98bc37445b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 14/80] fix: do not extend the lang-terms configuration when
 loading a language

---
 plasTeX/Context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index c808c7b..019bc37 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -368,7 +368,7 @@ class Context(object):
         """
 
         if not self.languages:
-            files = document.config['document']['lang-terms']
+            files = list(document.config['document']['lang-terms'])
             files.append(os.path.join(os.path.dirname(__file__), 'i18n.xml'))
 
             LanguageParser(self.languages).parse(reversed(files))
-- 
2.43.0


From 3cebee82fb0d7d5200a95595aca8fb95ebda0a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:36 +0000
Subject: [PATCH 15/80] fix: load the package of the current document when an
 earlier one used another of the same name

---
 plasTeX/Context.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 019bc37..93dbc42 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -8,8 +8,8 @@ import contextlib
 import re
 import time
 from pathlib import Path
-from typing import Optional, Dict, List
-from importlib import import_module
+from typing import Any, Optional, Dict, List
+from importlib import import_module, invalidate_caches
 from importlib.util import find_spec
 
 from plasTeX import ismacro, macroName
@@ -67,6 +67,9 @@ def readPaux(filename):
     return data
 
 
+# The latest module of each name that was loaded from a directory listed in packages-dirs
+_userPackages = {} # type: Dict[str, Any]
+
 class ContextItem(dict):
     """
     Localized macro/category code stack element
@@ -482,8 +485,13 @@ class Context(object):
                 pypath = (path/module).with_suffix('.py')
                 if not pypath.exists():
                     continue
-                if str(path) not in sys.path:
+                if sys.path[:1] != [str(path)]:
                     sys.path.insert(0, str(path))
+                if module in _userPackages and sys.modules.get(module) is _userPackages[module] and \
+                   _userPackages[module].__file__ != str(pypath):
+                    # An earlier document used another package of that name
+                    del sys.modules[module]
+                invalidate_caches()
                 spec = find_spec(module)
                 if spec is None:
                     sys.path = orig_sys_path
@@ -495,7 +503,7 @@ class Context(object):
                             'plugin.'.format(module, spec.origin, pkg_dir))
                     break
 
-                imported = import_module(module)
+                imported = _userPackages[module] = import_module(module)
                 break
 
             if imported is None:
-- 
2.43.0


From 1de2a3f27588af4c1fdcaf94900e4d93bdb205e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 16/80] fix: reset the variables of the filename generator to
 their initial values, not to those of the first name

---
 plasTeX/Filenames.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 3323e23..9d7b2cf 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -75,6 +75,7 @@ class Filenames(object):
         self.files = self.parseFilenames(spec)
         self.charsub = charsub or []
         self.variables = variables or {}
+        self.namespace = self.variables.copy()
         self.extension = extension
         self.invalid = invalid or {}
         self.newFilename = self._newFilename()
@@ -139,7 +140,7 @@ class Filenames(object):
 
     def _newFilename(self):
         """ Generator that generates new filenames """
-        g = self.variables.copy()
+        g = self.namespace
 
         # Split filenames into static and wildcard groups
         static = []
-- 
2.43.0


From c04035100c2469f18e21047dde39b7c0ed260554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 17/80] fix: limit the words of a filename variable before
 replacing bad characters, and apply each format to its own variable only

---
 plasTeX/Filenames.py | 86 +++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 49 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 9d7b2cf..d4c22bb 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -138,6 +138,39 @@ class Filenames(object):
             return filename + self.extension
         return filename
 
+    # Key names and formats in a name
+    keysre = re.compile(r'\$\{(\w+)(?:\.(\d+))?}')
+
+    def isNumbered(self, item):
+        """ Does the name contain the variable $num? """
+        return 'num' in [key for key, format in self.keysre.findall(item)]
+
+    def substitute(self, item, num):
+        """
+        Do variable substitution in a name
+
+        Raises KeyError if one of the variables doesn't have a value.
+
+        """
+        currentns = {}
+        def strip(m):
+            key, format = m.groups()
+            # Supply a file number as needed
+            if key == 'num':
+                value = ('%%.%sd' % (format or '')) % num
+            else:
+                value = self.variables[key]
+                # Limit other variables to specified number of words
+                if format:
+                    value = ' '.join(value.split()[:int(format)])
+                if self.charsub:
+                    for char in self.charsub[0]:
+                        value = value.replace(char, self.charsub[1])
+            name = 'v%d' % len(currentns)
+            currentns[name] = value
+            return '${%s}' % name
+        return string.Template(self.keysre.sub(strip, item)).substitute(currentns)
+
     def _newFilename(self):
         """ Generator that generates new filenames """
         g = self.namespace
@@ -160,36 +193,12 @@ class Filenames(object):
         # Initialize file number counter
         num = 1
 
-        # Locate all key names and formats in the string
-        keysre = re.compile(r'\$\{(\w+)(?:\.(\d+))?}')
-
         # Return static filenames
         for item in static:
-            currentns = self.variables.copy()
-            for key, value in list(currentns.items()):
-                if self.charsub:
-                    for char in self.charsub[0]:
-                        value = value.replace(char, self.charsub[1])
-                currentns[key] = value
-            for key, format in keysre.findall(item):
-                # Supply a file number as needed
-                if key == 'num':
-                    currentns['num'] = ('%%.%sd' % format) % num
-                # Limit other variables to specified number of words
-                elif format and key in currentns:
-                    value = currentns[key].split()
-                    newvalue = []
-                    for i in range(int(format)):
-                        newvalue.append(value.pop(0))
-                        if not value:
-                            break
-                    currentns[key] = ' '.join(newvalue)
             try:
-                # Strip formats
-                item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
                 # Do variable substitution
-                result = string.Template(item).substitute(currentns)
-                if 'num' in currentns:
+                result = self.substitute(item, num)
+                if self.isNumbered(item):
                     num += 1
                 self.variables.clear()
                 self.variables.update(g)
@@ -207,31 +216,10 @@ class Filenames(object):
         while 1:
             passes += 1
             for item in wildcard:
-                currentns = self.variables.copy()
-                for key, value in list(currentns.items()):
-                    if self.charsub:
-                        for char in self.charsub[0]:
-                            value = value.replace(char, self.charsub[1])
-                    currentns[key] = value
-                for key, format in keysre.findall(item):
-                    # Supply a file number as needed
-                    if key == 'num':
-                        currentns['num'] = ('%%.%sd' % format) % num
-                    # Limit other variables to specified number of words
-                    elif format and key in currentns:
-                        value = currentns[key].split()
-                        newvalue = []
-                        for i in range(int(format)):
-                            newvalue.append(value.pop(0))
-                            if not value:
-                                break
-                        currentns[key] = ' '.join(newvalue)
                 try:
-                    # Strip formats
-                    item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
                     # Do variable substitution
-                    result = string.Template(item).substitute(currentns)
-                    if 'num' in currentns:
+                    result = self.substitute(item, num)
+                    if self.isNumbered(item):
                         num += 1
                     self.variables.clear()
                     self.variables.update(g)
-- 
2.43.0


From 76b3ee4aeea4abbae1afc1e162e5eca0164c0c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 18/80] fix: keep the variables of a filename until one is
 found, and report an error whenever none can be formed

---
 plasTeX/Filenames.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index d4c22bb..3f0358d 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -129,6 +129,8 @@ class Filenames(object):
 
     def __next__(self):
         for name in self.newFilename:
+            if name is None:
+                raise ValueError('Filename could not be created.')
             return name
 
     def addExtension(self, filename):
@@ -200,11 +202,11 @@ class Filenames(object):
                 result = self.substitute(item, num)
                 if self.isNumbered(item):
                     num += 1
-                self.variables.clear()
-                self.variables.update(g)
                 result = self.addExtension(result)
                 if result not in self.invalid:
                     self.invalid[result] = None
+                    self.variables.clear()
+                    self.variables.update(g)
                     yield result
             except KeyError:
                 continue
@@ -212,32 +214,29 @@ class Filenames(object):
         # We've reached the wildcard stage.  The wildcard gives us
         # multiple alternatives of filenames to choose from.  Keep trying
         # each one with the current namespace until one works.
-        passes = 0
         while 1:
-            passes += 1
+            numbered = False
             for item in wildcard:
                 try:
                     # Do variable substitution
                     result = self.substitute(item, num)
                     if self.isNumbered(item):
                         num += 1
-                    self.variables.clear()
-                    self.variables.update(g)
+                        numbered = True
                     result = self.addExtension(result)
                     if result not in self.invalid:
                         self.invalid[result] = None
+                        self.variables.clear()
+                        self.variables.update(g)
                         yield result
                     else:
                         continue
                     break
                 except KeyError as key:
-                    if 'num' in self.variables:
-                        del self.variables['num']
                     continue
             else:
-                # We tried 100 different names and still don't have a unique
-                # one, we better just bail out.
-                if passes > 100:
-                    break
-
-        raise ValueError('Filename could not be created.')
+                # Only another number can lead to a name that isn't in use
+                if not numbered:
+                    self.variables.clear()
+                    self.variables.update(g)
+                    yield None
-- 
2.43.0


From cc08fe863bec477ca9c6ebdcd43db81e5ee0c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 19/80] fix: read boolean options of configuration files as
 yes/no, true/false, on/off or 1/0

---
 Doc/config-api.tex       | 4 ++--
 plasTeX/ConfigManager.py | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Doc/config-api.tex b/Doc/config-api.tex
index a612a96..4ef5789 100644
--- a/Doc/config-api.tex
+++ b/Doc/config-api.tex
@@ -237,8 +237,8 @@ mysection['optionname'] = 10
 
 \begin{classdesc}{BooleanConfigOption}{\optional{\class{ConfigOption} arguments}}
 Boolean options are simply options that allow you to specify an `on' or 
-`off' state. In a config file, the value is converted to a boolean via the
-builtin \code{bool} function. Boolean options on the command-line do not take
+`off' state. In a config file, the value is one of yes, true, on and 1, or
+one of no, false, off and 0. Boolean options on the command-line do not take
 an argument; simply specifying the option sets the state to true.
 
 One interesting feature of boolean options is in specifying the command-line
diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index 83f917b..c2beb8e 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -47,6 +47,12 @@ class ConfigOption(Generic[T]):
         self.value = self.valueType()(string)
 
 class BooleanOption(ConfigOption[bool]):
+    def setFromString(self, string: str):
+        try:
+            self.value = ConfigParser.BOOLEAN_STATES[string.strip().lower()]
+        except KeyError:
+            raise ValueError("Not a boolean: {}".format(string))
+
     def registerArgparse(self, group: ArgumentGroup):
         enables = [x for x in self.options if x[0] != "!"]
         disables = [x[1:] for x in self.options if x[0] == "!"]
-- 
2.43.0


From 4041ee7c23b219efa31cf416bb06c0b4cd084dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 20/80] fix: ignore a configuration file that cannot be read to
 its end

---
 plasTeX/ConfigManager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index c2beb8e..e8f332d 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -280,7 +280,9 @@ class ConfigManager(Dict[str, ConfigSection]):
 
         for filename in filenames:
             data = ConfigParser(interpolation=None)
-            data.read(filename)
+            # A file that could not be read to its end has no usable data
+            if not data.read(filename):
+                continue
 
             for section in data.sections():
                 if section not in self:
-- 
2.43.0


From cc5e4e8135ddcbab060860bb9509cfded79090bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 21/80] fix: keep the case of the keys of dictionary options in
 configuration files

---
 plasTeX/ConfigManager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index e8f332d..d0ba7c1 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -280,6 +280,8 @@ class ConfigManager(Dict[str, ConfigSection]):
 
         for filename in filenames:
             data = ConfigParser(interpolation=None)
+            # The keys of dictionary entries are case sensitive
+            data.optionxform = str # type: ignore
             # A file that could not be read to its end has no usable data
             if not data.read(filename):
                 continue
@@ -292,8 +294,8 @@ class ConfigManager(Dict[str, ConfigSection]):
                 dictObject = next((x for x in self[section].data.values() if isinstance(x, DictOption)), None)
 
                 for key, val in data.items(section):
-                    if key in self[section].data:
-                        self[section].data[key].setFromString(val)
+                    if key.lower() in self[section].data:
+                        self[section].data[key.lower()].setFromString(val)
                     else:
                         if dictObject is not None:
                             dictObject.set(key, val)
-- 
2.43.0


From 90bd98e1dd45fc599a88a121b85f7c147f70cdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 22/80] fix: do not extend list and dictionary objects that
 were given to an option in place

---
 plasTeX/ConfigManager.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index d0ba7c1..d81bb97 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -66,13 +66,13 @@ class MultiStringOption(ConfigOption[List[str]]):
         group.add_argument(*self.options, dest=self.name, type=str, nargs="*", help=self.description, action="append")
 
     def setFromString(self, string: str):
-        self.value.extend(shlex.split(string))
+        self.value = [*self.value, *shlex.split(string)]
 
     def updateFromDict(self, data: Dict[str, Any]):
         value = data.get(self.name)
         if value is not None:
             for entry in value:
-                self.value.extend(entry)
+                self.value = [*self.value, *entry]
 
 class StringOption(ConfigOption[str]):
     pass
@@ -101,7 +101,7 @@ class DictOption(ABC, ConfigOption[Dict[str, T]]):
         pass
 
     def set(self, key: str, value: str):
-        self.value[key] = self.entryFromString(value)
+        self.value = {**self.value, key: self.entryFromString(value)}
 
     def setFromString(self, string: str):
         for entry in string.split(","):
@@ -294,8 +294,9 @@ class ConfigManager(Dict[str, ConfigSection]):
                 dictObject = next((x for x in self[section].data.values() if isinstance(x, DictOption)), None)
 
                 for key, val in data.items(section):
-                    if key.lower() in self[section].data:
-                        self[section].data[key.lower()].setFromString(val)
+                    option = key if key in self[section].data else key.lower()
+                    if option in self[section].data:
+                        self[section].data[option].setFromString(val)
                     else:
                         if dictObject is not None:
                             dictObject.set(key, val)
-- 
2.43.0


From 0230e1b3fbf731270ba9ecfc8488894a3207384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 23/80] fix: look for .plasTeXrc in the home directory of the
 user

---
 plasTeX/Config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Config.py b/plasTeX/Config.py
index c163b5a..3d9f7ba 100644
--- a/plasTeX/Config.py
+++ b/plasTeX/Config.py
@@ -386,6 +386,6 @@ def defaultConfig(loadConfigFiles: bool=False):
     logging["logging"] = LogOption("Log levels", options = "--logging", default = {})
 
     if loadConfigFiles:
-        config.read(['~/.plasTeXrc', '/usr/local/etc/plasTeXrc', os.path.join(os.path.dirname(__file__), 'plasTeXrc')])
+        config.read([os.path.expanduser('~/.plasTeXrc'), '/usr/local/etc/plasTeXrc', os.path.join(os.path.dirname(__file__), 'plasTeXrc')])
 
     return config
-- 
2.43.0


From 243b4989ca31c3f0639a629cef3fbfa6d040e0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 24/80] fix: give the actual names and default values of
 options in the documentation

---
 Doc/command.tex | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/Doc/command.tex b/Doc/command.tex
index f179284..cac1716 100644
--- a/Doc/command.tex
+++ b/Doc/command.tex
@@ -128,7 +128,7 @@ a \class{Renderer} class.
 \end{configuration}
 
 \begin{configuration}{Packages directories}
-\options{\longprogramopt{packages-dir=\optval{directories}}}
+\options{\longprogramopt{packages-dirs=\optval{directories}}}
 \config{general}{packages-dirs}
 \default{[]}
 specifies a list of directories where python implementations
@@ -144,7 +144,7 @@ specifies which theme to use.
 
 \begin{configuration}{Extra theme files}
 \options{\longprogramopt{copy-theme-extras} or
-         \longprogramopt{ignore-theme-extras}}
+         \longprogramopt{no-theme-extras}}
 \config{general}{copy-theme-extras}
 \default{yes}
 indicates whether or not extra files that belong to a theme (if there are
@@ -196,7 +196,7 @@ specifies a list of files that contain language terms
 \begin{configuration}{Section number depth}
 \options{\longprogramopt{sec-num-depth=\optval{integer}}}
 \config{document}{sec-num-depth}
-\default{6}
+\default{2}
 specifies the section level depth that should appear in section numbers.
 This value overrides the value of the secnumdepth counter in the document.
 \end{configuration}
@@ -544,7 +544,6 @@ specifies a base URL to prepend to the path of all images.
 \begin{configuration}{\LaTeX\ program to use to compile image document}
 \options{\longprogramopt{image-compiler=\optval{program}}}
 \config{images}{compiler}
-\default{latex}
 specifies which program to use to compile the images \LaTeX\ document. If
 unspecified, the default is specified by the imager. Note that not all imagers
 are compatible with all compilers. Specifically, some imagers need compilers
@@ -554,7 +553,6 @@ that produces pdf's and others need dvi's.
 \begin{configuration}{\LaTeX\ program to use to compile vector image document}
 \options{\longprogramopt{vector-image-compiler=\optval{program}}}
 \config{images}{vector-compiler}
-\default{latex}
 specifies which program to use to compile the vector images \LaTeX\ document. If
 unspecified, this uses the value of \longprogramopt{image-compiler}.
 \end{configuration}
@@ -571,7 +569,7 @@ indicates whether or not images should be generated.
 \options{\longprogramopt{enable-image-cache} or
          \longprogramopt{disable-image-cache}}
 \config{images}{cache}
-\default{yes}
+\default{no}
 indicates whether or not images should use a cache between runs.
 \end{configuration}
 
@@ -591,7 +589,7 @@ You can use the value of ``none'' to turn the imager off.
 \begin{configuration}{Image filenames}
 \options{\longprogramopt{image-filenames=\optval{filename-template}}}
 \config{images}{filenames}
-\default{images/img-\$num(4).png}
+\default{images/img-\$num(4)}
 specifies the image naming template to use to generate filenames.  This
 template is the same as the templates used by the \longprogramopt{filename}
 option.
@@ -712,7 +710,7 @@ and proofs.
 
 \begin{configuration}{Extra javascript}
   \options{\longprogramopt{extra-js \optval{filename1 filename2 ...}}}
-\config{html5}{extra-css}
+\config{html5}{extra-js}
 \default{[]}
 specifies a list of javascript files to use (in addition
 to those coming from the theme is the use-theme-js option is set to true).
@@ -734,7 +732,7 @@ some filter is expected to handle mathematics (see
 \begin{configuration}{MathJax library url}
 \options{\longprogramopt{mathjax-url=\optval{url}}}
 \config{html5}{mathjax-url}
-\default{http://cdn.mathjax.org/mathjax/latest/MathJax.js?config=TeX-AMS_CHTML}
+\default{https://cdn.jsdelivr.net/npm/mathjax@3/es5/tex-chtml.js}
 specifies where to find the MathJax javascript lib (including the config
 information as in the default value).
 \end{configuration}
-- 
2.43.0


From e3912c3cfa48f7b6e08690f5dd0913a57874f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:18 +0000
Subject: [PATCH 25/80] fix: assign and insert children at negative and invalid
 positions

---
 plasTeX/DOM/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 4ac8ad8..a2c1f22 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -945,6 +945,10 @@ class Node(object):
         if type(newChild) == str:
             newChild = self.ownerDocument.createTextNode(newChild)
         if newChild.nodeType == Node.DOCUMENT_FRAGMENT_NODE:
+            # A negative position counts from the end of the child list,
+            # which moves while the items of the fragment are inserted
+            if i < 0:
+                i = max(0, i + len(self))
             for item in newChild:
                 self.insert(i, item, setParent=setParent)
                 i += 1
@@ -969,6 +973,12 @@ class Node(object):
         """
         if type(node) == str:
             node = self.ownerDocument.createTextNode(node)
+        # The position is used more than once while the child list changes
+        if not(isinstance(i, slice)):
+            if i < 0:
+                i += len(self)
+            if not(0 <= i < len(self)):
+                raise IndexError('assignment index out of range')
         # If a DocumentFragment is being inserted, but it isn't replacing
         # a slice, we need to put each child in manually.
         if node.nodeType == Node.DOCUMENT_FRAGMENT_NODE \
-- 
2.43.0


From aab40b28f1624af77dedd4fd9e261f3607783491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 26/80] fix: children of a document fragment name the fragment
 that lists them as their parent

---
 plasTeX/DOM/__init__.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index a2c1f22..fd0ecb5 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -775,6 +775,20 @@ class Node(object):
             self._dom_childNodes = nodes = []
             return nodes
 
+    @property
+    def _childParent(self):
+        """
+        Node that the parent links of our children name
+
+        This is the node itself unless a document fragment in the `self`
+        attribute acts as our `childNodes`.
+
+        """
+        nodes = self.childNodes
+        if getattr(nodes, 'nodeType', None) == Node.DOCUMENT_FRAGMENT_NODE:
+            return nodes
+        return self
+
     def hasChildNodes(self):
         """ Do we have any child nodes? """
         if hasattr(self, '_dom_childNodes'):
@@ -921,10 +935,7 @@ class Node(object):
             self.childNodes.append(newChild)
 
         if setParent:
-            if self.nodeType == self.DOCUMENT_FRAGMENT_NODE:
-                newChild.parentNode = self.parentNode
-            else:
-                newChild.parentNode = self
+            newChild.parentNode = self._childParent
         newChild.ownerDocument = self.ownerDocument
         return newChild
 
@@ -955,10 +966,7 @@ class Node(object):
         else:
             self.childNodes.insert(i, newChild)
         if setParent:
-            if self.nodeType == self.DOCUMENT_FRAGMENT_NODE:
-                newChild.parentNode = self.parentNode
-            else:
-                newChild.parentNode = self
+            newChild.parentNode = self._childParent
         newChild.ownerDocument = self.ownerDocument
         return newChild
 
-- 
2.43.0


From db3a7b748ad2127943e5a8617b33a1f269f70ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 27/80] fix: clear the parent link of a child that is removed
 from its parent

---
 plasTeX/DOM/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index fd0ecb5..e6e2687 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -911,8 +911,13 @@ class Node(object):
         the item removed from the list
 
         """
-        try: return self.childNodes.pop(index)
+        try: child = self.childNodes.pop(index)
         except: raise IndexError('object has no childNodes')
+        # The child isn't listed here any more, unless it was already listed
+        # by another node (e.g. the element that a fragment was inserted in)
+        if getattr(child, 'parentNode', None) is self._childParent:
+            child.parentNode = None
+        return child
 
     def append(self, newChild, setParent=True):
         """
-- 
2.43.0


From b4781327f9dd9f025a31b34ab207046cc95590db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:26 +0000
Subject: [PATCH 28/80] fix: clones share no nodes with the original and do not
 take them over

---
 plasTeX/DOM/__init__.py | 50 +++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index e6e2687..1502ff7 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -543,6 +543,31 @@ def _nextSibling(self):
             next = True
     return None
 
+def _cloneValue(value, parentNode):
+    """
+    Clone the value of an attribute
+
+    Required Arguments:
+    value -- the value to clone
+    parentNode -- the node that the clone of the value belongs to
+
+    Returns:
+    deep copy of `value`, if it is a node or a collection of nodes,
+    or `value` itself
+
+    """
+    if isinstance(value, Node):
+        value = value.cloneNode(True)
+        if value.nodeType == Node.DOCUMENT_FRAGMENT_NODE:
+            value.parentNode = parentNode
+        return value
+    if type(value) is list:
+        return [_cloneValue(x, parentNode) for x in value]
+    if type(value) is dict:
+        return dict([(k, _cloneValue(v, parentNode))
+                     for k, v in list(value.items())])
+    return value
+
 def xmlstr(obj):
     """ Escape special characters to create a legal xml string """
     if isinstance(obj, str):
@@ -1066,20 +1091,17 @@ class Node(object):
         except: pass
 #       node.nodeValue = self.nodeValue
 #       node.nodeType = self.nodeType
-        node.parentNode = self.parentNode
+        # The clone isn't listed by any node
+        node.parentNode = None
         node.ownerDocument = self.ownerDocument
-        if deep:
-            if node.attributes is not None and self.attributes is not None:
-                node.attributes.update(self.attributes)
-            if self.hasChildNodes():
-                for x in self.childNodes:
-                    node.append(x.cloneNode(deep))
-        else:
-            if node.attributes is not None and self.attributes is not None:
-                node.attributes.update(self.attributes)
-            if self.hasChildNodes():
-                for x in self.childNodes:
-                    node.append(x)
+        if node.attributes is not None and self.attributes is not None:
+            for key, value in list(self.attributes.items()):
+                node.attributes[key] = _cloneValue(value, node)
+        # The children are already cloned if they are one of the attributes
+        if deep and self.hasChildNodes() and \
+           not(self.attributes and self.attributes.get('self') is self.childNodes):
+            for x in self.childNodes:
+                node.append(x.cloneNode(deep))
         return node
 
     def normalize(self, charsubs=None):
@@ -1699,7 +1721,7 @@ class CharacterData(str, Node):
     def cloneNode(self, deep=True):
         o = type(self)(self)
         o.ownerDocument = self.ownerDocument
-        o.parentNode = self.parentNode
+        o.parentNode = None
         return o
 
     @property
-- 
2.43.0


From 8e784dad2b5d73959af646819cd186afd5b15ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:24 +0000
Subject: [PATCH 29/80] fix: find each element of an attribute exactly once
 when looking up elements by name

---
 plasTeX/DOM/__init__.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 1502ff7..bd98e2b 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -1316,22 +1316,20 @@ def _getElementsByTagName(self, tagname):
     # Look in attributes dictionary for document fragments as well
     if self.attributes and list(self.attributes.keys()):
         for item in list(self.attributes.values()):
-            if getattr(item, 'tagName', None) in tagname:
-                 output.append(item)
-            if hasattr(item, 'getElementsByTagName'):
-                output += item.getElementsByTagName(tagname)
+            # This is where the children are, they are searched below
+            if item is not None and item is self.childNodes:
+                continue
+            if isinstance(item, dict):
+                nodes = list(item.values())
             elif isinstance(item, list):
-                for e in item:
-                    if getattr(e, 'tagName', None) in tagname:
-                        output.append(e)
-                    if hasattr(item, 'getElementsByTagName'):
-                        output += item.getElementsByTagName(tagname)
-            elif isinstance(item, dict):
-                for e in list(item.values()):
-                    if getattr(e, 'tagName', None) in tagname:
-                        output.append(e)
-                    if hasattr(item, 'getElementsByTagName'):
-                        output += item.getElementsByTagName(tagname)
+                nodes = item
+            else:
+                nodes = [item]
+            for e in nodes:
+                if getattr(e, 'tagName', None) in tagname:
+                    output.append(e)
+                if hasattr(e, 'getElementsByTagName'):
+                    output += e.getElementsByTagName(tagname)
 
     # Now look in the child elements
     for item in self:
@@ -1609,7 +1607,7 @@ class Element(Node):
         list of elements
 
         """
-        return _getElementsByTagName(localName)
+        return self.getElementsByTagName(localName)
 
     def hasAttribute(self, name):
         """
-- 
2.43.0


From f5962753e73508ba7d121a1a917d465e4e2c4fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:01 +0000
Subject: [PATCH 30/80] fix: document fragments that are set as attributes
 belong to the element

---
 plasTeX/DOM/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index bd98e2b..bf4bfc5 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -267,7 +267,7 @@ class NamedNodeMap(dict):
         if getattr(self, '_dom_parentNode', None) is not value:
             self._dom_parentNode = value
             for value in list(self.values()):
-                self._resetPosition(value.parentNode)
+                self._resetPosition(value)
 
     @property
     def ownerDocument(self):
@@ -406,6 +406,8 @@ class NamedNodeMap(dict):
             return
 
         elif nodeType == Node.DOCUMENT_FRAGMENT_NODE:
+            value.parentNode = parent
+            value.ownerDocument = self.ownerDocument
             for item in value:
                 self._resetPosition(item, parent=value)
 
-- 
2.43.0


From 6cc1bdbc24dc529a65005f4473e449f8b426eff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:55 +0000
Subject: [PATCH 31/80] fix: compare the document position of nodes below their
 closest common ancestor

---
 plasTeX/DOM/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index bf4bfc5..f3cc572 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -494,6 +494,9 @@ def _compareDocumentPosition(self, other):
             if sparent is oparent:
                 s = sparents[i+1]
                 o = oparents[j+1]
+                # The nodes are both in the same branch of this ancestor
+                if s is o:
+                    continue
                 for item in sparent:
                    if item is s:
                        return Node.DOCUMENT_POSITION_FOLLOWING
-- 
2.43.0


From 8fe22b6c9335ae8975f0c343fbdda9a269f5d4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 32/80] fix: stop reading an integer at the space that ends it

---
 plasTeX/TeX.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 23bd7c5..fe24a83 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1614,11 +1614,16 @@ class TeX(object):
             # integer constant
             elif t in string.digits:
                 num = number(sign * int(t + self.readSequence(string.digits,
-                                                              optspace=optspace)))
+                                                              optspace=False)))
                 for t in self:
                     if t.nodeType == Macro.ELEMENT_NODE and \
                        isinstance(t, ParameterCommand):
                         num = number(num * number(t))
+                    # A space ends the number. Don't look any further, because
+                    # this would execute the following command.
+                    elif optspace and t.nodeType != Macro.ELEMENT_NODE and \
+                         t.catcode == Token.CC_SPACE:
+                        pass
                     else:
                         self.pushToken(t)
                     break
-- 
2.43.0


From 4716667cbaa568447696f8569e05c294038c5978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 33/80] fix: end inline math without reading the following
 token

---
 plasTeX/Base/TeX/Primitives.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 05018bf..97be197 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -75,16 +75,16 @@ class MathShift(Command):
         inEnv = self.ownerDocument.context.mathShifts
 
         current = self.ownerDocument.createElement('math')
-        for t in tex.itertokens():
-            if t.catcode == Token.CC_MATHSHIFT:
-                # Case where we have $   $$    $ construction
-                if inEnv and inEnv[-1] is not None and type(inEnv[-1]) is type(current):
-                    tex.pushToken(t)
-                else:
+        # A single '$' ends inline math ($   $$    $ construction).  Don't look
+        # at the next token in that case: it is outside of the math already, so
+        # the category codes that are in force in the math don't apply to it.
+        if not(inEnv and inEnv[-1] is not None and type(inEnv[-1]) is type(current)):
+            for t in tex.itertokens():
+                if t.catcode == Token.CC_MATHSHIFT:
                     current = self.ownerDocument.createElement('displaymath')
-            else:
-                tex.pushToken(t)
-            break
+                else:
+                    tex.pushToken(t)
+                break
 
         # See if this is the end of the environment
         if inEnv and inEnv[-1] is not None and type(inEnv[-1]) is type(current):
-- 
2.43.0


From 8736c47a34c8ea761397bc154611860751405ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 34/80] fix: tell declarations from environments of the same
 name when these are closed

---
 plasTeX/Base/TeX/Primitives.py | 1 +
 plasTeX/Context.py             | 8 +++++++-
 plasTeX/__init__.py            | 3 +++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 97be197..da761c1 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -94,6 +94,7 @@ class MathShift(Command):
             return [current]
 
         inEnv.append(current)
+        current.macroMode = Command.MODE_BEGIN
         mathshiftlog.debug('%s (%s)' % (current.tagName, id(current)))
         self.ownerDocument.context.push(current)
 
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 93dbc42..11fe5b4 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -865,6 +865,11 @@ class Context(object):
                     break
                 self.contexts.pop()
         else:
+            # If an environment was opened with \begin, declarations of the
+            # same type within it are not the start of that environment
+            hasBegin = any(type(x.obj) == type(obj) and
+                           x.obj.macroMode == obj.MODE_BEGIN
+                           for x in self.contexts[1:])
             while len(self.contexts) > 1:
                 o = self.contexts[-1].obj
                 # If None, keep going
@@ -878,7 +883,8 @@ class Context(object):
                 elif o is obj.parentNode:
                     break
                 # Found the \begin to our \end
-                elif type(obj) == type(o) and obj.macroMode == obj.MODE_END:
+                elif type(obj) == type(o) and obj.macroMode == obj.MODE_END and \
+                     (o.macroMode == o.MODE_BEGIN or not hasBegin):
                     self.contexts.pop()
                     break
                 # Found the \foo to our \endfoo
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 9934cc9..2fb7809 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -924,6 +924,9 @@ class Environment(Macro):
             # Absorb macros until the end of this environment is found
             if item.nodeType == Node.ELEMENT_NODE:
                 if item.macroMode == Macro.MODE_END and type(item) is type(self):
+                    # A declaration is not ended by \end
+                    if self.macroMode == Macro.MODE_NONE:
+                        tokens.push(item)
                     break
                 item.parentNode = self
                 item.digest(tokens)
-- 
2.43.0


From 8043ff33d0c94b974eb9ab95a12b0fd5f753856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 35/80] fix: keep definitions that follow a declaration in the
 preamble

---
 plasTeX/Context.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 11fe5b4..d87d322 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -727,10 +727,16 @@ class Context(object):
             if context is not None:
                 name = context.nodeName
                 # If we hit a document element, make sure that we start
-                # at the global context.
+                # at the global context.  Definitions and category codes that
+                # followed a declaration in the preamble stay in force.
                 if context.level == context.DOCUMENT_LEVEL:
-                    while len(self.contexts) > 1:
-                        self.contexts.pop()
+                    for item in self.contexts[1:]:
+                        own = item.obj.locals() if item.obj is not None else {}
+                        for key, value in item.items():
+                            if key not in own:
+                                self.contexts[0][key] = value
+                    self.contexts[0].categories = self.categories
+                    del self.contexts[1:]
             stacklog.debug('pushing %s onto %s', name, self.top)
             self.contexts.append(self.createContext(context))
 
-- 
2.43.0


From 54cd118e03fb7979997ca2b4b9cc084af3e0e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 36/80] fix: add strings as commands of the given name to the
 context

---
 plasTeX/Context.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index d87d322..26161e3 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -910,13 +910,11 @@ class Context(object):
         value -- item to add to the global namespace.  If the item
             is a macro instance, it is simply added to the namespace.
             If it is a string, it is converted into a string Command
-            instance before being added.
+            before being added.
 
         """
         if isinstance(value, str):
-            newvalue = plasTeX.Command()
-            newvalue.str = value
-            value = newvalue
+            value = type(key, (plasTeX.Command,), {'str': value})
 
         elif not ismacro(value):
             raise ValueError('"%s" does not implement the macro interface' % key)
@@ -934,13 +932,11 @@ class Context(object):
         value -- item to add to the global namespace.  If the item
             is a macro instance, it is simply added to the namespace.
             If it is a string, it is converted into a string Command
-            instance before being added.
+            before being added.
 
         """
         if isinstance(value, str):
-            newvalue = plasTeX.Command()
-            newvalue.str = value
-            value = newvalue
+            value = type(key, (plasTeX.Command,), {'str': value})
 
         elif not ismacro(value):
             raise ValueError('"%s" does not implement the macro interface' % key)
-- 
2.43.0


From bf37c20ab68179c11a0fd3a7b439b290fd287ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 37/80] fix: open a group for environments that are defined
 with def

---
 plasTeX/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 2fb7809..a155fe3 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1171,6 +1171,16 @@ class Definition(Macro):
     definition = None # type: Optional[str]
 
     def invoke(self, tex):
+        # Environments can be defined with \def\foo and \def\endfoo too
+        if self.macroMode == Macro.MODE_END:
+            res = self.ownerDocument.createElement('end' + self.tagName).invoke(tex)
+            return (res or []) + [EndGroup(' ')]
+        if self.macroMode == Macro.MODE_BEGIN:
+            return [BeginGroup(' ')] + list(self.expandArguments(tex) or [])
+        return self.expandArguments(tex)
+
+    def expandArguments(self, tex):
+        """ Replace the arguments in the definition """
         if not self.args: return self.definition
 
         name = macroName(self)
-- 
2.43.0


From 1728b014267eea8f27d88490eff6429dabbd0e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 38/80] fix: give global definitions effect inside of all open
 groups

---
 plasTeX/Context.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 26161e3..21bf89a 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -836,7 +836,7 @@ class Context(object):
             setattr(newclass, key, value)
         name = macroName(cls)
         if self.contexts[0].get(name) is cls:
-            self[name] = newclass
+            self.contexts[0][name] = newclass
 
     def importMacros(self, context):
         """
@@ -901,6 +901,19 @@ class Context(object):
 
         self.mapMethods()
 
+    def setGlobal(self, name, value):
+        """
+        Set the meaning of a name at all levels of grouping
+
+        Required Arguments:
+        name -- the name
+        value -- the macro
+
+        """
+        for context in self.contexts[1:]:
+            context.pop(name, None)
+        self.contexts[0][name] = value
+
     def addGlobal(self, key, value):
         """
         Add a macro to the global context
@@ -919,7 +932,7 @@ class Context(object):
         elif not ismacro(value):
             raise ValueError('"%s" does not implement the macro interface' % key)
 
-        self.contexts[0][macroName(value)] = value
+        self.setGlobal(macroName(value), value)
 
     __setitem__ = addGlobal
 
-- 
2.43.0


From 67e64900de9c25f8cf5fbc186977315ddaae6dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 39/80] fix: scope control sequences that are let to a
 character like other definitions

---
 plasTeX/Base/TeX/Primitives.py |  6 +++--
 plasTeX/Context.py             | 43 ++++++++++++++++++++++++++--------
 plasTeX/Tokenizer.py           | 13 ----------
 plasTeX/__init__.py            |  2 ++
 4 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index da761c1..134e951 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -190,7 +190,8 @@ class if_(IfCommand):
     def invoke(self, tex):
         self.parse(tex)
         a = self.attributes
-        tex.processIfContent(a['a'] == a['b'])
+        get_let = self.ownerDocument.context.get_let
+        tex.processIfContent(get_let(a['a']) == get_let(a['b']))
         return []
 
 class else_(Command):
@@ -274,7 +275,8 @@ class ifcat(IfCommand):
     def invoke(self, tex):
         self.parse(tex)
         a = self.attributes
-        tex.processIfContent(a['a'].catcode == a['b'].catcode)
+        get_let = self.ownerDocument.context.get_let
+        tex.processIfContent(get_let(a['a']).catcode == get_let(a['b']).catcode)
         return []
 
 class ifx(IfCommand):
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 21bf89a..db3e8e2 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -79,7 +79,6 @@ class ContextItem(dict):
     def __init__(self, data=None):
         dict.__init__(self, data or {})
         self.categories = None # type: Optional[List[str]]
-        self.lets = {}
         self.obj = None
         self.parent = None
         self.owner = None
@@ -1291,14 +1290,23 @@ class Context(object):
             self.addGlobal(name, newclass)
 
     def get_let(self, command):
-        for context in reversed(self.contexts):
-            try:
-                return context.lets[command]
-            except KeyError:
-                pass
+        """
+        Get the character token that a token stands for
+
+        Required Arguments:
+        command -- token
+
+        Returns: the character token, if `command` is a control sequence
+        that was \\let to a character; otherwise `command` itself
+
+        """
+        if command.catcode == Token.CC_ESCAPE:
+            value = self.top.get(command.nodeName)
+            if isinstance(value, type) and issubclass(value, plasTeX.LetCharacter):
+                return value.definition[0]
         return command
 
-    def let(self, dest, source):
+    def let(self, dest, source, local=True):
         """
         Create a \\let
 
@@ -1313,12 +1321,27 @@ class Context(object):
         # Use nodeName instead of macroName to work with Macros as well as
         # EscapeSequence, e.g. when we do
         # \expandafter\let\csname foo\endcsname=1
+        name = dest.nodeName
+        source = self.get_let(source)
         if source.catcode == Token.CC_ESCAPE:
-            self.top[dest.nodeName] = self[source.nodeName]
+            value = self[source.nodeName]
+        elif source.macroName == name:
+            # The character invokes this very command, e.g. \let\bgroup={
+            for context in reversed(self.contexts):
+                value = dict.get(context, name)
+                if value is not None and not issubclass(value, plasTeX.LetCharacter):
+                    break
+            else:
+                return
+        else:
+            value = type(name, (plasTeX.LetCharacter,), {'definition': [source]})
+
+        if local:
+            self.top[name] = value
         else:
-            self.top.lets[dest.nodeName] = source
+            self.setGlobal(name, value)
 
-    def chardef(self, name, num):
+    def chardef(self, name, num, local=False):
         """
         Create a \\chardef
 
diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index b5d17e2..44cd89b 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -345,7 +345,6 @@ class Tokenizer(object):
         tokenClasses = self.tokenClasses
         mybuffer = self._tokBuffer
         charIter = self.iterchars()
-        context = self.context
         pushChar = self.pushChar
         STATE_N = self.STATE_N
         STATE_M = self.STATE_M
@@ -452,17 +451,6 @@ class Tokenizer(object):
 
                 else: token = EscapeSequence()
 
-                # Check for any \let aliases
-                token = context.get_let(token)
-
-                # TODO: This action should be generalized so that the
-                #       tokens are processed recursively
-                if token is not token and token.catcode == CC_COMMENT:
-                    self.readline()
-                    self.lineNumber += 1
-                    self.state = STATE_N
-                    continue
-
             elif code == CC_COMMENT:
                 self.readline()
                 self.lineNumber += 1
@@ -471,7 +459,6 @@ class Tokenizer(object):
 
             elif code == CC_ACTIVE:
                 token = EscapeSequence('active::%s' % char)
-                token = context.get_let(token)
                 self.state = STATE_M
 
             else:
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index a155fe3..c45df62 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1247,6 +1247,8 @@ class Definition(Macro):
 
         return expandDef(self.definition, params)
 
+class LetCharacter(Definition):
+    """ Superclass for all commands that were \\let to a character """
 
 class number(int):
     """ Class used for parameter and count values """
-- 
2.43.0


From 3aba6c20ba92eaed52a1823761fc684fbbfc1dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 40/80] fix: support the global prefix of definitions

---
 plasTeX/Base/LaTeX/Definitions.py |  6 +++--
 plasTeX/Base/TeX/Primitives.py    | 42 ++++++++++++++++++++++++++++---
 plasTeX/Context.py                | 38 ++++++++++++++++++++++------
 3 files changed, 72 insertions(+), 14 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Definitions.py b/plasTeX/Base/LaTeX/Definitions.py
index 75380ee..2793981 100644
--- a/plasTeX/Base/LaTeX/Definitions.py
+++ b/plasTeX/Base/LaTeX/Definitions.py
@@ -14,12 +14,13 @@ deflog = getLogger('parse.definitions')
 
 class newcommand(Command):
     """ \\newcommand """
+    local = True
     args = '* name:cs [ nargs:int ] [ opt:nox ] definition:nox'
     def invoke(self, tex):
         self.parse(tex)
         a = self.attributes
         args = (a['name'], a['nargs'], a['definition'])
-        kwargs = {'opt':a['opt']}
+        kwargs = {'opt':a['opt'], 'local':self.local}
         deflog.debug('command %s %s %s', *args)
         self.ownerDocument.context.newcommand(*args, **kwargs)
 
@@ -41,12 +42,13 @@ class DeclareTextCommandDefault(newcommand):
 
 class newenvironment(Command):
     """ \\newenvironment """
+    local = True
     args = '* name:str [ nargs:int ] [ opt:nox ] begin:nox end:nox'
     def invoke(self, tex):
         self.parse(tex)
         a = self.attributes
         args = (a['name'], a['nargs'], a['begin'], a['end'])
-        kwargs = {'opt':a['opt']}
+        kwargs = {'opt':a['opt'], 'local':self.local}
         deflog.debug('environment %s %s %s', *args)
         self.ownerDocument.context.newenvironment(*args, **kwargs)
 
diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 134e951..07c1d0f 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -1,6 +1,6 @@
 from datetime import datetime
 from plasTeX.Tokenizer import Token, EscapeSequence, Other
-from plasTeX import Macro, Command, CountCommand
+from plasTeX import Macro, Command, CountCommand, Definition, NewCommand
 from plasTeX import sourceChildren
 from plasTeX.Logging import getLogger
 
@@ -17,8 +17,39 @@ class protect(Command):
     pass
 
 class global_(Command):
+    r"""
+    TeX's \global prefix
+
+    The prefix applies to the following command if that command has
+    the attribute `local' (e.g. \def, \let).
+
+    """
     macroName = 'global'
 
+    def invoke(self, tex):
+        for t in tex.itertokens():
+            if t.nodeType == Command.ELEMENT_NODE or t.macroName is None:
+                if t.nodeType == Command.ELEMENT_NODE or t.catcode != Token.CC_SPACE:
+                    tex.pushToken(t)
+                    return
+                continue
+            # Other prefixes
+            if t.macroName in ['long', 'outer', 'protected', 'global', 'relax']:
+                continue
+            obj = self.ownerDocument.createElement(t.macroName)
+            obj.contextDepth = t.contextDepth
+            if isinstance(obj, (Definition, NewCommand, expandafter)):
+                tex.pushTokens(obj.invoke(tex))
+                continue
+            if not hasattr(obj, 'local'):
+                tex.pushToken(t)
+                return
+            obj.local = False
+            tokens = obj.invoke(tex)
+            if tokens is None:
+                tokens = [obj]
+            return [self] + tokens
+
 class par(Command):
     """ Paragraph """
     level = Command.PAR_LEVEL
@@ -370,10 +401,11 @@ class ifcsname(IfCommand):
 
 class let(Command):
     """ \\let """
+    local = True
     args = 'name:Tok = value:Tok'
     def invoke(self, tex):
         a = self.parse(tex)
-        self.ownerDocument.context.let(a['name'], a['value'])
+        self.ownerDocument.context.let(a['name'], a['value'], local=self.local)
 
 class char(Command):
     """ \\char """
@@ -382,16 +414,18 @@ class char(Command):
         return tex.textTokens(chr(self.parse(tex)['char']))
 
 class chardef(Command):
+    local = True
     args = 'command:cs = num:Number'
     def invoke(self, tex):
         a = self.parse(tex)
-        self.ownerDocument.context.chardef(a['command'], a['num'])
+        self.ownerDocument.context.chardef(a['command'], a['num'], local=self.local)
 
 class mathchardef(Command):
+    local = True
     args = 'command:cs = num:Number'
     def invoke(self, tex):
         a = self.parse(tex)
-        self.ownerDocument.context.mathchardef(a['command'], a['num'])
+        self.ownerDocument.context.mathchardef(a['command'], a['num'], local=self.local)
 
 class NameDef(Command):
     macroName = '@namedef'
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index db3e8e2..1526749 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1165,7 +1165,7 @@ class Context(object):
         newclass = type(falsename, (plasTeX.IfFalse,), {'ifclass':ifclass})
         self.addGlobal(falsename, newclass)
 
-    def newcommand(self, name, nargs=0, definition=None, opt=None):
+    def newcommand(self, name, nargs=0, definition=None, opt=None, local=False):
         """
         Create a \\newcommand
 
@@ -1175,6 +1175,7 @@ class Context(object):
         definition -- string containing the LaTeX definition
         opt -- string containing the LaTeX code to use in the
             optional argument
+        local -- indicates whether this macro is local or global
 
         Examples::
             c.newcommand('bold', 1, r'\\textbf{#1}')
@@ -1202,9 +1203,13 @@ class Context(object):
         newclass = type(name, (plasTeX.NewCommand,),
                        {'nargs':nargs, 'opt':opt, 'definition':definition})
 
-        self.addGlobal(name, newclass)
+        if local:
+            self.addLocal(name, newclass)
+        else:
+            self.addGlobal(name, newclass)
 
-    def newenvironment(self, name, nargs=0, def_before=None, def_after=None, opt=None):
+    def newenvironment(self, name, nargs=0, def_before=None, def_after=None, opt=None,
+                       local=False):
         """
         Create a \\newenvironment
 
@@ -1217,6 +1222,7 @@ class Context(object):
             environment
         opt -- string containing the LaTeX code to use in the
             optional argument
+        local -- indicates whether this macro is local or global
 
         Examples::
             c.newenvironment('mylist', 0, [r'\\begin{itemize}', r'\\end{itemize}'])
@@ -1246,12 +1252,13 @@ class Context(object):
         # Begin portion
         newclass = type(name, (plasTeX.NewCommand,),
                        {'nargs':nargs, 'opt':opt, 'definition':def_before})
-        self.addGlobal(name, newclass)
+        add = self.addLocal if local else self.addGlobal
+        add(name, newclass)
 
         # End portion
         newclass = type('end' + name, (plasTeX.NewCommand,),
                        {'nargs':0, 'opt':None, 'definition':def_after})
-        self.addGlobal('end' + name, newclass)
+        add('end' + name, newclass)
 
     def newdef(self, name, args=None, definition=None, local=True):
         """
@@ -1314,6 +1321,9 @@ class Context(object):
         dest -- the command sequence to create
         source -- the token to set the command sequence equivalent to
 
+        Keyword Arguments:
+        local -- indicates whether the command sequence is local or global
+
         Examples::
             c.let('bgroup', BeginGroup('{'))
 
@@ -1349,14 +1359,20 @@ class Context(object):
         name -- name of command to create
         num -- character number to use
 
+        Keyword Arguments:
+        local -- indicates whether this macro is local or global
+
         """
         # Generate a new chardef class
         macrolog.debug('creating chardef (8-bit) %s', name)
         newclass = type(name, (plasTeX.Command,),
                                 {'str':chr(num)})
-        self.addGlobal(name, newclass)
+        if local:
+            self.addLocal(name, newclass)
+        else:
+            self.addGlobal(name, newclass)
 
-    def mathchardef(self, name, num):
+    def mathchardef(self, name, num, local=False):
         """
         Create a \\mathchardef
 
@@ -1364,9 +1380,15 @@ class Context(object):
         name -- name of command to create
         num -- character number to use
 
+        Keyword Arguments:
+        local -- indicates whether this macro is local or global
+
         """
         # Generate a new chardef class
         macrolog.debug('creating mathchardef (16-bit) %s', name)
         newclass = type(name, (plasTeX.Command,),
                                 {'str':chr(num)})
-        self.addGlobal(name, newclass)
+        if local:
+            self.addLocal(name, newclass)
+        else:
+            self.addGlobal(name, newclass)
-- 
2.43.0


From aac2885bcbcc48178117934b8d503f0cece92fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 41/80] fix: restore setcounter after natbib loaded the
 bibliography

---
 plasTeX/Packages/natbib.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/plasTeX/Packages/natbib.py b/plasTeX/Packages/natbib.py
index d44767f..571d79b 100644
--- a/plasTeX/Packages/natbib.py
+++ b/plasTeX/Packages/natbib.py
@@ -77,7 +77,6 @@ class bibliography(Base.bibliography):
         # We have to get our info from the aux file.
         doc.userdata.setPath('bibliography/bibcites', {})
         self.ownerDocument.context.push(self)
-        self.ownerDocument.context['setcounter'] = self.setcounter
         tex.loadAuxiliaryFile()
         self.ownerDocument.context.pop(self)
         Base.bibliography.loadBibliographyFile(self, tex)
-- 
2.43.0


From ab7f54d2b6d76cd137de051e4fe2c7e59dce55ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 42/80] fix: resolve references to labels of this document that
 other documents define as well

---
 plasTeX/Context.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 1526749..b8cdbe2 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -642,12 +642,11 @@ class Context(object):
         # print label, ''.join(self.currentlabel.ref[:])
 
         # Resolve any outstanding references to this object
-        if label in list(self.refs.keys()) and label in (self.labels.keys()):
-            for obj in self.refs[label]:
-                for key, value in list(obj.idref.items()):
-                    if value.id != label:
-                        continue
-                    obj.idref[key] = self.labels[label]
+        if label in list(self.refs.keys()) and label in self.persistentLabels:
+            for obj, name, target in self.refs[label]:
+                # Leave references alone that were changed in the meantime
+                if obj.idref.get(name) is target:
+                    obj.idref[name] = self.persistentLabels[label]
             del self.refs[label]
 
     def ref(self, obj, name, label):
@@ -669,19 +668,22 @@ class Context(object):
 
         # Resolve ref if label already exists
         if label in list(self.labels.keys()):
-            obj.idref[name] = self.labels[label]
-            return
-
-        # If the label doesn't exist, store away the object for later
-        if label not in list(self.refs.keys()):
-            self.refs[label] = []
-        self.refs[label].append(obj)
+            node = self.labels[label]
 
         # Make a fake node with the ID on it for now
-        node = self['Macro']()
-        node.id = label
+        else:
+            node = self['Macro']()
+            node.id = label
+
         obj.idref[name] = node
 
+        # If the label doesn't exist in this document (yet), store away the
+        # object for later
+        if label not in list(self.persistentLabels.keys()):
+            if label not in list(self.refs.keys()):
+                self.refs[label] = []
+            self.refs[label].append((obj, name, node))
+
     def __getitem__(self, key):
         """
         Look through the stack of macros and return the requested one
-- 
2.43.0


From 56f53cefa78d12e5f7bff2a0e5d1f9aef9fb824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 43/80] fix: number cases and the lines of multline like LaTeX
 does

---
 plasTeX/Packages/amsmath.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 5f81799..99f2776 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -37,7 +37,10 @@ class FAlignStar(_AMSEquationStar):
     macroName = 'falign*'
 
 class multiline(_AMSEquation):
-    pass
+
+    class EndRow(_AMSEquation.EndRow):
+        # All lines share the number of the equation
+        counter = None
 
 class MultilineStar(_AMSEquationStar):
     macroName = 'multiline*'
@@ -67,7 +70,7 @@ class aligned(_AMSEquationStar):
 class gathered(MathEnvironmentPre):
     pass
 
-class cases(_AMSEquation):
+class cases(split):
     pass
 
 class flalign(_AMSEquation):
-- 
2.43.0


From c01c6f397207457ab9eccc70c1aa128a2192ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 44/80] fix: get the number of subfloats from the caption of
 their float

---
 plasTeX/Packages/subfig.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/subfig.py b/plasTeX/Packages/subfig.py
index a8d8510..f8df55c 100644
--- a/plasTeX/Packages/subfig.py
+++ b/plasTeX/Packages/subfig.py
@@ -88,8 +88,10 @@ class subfloat(Command):
         # Add the float number to the ref value
         doc = self.ownerDocument
         frag = doc.createDocumentFragment()
-        frag.append(parentFloat.caption.ref)
-        frag.append(self.subref)
+        for number in [getattr(getattr(parentFloat, 'title', None), 'ref', None),
+                       self.subref]:
+            if number is not None:
+                frag.extend(number, setParent=False)
         return frag
 
     @ref.setter
-- 
2.43.0


From 92ccf8d340544b7afb089a68daf6666160b4a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 45/80] fix: attach labels to the innermost numbered object
 that is still open

---
 plasTeX/Base/LaTeX/Floats.py  |  1 +
 plasTeX/Base/LaTeX/Lists.py   |  1 +
 plasTeX/Base/LaTeX/Math.py    |  3 ++-
 plasTeX/Context.py            | 26 ++++++++++++++++++++------
 plasTeX/Packages/hyperref.py  |  1 +
 plasTeX/Packages/longtable.py |  1 +
 plasTeX/Packages/subfig.py    |  1 +
 plasTeX/Packages/subfigure.py |  2 ++
 plasTeX/Packages/wrapfig.py   |  1 +
 plasTeX/__init__.py           |  8 ++++++++
 10 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Floats.py b/plasTeX/Base/LaTeX/Floats.py
index ced2516..b19404d 100644
--- a/plasTeX/Base/LaTeX/Floats.py
+++ b/plasTeX/Base/LaTeX/Floats.py
@@ -25,6 +25,7 @@ class Caption(Command):
 
 class Float(Environment):
     blockType = True
+    labelScope = True
     forcePars = True
     args = '[ loc:str ]'
 
diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index 880c6c7..dbfa90f 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -15,6 +15,7 @@ class List(Environment):
     """ Base class for all list-based environments """
     counters = ['enumi','enumii','enumiii','enumiv']
     blockType = True
+    labelScope = True
 
     class item(Command):
         args = '[ term ]'
diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 60f41bb..6cd3ceb 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -173,7 +173,8 @@ class eqnarray(EqnarrayStar):
         def invoke(self, tex):
             res = Array.EndRow.invoke(self, tex)
             res[1].ref = self.ref
-            self.ownerDocument.context.currentlabel = res[1]
+            if self.counter:
+                self.ownerDocument.context.currentlabel = res[1]
             return res
 
     def invoke(self, tex):
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index b8cdbe2..4f3b3f0 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -79,6 +79,7 @@ class ContextItem(dict):
     def __init__(self, data=None):
         dict.__init__(self, data or {})
         self.categories = None # type: Optional[List[str]]
+        self.currentlabel = None # labelable object when the context was opened
         self.obj = None
         self.parent = None
         self.owner = None
@@ -740,6 +741,7 @@ class Context(object):
                     del self.contexts[1:]
             stacklog.debug('pushing %s onto %s', name, self.top)
             self.contexts.append(self.createContext(context))
+            self.contexts[-1].currentlabel = self.currentlabel
 
         self.mapMethods()
 
@@ -868,9 +870,9 @@ class Context(object):
             # Pop until we hit a None in the context
             while len(self.contexts) > 1:
                 if self.contexts[-1].obj is None:
-                    self.contexts.pop()
+                    self.popItem()
                     break
-                self.contexts.pop()
+                self.popItem()
         else:
             # If an environment was opened with \begin, declarations of the
             # same type within it are not the start of that environment
@@ -884,7 +886,7 @@ class Context(object):
                     pass
                 # Found context pushed by ourself
                 elif o is obj:
-                    self.contexts.pop()
+                    self.popItem()
                     break
                 # Don't pop parent node
                 elif o is obj.parentNode:
@@ -892,16 +894,28 @@ class Context(object):
                 # Found the \begin to our \end
                 elif type(obj) == type(o) and obj.macroMode == obj.MODE_END and \
                      (o.macroMode == o.MODE_BEGIN or not hasBegin):
-                    self.contexts.pop()
+                    self.popItem()
                     break
                 # Found the \foo to our \endfoo
                 elif obj.nodeName == ('end%s' % o.nodeName):
-                    self.contexts.pop()
+                    self.popItem()
                     break
-                self.contexts.pop()
+                self.popItem()
 
         self.mapMethods()
 
+    def popItem(self):
+        """
+        Remove the innermost context from the stack
+
+        Labels that follow the end of a numbered environment belong to the
+        object that was labelable before that environment.
+
+        """
+        item = self.contexts.pop()
+        if item.obj is not None and item.obj.labelScope:
+            self.currentlabel = item.currentlabel
+
     def setGlobal(self, name, value):
         """
         Set the meaning of a name at all levels of grouping
diff --git a/plasTeX/Packages/hyperref.py b/plasTeX/Packages/hyperref.py
index e1e34b8..42fb901 100644
--- a/plasTeX/Packages/hyperref.py
+++ b/plasTeX/Packages/hyperref.py
@@ -90,6 +90,7 @@ class hyperlink(Command):
 
 class hypertarget(Command):
     counter = 'hypertarget'  # so we can link to it
+    labelScope = True
     args = 'label:id self'
 
 class hypertargetname(Command):
diff --git a/plasTeX/Packages/longtable.py b/plasTeX/Packages/longtable.py
index d335c16..f8d85cf 100644
--- a/plasTeX/Packages/longtable.py
+++ b/plasTeX/Packages/longtable.py
@@ -11,6 +11,7 @@ class LTchunksize(CountCommand): value = count(20)
 class setlongtables(Command): pass
 
 class longtable(tabular):
+    labelScope = True
     args = '[ position:str ] colspec:nox'
 
     class caption(tabular.caption):
diff --git a/plasTeX/Packages/subfig.py b/plasTeX/Packages/subfig.py
index f8df55c..19c2a5b 100644
--- a/plasTeX/Packages/subfig.py
+++ b/plasTeX/Packages/subfig.py
@@ -43,6 +43,7 @@ class subfloatname(Command):
 class subfloat(Command):
     args = '[ toc ] [ caption ] self'
     counter = 'subfloat'
+    labelScope = True
     options = {}
 
     def preParse(self, tex):
diff --git a/plasTeX/Packages/subfigure.py b/plasTeX/Packages/subfigure.py
index 5b6deee..b1f0a41 100644
--- a/plasTeX/Packages/subfigure.py
+++ b/plasTeX/Packages/subfigure.py
@@ -21,7 +21,9 @@ class subtablename(Command):
 class subfigure(Command):
     args = '[ title ] self'
     counter = 'subfigure'
+    labelScope = True
 
 class subtable(Command):
     args = '[ title ] self'
     counter = 'subtable'
+    labelScope = True
diff --git a/plasTeX/Packages/wrapfig.py b/plasTeX/Packages/wrapfig.py
index da8c184..d4e5178 100644
--- a/plasTeX/Packages/wrapfig.py
+++ b/plasTeX/Packages/wrapfig.py
@@ -4,6 +4,7 @@ from plasTeX.Base.LaTeX.Floats import Caption
 class wrapfigure(Environment):
     args = '[ lines ] place:str [ overhang ] width'
     float = 'left'
+    labelScope = True
     def invoke(self, tex):
         res = Environment.invoke(self, tex)
         if self.macroMode == self.MODE_BEGIN:
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index c45df62..14c20ea 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -127,6 +127,10 @@ class Macro(Element):
     # Counter associated with this macro
     counter = None # type: Optional[str]
 
+    # Do objects that are numbered within this macro stop being the target of
+    # \label commands where this macro ends?
+    labelScope = False
+
     # Value to return when macro is referred to by \ref
     ref = None # type: Optional[str]
 
@@ -888,6 +892,10 @@ class Environment(Macro):
     """ Base class for all Python-based LaTeX environments """
     level = Node.ENVIRONMENT_LEVEL
 
+    @property
+    def labelScope(self):
+        return bool(self.counter)
+
     def invoke(self, tex):
         if self.macroMode == Macro.MODE_END:
             self.ownerDocument.context.pop(self)
-- 
2.43.0


From 8af6dadb684bb31c2333e21dc33349482eddc671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 46/80] fix: keep the labels of this document when labels of
 others are loaded later

---
 plasTeX/Context.py     | 2 ++
 plasTeX/Packages/xr.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 4f3b3f0..17d2127 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -336,6 +336,8 @@ class Context(object):
                 n = self[value.get('macroName', 'Macro')]()
                 n.restore(value)
                 labels[key] = n
+            # Labels of this document take precedence
+            labels.update(self.persistentLabels)
             self.labels.update(labels)
         except Exception as msg:
             log.warning('Could not load auxiliary information. (%s)' % msg)
diff --git a/plasTeX/Packages/xr.py b/plasTeX/Packages/xr.py
index 751077b..13a17b1 100644
--- a/plasTeX/Packages/xr.py
+++ b/plasTeX/Packages/xr.py
@@ -32,6 +32,9 @@ class externaldocument(Command):
         rname = self.config['general']['renderer']
         block = load_paux(pauxname).get(rname, {})
         for lbl, val in block.items():
+            # Labels of this document take precedence
+            if prefix + lbl in self.ownerDocument.context.persistentLabels:
+                continue
             labels[prefix + lbl] = val
             if url:
                 labels[prefix + lbl]['url'] = url + labels[prefix + lbl]['url']
-- 
2.43.0


From c43b81726f7ce42a0083b1baedba0224c8d40224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 47/80] fix: read labels in arguments of other macros verbatim

---
 plasTeX/TeX.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index fe24a83..a6c1830 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -729,12 +729,14 @@ class TeX(object):
             expanded = False
 
         priorcodes = {}
+        newcodes = {}
 
         try:
             # Set catcodes for this argument type
             try:
                 if isinstance(self.argtypes[type], (list,tuple)):
-                    for key, value in list(self.argtypes[type][1].items()):
+                    newcodes = self.argtypes[type][1]
+                    for key, value in list(newcodes.items()):
                         priorcodes[key] = self.ownerDocument.context.whichCode(key)
                         self.ownerDocument.context.catcode(key, value)
             except KeyError:
@@ -742,7 +744,8 @@ class TeX(object):
 
             # Get a TeX token (i.e. {...})
             if spec is None:
-                toks, source = self.readToken(expanded, parentNode=parentNode)
+                toks, source = self.readToken(expanded, parentNode=parentNode,
+                                              newcodes=newcodes)
 
             # Get a single character argument
             elif len(spec) == 1:
@@ -785,10 +788,17 @@ class TeX(object):
 
         return res, source
 
-    def readToken(self, expanded=False, parentNode=None):
+    def readToken(self, expanded=False, parentNode=None, newcodes={}):
         """
         Read a token or token group
 
+        Keyword Arguments:
+        expanded -- boolean indicating if the tokens should be expanded
+        parentNode -- the node that the tokens belong to
+        newcodes -- catcodes of characters in the group. They also apply
+            to characters which were tokenized earlier (e.g., within the
+            argument of another macro).
+
         Returns:
         two element tuple containing the parsed tokens and the
         TeX code that they came from
@@ -826,6 +836,12 @@ class TeX(object):
             else:
                 toks.append(t)
 
+            if newcodes:
+                toks = [Other(t) if isinstance(t, Token) and
+                        t.catcode != Token.CC_ESCAPE and
+                        newcodes.get(t) == Token.CC_OTHER else t
+                        for t in toks]
+
             # Expand macros and get the argument source string
             if expanded:
                 toks = self.expandTokens(toks, parentNode=parentNode)
-- 
2.43.0


From 824f9d95a0cf09a1a434ff366bce9c72f5145ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 48/80] fix: follow redefinitions of the outer counter in
 numberwithin

---
 plasTeX/Packages/amsmath.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 99f2776..c015274 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -1,4 +1,4 @@
-from plasTeX import Command
+from plasTeX import Command, TheCounter
 from plasTeX.Base.LaTeX.Arrays import Array
 from plasTeX.Base.LaTeX.Math import EqnarrayStar, eqnarray
 #### Imports Added by Tim ####
@@ -140,8 +140,9 @@ class numberwithin(Command):
         target_cnt.resetby = control
 
         # Formatting
-        ctx['the'+target].format = '{}.${{{}}}'.format(
-                ctx['the'+control].format, target)
+        name = 'the' + target
+        ctx.addGlobal(name, type(name, (TheCounter,), {
+                'format': '${the%s}.${%s}' % (control, target)}))
 
 class eqref(Command):
     args = 'label:idref'
-- 
2.43.0


From 58d7f61473fadfb7630f88e22a54ee2d3532a717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 49/80] fix: read ampersands in labels as text

---
 plasTeX/TeX.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index a6c1830..b5d16c6 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -83,10 +83,10 @@ class TeX(object):
             chr: self.castString,
             'char': self.castString,
             'cs': self.castControlSequence,
-            'label': (self.castLabel, {'_':12,'^':12}),
-            'id': (self.castLabel, {'_':12,'^':12}),
-            'idref': (self.castRef, {'_':12,'^':12}),
-            'ref': (self.castRef, {'_':12,'^':12}),
+            'label': (self.castLabel, {'_':12,'^':12,'&':12}),
+            'id': (self.castLabel, {'_':12,'^':12,'&':12}),
+            'idref': (self.castRef, {'_':12,'^':12,'&':12}),
+            'ref': (self.castRef, {'_':12,'^':12,'&':12}),
             'nox': lambda x,**y: x,
             'list': self.castList,
             list: self.castList,
-- 
2.43.0


From 37db12267258a178b51565b6bb73a3108b31c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 50/80] fix: show the footnotes of the first page in the python
 theme

---
 plasTeX/Renderers/XHTML/Themes/python/document-layout.html | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plasTeX/Renderers/XHTML/Themes/python/document-layout.html b/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
index 3b6a02c..e265a9c 100644
--- a/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
+++ b/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
@@ -53,6 +53,13 @@
 
 <div tal:content="self">section content</div>
 
+<div id="footnotes" tal:condition="self/footnotes">
+<p><b>Footnotes</b></p>
+<ol>
+<li tal:repeat="footnote self/footnotes" tal:content="footnote" tal:attributes="id footnote/id">footnote text</li>
+</ol>
+</div>
+
 <div tal:condition="self/tableofcontents" class="contents">
 <hr />
 <ul>
-- 
2.43.0


From bc15fd755d88de989ad79dcadc62fd1f63bb7d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 51/80] fix: split the document when a single filename template
 is numbered

---
 plasTeX/Renderers/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/__init__.py b/plasTeX/Renderers/__init__.py
index 002e955..33ff6fd 100644
--- a/plasTeX/Renderers/__init__.py
+++ b/plasTeX/Renderers/__init__.py
@@ -1,4 +1,4 @@
-import os, shutil, string, importlib
+import os, re, shutil, string, importlib
 from plasTeX.Filenames import Filenames
 from plasTeX.DOM import Node
 from plasTeX.Logging import getLogger
@@ -405,7 +405,9 @@ class Renderer(dict):
 
         self.level = config["files"]["split-level"]
         filenameTemplate = config["files"]["filename"].strip()
-        if ' ' not in filenameTemplate and '[' not in filenameTemplate:
+        # A single name means a single file, unless the name is numbered
+        if ' ' not in filenameTemplate and '[' not in filenameTemplate \
+           and not re.search(r'\$(num\b|{\s*num\s*})', filenameTemplate):
             self.level = -10
 
         # If there are no keys, print a warning.
-- 
2.43.0


From 2e820b6856e1a0ef25445526a90dad731f90cede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 52/80] fix: show the labels of items in itemize and enumerate

---
 plasTeX/Renderers/HTML5/Lists.jinja2s | 4 ++--
 plasTeX/Renderers/XHTML/Lists.zpts    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Lists.jinja2s b/plasTeX/Renderers/HTML5/Lists.jinja2s
index 6f387ee..4d591f3 100644
--- a/plasTeX/Renderers/HTML5/Lists.jinja2s
+++ b/plasTeX/Renderers/HTML5/Lists.jinja2s
@@ -1,14 +1,14 @@
 name: itemize
 <ul class="itemize">
 {% for item in obj %}
-  <li>{{ item }}</li>
+  <li>{% if item.attributes.term %}<span class="item-term">{{ item.attributes.term }}</span> {% endif %}{{ item }}</li>
 {% endfor %}
 </ul>
 
 name: enumerate
 <ol class="enumerate">
 {% for item in obj %}
-  <li>{{ item }}</li>
+  <li>{% if item.attributes.term %}<span class="item-term">{{ item.attributes.term }}</span> {% endif %}{{ item }}</li>
 {% endfor %}
 </ol>
 
diff --git a/plasTeX/Renderers/XHTML/Lists.zpts b/plasTeX/Renderers/XHTML/Lists.zpts
index 11c1d9c..7a97ac7 100644
--- a/plasTeX/Renderers/XHTML/Lists.zpts
+++ b/plasTeX/Renderers/XHTML/Lists.zpts
@@ -1,11 +1,11 @@
 name: itemize
 <ul class="itemize">
-<li tal:repeat="item self" tal:content="item"></li>
+<li tal:repeat="item self"><span tal:condition="item/attributes/term" tal:omit-tag=""><span tal:replace="item/attributes/term"></span> </span><span tal:replace="item"></span></li>
 </ul>
 
 name: enumerate
 <ol class="enumerate">
-<li tal:repeat="item self" tal:content="item" tal:attributes="value item/position"></li>
+<li tal:repeat="item self" tal:attributes="value item/position"><span tal:condition="item/attributes/term" tal:omit-tag=""><span tal:replace="item/attributes/term"></span> </span><span tal:replace="item"></span></li>
 </ol>
 
 name: description
-- 
2.43.0


From 96d398b43c2b2c8fdaa081897deffe59fec428cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 53/80] fix: show longtable without a caption in HTML5

---
 plasTeX/Renderers/HTML5/longtable.jinja2s | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/longtable.jinja2s b/plasTeX/Renderers/HTML5/longtable.jinja2s
index 50c2070..509b246 100644
--- a/plasTeX/Renderers/HTML5/longtable.jinja2s
+++ b/plasTeX/Renderers/HTML5/longtable.jinja2s
@@ -1,5 +1,5 @@
 name: longtable
-<div id="{{ obj.title.id }}">
+<div{% if obj.title %} id="{{ obj.title.id }}"{% endif %}>
 {% if obj.title %}
 <div class="caption">
   <span class="table-label">{{ obj.title.title }} {{ obj.title.ref }}</span> 
@@ -16,7 +16,7 @@ name: longtable
   <td style="{{ cell.style.inline}}" rowspan="{{ cell.attributes.rowspan }}" colspan="{{ cell.attributes.colspan }}">{{ cell }}</td>
   {% endif %}
 {% endfor %}
-{% endfor %}
 </tr>
+{% endfor %}
 </table>
 </div>
-- 
2.43.0


From 792011bc0064af044169b965de680bd4868a1c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 54/80] fix: show the text of raisebox in HTML5

---
 plasTeX/Renderers/HTML5/Boxes.jinja2s | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/HTML5/Boxes.jinja2s b/plasTeX/Renderers/HTML5/Boxes.jinja2s
index 74dc6a8..0f7e1dd 100644
--- a/plasTeX/Renderers/HTML5/Boxes.jinja2s
+++ b/plasTeX/Renderers/HTML5/Boxes.jinja2s
@@ -10,4 +10,7 @@ name: parbox
 name: minipage
 <div class="minipage" style="width: {{ obj.attributes.width }}">{{ obj }}</div>
 
-name: raisebox rule
+name: raisebox
+<span class="raisebox" style="vertical-align: {{ obj.attributes.raise }}">{{ obj }}</span>
+
+name: rule
-- 
2.43.0


From 59a84b1f6e24fb41bad3dd49ce8bc7d1d5649fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 55/80] fix: show the text of texorpdfstring in XHTML

---
 plasTeX/Renderers/XHTML/hyperref.zpts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plasTeX/Renderers/XHTML/hyperref.zpts b/plasTeX/Renderers/XHTML/hyperref.zpts
index e8919f5..e166183 100644
--- a/plasTeX/Renderers/XHTML/hyperref.zpts
+++ b/plasTeX/Renderers/XHTML/hyperref.zpts
@@ -30,6 +30,9 @@ name: hypertarget
 name: phantomsection
 <a tal:attributes="name self/id"></a>
 
+name: texorpdfstring
+<span tal:replace="self/attributes/tex">text</span>
+
 name: autoref
 <a tal:attributes="href self/idref/label/url" tal:content="string:${self/idref/label/captionName} ${self/idref/label/ref}">Figure #.#.#</a>
 
-- 
2.43.0


From 989a8115ed6fe5fa3c51262cfbd5421b17d17749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 56/80] fix: show the headings of theorems and proofs in XHTML

---
 plasTeX/Renderers/XHTML/Thms.zpts | 12 ++++++++++++
 1 file changed, 12 insertions(+)
 create mode 100644 plasTeX/Renderers/XHTML/Thms.zpts

diff --git a/plasTeX/Renderers/XHTML/Thms.zpts b/plasTeX/Renderers/XHTML/Thms.zpts
new file mode 100644
index 0000000..9beef08
--- /dev/null
+++ b/plasTeX/Renderers/XHTML/Thms.zpts
@@ -0,0 +1,12 @@
+name: thmenv
+<div tal:attributes="class string:theorem ${self/thmName}; id self/id">
+<p><b><span tal:replace="self/caption">Theorem</span> <span tal:condition="self/ref" tal:replace="self/ref">1</span></b>
+<span tal:condition="self/title" tal:omit-tag="">(<span tal:replace="self/title">title</span>)</span></p>
+<div tal:replace="self">theorem</div>
+</div>
+
+name: proof
+<div class="proof" tal:attributes="id self/id">
+<p><i tal:condition="self/caption" tal:content="self/caption">Proof</i><i tal:condition="not:self/caption" tal:content="self/ownerDocument/context/terms/proof | string:Proof">Proof</i></p>
+<div tal:replace="self">proof</div>
+</div>
-- 
2.43.0


From 4ca9e3c362a6f404d994eac4a147906f8e64b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 57/80] fix: show the text of the argument of twocolumn

---
 plasTeX/Base/LaTeX/Packages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Packages.py b/plasTeX/Base/LaTeX/Packages.py
index 5afcc7b..7ac2779 100644
--- a/plasTeX/Base/LaTeX/Packages.py
+++ b/plasTeX/Base/LaTeX/Packages.py
@@ -92,7 +92,7 @@ class pagenumbering(Command):
     args = 'style:str'
 
 class twocolumn(Command):
-    args = '[ text ]'
+    args = '[ self ]'
 
 class onecolumn(Command):
     pass
-- 
2.43.0


From b7bc5fc614953595b81feaf88512cd273ee9f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 58/80] fix: do not name files after empty titles

---
 plasTeX/Renderers/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/__init__.py b/plasTeX/Renderers/__init__.py
index 33ff6fd..5383679 100644
--- a/plasTeX/Renderers/__init__.py
+++ b/plasTeX/Renderers/__init__.py
@@ -310,10 +310,13 @@ class Renderable(object):
             if hasattr(self, 'id') and getattr(self, '@hasgenid', None) is None:
                 ns['id'] = self.id
             if hasattr(self, 'title'):
+                title = ''
                 if hasattr(self.title, 'textContent'):
-                    ns['title'] = self.title.textContent
+                    title = self.title.textContent
                 elif isinstance(self.title, str):
-                    ns['title'] = self.title
+                    title = self.title
+                if title.strip():
+                    ns['title'] = title
             if hasattr(self, 'ref'):
                 ref = ''
                 if hasattr(self.ref, 'textContent'):
-- 
2.43.0


From 48cc86243ae105a0aee631cc955483c2077fa963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 59/80] fix: give the heading of the index its identifier

---
 plasTeX/Renderers/HTML5/Index.jinja2s | 2 +-
 plasTeX/Renderers/XHTML/Index.zpts    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index 99253a7..4687f9e 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -1,6 +1,6 @@
 name: theindex printindex
 {% set groups = obj.groups %}
-<h1>{{ obj.title }}</h1>
+<h1 id="{{ obj.id }}">{{ obj.title }}</h1>
 
 <nav class="index-groups">
 {% for group in groups %}
diff --git a/plasTeX/Renderers/XHTML/Index.zpts b/plasTeX/Renderers/XHTML/Index.zpts
index e3f5efd..5196946 100644
--- a/plasTeX/Renderers/XHTML/Index.zpts
+++ b/plasTeX/Renderers/XHTML/Index.zpts
@@ -1,5 +1,5 @@
 name: theindex printindex
-<h1 tal:content="self/title"></h1>
+<h1 tal:attributes="id self/id" tal:content="self/title"></h1>
 
 <div tal:define="groups self/groups">
 
-- 
2.43.0


From c7f449aa25b42b5790e62725f736909169fc1505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 60/80] fix: keep index groups apart from labels in HTML5

---
 plasTeX/Renderers/HTML5/Index.jinja2s | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index 4687f9e..5072f2f 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -4,7 +4,7 @@ name: theindex printindex
 
 <nav class="index-groups">
 {% for group in groups %}
-<a href="#{{ group.id }}" class="{% if loop.last %}index-group-last{% else %}index-group{% endif %}">{{ group.title }}</a>
+<a href="#IDXGROUP.{{ group.id }}" class="{% if loop.last %}index-group-last{% else %}index-group{% endif %}">{{ group.title }}</a>
 {% endfor %}
 </nav>
 
@@ -12,7 +12,7 @@ name: theindex printindex
 {% for group in groups %}
 <section class="theindex">
 
-<h2 id="{{ group.id}}">{{ group.title }}</h2>
+<h2 id="IDXGROUP.{{ group.id }}">{{ group.title }}</h2>
 {% for column in group %}
 <ul class="index-column">
 {% for item in column recursive %}
-- 
2.43.0


From aab8bb274b6a513e4f0adc623c16450060264fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 61/80] fix: give items of lists their identifiers

---
 plasTeX/Renderers/HTML5/Lists.jinja2s |  6 +++---
 plasTeX/Renderers/XHTML/Lists.zpts    | 10 +++++-----
 plasTeX/__init__.py                   |  5 +++++
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Lists.jinja2s b/plasTeX/Renderers/HTML5/Lists.jinja2s
index 4d591f3..3f3dd9b 100644
--- a/plasTeX/Renderers/HTML5/Lists.jinja2s
+++ b/plasTeX/Renderers/HTML5/Lists.jinja2s
@@ -1,21 +1,21 @@
 name: itemize
 <ul class="itemize">
 {% for item in obj %}
-  <li>{% if item.attributes.term %}<span class="item-term">{{ item.attributes.term }}</span> {% endif %}{{ item }}</li>
+  <li{% if item.givenid %} id="{{ item.givenid }}"{% endif %}>{% if item.attributes.term %}<span class="item-term">{{ item.attributes.term }}</span> {% endif %}{{ item }}</li>
 {% endfor %}
 </ul>
 
 name: enumerate
 <ol class="enumerate">
 {% for item in obj %}
-  <li>{% if item.attributes.term %}<span class="item-term">{{ item.attributes.term }}</span> {% endif %}{{ item }}</li>
+  <li{% if item.givenid %} id="{{ item.givenid }}"{% endif %}>{% if item.attributes.term %}<span class="item-term">{{ item.attributes.term }}</span> {% endif %}{{ item }}</li>
 {% endfor %}
 </ol>
 
 name: list trivlist description
 <dl class="{{ obj.nodeName }}">
 {% for item in obj %}
-  <dt>{{ item.attributes.term or obj.attributes.defaultlabel }}</dt>
+  <dt{% if item.givenid %} id="{{ item.givenid }}"{% endif %}>{{ item.attributes.term or obj.attributes.defaultlabel }}</dt>
   <dd>{{ item }}</dd>
 {% endfor %}
 </dl>
diff --git a/plasTeX/Renderers/XHTML/Lists.zpts b/plasTeX/Renderers/XHTML/Lists.zpts
index 7a97ac7..fd046b0 100644
--- a/plasTeX/Renderers/XHTML/Lists.zpts
+++ b/plasTeX/Renderers/XHTML/Lists.zpts
@@ -1,25 +1,25 @@
 name: itemize
 <ul class="itemize">
-<li tal:repeat="item self"><span tal:condition="item/attributes/term" tal:omit-tag=""><span tal:replace="item/attributes/term"></span> </span><span tal:replace="item"></span></li>
+<li tal:repeat="item self" tal:attributes="id item/givenid"><span tal:condition="item/attributes/term" tal:omit-tag=""><span tal:replace="item/attributes/term"></span> </span><span tal:replace="item"></span></li>
 </ul>
 
 name: enumerate
 <ol class="enumerate">
-<li tal:repeat="item self" tal:attributes="value item/position"><span tal:condition="item/attributes/term" tal:omit-tag=""><span tal:replace="item/attributes/term"></span> </span><span tal:replace="item"></span></li>
+<li tal:repeat="item self" tal:attributes="value item/position; id item/givenid"><span tal:condition="item/attributes/term" tal:omit-tag=""><span tal:replace="item/attributes/term"></span> </span><span tal:replace="item"></span></li>
 </ol>
 
 name: description
 type: xml
 <dl class="description">
 <metal:block tal:repeat="item self">
-    <dt tal:content="item/attributes/term"></dt>
+    <dt tal:attributes="id item/givenid" tal:content="item/attributes/term"></dt>
     <dd tal:content="item"></dd>
 </metal:block>
 </dl>
 
 name: list trivlist
 <table class="list" cellspacing="0" cellpadding="2">
-<tr tal:repeat="item self">
+<tr tal:repeat="item self" tal:attributes="id item/givenid">
 <td tal:content="item/attributes/term | self/attributes/defaultlabel"></td>
 <td tal:content="item"></td>
 </tr>
@@ -29,7 +29,7 @@ name: list
 type: xml
 <dl class="description">
 <metal:block tal:repeat="item self">
-    <dt tal:content="item/attributes/term"></dt>
+    <dt tal:attributes="id item/givenid" tal:content="item/attributes/term"></dt>
     <dd tal:content="item"></dd>
 </metal:block>
 </dl>
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 14c20ea..68a66c2 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -346,6 +346,11 @@ class Macro(Element):
         else:
             delattr(self, '@id')
 
+    @property
+    def givenid(self):
+        """ Identifier given by a label, None if there is no label """
+        return None if hasattr(self, '@hasgenid') else getattr(self, '@id', None)
+
     def expand(self, tex):
         """ Fully expand the macro """
         result = self.invoke(tex)
-- 
2.43.0


From 6b981fd6ccb551595dc12f6f87a84a249c43a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 62/80] fix: do not make links of references to nothing

---
 plasTeX/Renderers/HTML5/hyperref.jinja2s | 6 +++---
 plasTeX/Renderers/HTML5/subfig.jinja2s   | 2 +-
 plasTeX/Renderers/XHTML/hyperref.zpts    | 2 +-
 plasTeX/Renderers/XHTML/nameref.zpts     | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/hyperref.jinja2s b/plasTeX/Renderers/HTML5/hyperref.jinja2s
index 437e7a9..4c2d517 100644
--- a/plasTeX/Renderers/HTML5/hyperref.jinja2s
+++ b/plasTeX/Renderers/HTML5/hyperref.jinja2s
@@ -16,10 +16,10 @@ name: hyperdef
 <a name="{{ obj.attributes.category }}.{{ obj.attributes.name }}" >{{ obj }}</a>
 
 name: hyperref
-<a href="{% if obj.idref %}{{ obj.idref.label.url }}{% else %}{{ obj.attributes.url }}#{{ obj.attributes.category }}.{{ obj.attributes.name}}{% endif %}" >{{ obj }}</a>
+{% if 'label' in obj.idref and obj.idref.label.url %}<a href="{{ obj.idref.label.url }}" >{{ obj }}</a>{% else %}{{ obj }}{% endif %}
 
 name: hyperlink
-<a href="{{ obj.idref.label.url }}" >{{ obj }}</a>
+{% if 'label' in obj.idref and obj.idref.label.url %}<a href="{{ obj.idref.label.url }}" >{{ obj }}</a>{% else %}{{ obj }}{% endif %}
 
 name: hypertarget
 <a name="{{ obj.id }}" >{{ obj }}</a>
@@ -31,7 +31,7 @@ name: texorpdfstring
 {{ obj.attributes['tex'] }}
 
 name: autoref
-<a href="{{ obj.idref.label.url }}" >{{ obj.idref.label.captionName}} {{ obj.idref.label.ref }}</a>
+{% if 'label' in obj.idref and obj.idref.label.ref %}<a href="{{ obj.idref.label.url }}" >{{ obj.idref.label.captionName}} {{ obj.idref.label.ref }}</a>{% else %}??{% endif %}
 
 name: Form
 <form action="{{ obj.attributes.parameters.action }}" method="{{ obj.attributes.parameters.method }}" >{{ obj }}</form>
diff --git a/plasTeX/Renderers/HTML5/subfig.jinja2s b/plasTeX/Renderers/HTML5/subfig.jinja2s
index 714122d..5fd373a 100644
--- a/plasTeX/Renderers/HTML5/subfig.jinja2s
+++ b/plasTeX/Renderers/HTML5/subfig.jinja2s
@@ -14,6 +14,6 @@ name: subfloat subfig subfigure subtable
 </figure>
 
 name: subref subref*
-<a href="{{ obj.idref.label.url }}">{{ obj.idref.label.subref }}</a>
+{% if 'label' in obj.idref and obj.idref.label.subref %}<a href="{{ obj.idref.label.url }}">{{ obj.idref.label.subref }}</a>{% else %}??{% endif %}
 
 name: newsubfloat DeclareCaptionListOfFormat listsubcaptions captionsetup clearcaptionsetup ContinuedFloat
diff --git a/plasTeX/Renderers/XHTML/hyperref.zpts b/plasTeX/Renderers/XHTML/hyperref.zpts
index e166183..e5b336f 100644
--- a/plasTeX/Renderers/XHTML/hyperref.zpts
+++ b/plasTeX/Renderers/XHTML/hyperref.zpts
@@ -22,7 +22,7 @@ name: hyperref
 <a tal:attributes="href self/idref/label/url" tal:content="self">link text</a>
 
 name: hyperlink
-<a tal:attributes="href string:${self/idref/label/url}" tal:content="self">text</a>
+<a tal:attributes="href self/idref/label/url" tal:content="self">text</a>
 
 name: hypertarget
 <a tal:attributes="name self/id" tal:content="self">text</a>
diff --git a/plasTeX/Renderers/XHTML/nameref.zpts b/plasTeX/Renderers/XHTML/nameref.zpts
index 49467dc..73b35b6 100644
--- a/plasTeX/Renderers/XHTML/nameref.zpts
+++ b/plasTeX/Renderers/XHTML/nameref.zpts
@@ -1,3 +1,3 @@
 name: Nameref nameref
 <a tal:condition="self/idref/label" tal:attributes="href string:${self/idref/label/url}" tal:content="self/idref/label/title">text</a>
-<a tal:condition="not:self/idref/label" tal:attributes="href string:#${self/attributes/label}">Unknown Section</a>
+<span tal:condition="not:self/idref/label">Unknown Section</span>
-- 
2.43.0


From 666f69347b34064a9e47b848e81f793439a404e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 63/80] fix: show the references of amsmath and cleveref in
 XHTML

---
 plasTeX/Renderers/XHTML/Crossref.zpts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plasTeX/Renderers/XHTML/Crossref.zpts b/plasTeX/Renderers/XHTML/Crossref.zpts
index 5c33855..2e6c310 100644
--- a/plasTeX/Renderers/XHTML/Crossref.zpts
+++ b/plasTeX/Renderers/XHTML/Crossref.zpts
@@ -1,6 +1,12 @@
 name: ref
 <a tal:attributes="href self/idref/label/url" tal:content="self/idref/label/ref">#.#.#</a>
 
+name: eqref
+<a class="eqref" tal:condition="self/idref/label/ref" tal:attributes="href self/idref/label/url" tal:content="string:(${self/idref/label/ref})">(#.#.#)</a>
+
+name: cref Cref
+<a tal:condition="self/idref/label/ref" tal:attributes="href self/idref/label/url" tal:content="string:${self/refname} ${self/idref/label/ref}">Section #.#.#</a>
+
 name: pageref
 <a tal:attributes="href self/idref/label/url">*</a>
 
-- 
2.43.0


From 948c3491022ab3aa10ffeaf81f7a3c198c2de271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 64/80] fix: show references by name in HTML5

---
 plasTeX/Renderers/HTML5/nameref.jinja2s | 2 ++
 1 file changed, 2 insertions(+)
 create mode 100644 plasTeX/Renderers/HTML5/nameref.jinja2s

diff --git a/plasTeX/Renderers/HTML5/nameref.jinja2s b/plasTeX/Renderers/HTML5/nameref.jinja2s
new file mode 100644
index 0000000..3f821e1
--- /dev/null
+++ b/plasTeX/Renderers/HTML5/nameref.jinja2s
@@ -0,0 +1,2 @@
+name: nameref Nameref
+{% if 'label' in obj.idref and obj.idref.label.title %}<a href="{{ obj.idref.label.url }}">{{ obj.idref.label.title }}</a>{% else %}??{% endif %}
-- 
2.43.0


From 77fb78d9d1fd9f9900988603580a687caded4f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 65/80] fix: give the rows of equations their identifiers in
 HTML5

---
 plasTeX/Renderers/HTML5/Math.jinja2s | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/HTML5/Math.jinja2s b/plasTeX/Renderers/HTML5/Math.jinja2s
index 26cad1b..ade7d78 100644
--- a/plasTeX/Renderers/HTML5/Math.jinja2s
+++ b/plasTeX/Renderers/HTML5/Math.jinja2s
@@ -4,11 +4,19 @@ name: math
 name: ensuremath 
 \({{ obj.mathjax_source }}\)
 
-name: displaymath equation* eqnarray eqnarray* align align* gather gather* flalign flalign* multline multline* alignat alignat* split
+name: displaymath equation*
 <div class="displaymath" id="{{ obj.id }}">
   {{ obj.mathjax_source }}
 </div>
 
+name: eqnarray eqnarray* align align* gather gather* flalign flalign* multline multline* alignat alignat* split
+<div class="displaymath" id="{{ obj.id }}">
+{% for row in obj if row.ref and row.id != obj.id %}
+  <a id="{{ row.id }}"></a>
+{% endfor %}
+  {{ obj.mathjax_source }}
+</div>
+
 name: equation
 <div class="equation" id="{{ obj.id }}">
 <p>
-- 
2.43.0


From ec27a0334e6183751be5dc2ab03b59fd75b62bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 66/80] fix: link footnote marks to their text

---
 plasTeX/Base/LaTeX/Footnotes.py           | 22 +++++++++++++++++++++-
 plasTeX/Renderers/HTML5/Footnotes.jinja2s |  2 +-
 plasTeX/Renderers/XHTML/Footnotes.zpts    |  2 +-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Footnotes.py b/plasTeX/Base/LaTeX/Footnotes.py
index 7ef98b3..4d93090 100644
--- a/plasTeX/Base/LaTeX/Footnotes.py
+++ b/plasTeX/Base/LaTeX/Footnotes.py
@@ -23,6 +23,8 @@ class footnote(Command):
 class footnotemark(Command):
     args = '[ num:int ]'
     mark = None
+    # The text that belongs to this mark
+    note = None
 
     def invoke(self, tex):
         # Add the footnotemarks to the document
@@ -34,13 +36,31 @@ class footnotemark(Command):
         self.mark = self
         return output
 
+    @property
+    def noteurl(self):
+        """ Link to the text of this mark, if there is one """
+        if self.note is None:
+            return None
+        files = []
+        for s in [self, self.note]:
+            s = s.currentSection
+            while s is not None and not s.filename:
+                s = s.currentSection
+            files.append(s)
+        if files[0] is files[1]:
+            return '#footnotes'
+        return self.note.url
+
 class footnotetext(footnote):
     args = '[ num:int ] self'
     mark = None
     
     def invoke(self, tex):
         output = footnote.invoke(self, tex)
-        self.mark = self.ownerDocument.userdata.get('footnotemarks',[None]).pop(0)
+        marks = self.ownerDocument.userdata.get('footnotemarks')
+        if marks:
+            self.mark = marks.pop(0)
+            self.mark.note = self
         return output
 
 #
diff --git a/plasTeX/Renderers/HTML5/Footnotes.jinja2s b/plasTeX/Renderers/HTML5/Footnotes.jinja2s
index ebb237e..c22acde 100644
--- a/plasTeX/Renderers/HTML5/Footnotes.jinja2s
+++ b/plasTeX/Renderers/HTML5/Footnotes.jinja2s
@@ -4,7 +4,7 @@ name: footnote
 </a>
 
 name: footnotemark
-<a class="footnote" href="#footnotes">
+<a class="footnote"{% if obj.noteurl %} href="{{ obj.noteurl }}"{% endif %}>
   <sup class="footnotemark">{{ obj.mark.attributes.num }}</sup>
 </a>
 
diff --git a/plasTeX/Renderers/XHTML/Footnotes.zpts b/plasTeX/Renderers/XHTML/Footnotes.zpts
index f956326..87de7ad 100644
--- a/plasTeX/Renderers/XHTML/Footnotes.zpts
+++ b/plasTeX/Renderers/XHTML/Footnotes.zpts
@@ -2,6 +2,6 @@ name: footnote
 <a class="footnote" tal:attributes="href string:#${self/id}"><sup class="footnotemark" tal:content="self/mark/attributes/num">&#8224;</sup></a>
 
 name: footnotemark
-<a class="footnote" href="#footnotes"><sup class="footnotemark" tal:content="self/mark/attributes/num">&#8224;</sup></a>
+<a class="footnote" tal:attributes="href self/noteurl"><sup class="footnotemark" tal:content="self/mark/attributes/num">&#8224;</sup></a>
 
 name: footnotetext
-- 
2.43.0


From 1e26bce6551d6d6d233f147242ca4276c9e413ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 67/80] fix: give captions that are not the only one of a float
 their identifiers

---
 plasTeX/Base/LaTeX/Floats.py            | 3 +++
 plasTeX/Renderers/HTML5/Floats.jinja2s  | 2 +-
 plasTeX/Renderers/HTML5/wrapfig.jinja2s | 2 +-
 plasTeX/Renderers/XHTML/Floats.zpts     | 2 +-
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Floats.py b/plasTeX/Base/LaTeX/Floats.py
index b19404d..c7594a9 100644
--- a/plasTeX/Base/LaTeX/Floats.py
+++ b/plasTeX/Base/LaTeX/Floats.py
@@ -13,6 +13,8 @@ class Caption(Command):
     blockType = True
     # Is the caption attached to an object?
     attached = False
+    # Is the caption the title of a float, which has the identifier then?
+    floatTitle = False
 
     def invoke(self, tex):
         res = Command.invoke(self, tex)
@@ -41,6 +43,7 @@ class Float(Environment):
             # If there is only one caption, apply it to the float
             if len(captions) == 1:
                 captions[0].attached = True
+                captions[0].floatTitle = True
                 self.title = captions[0]
             # If there are the same number of captions as there are
             # captionable items, apply the captions to the objects.
diff --git a/plasTeX/Renderers/HTML5/Floats.jinja2s b/plasTeX/Renderers/HTML5/Floats.jinja2s
index 6652fbc..8643c5e 100644
--- a/plasTeX/Renderers/HTML5/Floats.jinja2s
+++ b/plasTeX/Renderers/HTML5/Floats.jinja2s
@@ -12,7 +12,7 @@ name: marginpar
 <p class="marginpar">{{ obj.attributes.right }}</p>
 
 name: caption caption*
-<figcaption>
+<figcaption{% if not obj.floatTitle %} id="{{ obj.id }}"{% endif %}>
   {% if obj.title %}<span class="caption_title">{{ obj.title }}</span>{% endif %}
   {% if obj.ref %}<span class="caption_ref">{{ obj.ref }}</span>{% endif %}
   <span class="caption_text">{{ obj }}</span> 
diff --git a/plasTeX/Renderers/HTML5/wrapfig.jinja2s b/plasTeX/Renderers/HTML5/wrapfig.jinja2s
index fbdaf85..aa6a59a 100755
--- a/plasTeX/Renderers/HTML5/wrapfig.jinja2s
+++ b/plasTeX/Renderers/HTML5/wrapfig.jinja2s
@@ -1,2 +1,2 @@
 name: wrapfigure wraptable
-<div style="float: {{ obj.float }}">>{{ obj }}</div>
+<div style="float: {{ obj.float }}">{{ obj }}</div>
diff --git a/plasTeX/Renderers/XHTML/Floats.zpts b/plasTeX/Renderers/XHTML/Floats.zpts
index 02aae16..a27e3dc 100644
--- a/plasTeX/Renderers/XHTML/Floats.zpts
+++ b/plasTeX/Renderers/XHTML/Floats.zpts
@@ -10,4 +10,4 @@ name: marginpar
 <p class="marginpar" tal:content="self/attributes/right">margin par</p>
 
 name: caption
-<div class="caption"><b tal:content="string:${self/title} ${self/ref}">Figure 1.1</b>: <span tal:content="self">Caption text</span></div>
+<div class="caption" tal:attributes="id python:test(self.floatTitle, None, self.id)"><b tal:content="string:${self/title} ${self/ref}">Figure 1.1</b>: <span tal:content="self">Caption text</span></div>
-- 
2.43.0


From cb39dec06297f506e5b94cc81a0f275b265d496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 68/80] fix: link to captions of longtables in other files

---
 plasTeX/Packages/longtable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Packages/longtable.py b/plasTeX/Packages/longtable.py
index f8d85cf..9d07e86 100644
--- a/plasTeX/Packages/longtable.py
+++ b/plasTeX/Packages/longtable.py
@@ -136,7 +136,11 @@ class longtable(tabular):
            elif getattr(row, 'isKillRow', None):
                removeRows.insert(0,i)
         for i in removeRows:
-            self.pop(i)
+            row = self.pop(i)
+            if getattr(row, 'isCaptionRow', None):
+                # The caption is shown together with the table, so links
+                # to it lead to the file of the table
+                row.parentNode = self
 
 class LongTableStar(longtable):
     macroName = 'longtable*'
-- 
2.43.0


From 7bccf9e09c267c7916eecfa02090887fdacfabd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 69/80] fix: keep keys of bibliographies apart from labels

---
 plasTeX/Base/LaTeX/Bibliography.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Bibliography.py b/plasTeX/Base/LaTeX/Bibliography.py
index 374c10f..5fb274c 100644
--- a/plasTeX/Base/LaTeX/Bibliography.py
+++ b/plasTeX/Base/LaTeX/Bibliography.py
@@ -64,11 +64,19 @@ class thebibliography(List):
 
         @property
         def id(self):
-            return self.attributes['key']
+            # Set by a \label
+            label = getattr(self, '@id', None)
+            if label is not None:
+                return label
+            key = self.attributes['key']
+            # Keys and labels are unrelated to each other
+            if self.ownerDocument.context.labels.get(key) is not None:
+                return 'cite.' + key
+            return key
 
         @id.setter
         def id(self, value):
-            self.attributes['key'] = value
+            setattr(self, '@id', value)
 
         @property
         def bibcite(self):
-- 
2.43.0


From 0e421240cd3affcf267310fed39f5095bc4f5b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 70/80] fix: do not put items of a list into a declaration of
 an earlier one

---
 plasTeX/Base/LaTeX/Lists.py |  2 ++
 plasTeX/__init__.py         | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index dbfa90f..9beef66 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -16,12 +16,14 @@ class List(Environment):
     counters = ['enumi','enumii','enumiii','enumiv']
     blockType = True
     labelScope = True
+    hasItems = True
 
     class item(Command):
         args = '[ term ]'
         counter = 'enumi'
         position = 0
         forcePars = True
+        isItem = True
 
         def invoke(self, tex):
             """ Set up counter for this list depth """
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 68a66c2..ea0f57f 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -131,6 +131,9 @@ class Macro(Element):
     # \label commands where this macro ends?
     labelScope = False
 
+    # Is this an item of a list?
+    isItem = False
+
     # Value to return when macro is referred to by \ref
     ref = None # type: Optional[str]
 
@@ -897,6 +900,9 @@ class Environment(Macro):
     """ Base class for all Python-based LaTeX environments """
     level = Node.ENVIRONMENT_LEVEL
 
+    # Does this environment consist of items?
+    hasItems = False
+
     @property
     def labelScope(self):
         return bool(self.counter)
@@ -941,6 +947,11 @@ class Environment(Macro):
                     if self.macroMode == Macro.MODE_NONE:
                         tokens.push(item)
                     break
+                # A declaration in an item does not contain the items after it
+                if item.isItem and not self.hasItems and \
+                   self.macroMode == Macro.MODE_NONE:
+                    tokens.push(item)
+                    break
                 item.parentNode = self
                 item.digest(tokens)
             # Stay within our context depth
-- 
2.43.0


From afbd44e803131adac7441aa43025f7ed1aa93c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 71/80] fix: do not make links of see entries in the index of
 HTML5

---
 plasTeX/Renderers/HTML5/Index.jinja2s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index 5072f2f..1dd1ace 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -19,7 +19,7 @@ name: theindex printindex
   <li>
     <span class="index-item">{{ item.key }}</span>,
     {% for page in item.pages %}
-    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
+    <a{% if page.url %} href="{{ page.url }}"{% endif %} title="{{ page.currentSection.title | striptags }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
     {% endfor %}
     {% if item %}
       <ul class="index-subitem-{{ loop.depth }}">
-- 
2.43.0


From feef67e28b3e7cb4a9a9cb48dc60e72176358b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 72/80] fix: make one group of all index entries with the same
 letter

---
 plasTeX/Base/LaTeX/Index.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 3f46fb7..4132275 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -81,7 +81,7 @@ class IndexUtils(object):
 
         """
         batches = []
-        current = ''
+        groups = {}
         for item in self:
             try:
                 label = title = unidecode(item.sortkey[0]).upper()
@@ -93,13 +93,14 @@ class IndexUtils(object):
                      label = title = 'Symbols'
             except IndexError:
                 label = title = 'Symbols'
-            if current != title:
+            # Entries of one group are not always next to each other
+            if title not in groups:
                 newgroup = self.IndexGroup()
                 newgroup.title = title
                 newgroup.id = label
                 batches.append(newgroup)
-                current = title
-            batches[-1].append(item)
+                groups[title] = newgroup
+            groups[title].append(item)
 
         for item in batches:
             item[:] = self.splitColumns(item,
-- 
2.43.0


From 81cde342e124f080a9033444c8f2484f9b123a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 73/80] fix: show nothing for authors of numerical natbib
 citations

---
 plasTeX/Packages/natbib.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Packages/natbib.py b/plasTeX/Packages/natbib.py
index 571d79b..6cbb6ed 100644
--- a/plasTeX/Packages/natbib.py
+++ b/plasTeX/Packages/natbib.py
@@ -770,9 +770,9 @@ class citeauthor(NatBibCite):
 
     def citation(self, full=False, capitalize=False):
         """ Jones et al. """
-        if self.isNumeric():
-            return
         res = self.ownerDocument.createDocumentFragment()
+        if self.isNumeric():
+            return res
         #res.append(self.prenote)
         i = 0
         bibitems = self.bibitems
@@ -808,9 +808,9 @@ class citeyear(NatBibCite):
 
     def citation(self):
         """ 1990 """
-        if self.isNumeric():
-            return
         res = self.ownerDocument.createDocumentFragment()
+        if self.isNumeric():
+            return res
         #res.append(self.prenote)
         i = 0
         bibitems = self.bibitems
@@ -832,9 +832,9 @@ class citeyearpar(NatBibCite):
 
     def citation(self):
         """ (1990) """
-        if self.isNumeric():
-            return
         res = self.ownerDocument.createDocumentFragment()
+        if self.isNumeric():
+            return res
         res.append(self.punctuation['open'])
         res.append(self.prenote)
         i = 0
-- 
2.43.0


From a563bcaa50b6b7a0870cab4527af741aabda6124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 74/80] fix: give the heading of the bibliography its
 identifier

---
 plasTeX/Renderers/HTML5/Bibliography.jinja2s | 2 +-
 plasTeX/Renderers/XHTML/Bibliography.zpts    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Bibliography.jinja2s b/plasTeX/Renderers/HTML5/Bibliography.jinja2s
index 623b66d..0ed1f1a 100644
--- a/plasTeX/Renderers/HTML5/Bibliography.jinja2s
+++ b/plasTeX/Renderers/HTML5/Bibliography.jinja2s
@@ -10,7 +10,7 @@ name: bibliographystyle
 
 name: bibliography
 <div class="bibliography">
-<h1>{{ obj.title }}</h1>
+<h1{% if obj.givenid or obj.config['document']['toc-non-files'] %} id="{{ obj.id }}"{% endif %}>{{ obj.title }}</h1>
 {{ obj }}
 </div>
 
diff --git a/plasTeX/Renderers/XHTML/Bibliography.zpts b/plasTeX/Renderers/XHTML/Bibliography.zpts
index 50b8656..d0b8e13 100644
--- a/plasTeX/Renderers/XHTML/Bibliography.zpts
+++ b/plasTeX/Renderers/XHTML/Bibliography.zpts
@@ -13,7 +13,7 @@ name: bibliographystyle
 
 name: bibliography
 <div>
-<h1 tal:content="self/title">Bibliography</h1>
+<h1 tal:attributes="id self/id" tal:content="self/title">Bibliography</h1>
 
 <div tal:replace="self"></div>
 </div>
-- 
2.43.0


From d26954ea7e4e42ff34fcbcb862569e642c876f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 75/80] fix: show entries with numbers of two digits in
 compressed natbib citations

---
 plasTeX/Packages/natbib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/natbib.py b/plasTeX/Packages/natbib.py
index 6cbb6ed..10d7bf1 100644
--- a/plasTeX/Packages/natbib.py
+++ b/plasTeX/Packages/natbib.py
@@ -9,7 +9,7 @@ TODO:
 
 """
 
-import re, string
+import re
 from plasTeX import Base, Text
 
 def ProcessOptions(options, document):
@@ -259,7 +259,7 @@ class NatBibCite(Base.cite):
             output = re.sub(r'-\d+-', r'-', output)
         output = [x for x in re.split(r'([ -])', output) if x.strip()]
         for i, value in enumerate(output):
-            if value in string.digits:
+            if value.isdigit():
                 output[i] = idxdict[int(value)]
             else:
                 output[i] = self.Connector(value)
-- 
2.43.0


From ad4ed7ab5b00e36ec1f6189ef9ebaa6556340237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 76/80] fix: decode characters like ^^5e, and ^^ in front of
 nothing or of other characters

---
 plasTeX/Tokenizer.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 44cd89b..00dcedf 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -25,6 +25,9 @@ DEFAULT_CATEGORIES = [
    ''     # 15 - Invalid character
 ]
 
+# Digits of characters like ^^5e
+HEXDIGITS = '0123456789abcdef'
+
 VERBATIM_CATEGORIES = [''] * 16
 VERBATIM_CATEGORIES[11] = encoding.stringletters()
 
@@ -271,21 +274,35 @@ class Tokenizer(object):
 
             code = whichCode(token)
 
-            if code == CC_SUPER:
-
-                # Handle characters like ^^M, ^^@, etc.
+            # Handle characters like ^^M, ^^@, ^^5e, etc.  The result
+            # can begin such a character itself.
+            while code == CC_SUPER:
                 next_char = _read1()
 
                 if next_char != token:
+                    if next_char:
+                        self.pushChar(next_char)
+                    break
+
+                char = _read1()
+                num = ord(char) if char else 128
+                if num >= 128:
+                    if char:
+                        self.pushChar(char)
                     self.pushChar(next_char)
+                    break
+
+                digit = _read1() if char in HEXDIGITS else ''
+                if digit and digit in HEXDIGITS:
+                    token = chr(int(char + digit, 16))
                 else:
-                    next_char = _read1()
-                    num = ord(next_char)
+                    if digit:
+                        self.pushChar(digit)
                     if num >= 64:
                         token = chr(num-64)
                     else:
                         token = chr(num+64)
-                    code = whichCode(token)
+                code = whichCode(token)
 
             # Just go to the next character if you see one of these...
             if code in (CC_IGNORED, CC_INVALID):
-- 
2.43.0


From 6ed7ad8e0893c76e0ab9929c3d3041cb1da10e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 77/80] fix: remove characters that were put back with the rest
 of a line

---
 plasTeX/Tokenizer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 00dcedf..f50cd89 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -220,11 +220,10 @@ class Tokenizer(object):
         self.source = source
         self.seek = source.seek
         self.read = source.read
-        self.readline = source.readline
         self.tell = source.tell
         self.lineNumber = 1
 
-# There seems to be a problem with readline in Python 2.4 !!!
+    # Lines begin with the characters that were put back
     def readline(self):
         read = self.read
         mybuffer = self._charBuffer
-- 
2.43.0


From d6e9aec74341a03f276678189c386ae0d2ae22d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 78/80] fix: end names of macros at ignored and invalid
 characters

---
 plasTeX/Tokenizer.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index f50cd89..134ab4d 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -240,8 +240,7 @@ class Tokenizer(object):
         Get the next character in the stream and its category code
 
         This function handles automatically converts characters like
-        ^^M, ^^@, etc. into the correct character.  It also bypasses
-        ignored and invalid characters.
+        ^^M, ^^@, etc. into the correct character.
 
         If you are iterating through the characters in a TeX instance
         and you go too far, you can put the character back with
@@ -254,8 +253,6 @@ class Tokenizer(object):
 
         whichCode = self.context.whichCode
         CC_SUPER = Token.CC_SUPER
-        CC_IGNORED = Token.CC_IGNORED
-        CC_INVALID = Token.CC_INVALID
 
         def _read1():
             if mybuffer:
@@ -303,10 +300,6 @@ class Tokenizer(object):
                         token = chr(num+64)
                 code = whichCode(token)
 
-            # Just go to the next character if you see one of these...
-            if code in (CC_IGNORED, CC_INVALID):
-                continue
-
             yield (code, token)
 
     def pushChar(self, char: str):
@@ -374,6 +367,8 @@ class Tokenizer(object):
         CC_EOL = Token.CC_EOL
         CC_COMMENT = Token.CC_COMMENT
         CC_ACTIVE = Token.CC_ACTIVE
+        CC_IGNORED = Token.CC_IGNORED
+        CC_INVALID = Token.CC_INVALID
         prev = None
 
         while 1:
@@ -388,6 +383,10 @@ class Tokenizer(object):
             except StopIteration:
                 return
 
+            # Just go to the next character if you see one of these...
+            if code in (CC_IGNORED, CC_INVALID):
+                continue
+
             # Short circuit letters and other since they are so common
             if code in (CC_LETTER, CC_OTHER):
                 self.state = STATE_M
-- 
2.43.0


From e8559cc1409dc6ab79581c3c5542c630c80a797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 79/80] fix: skip blanks after words and control spaces as
 their categories tell

---
 plasTeX/Tokenizer.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 134ab4d..2c14cdc 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -447,20 +447,9 @@ class Tokenizer(object):
 
                     else:
                         token = EscapeSequence(next_char)
-#
-# Because we can implement macros both in LaTeX and Python, we don't
-# always want the whitespace to be eaten.  For example, implementing
-# \chardef\%=`% would be \char{`%} in TeX, but in Python it's just
-# another macro class that would eat whitspace incorrectly.  So we
-# have to do this kind of thing in the parse() method of Macro.
-#
-                    if next_code != CC_EOL:
-# HACK: I couldn't get the parse() thing to work so I'm just not
-#       going to parse whitespace after EscapeSequences that end in
-#       non-letter characters as a half-assed solution.
-                        if token[-1] in encoding.stringletters():
-                            # Absorb following whitespace
-                            self.state = STATE_S
+                    # Absorb whitespace after words and \<space>
+                    if next_code in (CC_LETTER, CC_SPACE):
+                        self.state = STATE_S
 
                     break
 
-- 
2.43.0


From c843748947fce8fde9127097f3b6dc882ce25186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 80/80] fix: begin every line in the state for new lines, and
 discard what follows an end of line

---
 plasTeX/Tokenizer.py | 73 ++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 27 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 2c14cdc..5d3c238 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -28,6 +28,14 @@ DEFAULT_CATEGORIES = [
 # Digits of characters like ^^5e
 HEXDIGITS = '0123456789abcdef'
 
+class DecodedChar(str):
+    """ Character that was written like ^^J, which does not end a line of the source """
+    __slots__ = ()
+
+def endsLine(char: str) -> bool:
+    """ Is this the end of a line of the source? """
+    return char == '\n' and not isinstance(char, DecodedChar)
+
 VERBATIM_CATEGORIES = [''] * 16
 VERBATIM_CATEGORIES[11] = encoding.stringletters()
 
@@ -222,6 +230,8 @@ class Tokenizer(object):
         self.read = source.read
         self.tell = source.tell
         self.lineNumber = 1
+        # Was the last character the end of a line of the source?
+        self.endOfLine = False
 
     # Lines begin with the characters that were put back
     def readline(self):
@@ -232,7 +242,7 @@ class Tokenizer(object):
                 char = mybuffer.pop(0)
             else:
                 char = read(1)
-            if not char or ord(char) == 10:
+            if not char or endsLine(char):
                 break
 
     def iterchars(self) -> Generator[Tuple[CatCode, str], None, None]:
@@ -265,17 +275,18 @@ class Tokenizer(object):
             if not token:
                 break
 
-            if token == '\n':
+            endOfLine = endsLine(token)
+            if endOfLine:
                 self.lineNumber += 1
 
             code = whichCode(token)
 
             # Handle characters like ^^M, ^^@, ^^5e, etc.  The result
             # can begin such a character itself.
-            while code == CC_SUPER:
+            while code == CC_SUPER and not endOfLine:
                 next_char = _read1()
 
-                if next_char != token:
+                if next_char != token or endsLine(next_char):
                     if next_char:
                         self.pushChar(next_char)
                     break
@@ -290,16 +301,17 @@ class Tokenizer(object):
 
                 digit = _read1() if char in HEXDIGITS else ''
                 if digit and digit in HEXDIGITS:
-                    token = chr(int(char + digit, 16))
+                    token = DecodedChar(chr(int(char + digit, 16)))
                 else:
                     if digit:
                         self.pushChar(digit)
                     if num >= 64:
-                        token = chr(num-64)
+                        token = DecodedChar(chr(num-64))
                     else:
-                        token = chr(num+64)
+                        token = DecodedChar(chr(num+64))
                 code = whichCode(token)
 
+            self.endOfLine = endOfLine
             yield (code, token)
 
     def pushChar(self, char: str):
@@ -311,7 +323,7 @@ class Tokenizer(object):
 
         """
         self._charBuffer.insert(0, char)
-        if char == '\n':
+        if endsLine(char):
             self.lineNumber -= 1
 
     def pushToken(self, token):
@@ -377,6 +389,11 @@ class Tokenizer(object):
             while mybuffer:
                 yield mybuffer.pop(0)
 
+            # Every line begins in state N, whatever the category of its end was
+            if self.endOfLine:
+                self.endOfLine = False
+                self.state = STATE_N
+
             # Get the next character
             try:
                 (code, char) = next(charIter)
@@ -402,19 +419,17 @@ class Tokenizer(object):
             # End of line
             elif code == CC_EOL:
                 state = self.state
+                self.state = STATE_N
+                # The rest of the line is discarded
+                if not self.endOfLine:
+                    self.lineNumber += 1
+                    self.readline()
                 if state == STATE_S:
-                    self.state = STATE_N
                     continue
                 elif state == STATE_M:
                     token = Space(' ')
                     code = CC_SPACE
-                    self.state = STATE_N
                 elif state == STATE_N:
-                    # ord(token) != 10 is the same as saying token != '\n'
-                    # but it is much faster.
-                    if ord(char) != 10:
-                        self.lineNumber += 1
-                        self.readline()
                     token = EscapeSequence('par')
                     # Prevent adjacent paragraphs
                     if prev == token:
@@ -427,23 +442,26 @@ class Tokenizer(object):
                 # Get name of command sequence
                 self.state = STATE_M
 
-                for (next_code, next_char) in charIter:
+                for (next_code, next_char) in [] if self.endOfLine else charIter:
 
                     if next_code == CC_LETTER:
                         word = [next_char]
-                        for (next_code_, next_char_) in charIter:
-                            if next_code_ == CC_LETTER:
-                                word.append(next_char_)
+                        # Words do not go on in the next line
+                        while not self.endOfLine:
+                            (next_code, next_char) = next(charIter, (None, ''))
+                            if next_code == CC_LETTER:
+                                word.append(next_char)
                             else:
-                                pushChar(next_char_)
+                                if next_char:
+                                    pushChar(next_char)
+                                    self.endOfLine = False
+                                next_code = CC_LETTER
                                 break
                         token = EscapeSequence(''.join(word))
 
-                    elif next_code == CC_EOL:
-                        #pushChar(token)
-                        #token = EscapeSequence()
-                        token = Space(' ')
-                        self.state = STATE_S
+                    elif self.endOfLine:
+                        # The same as \<space>
+                        token = EscapeSequence(' ')
 
                     else:
                         token = EscapeSequence(next_char)
@@ -456,8 +474,9 @@ class Tokenizer(object):
                 else: token = EscapeSequence()
 
             elif code == CC_COMMENT:
-                self.readline()
-                self.lineNumber += 1
+                if not self.endOfLine:
+                    self.readline()
+                    self.lineNumber += 1
                 self.state = STATE_N
                 continue
 
-- 
2.43.0

