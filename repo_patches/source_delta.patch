From b07677e90eedaeb0772113091f0f30c67a8fe2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:35 +0000
Subject: [PATCH 01/14] fix: create the instance registries when the classes
 are defined

Creating the registry lazily on first use let two threads each create one;
the instance registered in the one that lost was silently dropped.
---
 wcxf/classes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 7392821..822326d 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -133,9 +133,12 @@ class NamedInstanceClass(object, metaclass=NamedInstanceMetaclass):
          Set the description
     """
 
+    def __init_subclass__(cls, **kwargs):
+        super().__init_subclass__(**kwargs)
+        if not hasattr(cls, 'instances'):
+            cls.instances = OrderedDict()
+
     def __init__(self, _name):
-        if not hasattr(self.__class__, 'instances'):
-            self.__class__.instances = OrderedDict()
         self.__class__.instances[_name] = self
         self._name = _name
 
-- 
2.43.0


From a6d1281067608d5b512692e76a69d4803fba4f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:35 +0000
Subject: [PATCH 02/14] fix: register instances only once they are complete

A basis whose parent was not found stayed registered without sectors, and
other threads could look up instances that had not been filled in yet.
---
 wcxf/classes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 822326d..0777fae 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -139,8 +139,8 @@ class NamedInstanceClass(object, metaclass=NamedInstanceMetaclass):
             cls.instances = OrderedDict()
 
     def __init__(self, _name):
-        self.__class__.instances[_name] = self
         self._name = _name
+        self.__class__.instances[_name] = self
 
     @classmethod
     def get_instance(cls, _name):
@@ -199,9 +199,9 @@ class EFT(WCxf, NamedInstanceClass):
         """Instantiate the EFT file object."""
         self.eft = eft
         self.sectors = sectors
-        super().__init__(eft)
         for k, v in kwargs.items():
             setattr(self, k, v)
+        super().__init__(eft)
 
     @property
     def known_bases(self):
@@ -220,7 +220,6 @@ class Basis(WCxf, NamedInstanceClass):
         """Instantiate the basis file object."""
         self.eft = eft
         self.basis = basis
-        super().__init__((eft, basis))
         for k, v in kwargs.items():
             setattr(self, k, v)
         if hasattr(self, 'parent'):
@@ -232,6 +231,7 @@ class Basis(WCxf, NamedInstanceClass):
         else:
             self.sectors = sectors
         self._all_wcs = None
+        super().__init__((eft, basis))
 
     @property
     def known_translators(self):
@@ -420,11 +420,11 @@ class Translator(NamedInstanceClass):
     """Class for translating between different bases of the same EFT."""
     def __init__(self, eft, from_basis, to_basis, function):
         """Initialize the Translator instance."""
-        super().__init__((eft, from_basis, to_basis))
         self.eft = eft
         self.from_basis = from_basis
         self.to_basis = to_basis
         self.function = function
+        super().__init__((eft, from_basis, to_basis))
 
     def translate(self, WC_in, parameters=None):
         """Translate a WC object from `from_basis` to `to_basis`."""
@@ -440,12 +440,12 @@ class Matcher(NamedInstanceClass):
     """Class for matching from a UV to an IR EFT."""
     def __init__(self, from_eft, from_basis, to_eft, to_basis, function):
         """Initialize the Matcher instance."""
-        super().__init__((from_eft, from_basis, to_eft, to_basis))
         self.from_eft = from_eft
         self.from_basis = from_basis
         self.to_eft = to_eft
         self.to_basis = to_basis
         self.function = function
+        super().__init__((from_eft, from_basis, to_eft, to_basis))
 
     def match(self, WC_in, parameters=None):
         """Translate a WC object in EFT `from_eft` and basis `from_basis`
-- 
2.43.0


From 470da53d5fbfc4e080fcaea12da366f6704acda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:35 +0000
Subject: [PATCH 03/14] fix: do not add the sectors of a child basis to its
 parent

---
 wcxf/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 0777fae..d62f072 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -224,7 +224,7 @@ class Basis(WCxf, NamedInstanceClass):
             setattr(self, k, v)
         if hasattr(self, 'parent'):
             try:
-                self.sectors = Basis[self.eft, self.parent].sectors
+                self.sectors = Basis[self.eft, self.parent].sectors.copy()
                 self.sectors.update(sectors)
             except (AttributeError, KeyError):
                 raise ValueError("Parent basis {} not found".format(self.parent))
-- 
2.43.0


From df481cff27db70e3842a068606b4a688b7ced96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:35 +0000
Subject: [PATCH 04/14] fix: list known bases and translators from a snapshot
 of the registry

Listing raised RuntimeError when another thread registered an instance in
the meantime.
---
 wcxf/classes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index d62f072..6324ba1 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -206,12 +206,12 @@ class EFT(WCxf, NamedInstanceClass):
     @property
     def known_bases(self):
         """Return a list of known bases for this EFT."""
-        return tuple(basis[1] for basis in Basis.instances if basis[0] == self.eft)
+        return tuple(basis[1] for basis in tuple(Basis.instances) if basis[0] == self.eft)
 
     @property
     def known_translators(self):
         """Return a list of known translators between bases of this EFT."""
-        return tuple(t for t in Translator.instances if t[0] == self.eft)
+        return tuple(t for t in tuple(Translator.instances) if t[0] == self.eft)
 
 
 class Basis(WCxf, NamedInstanceClass):
@@ -237,9 +237,10 @@ class Basis(WCxf, NamedInstanceClass):
     def known_translators(self):
         """Return a list of known translators to and from this basis."""
         kt = {}
-        kt['from'] = tuple(t for t in Translator.instances
+        instances = tuple(Translator.instances)
+        kt['from'] = tuple(t for t in instances
                            if t[0] == self.eft and t[1] == self.basis)
-        kt['to'] = tuple(t for t in Translator.instances
+        kt['to'] = tuple(t for t in instances
                          if t[0] == self.eft and t[2] == self.basis)
         return kt
 
-- 
2.43.0


From 84369f748d09449a91a9cdf25b4e813e16333556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:35 +0000
Subject: [PATCH 05/14] fix: always remove the temporary directory of the LaTeX
 check

It was left behind when latex was not installed or an exception was raised.
---
 wcxf/classes.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 6324ba1..c934f2a 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -56,6 +56,15 @@ def _testtex(s, delete=True):
     """Function that takes a string and tries to compile a LaTeX file with
     the string as document body. Returns a dictionary with keys 'success'
     (True or False) and 'log', trying to extract the first error message."""
+    tmpd = tempfile.mkdtemp()
+    try:
+        return _testtex_dir(s, tmpd)
+    finally:
+        if delete:
+            shutil.rmtree(tmpd)
+
+def _testtex_dir(s, tmpd):
+    """Compile the LaTeX file in the directory `tmpd` for `_testtex`."""
     _preamble = r"""\documentclass{article}
     \usepackage{amsmath,amssymb}
     \begin{document}
@@ -63,7 +72,6 @@ def _testtex(s, delete=True):
     _enddoc = r"""
     \end{document}"""
     doc = _preamble + s + _enddoc
-    tmpd = tempfile.mkdtemp()
     tmpf = os.path.join(tmpd, 'textest.tex')
     with open(tmpf, 'w') as f:
         f.write(doc)
@@ -99,8 +107,6 @@ def _testtex(s, delete=True):
                 l = logl[i]
             except IndexError:
                 break
-    if delete:
-        shutil.rmtree(tmpd)
     return res
 
 
-- 
2.43.0


From 14b4800286aeb759d3d916627a310f2420d9ccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:35 +0000
Subject: [PATCH 06/14] fix: cope with a missing or undecodable LaTeX log file

---
 wcxf/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index c934f2a..51d02a4 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -88,8 +88,9 @@ def _testtex_dir(s, tmpd):
         res = {'success': False}
     logf = os.path.join(tmpd, 'textest.log')
     res['log'] = ''
+    logl = []
     try:
-        with open(logf, 'r') as f:
+        with open(logf, 'r', errors='replace') as f:
             logl = f.readlines()
     except FileNotFoundError:
         pass
-- 
2.43.0


From 929acfd9fea8f35c042f259fb20a894139905a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:14 +0000
Subject: [PATCH 07/14] fix: report failures of the wcxf subcommands in the
 exit status

The status returned by the subcommands was dropped, and an AttributeError
raised by one of them printed the help text and exited with status 0.
---
 wcxf/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index 6c35d27..d098201 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -75,10 +75,10 @@ def wcxf_cli():
     parser_validate.set_defaults(func=validate)
 
     args = parser.parse_args()
-    try:
-        args.func(args)
-    except AttributeError:
+    if not hasattr(args, 'func'):
         parser.print_help()
+        return 0
+    return args.func(args)
 
 
 def convert(args):
-- 
2.43.0


From 5657ff34a0343b7e98a53ab495ee458bdefe231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:14 +0000
Subject: [PATCH 08/14] fix: open the output file of the wcxf subcommands only
 to write the result

The output file was truncated before the input was read, so that a failing
command destroyed it, and errors when writing it were lost because it was
never closed. An unknown format produced no output but exit status 0.
---
 wcxf/cli.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index d098201..f5f87dc 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -1,4 +1,5 @@
 import argparse
+import io
 import wcxf
 import sys
 import logging
@@ -22,8 +23,6 @@ def wcxf_cli():
                                 default=sys.stdin,
                                 help="Input file. If \"-\", read from standard input")
     parser_convert.add_argument("--output", nargs='?',
-                                      type=argparse.FileType('w'),
-                                      default=sys.stdout,
                                       help="Output file. If absent, print to standard output")
     parser_convert.set_defaults(func=convert)
 
@@ -38,7 +37,6 @@ def wcxf_cli():
                                   default=sys.stdin,
                                   help="Input file. If \"-\", read from standard input")
     parser_translate.add_argument("--output", nargs='?',
-                                  type=argparse.FileType('w'), default=sys.stdout,
                                   help="Output file. If absent, print to standard output")
     parser_translate.add_argument("--format", type=str,
                                   default="json",
@@ -56,7 +54,6 @@ def wcxf_cli():
                               type=argparse.FileType('r'), default=sys.stdin,
                               help="Input file. If \"-\", read from standard input")
     parser_match.add_argument("--output", nargs='?',
-                              type=argparse.FileType('w'), default=sys.stdout,
                               help="Output file. If absent, print to standard output")
     parser_match.add_argument("--format", type=str, default="json",
                               help="Output format (default: json)")
@@ -81,24 +78,42 @@ def wcxf_cli():
     return args.func(args)
 
 
+def _write_output(text, output):
+    """Write text to the file `output`, or to standard output if it is None
+    or "-". Returns only once everything has been written."""
+    if output is None or output == '-':
+        sys.stdout.write(text)
+        sys.stdout.flush()
+    else:
+        with open(output, 'w') as f:
+            f.write(text)
+
+
 def convert(args):
     from wcxf.converters.yamljson import convert_json, convert_yaml
+    output = io.StringIO()
     if args.FORMAT.lower() == 'json':
-        convert_json(args.FILE, args.output)
-    if args.FORMAT.lower() == 'yaml':
-        convert_yaml(args.FILE, args.output)
+        status = convert_json(args.FILE, output)
+    elif args.FORMAT.lower() == 'yaml':
+        status = convert_yaml(args.FILE, output)
+    else:
+        logging.error("FORMAT should be 'yaml' or 'json'")
+        status = 1
+    if not status:
+        _write_output(output.getvalue(), args.output)
+    return status
 
 
 def translate(args):
     wc_in = wcxf.WC.load(args.FILE)
     wc_out = wc_in.translate(args.BASIS)
-    wc_out.dump(stream=args.output, fmt=args.format)
+    _write_output(wc_out.dump(fmt=args.format), args.output)
 
 
 def match(args):
     wc_in = wcxf.WC.load(args.FILE)
     wc_out = wc_in.match(args.EFT, args.BASIS)
-    wc_out.dump(stream=args.output, fmt=args.format)
+    _write_output(wc_out.dump(fmt=args.format), args.output)
 
 
 def validate(args):
-- 
2.43.0


From aac677c5a4f9cd18e47a40bd0a2a09857fdf2fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:14 +0000
Subject: [PATCH 09/14] fix: keep the output file when a conversion to EOS or
 SMEFTsim fails

It was truncated before the input had been read and converted.
---
 wcxf/cli.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index f5f87dc..595a939 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -141,22 +141,21 @@ def eos():
     parser.add_argument("--eosprefix", help="Installation prefix for the EOS installation. Defaults to /usr",
                         default='/usr')
     parser.add_argument("--output", nargs='?', help="Output file. If absent, print to standard output",
-                        type=argparse.FileType('w'), default=sys.stdout)
+                        default=None)
     parser.add_argument("--eoshome", help="EOS home directory. If specified, values will be written to EOSHOME/parameters/wcxf.yaml. Cannot be used simultaneously with output",
                         default=None)
     args = parser.parse_args()
     # check sanity of inputs
-    if args.output != sys.stdout and args.eoshome is not None:
+    output = args.output
+    if output not in (None, '-') and args.eoshome is not None:
         logging.error("Cannot use --output and --eoshome arguments simultaneously")
         return 1
-    elif args.output == sys.stdout and args.eoshome is not None:
+    elif args.eoshome is not None:
         output_dir = os.path.join(args.eoshome, 'parameters')
         if not os.path.isdir(output_dir):
             logging.error("Output directory {} does not exist".format(output_dir))
             return 1
-        f = open(os.path.join(output_dir, 'wcxf.yaml'), 'w')
-    else:
-        f = args.output
+        output = os.path.join(output_dir, 'wcxf.yaml')
     # read in & validate WCxf file
     wc = wcxf.WC.load(args.FILE)
     wc.validate()
@@ -164,8 +163,7 @@ def eos():
     sm_wc_dict = get_sm_wcs(os.path.join(args.eosprefix, 'share/eos', 'parameters'))
     # convert to EOS parameters
     eos_dict = wcxf2eos(wc, sm_wc_dict)
-    yaml.dump(eos_dict, f, default_flow_style=False)
-    f.close()
+    _write_output(yaml.dump(eos_dict, default_flow_style=False), output)
     return 0
 
 def smeftsim():
@@ -196,13 +194,12 @@ Press 'i' to ignore this warning or any other key to exit.''')
       key = input()      
       if key != 'i' and key != 'I': quit()
       
-    f = open(args.output, 'w')
-    
     # initialize and fill the dictionary for the param_card
     card = initialize_smeftsim_card(args.model_set)
     card_filled = smeftsim_card_fill(card, wc, args.model_set, args.cutoff_scale, args.input_scheme)
 
     # write output file
+    f = open(args.output, 'w')
     f.write(smeftsim_card_text(args.model_set, args.input_scheme)[0])
     pylha.dump(card_filled, fmt='lha', stream = f)
     f.write(smeftsim_card_text(args.model_set, args.input_scheme)[1])
-- 
2.43.0


From bb8e2778a97113ed328c70e480d1f6f2b70a369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:14 +0000
Subject: [PATCH 10/14] fix: read the EOS parameter files in a defined order

With a parameter defined in several files the values used depended on the
order in which the file system lists the directory, and a directory that is
missing or cannot be read led to an empty set of parameters.
---
 wcxf/converters/eos.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wcxf/converters/eos.py b/wcxf/converters/eos.py
index fcb022d..7045a9a 100644
--- a/wcxf/converters/eos.py
+++ b/wcxf/converters/eos.py
@@ -2,7 +2,7 @@
 
 from collections import OrderedDict
 import yaml
-import glob
+import fnmatch
 import os
 import re
 
@@ -11,9 +11,10 @@ def get_sm_wcs(eos_parameter_dir):
     """Read SM contributions to EOS Wilson coefficients from the EOS
     installation parameter directory and return them as a dictionary."""
     all_wcs = {}
-    yamlfiles = glob.glob(os.path.join(eos_parameter_dir, '*.yaml'))
+    yamlfiles = fnmatch.filter(sorted(os.listdir(eos_parameter_dir)),
+                               '[!.]*.yaml')
     for yamlfile in yamlfiles:
-        with open(yamlfile, 'r') as f:
+        with open(os.path.join(eos_parameter_dir, yamlfile), 'r') as f:
             wcs = yaml.load(f)
         meta = wcs.get('@metadata@', {})
         if 'wcxf-relevant' in meta and meta['wcxf-relevant']:
-- 
2.43.0


From 124f81aec174c03f9d67c3035b62f3b170d3e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:14 +0000
Subject: [PATCH 11/14] fix: do not let cached QCD results depend on the
 argument types

Whether e.g. alpha_s(100, 5.0) raised an error depended on whether
alpha_s(100, 5) had been called before.
---
 wcxf/util/qcd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wcxf/util/qcd.py b/wcxf/util/qcd.py
index 8ccf8b2..44d1a9c 100644
--- a/wcxf/util/qcd.py
+++ b/wcxf/util/qcd.py
@@ -13,7 +13,7 @@ def _sane(scale, f):
 MZ = 91.1876
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def alpha_s(scale, f, alphasMZ=0.1185):
     """3-loop cumputation of alpha_s for f flavours
     with initial condition alpha_s(MZ) = 0.1185"""
@@ -48,7 +48,7 @@ def alpha_s(scale, f, alphasMZ=0.1185):
         raise ValueError("Invalid input: f={}, scale={}".format(f, scale))
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def m_b(mbmb, scale, f, alphasMZ=0.1185):
     r"""Get running b quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_b(m_b)$"""
@@ -86,7 +86,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185):
         raise ValueError("Invalid input: f={}, scale={}".format(f, scale))
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def m_c(mcmc, scale, f, alphasMZ=0.1185):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
@@ -113,7 +113,7 @@ def m_c(mcmc, scale, f, alphasMZ=0.1185):
         raise ValueError("Invalid input: f={}, scale={}".format(f, scale))
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def m_s(ms2, scale, f, alphasMZ=0.1185):
     r"""Get running s quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_s(2 \,\text{GeV})$"""
-- 
2.43.0


From f2a0a2c340eb935fe3d826f7ca099a013d760e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:45 +0000
Subject: [PATCH 12/14] fix: fail the import if the directory with the bases
 cannot be read

An error when listing it, such as running out of file descriptors, was
swallowed and left the package without any EFT and basis.
---
 wcxf/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/wcxf/__init__.py b/wcxf/__init__.py
index 98f1281..406c297 100644
--- a/wcxf/__init__.py
+++ b/wcxf/__init__.py
@@ -6,12 +6,19 @@ from . import util
 # read all EFTs and bases from the wcxf-bases submodule
 
 import os
-import glob
+import fnmatch
+
+def _glob(directory, pattern):
+    # unlike glob.glob, raise an error if the directory cannot be read
+    if not os.path.isdir(directory):
+        return []
+    return [os.path.join(directory, f)
+            for f in fnmatch.filter(sorted(os.listdir(directory)), pattern)]
 
 _root = os.path.abspath(os.path.dirname(__file__))
-all_efts = glob.glob(os.path.join(_root, 'bases', '*.eft.json'))
-all_bases = glob.glob(os.path.join(_root, 'bases', '*.basis.json'))
-child_bases = glob.glob(os.path.join(_root, 'bases', 'child', '*.basis.json'))
+all_efts = _glob(os.path.join(_root, 'bases'), '[!.]*.eft.json')
+all_bases = _glob(os.path.join(_root, 'bases'), '[!.]*.basis.json')
+child_bases = _glob(os.path.join(_root, 'bases', 'child'), '[!.]*.basis.json')
 
 for eft in all_efts:
     with open(eft, 'r') as f:
-- 
2.43.0


From 8b93c0557240c4632b6793f218a7490b116550c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:19 +0000
Subject: [PATCH 13/14] fix: unknown coefficients were accepted by WC.validate
 under python -O

---
 wcxf/classes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 51d02a4..ba4dea2 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -372,8 +372,10 @@ class WC(WCxf):
         except (AttributeError, KeyError):
             raise ValueError("Basis {} not defined for EFT {}".format(self.basis, self.eft))
         unknown_keys = set(self.values.keys()) - set(basis_instance.all_wcs)
-        assert unknown_keys == set(), \
-            "Wilson coefficients do not exist in this basis: " + str(unknown_keys)
+        if unknown_keys:
+            # not an assert statement: python -O would skip the check
+            raise AssertionError("Wilson coefficients do not exist in this basis: "
+                                 + str(unknown_keys))
 
     @property
     def dict(self):
-- 
2.43.0


From 64de352484ece288b8e0246cd2ebb707069d95dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:02 +0000
Subject: [PATCH 14/14] fix: a directory of bases that exists but cannot be
 examined was taken as absent at import

---
 wcxf/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wcxf/__init__.py b/wcxf/__init__.py
index 406c297..c297543 100644
--- a/wcxf/__init__.py
+++ b/wcxf/__init__.py
@@ -10,10 +10,11 @@ import fnmatch
 
 def _glob(directory, pattern):
     # unlike glob.glob, raise an error if the directory cannot be read
-    if not os.path.isdir(directory):
+    try:
+        files = sorted(os.listdir(directory))
+    except FileNotFoundError:
         return []
-    return [os.path.join(directory, f)
-            for f in fnmatch.filter(sorted(os.listdir(directory)), pattern)]
+    return [os.path.join(directory, f) for f in fnmatch.filter(files, pattern)]
 
 _root = os.path.abspath(os.path.dirname(__file__))
 all_efts = _glob(os.path.join(_root, 'bases'), '[!.]*.eft.json')
-- 
2.43.0

