From d5385f4e82ceaf07951db68ccc4761271e1c0f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:47 +0000
Subject: [PATCH 01/26] fix: do not modify the sectors of the parent when
 defining a child basis

---
 wcxf/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 7392821..79694c4 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -222,7 +222,8 @@ class Basis(WCxf, NamedInstanceClass):
             setattr(self, k, v)
         if hasattr(self, 'parent'):
             try:
-                self.sectors = Basis[self.eft, self.parent].sectors
+                # copy to avoid modifying the sectors of the parent
+                self.sectors = Basis[self.eft, self.parent].sectors.copy()
                 self.sectors.update(sectors)
             except (AttributeError, KeyError):
                 raise ValueError("Parent basis {} not found".format(self.parent))
-- 
2.43.0


From 82b255f437bf0af462479ca8b2a649b99a370bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:47 +0000
Subject: [PATCH 02/26] fix: do not register a basis whose parent basis is not
 found

---
 wcxf/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 79694c4..eee9b4c 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -217,7 +217,6 @@ class Basis(WCxf, NamedInstanceClass):
         """Instantiate the basis file object."""
         self.eft = eft
         self.basis = basis
-        super().__init__((eft, basis))
         for k, v in kwargs.items():
             setattr(self, k, v)
         if hasattr(self, 'parent'):
@@ -230,6 +229,8 @@ class Basis(WCxf, NamedInstanceClass):
         else:
             self.sectors = sectors
         self._all_wcs = None
+        # only register the basis once it is complete
+        super().__init__((eft, basis))
 
     @property
     def known_translators(self):
-- 
2.43.0


From 16d4c866bf73d0faf312b8613b4c5bff474c8f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:47 +0000
Subject: [PATCH 03/26] fix: allow str() of a basis with coefficients without
 metadata

---
 wcxf/classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index eee9b4c..d797568 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -303,6 +303,7 @@ class Basis(WCxf, NamedInstanceClass):
                 # fractions of line width (default: 72)
                 md += "|" + 18 * "-" + "|" + 48 * "-" + "|" + 6 * "-" + "|\n"
                 for name, d in wcs.items():
+                    d = d or {}  # metadata can be absent
                     if 'real' not in d or not d['real']:
                         t = 'C'
                     else:
-- 
2.43.0


From 45d95b8530282cefbfb464a038ea0e018b905b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:08 +0000
Subject: [PATCH 04/26] fix: pass user-defined parameters to the SMEFT basis
 translators

---
 wcxf/translators/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wcxf/translators/__init__.py b/wcxf/translators/__init__.py
index b432a7c..cba69fa 100644
--- a/wcxf/translators/__init__.py
+++ b/wcxf/translators/__init__.py
@@ -5,17 +5,17 @@ import wcxf
 
 @wcxf.translator('SMEFT', 'Warsaw', 'Warsaw mass')
 def warsaw_to_warsawmass(C, scale, parameters):
-    return smeft.warsaw_to_warsawmass(C)
+    return smeft.warsaw_to_warsawmass(C, parameters)
 
 
 @wcxf.translator('SMEFT', 'Warsaw', 'Warsaw up')
 def warsaw_to_warsaw_up(C, scale, parameters):
-    return smeft.warsaw_to_warsaw_up(C)
+    return smeft.warsaw_to_warsaw_up(C, parameters)
 
 
 @wcxf.translator('SMEFT', 'Warsaw up', 'Warsaw')
 def warsaw_up_to_warsaw(C, scale, parameters):
-    return smeft.warsaw_up_to_warsaw(C)
+    return smeft.warsaw_up_to_warsaw(C, parameters)
 
 
 @wcxf.translator('WET', 'JMS', 'flavio')
-- 
2.43.0


From 8cfd8bee228de617f79a821e7aa830260a16c926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:08 +0000
Subject: [PATCH 05/26] fix: rotate down-quark dipole and octet scalar
 coefficients to the mass basis

---
 wcxf/translators/wet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 7421d5a..0bf90ca 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -958,13 +958,16 @@ def rotate_down(C_in, p):
         C[k] = np.einsum('kc,ld,ijkl->ijcd',
                          UdL.conj(), UdL,
                          C_in[k])
+    # type dL X
+    for k in ['dgamma', 'dG']:
+        C[k] = np.einsum('ia,ij->aj', UdL.conj(), C_in[k])
     # type dL dL X X
     for k in ['V1ddLR', 'V1duLR', 'V8ddLR', 'V8duLR', 'VdeLR']:
         C[k] = np.einsum('ia,jb,ijkl->abkl',
                          UdL.conj(), UdL,
                          C_in[k])
     # type dL X dL X
-    for k in ['S1ddRR', ]:
+    for k in ['S1ddRR', 'S8ddRR']:
         C[k] = np.einsum('ia,kc,ijkl->ajcl',
                          UdL.conj(), UdL.conj(),
                          C_in[k])
-- 
2.43.0


From ed9902776b06a4170879edb064916df43c76f932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:08 +0000
Subject: [PATCH 06/26] fix: normalize FormFlavor leptonic dipoles by e for
 both chiralities

---
 wcxf/translators/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 0bf90ca..c821db7 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -865,7 +865,7 @@ def JMS_to_FormFlavor_chrom(C, qq, parameters):
         l2 = llflav[qq[1]]
         return {
             'CAR_' + qq : C['egamma'][l1, l2] / e,
-            'CAL_' + qq : C['egamma'][l2, l1].conj() / gs,
+            'CAL_' + qq : C['egamma'][l2, l1].conj() / e,
                 }
     if qq[0] in uflav.keys():
         u = uflav[qq[0]]
-- 
2.43.0


From 2495a439f7fb3b2c6ad50888ed64309879e23d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:08 +0000
Subject: [PATCH 07/26] fix: take s->d nu nu FormFlavor coefficients from the
 s-d flavour entries

---
 wcxf/translators/wet.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index c821db7..2408d2c 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -714,12 +714,12 @@ def JMS_to_FormFlavor_lep(C, dd):
         'CSRL_' + dd + 'mm' : C["SedRL"][1, 1, b, s].conj(),
         'CTLL_' + dd + 'mm' : C["TedRR"][1, 1, b, s].conj(),
         'CTRR_' + dd + 'mm' : C["TedRR"][1, 1, s, b],
-        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLL"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLL"][2, 2, s-1, s],
-        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLR"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLR"][2, 2, s-1, s]
+        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLL"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLL"][2, 2, 0, 1],
+        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLR"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLR"][2, 2, 0, 1]
             }
 
 # chromomagnetic operators
-- 
2.43.0


From cbe71b9b5bc8f1aeda94de0cc25e7ac1ab3afb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:08 +0000
Subject: [PATCH 08/26] fix: m_c(m_c) is the running mass in the 4-flavour
 theory only

---
 wcxf/util/qcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/util/qcd.py b/wcxf/util/qcd.py
index 8ccf8b2..6227df8 100644
--- a/wcxf/util/qcd.py
+++ b/wcxf/util/qcd.py
@@ -90,7 +90,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185):
 def m_c(mcmc, scale, f, alphasMZ=0.1185):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
-    if scale == mcmc:
+    if scale == mcmc and f == 4:
         return mcmc  # nothing to do
     _sane(scale, f)
     loop = 3
-- 
2.43.0


From e49e89b41b2bebc533dfbcb32525e136b4632372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:27 +0000
Subject: [PATCH 09/26] fix: fill in a number, not an array, for missing scalar
 coefficients

---
 wcxf/util/smeftutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wcxf/util/smeftutil.py b/wcxf/util/smeftutil.py
index 9d1dc82..b2ce525 100644
--- a/wcxf/util/smeftutil.py
+++ b/wcxf/util/smeftutil.py
@@ -573,7 +573,8 @@ def add_missing(C):
     """Add arrays with zeros for missing Wilson coefficient keys"""
     C_out = C.copy()
     for k in (set(WC_keys) - set(C.keys())):
-        C_out[k] = np.zeros(C_keys_shape[k])
+        s = C_keys_shape[k]
+        C_out[k] = 0 if s == 1 else np.zeros(s)
     return C_out
 
 
-- 
2.43.0


From d07ffb6d593e9554665378ea9429efcd012328f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:39 +0000
Subject: [PATCH 10/26] fix: keep s -> d nu nu coefficients when translating
 from flavio to Bern

---
 wcxf/translators/wet.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 2408d2c..3816c67 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -6,6 +6,7 @@ import ckmutil.ckm, ckmutil.diag
 import wcxf
 import pkgutil
 import json
+from collections import defaultdict
 
 # CONSTANTS
 
@@ -1124,7 +1125,7 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
     # fill in zeros for missing coefficients
     wc_keys = wcxf.Basis['WET', 'flavio'].all_wcs
-    C = {k: C_incomplete.get(k, 0) for k in wc_keys}
+    C = defaultdict(int, {k: C_incomplete.get(k, 0) for k in wc_keys})
     d = {}
 
     # Class I
@@ -1146,6 +1147,10 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None):
             d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
                                         'db'+'l_'+l+'nu_'+lp, p),
                                         'db'+'l_'+l+'nu_'+lp))
+            # only the neutrino operators are present in the flavio basis
+            d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
+                                        'ds'+'l_'+l+'nu_'+lp, p),
+                                        'ds'+'l_'+l+'nu_'+lp))
 
     # Class V chromomagnetic
     d.update(Fierz_to_Bern_chrom(Flavio_to_Fierz_chrom(C, 'sb', p), 'sb', p))
-- 
2.43.0


From b24083091da674bc319ad9191092e85352241e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:58 +0000
Subject: [PATCH 11/26] fix: report failure of wcxf subcommands in the exit
 status

---
 wcxf/cli.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index 6c35d27..902c45e 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -75,18 +75,19 @@ def wcxf_cli():
     parser_validate.set_defaults(func=validate)
 
     args = parser.parse_args()
-    try:
-        args.func(args)
-    except AttributeError:
-        parser.print_help()
+    if not hasattr(args, 'func'):  # no subcommand given
+        return parser.print_help()
+    return args.func(args)
 
 
 def convert(args):
     from wcxf.converters.yamljson import convert_json, convert_yaml
     if args.FORMAT.lower() == 'json':
-        convert_json(args.FILE, args.output)
+        return convert_json(args.FILE, args.output)
     if args.FORMAT.lower() == 'yaml':
-        convert_yaml(args.FILE, args.output)
+        return convert_yaml(args.FILE, args.output)
+    logging.error("FORMAT should be 'yaml' or 'json'")
+    return 1
 
 
 def translate(args):
-- 
2.43.0


From e6926a2ffa6fd304cdedd53377a5709bb7da29be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:58 +0000
Subject: [PATCH 12/26] fix: remove temporary files and report errors when
 LaTeX writes no log

---
 wcxf/classes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index d797568..7326bdc 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -72,7 +72,9 @@ def _testtex(s, delete=True):
                             '-output-directory', tmpd, tmpf],
                            stdout=subprocess.DEVNULL)
     except FileNotFoundError:
-        logging.warn('latex executable not found. Cannot check tex code')
+        logging.warning('latex executable not found. Cannot check tex code')
+        if delete:
+            shutil.rmtree(tmpd)
         return {'success': True}
     if p.returncode == 0:
         res = {'success': True}
@@ -80,6 +82,7 @@ def _testtex(s, delete=True):
         res = {'success': False}
     logf = os.path.join(tmpd, 'textest.log')
     res['log'] = ''
+    logl = []
     try:
         with open(logf, 'r') as f:
             logl = f.readlines()
-- 
2.43.0


From 1081c55e1e12d738e444a6f74d787184737fb3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:20 +0000
Subject: [PATCH 13/26] fix: keep the sign of real coefficients without phase
 in SMEFTsim cards

---
 wcxf/converters/smeftsim.py | 86 ++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index e939bd3..b66a257 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -739,48 +739,48 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
 	  [644, format(wc.dict['phiBtilde'] * lambda_smeft_value**2,'.6e'), '# cHBtil'],
 	  [645, format(wc.dict['phiWB'] * lambda_smeft_value**2,'.6e'), '# cHWB'],
 	  [646, format(wc.dict['phiWtildeB'] * lambda_smeft_value**2,'.6e'), '# cHWBtil'],
-	  [647, format(abs(wc.dict['phil1_11']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
+	  [647, format(wc.dict['phil1_11'].real * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
 	  [648, format(abs(wc.dict['phil1_12']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs12'],
 	  [649, format(abs(wc.dict['phil1_13']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs13'],
-	  [650, format(abs(wc.dict['phil1_22']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
+	  [650, format(wc.dict['phil1_22'].real * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
 	  [651, format(abs(wc.dict['phil1_23']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs23'],
-	  [652, format(abs(wc.dict['phil1_33']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
-	  [653, format(abs(wc.dict['phil3_11']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
+	  [652, format(wc.dict['phil1_33'].real * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
+	  [653, format(wc.dict['phil3_11'].real * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
 	  [654, format(abs(wc.dict['phil3_12']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs12'],
 	  [655, format(abs(wc.dict['phil3_13']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs13'],
-	  [656, format(abs(wc.dict['phil3_22']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
+	  [656, format(wc.dict['phil3_22'].real * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
 	  [657, format(abs(wc.dict['phil3_23']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs23'],
-	  [658, format(abs(wc.dict['phil3_33']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
-	  [659, format(abs(wc.dict['phiq1_11']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
+	  [658, format(wc.dict['phil3_33'].real * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
+	  [659, format(wc.dict['phiq1_11'].real * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
 	  [660, format(abs(wc.dict['phiq1_12']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs12'],
 	  [661, format(abs(wc.dict['phiq1_13']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs13'],
-	  [662, format(abs(wc.dict['phiq1_22']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
+	  [662, format(wc.dict['phiq1_22'].real * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
 	  [663, format(abs(wc.dict['phiq1_23']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs23'],
-	  [664, format(abs(wc.dict['phiq1_33']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
-	  [665, format(abs(wc.dict['phiq3_11']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
+	  [664, format(wc.dict['phiq1_33'].real * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
+	  [665, format(wc.dict['phiq3_11'].real * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
 	  [666, format(abs(wc.dict['phiq3_12']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs12'],
 	  [667, format(abs(wc.dict['phiq3_13']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs13'],
-	  [668, format(abs(wc.dict['phiq3_22']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
+	  [668, format(wc.dict['phiq3_22'].real * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
 	  [669, format(abs(wc.dict['phiq3_23']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs23'],
-	  [670, format(abs(wc.dict['phiq3_33']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
-	  [671, format(abs(wc.dict['phie_11']) * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
+	  [670, format(wc.dict['phiq3_33'].real * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
+	  [671, format(wc.dict['phie_11'].real * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
 	  [672, format(abs(wc.dict['phie_12']) * lambda_smeft_value**2,'.6e'), '# cHeAbs12'],
 	  [673, format(abs(wc.dict['phie_13']) * lambda_smeft_value**2,'.6e'), '# cHeAbs13'],
-	  [674, format(abs(wc.dict['phie_22']) * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
+	  [674, format(wc.dict['phie_22'].real * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
 	  [675, format(abs(wc.dict['phie_23']) * lambda_smeft_value**2,'.6e'), '# cHeAbs23'],
-	  [676, format(abs(wc.dict['phie_33']) * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
-	  [677, format(abs(wc.dict['phiu_11']) * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
+	  [676, format(wc.dict['phie_33'].real * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
+	  [677, format(wc.dict['phiu_11'].real * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
 	  [678, format(abs(wc.dict['phiu_12']) * lambda_smeft_value**2,'.6e'), '# cHuAbs12'],
 	  [679, format(abs(wc.dict['phiu_13']) * lambda_smeft_value**2,'.6e'), '# cHuAbs13'],
-	  [680, format(abs(wc.dict['phiu_22']) * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
+	  [680, format(wc.dict['phiu_22'].real * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
 	  [681, format(abs(wc.dict['phiu_23']) * lambda_smeft_value**2,'.6e'), '# cHuAbs23'],
-	  [682, format(abs(wc.dict['phiu_33']) * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
-	  [683, format(abs(wc.dict['phid_11']) * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
+	  [682, format(wc.dict['phiu_33'].real * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
+	  [683, format(wc.dict['phid_11'].real * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
 	  [684, format(abs(wc.dict['phid_12']) * lambda_smeft_value**2,'.6e'), '# cHdAbs12'],
 	  [685, format(abs(wc.dict['phid_13']) * lambda_smeft_value**2,'.6e'), '# cHdAbs13'],
-	  [686, format(abs(wc.dict['phid_22']) * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
+	  [686, format(wc.dict['phid_22'].real * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
 	  [687, format(abs(wc.dict['phid_23']) * lambda_smeft_value**2,'.6e'), '# cHdAbs23'],
-	  [688, format(abs(wc.dict['phid_33']) * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
+	  [688, format(wc.dict['phid_33'].real * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
 	  [689, format(wc.dict['ll_1111'] * lambda_smeft_value**2,'.6e'), '# cllAbs1111'],
 	  [690, format(wc.dict['ll_1122'] * lambda_smeft_value**2,'.6e'), '# cllAbs1122'],
 	  [691, format(wc.dict['ll_1221'] * lambda_smeft_value**2,'.6e'), '# cllAbs1221'],
@@ -958,7 +958,7 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
           [863, format(wc.dict['ee_2222'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs2222'], 
           [864, format(wc.dict['ee_2233'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs2233'], 
           [865, format(abs(wc.dict['ee_1112']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1112'], 
-          [866, format(abs(wc.dict['ee_3333']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'], 
+          [866, format(wc.dict['ee_3333'].real * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'], 
           [867, format(abs(wc.dict['ee_1123']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1123'], 
           [868, format(abs(wc.dict['ee_1113']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1113'], 
           [869, format(abs(wc.dict['ee_1213']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1213'], 
@@ -2703,66 +2703,66 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
   elif model_set == 'B':
       
       card['Block']['FRBlock'] = {'values': [
-	[1, format(abs(wc.dict['phil1_11']* lambda_smeft_value**2), '.6e') , '# cHl1Abs11'],
+	[1, format(wc.dict['phil1_11'].real* lambda_smeft_value**2, '.6e') , '# cHl1Abs11'],
 	[2, format(abs(wc.dict['phil1_12']* lambda_smeft_value**2), '.6e') , '# cHl1Abs12'],
 	[3, format(abs(wc.dict['phil1_13']* lambda_smeft_value**2), '.6e') , '# cHl1Abs13'],
-	[4, format(abs(wc.dict['phil1_22']* lambda_smeft_value**2), '.6e') , '# cHl1Abs22'],
+	[4, format(wc.dict['phil1_22'].real* lambda_smeft_value**2, '.6e') , '# cHl1Abs22'],
 	[5, format(abs(wc.dict['phil1_23']* lambda_smeft_value**2), '.6e') , '# cHl1Abs23'],
-	[6, format(abs(wc.dict['phil1_33']* lambda_smeft_value**2), '.6e') , '# cHl1Abs33'],
+	[6, format(wc.dict['phil1_33'].real* lambda_smeft_value**2, '.6e') , '# cHl1Abs33'],
 	[7, format(angle(wc.dict['phil1_12']), '.6e') , '# cHl1Ph12'],
 	[8, format(angle(wc.dict['phil1_13']), '.6e') , '# cHl1Ph13'],
 	[9, format(angle(wc.dict['phil1_23']), '.6e') , '# cHl1Ph23'],
-	[10, format(abs(wc.dict['phil3_11']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs11'], 
+	[10, format(wc.dict['phil3_11'].real* lambda_smeft_value**2, '.6e') ,'# cHL3Abs11'], 
 	[11, format(abs(wc.dict['phil3_12']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs12'], 
 	[12, format(abs(wc.dict['phil3_13']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs13'], 
-	[13, format(abs(wc.dict['phil3_22']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs22'], 
+	[13, format(wc.dict['phil3_22'].real* lambda_smeft_value**2, '.6e') ,'# cHL3Abs22'], 
 	[14, format(abs(wc.dict['phil3_23']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs23'], 
-	[15, format(abs(wc.dict['phil3_33']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs33'], 
+	[15, format(wc.dict['phil3_33'].real* lambda_smeft_value**2, '.6e') ,'# cHL3Abs33'], 
 	[16, format(angle(wc.dict['phil3_12']), '.6e') ,'# cHL3Ph12'], 
 	[17, format(angle(wc.dict['phil3_13']), '.6e') ,'# cHL3Ph13'], 
 	[18, format(angle(wc.dict['phil3_23']), '.6e') ,'# cHL3Ph23'], 
-	[19, format(abs(wc.dict['phiq1_11']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs11'], 
+	[19, format(wc.dict['phiq1_11'].real* lambda_smeft_value**2, '.6e') ,'# cHq1Abs11'], 
 	[20, format(abs(wc.dict['phiq1_12']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs12'], 
 	[21, format(abs(wc.dict['phiq1_13']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs13'], 
-	[22, format(abs(wc.dict['phiq1_22']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs22'], 
+	[22, format(wc.dict['phiq1_22'].real* lambda_smeft_value**2, '.6e') ,'# cHq1Abs22'], 
 	[23, format(abs(wc.dict['phiq1_23']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs23'], 
-	[24, format(abs(wc.dict['phiq1_33']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs33'], 
+	[24, format(wc.dict['phiq1_33'].real* lambda_smeft_value**2, '.6e') ,'# cHq1Abs33'], 
 	[25, format(angle(wc.dict['phiq1_12']), '.6e') ,'# cHq1Ph12'], 
 	[26, format(angle(wc.dict['phiq1_13']), '.6e') ,'# cHq1Ph13'], 
 	[27, format(angle(wc.dict['phiq1_23']), '.6e') ,'# cHq1Ph23'], 
-	[28, format(abs(wc.dict['phiq3_11']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs11'], 
+	[28, format(wc.dict['phiq3_11'].real* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs11'], 
 	[29, format(abs(wc.dict['phiq3_12']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs12'], 
 	[30, format(abs(wc.dict['phiq3_13']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs13'], 
-	[31, format(abs(wc.dict['phiq3_22']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs22'], 
+	[31, format(wc.dict['phiq3_22'].real* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs22'], 
 	[32, format(abs(wc.dict['phiq3_23']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs23'], 
-	[33, format(abs(wc.dict['phiq3_33']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs33'], 
+	[33, format(wc.dict['phiq3_33'].real* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs33'], 
 	[34, format(angle(wc.dict['phiq3_12']), '.6e') ,'# cHQ3Ph12'], 
 	[35, format(angle(wc.dict['phiq3_13']), '.6e') ,'# cHQ3Ph13'], 
 	[36, format(angle(wc.dict['phiq3_23']), '.6e') ,'# cHQ3Ph23'], 
-	[37, format(abs(wc.dict['phiu_11']* lambda_smeft_value**2), '.6e') ,'# cHuAbs11'], 
+	[37, format(wc.dict['phiu_11'].real* lambda_smeft_value**2, '.6e') ,'# cHuAbs11'], 
 	[38, format(abs(wc.dict['phiu_12']* lambda_smeft_value**2), '.6e') ,'# cHuAbs12'], 
 	[39, format(abs(wc.dict['phiu_13']* lambda_smeft_value**2), '.6e') ,'# cHuAbs13'], 
-	[40, format(abs(wc.dict['phiu_22']* lambda_smeft_value**2), '.6e') ,'# cHuAbs22'], 
+	[40, format(wc.dict['phiu_22'].real* lambda_smeft_value**2, '.6e') ,'# cHuAbs22'], 
 	[41, format(abs(wc.dict['phiu_23']* lambda_smeft_value**2), '.6e') ,'# cHuAbs23'], 
-	[42, format(abs(wc.dict['phiu_33']* lambda_smeft_value**2), '.6e') ,'# cHuAbs33'], 
+	[42, format(wc.dict['phiu_33'].real* lambda_smeft_value**2, '.6e') ,'# cHuAbs33'], 
 	[43, format(angle(wc.dict['phiu_12']), '.6e') ,'# cHuPh12'], 
 	[44, format(angle(wc.dict['phiu_13']), '.6e') ,'# cHuPh13'], 
 	[45, format(angle(wc.dict['phiu_23']), '.6e') ,'# cHuPh23'], 
-	[46, format(abs(wc.dict['phid_11']* lambda_smeft_value**2), '.6e') ,'# cHdAbs11'], 
+	[46, format(wc.dict['phid_11'].real* lambda_smeft_value**2, '.6e') ,'# cHdAbs11'], 
 	[47, format(abs(wc.dict['phid_12']* lambda_smeft_value**2), '.6e') ,'# cHdAbs12'], 
 	[48, format(abs(wc.dict['phid_13']* lambda_smeft_value**2), '.6e') ,'# cHdAbs13'], 
-	[49, format(abs(wc.dict['phid_22']* lambda_smeft_value**2), '.6e') ,'# cHdAbs22'], 
+	[49, format(wc.dict['phid_22'].real* lambda_smeft_value**2, '.6e') ,'# cHdAbs22'], 
 	[50, format(abs(wc.dict['phid_23']* lambda_smeft_value**2), '.6e') ,'# cHdAbs23'], 
-	[51, format(abs(wc.dict['phid_33']* lambda_smeft_value**2), '.6e') ,'# cHdAbs33'], 
+	[51, format(wc.dict['phid_33'].real* lambda_smeft_value**2, '.6e') ,'# cHdAbs33'], 
 	[52, format(angle(wc.dict['phid_12']), '.6e') ,'# cHdPh12'], 
 	[53, format(angle(wc.dict['phid_13']), '.6e') ,'# cHdPh13'], 
 	[54, format(angle(wc.dict['phid_23']), '.6e') ,'# cHdPh23'], 
-	[55, format(abs(wc.dict['phie_11']* lambda_smeft_value**2), '.6e') ,'# cHeAbs11'], 
+	[55, format(wc.dict['phie_11'].real* lambda_smeft_value**2, '.6e') ,'# cHeAbs11'], 
 	[56, format(abs(wc.dict['phie_12']* lambda_smeft_value**2), '.6e') ,'# cHeAbs12'], 
 	[57, format(abs(wc.dict['phie_13']* lambda_smeft_value**2), '.6e') ,'# cHeAbs13'], 
-	[58, format(abs(wc.dict['phie_22']* lambda_smeft_value**2), '.6e') ,'# cHeAbs22'], 
+	[58, format(wc.dict['phie_22'].real* lambda_smeft_value**2, '.6e') ,'# cHeAbs22'], 
 	[59, format(abs(wc.dict['phie_23']* lambda_smeft_value**2), '.6e') ,'# cHeAbs23'], 
-	[60, format(abs(wc.dict['phie_33']* lambda_smeft_value**2), '.6e') ,'# cHeAbs33'], 
+	[60, format(wc.dict['phie_33'].real* lambda_smeft_value**2, '.6e') ,'# cHeAbs33'], 
 	[61, format(angle(wc.dict['phie_12']), '.6e') ,'# cHePh12'], 
 	[62, format(angle(wc.dict['phie_13']), '.6e') ,'# cHePh13'], 
 	[63, format(angle(wc.dict['phie_23']), '.6e') ,'# cHePh23'], 
-- 
2.43.0


From ec613ae4e6726924e142e5a1d0515d3e1210d4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:20 +0000
Subject: [PATCH 14/26] fix: write SMEFTsim cards for files with missing or
 Re-only coefficients

---
 wcxf/converters/smeftsim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index b66a257..3b0f3be 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -1,7 +1,8 @@
 """Functions to convert WCxf files to MadGraph param_cards for SMEFTsim."""
 
 from numpy import angle
-from collections import OrderedDict
+from collections import OrderedDict, defaultdict
+from types import SimpleNamespace
 from wcxf.converters.SMEFTsim_param_card_elements import *
 
 
@@ -89,6 +90,9 @@ def initialize_smeftsim_card(model_set):
 
 
 def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_value):
+  # missing coefficients are zero; numbers without imaginary part are real
+  wc = SimpleNamespace(dict=defaultdict(float, {
+      k: v if v.imag else v.real for k, v in wc.dict.items()}))
 
   if model_set == 'A':
       # set block entries to WC values
-- 
2.43.0


From 4635cf947dad72fffea2bf94f46c43c6e9b28d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:58 +0000
Subject: [PATCH 15/26] fix: refuse FlavorKit lepton dipoles with non-existing
 flavour indices

---
 wcxf/translators/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 3816c67..f5830d9 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -1243,7 +1243,7 @@ def FlavorKit_to_JMS(C, scale, parameters=None):
             C_out['VeeLL_1223'] = v
         elif k == 'AVRR_2231':
             C_out['VeeRR_1223'] = v
-        elif k[:4] == 'K2R_':
+        elif k[:4] == 'K2R_' and len(k) == 6 and set(k[4:]) <= set('123'):
             ind = k[4:][::-1]
             e = sqrt(4* pi * p['alpha_e'])
             if ind[1] == '1':
-- 
2.43.0


From 8290697104d1021a27410b626a4f81d7b1d26e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:06 +0000
Subject: [PATCH 16/26] fix: do not fail on LaTeX logs that are not valid UTF-8

---
 wcxf/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 7326bdc..82d1684 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -84,7 +84,7 @@ def _testtex(s, delete=True):
     res['log'] = ''
     logl = []
     try:
-        with open(logf, 'r') as f:
+        with open(logf, 'r', errors='replace') as f:
             logl = f.readlines()
     except FileNotFoundError:
         pass
-- 
2.43.0


From 72147d5f703797fae0f10fe016423c4c26940c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:06 +0000
Subject: [PATCH 17/26] fix: empty list of known bases before any basis is
 defined

---
 wcxf/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 82d1684..2e63aa7 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -206,7 +206,8 @@ class EFT(WCxf, NamedInstanceClass):
     @property
     def known_bases(self):
         """Return a list of known bases for this EFT."""
-        return tuple(basis[1] for basis in Basis.instances if basis[0] == self.eft)
+        return tuple(basis[1] for basis in getattr(Basis, 'instances', ())
+                     if basis[0] == self.eft)
 
     @property
     def known_translators(self):
-- 
2.43.0


From 5a2459df6c1b76a7637c0f026b7fb2c043bfc094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:53 +0000
Subject: [PATCH 18/26] fix: resolve YAML merge keys when loading files

Loading or converting a YAML file that uses a merge key ("<<: *anchor")
failed because the mapping constructor did not flatten the node.
---
 wcxf/classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 2e63aa7..aa778c7 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -22,6 +22,8 @@ yaml.add_representer(type(None), represent_none)
 # the following is necessary to load YAML mappings as OrderedDicts
 _mapping_tag = yaml.resolver.BaseResolver.DEFAULT_MAPPING_TAG
 def _dict_constructor(loader, node):
+    if isinstance(node, yaml.MappingNode):
+        loader.flatten_mapping(node)  # resolve merge keys ("<<")
     return OrderedDict(loader.construct_pairs(node))
 yaml.add_constructor(_mapping_tag, _dict_constructor)
 
-- 
2.43.0


From 770cd89be5969a99986f274e475e3f253d32c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:26 +0000
Subject: [PATCH 19/26] fix: find definition files if the installation path
 contains glob characters

---
 wcxf/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wcxf/__init__.py b/wcxf/__init__.py
index 98f1281..add3f2b 100644
--- a/wcxf/__init__.py
+++ b/wcxf/__init__.py
@@ -9,9 +9,10 @@ import os
 import glob
 
 _root = os.path.abspath(os.path.dirname(__file__))
-all_efts = glob.glob(os.path.join(_root, 'bases', '*.eft.json'))
-all_bases = glob.glob(os.path.join(_root, 'bases', '*.basis.json'))
-child_bases = glob.glob(os.path.join(_root, 'bases', 'child', '*.basis.json'))
+_globroot = glob.escape(_root)  # the path may contain special characters
+all_efts = glob.glob(os.path.join(_globroot, 'bases', '*.eft.json'))
+all_bases = glob.glob(os.path.join(_globroot, 'bases', '*.basis.json'))
+child_bases = glob.glob(os.path.join(_globroot, 'bases', 'child', '*.basis.json'))
 
 for eft in all_efts:
     with open(eft, 'r') as f:
-- 
2.43.0


From b8585c26148b319aa496216f06590518e9714995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:26 +0000
Subject: [PATCH 20/26] fix: read EOS parameters from directories whose name
 contains glob characters

---
 wcxf/converters/eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/converters/eos.py b/wcxf/converters/eos.py
index fcb022d..6f1058b 100644
--- a/wcxf/converters/eos.py
+++ b/wcxf/converters/eos.py
@@ -11,7 +11,7 @@ def get_sm_wcs(eos_parameter_dir):
     """Read SM contributions to EOS Wilson coefficients from the EOS
     installation parameter directory and return them as a dictionary."""
     all_wcs = {}
-    yamlfiles = glob.glob(os.path.join(eos_parameter_dir, '*.yaml'))
+    yamlfiles = glob.glob(os.path.join(glob.escape(eos_parameter_dir), '*.yaml'))
     for yamlfile in yamlfiles:
         with open(yamlfile, 'r') as f:
             wcs = yaml.load(f)
-- 
2.43.0


From 37d4616746183211b493cb4a494e85508d31fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 21/26] fix: refuse unknown coefficients also when Python runs
 with assertions disabled

---
 wcxf/classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index aa778c7..b96a7ff 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -370,8 +370,9 @@ class WC(WCxf):
         except (AttributeError, KeyError):
             raise ValueError("Basis {} not defined for EFT {}".format(self.basis, self.eft))
         unknown_keys = set(self.values.keys()) - set(basis_instance.all_wcs)
-        assert unknown_keys == set(), \
-            "Wilson coefficients do not exist in this basis: " + str(unknown_keys)
+        if unknown_keys != set():  # not an assert statement: must work with -O
+            raise AssertionError(
+                "Wilson coefficients do not exist in this basis: " + str(unknown_keys))
 
     @property
     def dict(self):
-- 
2.43.0


From 94da85fa69a2783fd1e36a2281f9230b2c4631f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 22/26] fix: ignore empty EOS parameter files and empty
 metadata

---
 wcxf/converters/eos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wcxf/converters/eos.py b/wcxf/converters/eos.py
index 6f1058b..95be413 100644
--- a/wcxf/converters/eos.py
+++ b/wcxf/converters/eos.py
@@ -14,8 +14,8 @@ def get_sm_wcs(eos_parameter_dir):
     yamlfiles = glob.glob(os.path.join(glob.escape(eos_parameter_dir), '*.yaml'))
     for yamlfile in yamlfiles:
         with open(yamlfile, 'r') as f:
-            wcs = yaml.load(f)
-        meta = wcs.get('@metadata@', {})
+            wcs = yaml.load(f) or {}  # a file can be empty
+        meta = wcs.get('@metadata@') or {}
         if 'wcxf-relevant' in meta and meta['wcxf-relevant']:
             del wcs['@metadata@']
             all_wcs.update(wcs)
-- 
2.43.0


From 2de2b55b77227602c07b8824ab7bd57b6dccd6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:48 +0000
Subject: [PATCH 23/26] fix: basis validation survives a latex executable that
 cannot be run

---
 wcxf/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index b96a7ff..433578d 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -73,7 +73,7 @@ def _testtex(s, delete=True):
         p = subprocess.run(['latex', '-halt-on-error',
                             '-output-directory', tmpd, tmpf],
                            stdout=subprocess.DEVNULL)
-    except FileNotFoundError:
+    except OSError:
         logging.warning('latex executable not found. Cannot check tex code')
         if delete:
             shutil.rmtree(tmpd)
-- 
2.43.0


From e1563d73c61d3e86c5efa663e20ddf3143fe4b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:44 +0000
Subject: [PATCH 24/26] fix: printing a basis with empty metadata or an empty
 description failed

---
 wcxf/classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 433578d..28073ae 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -288,8 +288,9 @@ class Basis(WCxf, NamedInstanceClass):
 
     def _repr_markdown_(self):
         md = "# Basis `{}` (EFT `{}`)\n\n".format(self.basis, self.eft)
-        if hasattr(self, 'metadata') and 'description' in self.metadata:
-            md += self.metadata['description'] + "\n\n"
+        metadata = getattr(self, 'metadata', None) or {}
+        if metadata.get('description') is not None:
+            md += str(metadata['description']) + "\n\n"
         return md
 
     def _markdown_tables(self):
-- 
2.43.0


From be5e74657358665ddf2fac5fc955693809696085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:12 +0000
Subject: [PATCH 25/26] fix: command line options given without a value fell
 back to None instead of their default

---
 wcxf/cli.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index 902c45e..3789109 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -23,7 +23,7 @@ def wcxf_cli():
                                 help="Input file. If \"-\", read from standard input")
     parser_convert.add_argument("--output", nargs='?',
                                       type=argparse.FileType('w'),
-                                      default=sys.stdout,
+                                      default=sys.stdout, const=sys.stdout,
                                       help="Output file. If absent, print to standard output")
     parser_convert.set_defaults(func=convert)
 
@@ -38,7 +38,7 @@ def wcxf_cli():
                                   default=sys.stdin,
                                   help="Input file. If \"-\", read from standard input")
     parser_translate.add_argument("--output", nargs='?',
-                                  type=argparse.FileType('w'), default=sys.stdout,
+                                  type=argparse.FileType('w'), default=sys.stdout, const=sys.stdout,
                                   help="Output file. If absent, print to standard output")
     parser_translate.add_argument("--format", type=str,
                                   default="json",
@@ -56,7 +56,7 @@ def wcxf_cli():
                               type=argparse.FileType('r'), default=sys.stdin,
                               help="Input file. If \"-\", read from standard input")
     parser_match.add_argument("--output", nargs='?',
-                              type=argparse.FileType('w'), default=sys.stdout,
+                              type=argparse.FileType('w'), default=sys.stdout, const=sys.stdout,
                               help="Output file. If absent, print to standard output")
     parser_match.add_argument("--format", type=str, default="json",
                               help="Output format (default: json)")
@@ -127,7 +127,7 @@ def eos():
     parser.add_argument("--eosprefix", help="Installation prefix for the EOS installation. Defaults to /usr",
                         default='/usr')
     parser.add_argument("--output", nargs='?', help="Output file. If absent, print to standard output",
-                        type=argparse.FileType('w'), default=sys.stdout)
+                        type=argparse.FileType('w'), default=sys.stdout, const=sys.stdout)
     parser.add_argument("--eoshome", help="EOS home directory. If specified, values will be written to EOSHOME/parameters/wcxf.yaml. Cannot be used simultaneously with output",
                         default=None)
     args = parser.parse_args()
@@ -160,10 +160,10 @@ def smeftsim():
                                      formatter_class=argparse.RawTextHelpFormatter)
     parser.add_argument("FILE", nargs='?', help="Input file. Must be specified.",
                         type=argparse.FileType('r'), default="{}")
-    parser.add_argument("--output", nargs='?', help="Output file. Default is wcxf2smeftsim_param_card.dat.", default="wcxf2smeftsim_param_card.dat")
-    parser.add_argument("--input-scheme", nargs='?', help="Input parameters set. Can be either alpha (alpha_ew, m_Z, G_F) or mw (m_W, m_Z, G_F). Default is alpha.", choices=['alpha','mw'], default='alpha')
-    parser.add_argument("--cutoff-scale", nargs='?', help="Value of the EFT cutoff scale in GeV. Default is 1 TeV.", type=float, default=1000)
-    parser.add_argument("--model-set", nargs='?', help="SMEFTsim model set to be used. Can be either A or B, default is A.", choices=['A','B'],default="A")
+    parser.add_argument("--output", nargs='?', help="Output file. Default is wcxf2smeftsim_param_card.dat.", default="wcxf2smeftsim_param_card.dat", const="wcxf2smeftsim_param_card.dat")
+    parser.add_argument("--input-scheme", nargs='?', help="Input parameters set. Can be either alpha (alpha_ew, m_Z, G_F) or mw (m_W, m_Z, G_F). Default is alpha.", choices=['alpha','mw'], default='alpha', const='alpha')
+    parser.add_argument("--cutoff-scale", nargs='?', help="Value of the EFT cutoff scale in GeV. Default is 1 TeV.", type=float, default=1000, const=1000)
+    parser.add_argument("--model-set", nargs='?', help="SMEFTsim model set to be used. Can be either A or B, default is A.", choices=['A','B'],default="A", const="A")
   
     args = parser.parse_args()
    
-- 
2.43.0


From b1701257309806de2d086771f9374182943198e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:25 +0000
Subject: [PATCH 26/26] fix: wcxf reported success when the output file could
 not be written (error at close was ignored)

---
 wcxf/cli.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index 3789109..a6f8e79 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -77,7 +77,12 @@ def wcxf_cli():
     args = parser.parse_args()
     if not hasattr(args, 'func'):  # no subcommand given
         return parser.print_help()
-    return args.func(args)
+    status = args.func(args)
+    # report errors (e.g. no space left) that occur when the output is flushed
+    output = getattr(args, 'output', None)
+    if output is not None and output is not sys.stdout:
+        output.close()
+    return status
 
 
 def convert(args):
-- 
2.43.0

