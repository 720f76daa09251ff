From c0592f271fb3a4d9302e146429b44d57af0b8445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 01/34] fix: frame file contents in the source fingerprint

Without the length, the end of one file and the header of the next were
not separated, so two different source trees could share a fingerprint.
---
 tn/cache.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tn/cache.py b/tn/cache.py
index 62f6c96..6f3093b 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -119,8 +119,9 @@ def production_source_fingerprint(project_root=None):
         digest.update(len(relative_path).to_bytes(8, "big"))
         digest.update(relative_path)
         with open(source, "rb") as source_file:
-            for chunk in iter(lambda: source_file.read(1024 * 1024), b""):
-                digest.update(chunk)
+            contents = source_file.read()
+        digest.update(len(contents).to_bytes(8, "big"))
+        digest.update(contents)
     return digest.hexdigest()
 
 
-- 
2.43.0


From 083b5573e396b0b0936ceda9d31f8b1a0a657594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 02/34] =?UTF-8?q?fix:=20read=202=20as=20=E4=BA=8C=20in=202?=
 =?UTF-8?q?=E6=97=A5=20and=20in=20ranges=20such=20as=202-3=E6=9C=88?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 tn/chinese/rules/measure.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tn/chinese/rules/measure.py b/tn/chinese/rules/measure.py
index 6bb26a1..421a827 100644
--- a/tn/chinese/rules/measure.py
+++ b/tn/chinese/rules/measure.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import accep, cross, string_file
+from pynini import accep, cross, string_file, union
 from pynini.lib.pynutil import add_weight, delete, insert
 
 from tn.chinese.rules.cardinal import Cardinal
@@ -46,9 +46,13 @@ class Measure(Processor):
         prefix = number + (rmspace + units).ques + to
         measure = prefix.ques + number + rmspace + units
 
-        for unit in ["两", "月", "号"]:
+        # 2两, 2月, 2号, 2日, 2-3月: 二 instead of 两
+        ordinal_units = ["两", "月", "号", "日"]
+        for unit in ordinal_units:
             measure @= self.build_rule(cross("两" + unit, "二" + unit), l="[BOS]")
             measure @= self.build_rule(cross("到两" + unit, "到二" + unit), r="[EOS]")
+        numeral = union(*"零一二两三四五六七八九十百千万亿点正负").plus
+        measure @= self.build_rule(cross("两到", "二到"), "[BOS]", numeral + union(*ordinal_units) + "[EOS]")
 
         # xxxx年, xxxx-xxxx年
         digits = self.cardinal.digits
-- 
2.43.0


From 4859e94eb5685e3fb20f067993d6809eae570eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:06 +0000
Subject: [PATCH 03/34] fix: accept the Chinese names of foreign units as units

---
 tn/chinese/rules/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tn/chinese/rules/measure.py b/tn/chinese/rules/measure.py
index 421a827..f39a818 100644
--- a/tn/chinese/rules/measure.py
+++ b/tn/chinese/rules/measure.py
@@ -34,6 +34,8 @@ class Measure(Processor):
     def build_tagger(self):
         units_en = string_file(get_abs_path("chinese/data/measure/units_en.tsv"))
         units_zh = string_file(get_abs_path("chinese/data/measure/units_zh.tsv"))
+        # the Chinese names of the foreign units are units too: 元/平方米
+        units_zh |= units_en.copy().project("output")
         units = add_weight((cross("k", "千") | cross("w", "万")), 0.1).ques + (units_en | units_zh)
         rmspace = delete(" ").ques
         to = cross("-", "到") | cross("~", "到") | accep("到")
-- 
2.43.0


From 5b721cc3031b2cdba5d368c5f704d5e747c39d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:42 +0000
Subject: [PATCH 04/34] fix: remove the fullwidth full stop with the other
 punctuation

remove_puncts kept U+FF0E, which the later full-to-half step then turned
into an ASCII period, a mark that is itself removed.
---
 tn/chinese/data/char/punctuations_zh.tsv | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tn/chinese/data/char/punctuations_zh.tsv b/tn/chinese/data/char/punctuations_zh.tsv
index e587a96..f1f555a 100644
--- a/tn/chinese/data/char/punctuations_zh.tsv
+++ b/tn/chinese/data/char/punctuations_zh.tsv
@@ -46,6 +46,7 @@
 ＋
 ，
 －
+．
 ／
 ：
 ；
-- 
2.43.0


From 530f347e26744c2905b86629ba4c52f336029326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:19 +0000
Subject: [PATCH 05/34] fix: load the # entries of the character, symbol and
 word tables

pynini.string_file reads an unescaped # as the start of a comment, so
the fullwidth hash was kept by full_to_half, 'number sign' dropped out of
e-mail addresses and 'c sharp' was not written c#.
---
 itn/english/data/electronic/symbols.tsv           | 2 +-
 itn/english/data/whitelist.tsv                    | 4 ++--
 itn/english/data/whitelist_tech.tsv               | 4 ++--
 itn/japanese/data/char/fullwidth_to_halfwidth.tsv | 2 +-
 tn/chinese/data/char/fullwidth_to_halfwidth.tsv   | 2 +-
 tn/english/data/electronic/symbol.tsv             | 2 +-
 tn/japanese/data/char/fullwidth_to_halfwidth.tsv  | 2 +-
 7 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/itn/english/data/electronic/symbols.tsv b/itn/english/data/electronic/symbols.tsv
index 5be8da8..093867a 100644
--- a/itn/english/data/electronic/symbols.tsv
+++ b/itn/english/data/electronic/symbols.tsv
@@ -3,7 +3,7 @@
 -	hyphen
 _	underscore
 !	exclamation mark
-#	number sign
+\#	number sign
 $	dollar sign
 %	percent sign
 &	ampersand
diff --git a/itn/english/data/whitelist.tsv b/itn/english/data/whitelist.tsv
index c7201ae..698cd51 100644
--- a/itn/english/data/whitelist.tsv
+++ b/itn/english/data/whitelist.tsv
@@ -64,7 +64,7 @@ BSP	b s p
 BasePOD	base pod
 BasePOD	basepod
 Billion-X	billion X
-C#	c sharp
+C\#	c sharp
 C++	c plus plus
 CAT5	cat five
 CAT5e	cat five e
@@ -385,7 +385,7 @@ XML	x m l
 Zen 2	zen two
 Zen 3	zen three
 Zen 4	zen four
-c#	c sharp
+c\#	c sharp
 c++	c plus plus
 cuBLAS	cue blah
 cuBLAS	cue blahs
diff --git a/itn/english/data/whitelist_tech.tsv b/itn/english/data/whitelist_tech.tsv
index a2a14a4..c5533c8 100644
--- a/itn/english/data/whitelist_tech.tsv
+++ b/itn/english/data/whitelist_tech.tsv
@@ -64,7 +64,7 @@ BSP	b s p
 BasePOD	base pod
 BasePOD	basepod
 Billion-X	billion X
-C#	c sharp
+C\#	c sharp
 C++	c plus plus
 CAT5	cat five
 CAT5e	cat five e
@@ -413,7 +413,7 @@ b-tree	b t ree
 btrfs	b t r f s
 btrfs	b tree f s
 btrfs	butter f s
-c#	c sharp
+c\#	c sharp
 c++	c plus plus
 cuBLAS	cue blah
 cuBLAS	cue blahs
diff --git a/itn/japanese/data/char/fullwidth_to_halfwidth.tsv b/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
+++ b/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
diff --git a/tn/chinese/data/char/fullwidth_to_halfwidth.tsv b/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
+++ b/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
diff --git a/tn/english/data/electronic/symbol.tsv b/tn/english/data/electronic/symbol.tsv
index 5e8973f..b25385a 100644
--- a/tn/english/data/electronic/symbol.tsv
+++ b/tn/english/data/electronic/symbol.tsv
@@ -2,7 +2,7 @@
 -	dash
 _	underscore
 !	exclamation mark
-#	number sign
+\#	number sign
 $	dollar sign
 %	percent
 &	ampersand
diff --git a/tn/japanese/data/char/fullwidth_to_halfwidth.tsv b/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
+++ b/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
-- 
2.43.0


From b6de036ad4fa39c6f369567b9f0d3ee7d0f63aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:02 +0000
Subject: [PATCH 06/34] fix: write the Moroccan dirham as MAD

It had the code of the Mongolian tugrik.
---
 itn/chinese/data/money/code.tsv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/chinese/data/money/code.tsv b/itn/chinese/data/money/code.tsv
index a4fc715..4a8ed05 100644
--- a/itn/chinese/data/money/code.tsv
+++ b/itn/chinese/data/money/code.tsv
@@ -67,7 +67,7 @@
 斯里兰卡卢比	LKR
 利比里亚元	LRD
 马其顿代纳尔	MKD
-摩洛哥迪拉姆	MNT
+摩洛哥迪拉姆	MAD
 蒙古图格里克	MNT
 毛里求斯卢比	MUR
 墨西哥比索	MXN
-- 
2.43.0


From 65cd0e888ad0a0ddd18a4c97b548e1b50608eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:02 +0000
Subject: [PATCH 07/34] =?UTF-8?q?fix:=20write=20=E5=85=86=E8=B5=AB?=
 =?UTF-8?q?=E5=85=B9=20as=20mhz,=20not=20Thz?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The multiplier 兆 in front of 赫兹 was cheaper than the unit itself.
---
 itn/chinese/rules/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/itn/chinese/rules/measure.py b/itn/chinese/rules/measure.py
index 7edf092..8f85459 100644
--- a/itn/chinese/rules/measure.py
+++ b/itn/chinese/rules/measure.py
@@ -33,6 +33,8 @@ class Measure(Processor):
     def build_tagger(self):
         units_en = string_file(get_abs_path("chinese/data/measure/units_en.tsv"))
         units_en |= add_weight(cross("度", "°"), -0.001)
+        # 兆赫兹 is one unit, not 兆 + 赫兹: 十五兆赫兹 => 15mhz
+        units_en |= add_weight((accep("兆") + self.VSIGMA) @ units_en, -0.6)
         units_zh = string_file(get_abs_path("chinese/data/measure/units_zh.tsv"))
         sign = string_file(get_abs_path("chinese/data/number/sign.tsv"))  # + -
         digit = string_file(get_abs_path("chinese/data/number/digit.tsv"))  # 1 ~ 9
-- 
2.43.0


From d1ac485673fbc40f4ce42b69657a2a2fa17ef44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:53 +0000
Subject: [PATCH 08/34] =?UTF-8?q?fix:=20do=20not=20take=20=E4=B8=A4=20as?=
 =?UTF-8?q?=20the=20last=20digit=20of=20a=20number?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

六百两 was written 620 and 十两 12; 两 counts units of weight there.
---
 itn/chinese/rules/cardinal.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/itn/chinese/rules/cardinal.py b/itn/chinese/rules/cardinal.py
index f98a2f3..a83564a 100644
--- a/itn/chinese/rules/cardinal.py
+++ b/itn/chinese/rules/cardinal.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import accep, cross, string_file
+from pynini import accep, cross, project, string_file
 from pynini.lib.pynutil import add_weight, delete, insert
 
 from tn.processor import Processor
@@ -44,22 +44,24 @@ class Cardinal(Processor):
         # 0. 基础数字
         addzero = insert("0")
         digits = zero | digit  # 0 ~ 9
+        # 两 is never the last digit of a larger number: 六百两 => 600两, 十两 => 10两
+        last = (project(digit, "input") - accep("两")) @ digit
         # 十一 => 11, 十二 => 12
-        teen = cross("十", "1") + (digit | add_weight(addzero, 0.1))
+        teen = cross("十", "1") + (last | add_weight(addzero, 0.1))
         # 一十一 => 11, 二十一 => 21, 三十 => 30
-        tens = digit + delete("十") + (digit | add_weight(addzero, 0.1))
+        tens = digit + delete("十") + (last | add_weight(addzero, 0.1))
         # 一百一十 => 110, 一百零一 => 101, 一百一 => 110, 一百 => 100
         hundred = (digit + delete("百") + (tens
                                           | teen
-                                          | add_weight(zero + digit, 0.1)
-                                          | add_weight(digit + addzero, 0.5)
+                                          | add_weight(zero + last, 0.1)
+                                          | add_weight(last + addzero, 0.5)
                                           | add_weight(addzero**2, 1.0)))
         # 一千一百一十一 => 1111, 一千零一十一 => 1011, 一千零一 => 1001
         # 一千一 => 1100, 一千 => 1000
         thousand = (digit + delete("千") + (hundred
                                            | add_weight(zero + (tens | teen), 0.1)
-                                           | add_weight(addzero + zero + digit, 0.5)
-                                           | add_weight(digit + addzero**2, 0.8)
+                                           | add_weight(addzero + zero + last, 0.5)
+                                           | add_weight(last + addzero**2, 0.8)
                                            | add_weight(addzero**3, 1.0)))
         # 10001111, 1001111, 101111, 11111, 10111, 10011, 10001, 10000
         if self.enable_million:
@@ -67,15 +69,15 @@ class Cardinal(Processor):
                             (thousand
                              | add_weight(zero + hundred, 0.1)
                              | add_weight(addzero + zero + (tens | teen), 0.5)
-                             | add_weight(addzero + addzero + zero + digit, 0.5)
-                             | add_weight(digit + addzero**3, 0.8)
+                             | add_weight(addzero + addzero + zero + last, 0.5)
+                             | add_weight(last + addzero**3, 0.8)
                              | add_weight(addzero**4, 1.0)))
         else:
             ten_thousand = ((teen | tens | digit) + delete("万") + (thousand
                                                                    | add_weight(zero + hundred, 0.1)
                                                                    | add_weight(addzero + zero + (tens | teen), 0.5)
-                                                                   | add_weight(addzero + addzero + zero + digit, 0.5)
-                                                                   | add_weight(digit + addzero**3, 0.8)
+                                                                   | add_weight(addzero + addzero + zero + last, 0.5)
+                                                                   | add_weight(last + addzero**3, 0.8)
                                                                    | add_weight(addzero**4, 1.0)))
             ten_thousand |= ((thousand | hundred) + accep("万") + delete("零").ques +
                              (thousand | hundred | tens | teen | digits).ques)
-- 
2.43.0


From 672d8b557ce50bac2d81622470f0d0ebae828b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:29 +0000
Subject: [PATCH 09/34] fix: accept any run of blanks in English text

Two blanks between words, a line break or tab next to punctuation,
separated punctuation marks and blank text had no normalization path and
raised RuntimeError; a line break after punctuation was dropped.
---
 tn/english/normalizer.py        | 5 +++--
 tn/english/rules/punctuation.py | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/tn/english/normalizer.py b/tn/english/normalizer.py
index 0d1933f..4bd5d74 100644
--- a/tn/english/normalizer.py
+++ b/tn/english/normalizer.py
@@ -82,8 +82,9 @@ class Normalizer(Processor):
 
         punct = pynutil.add_weight(punctuation.tagger, 2.00)
         token = pynini.closure(punct) + classify + pynini.closure(punct)
-        separator = pynutil.delete(self.SPACE) | punct
-        graph = (self.DELETE_SPACE + token + pynini.closure(separator + token) + self.DELETE_SPACE) | punct
+        separator = pynutil.delete(self.SPACE.plus) | punct
+        graph = (self.DELETE_SPACE + token + pynini.closure(separator + token) + self.DELETE_SPACE) | punct.plus
+        graph |= pynini.cross(self.SPACE.plus, 'p { v: " " } ')
         self.tagger = graph.optimize() @ self.build_rule(pynutil.delete(" "), r="[EOS]")
 
         classify = self.verbalizer_union(rules)
diff --git a/tn/english/rules/punctuation.py b/tn/english/rules/punctuation.py
index 5ab4488..cd95434 100644
--- a/tn/english/rules/punctuation.py
+++ b/tn/english/rules/punctuation.py
@@ -67,12 +67,12 @@ class Punctuation(Processor):
         # path weight to break ties with semantic classes such as decimals.
         grouped_punct = compose(self.VCHAR**(2, ...), punct)
         tagger_punct = punct | add_weight(grouped_punct, -0.0001)
-        final_graph = (insert('v: "') + add_weight(accep(" "), -1.0).star + tagger_punct + add_weight(accep(" "), -1.0).star +
-                       insert('"'))
+        blank = add_weight(self.SPACE, -1.0).star
+        final_graph = insert('v: "') + blank + tagger_punct + blank + insert('"')
         self.tagger = self.add_tokens(final_graph)
 
     def build_verbalizer(self):
         punct = closure(self.punct | self.emphasis | cross("\\\\\\", "\\") | cross('\\"', '"'), 1)
-        verbalizer = (delete('v: "') + add_weight(accep(" "), -1.0).star + punct + add_weight(accep(" "), -1.0).star +
-                      delete('"'))
+        blank = add_weight(self.SPACE, -1.0).star
+        verbalizer = delete('v: "') + blank + punct.ques + blank + delete('"')
         self.verbalizer = self.delete_tokens(verbalizer)
-- 
2.43.0


From 01ef879d6df767055138dbc8182359c62f0ff462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:29 +0000
Subject: [PATCH 10/34] fix: keep English text that no rule covers
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Input such as "5€", "[5]", "#1" or "50+" had no normalization path and
raised RuntimeError.
---
 tn/english/rules/word.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tn/english/rules/word.py b/tn/english/rules/word.py
index 4cedf05..45cb865 100644
--- a/tn/english/rules/word.py
+++ b/tn/english/rules/word.py
@@ -38,7 +38,10 @@ class Word(Processor):
         default_graph = difference(self.NOT_SPACE, punct.project("input"))
         symbols_to_exclude = union("$", "€", "₩", "£", "¥", "#", "%") | self.DIGIT
         self.char = difference(default_graph, symbols_to_exclude)
-        graph = (pynutil.insert('v: "') + self.char.plus + pynutil.insert('"')).optimize()
+        # Text no rule covers, e.g. "5€" or "[5]", is kept as it is.
+        self.other = difference(self.NOT_SPACE, union('"', "\\"))
+        chars = self.char.plus | pynutil.add_weight(self.other.plus, 1000)
+        graph = (pynutil.insert('v: "') + chars + pynutil.insert('"')).optimize()
         final_graph = self.add_tokens(graph)
         self.tagger = final_graph.optimize()
 
@@ -47,6 +50,6 @@ class Word(Processor):
         Finite state transducer for verbalizing word
             e.g. w { v: "sleep" } -> sleep
         """
-        graph = pynutil.delete("v: ") + pynutil.delete('"') + self.char.plus + pynutil.delete('"')
+        graph = pynutil.delete("v: ") + pynutil.delete('"') + self.other.plus + pynutil.delete('"')
         final_graph = self.delete_tokens(graph)
         self.verbalizer = final_graph.optimize()
-- 
2.43.0


From c017dcb1953fd7c9c13cfce2d2b556fe66f835c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:29 +0000
Subject: [PATCH 11/34] fix: accept quotes, backslashes and outer blanks in
 English ITN

A word next to a quotation mark or a backslash, and text starting or
ending with a tab or line break, had no normalization path and raised
RuntimeError.
---
 itn/english/inverse_normalizer.py | 2 +-
 itn/english/rules/punctuation.py  | 3 ++-
 itn/english/rules/word.py         | 4 +---
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/itn/english/inverse_normalizer.py b/itn/english/inverse_normalizer.py
index a617d6b..22559ca 100644
--- a/itn/english/inverse_normalizer.py
+++ b/itn/english/inverse_normalizer.py
@@ -81,7 +81,7 @@ class InverseNormalizer(Processor):
         punct = add_weight(punctuation.tagger, 1.1)
         token = closure(punct + delete(" ").ques) + classify + closure(delete(" ").ques + punct)
         graph = token + closure(self.DELETE_EXTRA_SPACE + token)
-        self.tagger = delete(" ").star + graph + delete(" ").star
+        self.tagger = self.DELETE_SPACE + graph + self.DELETE_SPACE
 
         verbalizer_rules = list(rules)
         verbalizer_rules.append(RuleSpec(punctuation))
diff --git a/itn/english/rules/punctuation.py b/itn/english/rules/punctuation.py
index 36d169d..2cd8c84 100644
--- a/itn/english/rules/punctuation.py
+++ b/itn/english/rules/punctuation.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import union
+from pynini import cross, union
 from pynini.lib.pynutil import insert
 
 from tn.processor import Processor
@@ -27,5 +27,6 @@ class Punctuation(Processor):
 
     def build_tagger(self):
         punct = union(*"!#$%&'()*+,-./:;<=>?@^_`{|}~")
+        punct |= cross("\\", "\\\\\\") | cross('"', '\\"')
         tagger = insert('value: "') + punct + insert('"')
         self.tagger = self.add_tokens(tagger)
diff --git a/itn/english/rules/word.py b/itn/english/rules/word.py
index 46c82bc..f8a4970 100644
--- a/itn/english/rules/word.py
+++ b/itn/english/rules/word.py
@@ -12,7 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import difference, union
 from pynini.lib.pynutil import insert
 
 from tn.processor import Processor
@@ -26,6 +25,5 @@ class Word(Processor):
         self.build_verbalizer()
 
     def build_tagger(self):
-        valid_char = difference(self.NOT_SPACE, union('"', "\\"))
-        tagger = insert('value: "') + valid_char.plus + insert('"')
+        tagger = insert('value: "') + (self.NOT_SPACE.plus @ self.CHAR.star) + insert('"')
         self.tagger = self.add_tokens(tagger)
-- 
2.43.0


From 005759ae18e4dfcbac30d20d794172d6bd31b905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:09 +0000
Subject: [PATCH 12/34] fix: read decades such as 1990s and 2020s as years

---
 tn/english/rules/date.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tn/english/rules/date.py b/tn/english/rules/date.py
index 96b2f48..3cb3ff4 100644
--- a/tn/english/rules/date.py
+++ b/tn/english/rules/date.py
@@ -56,9 +56,8 @@ def get_four_digit_year_graph(deterministic: bool = False):
     """
     graph_ties = get_ties_graph(deterministic)
 
-    graph_with_s = ((graph_ties + Processor("tmp").INSERT_SPACE + graph_ties)
-                    | (graph_teen + Processor("tmp").INSERT_SPACE +
-                       (ties_graph | pynini.cross("1", "ten")))) + pynutil.delete("0s")
+    graph_with_s = ((graph_ties + Processor("tmp").INSERT_SPACE + (ties_graph | pynini.cross("1", "ten"))) +
+                    pynutil.delete("0s"))
 
     graph_with_s |= ((graph_teen | graph_ties) + Processor("tmp").INSERT_SPACE + pynini.cross("00", "hundred") +
                      pynutil.delete("s"))
@@ -66,8 +65,8 @@ def get_four_digit_year_graph(deterministic: bool = False):
         pynini.cross("y", "ies") | pynutil.insert("s"),
         "",
         "[EOS]",
-        Processor("tmp").VCHAR,
-    ).star)
+        Processor("tmp").VCHAR.star,
+    ))
 
     graph = graph_ties + Processor("tmp").INSERT_SPACE + graph_ties
     graph |= (graph_teen | graph_ties) + Processor("tmp").INSERT_SPACE + pynini.cross("00", "hundred")
-- 
2.43.0


From 8feecffb7e27e802c20e460ebc068654d2082e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:09 +0000
Subject: [PATCH 13/34] fix: read the years 2000 to 2009 as two thousand

---
 tn/english/rules/date.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/english/rules/date.py b/tn/english/rules/date.py
index 3cb3ff4..cc483c9 100644
--- a/tn/english/rules/date.py
+++ b/tn/english/rules/date.py
@@ -80,7 +80,7 @@ def get_four_digit_year_graph(deterministic: bool = False):
     if deterministic:
         graph = plurals._priority_union(thousand_graph, graph, Processor("tmp").VCHAR.star)
     else:
-        graph |= thousand_graph
+        graph |= pynutil.add_weight(thousand_graph, -0.0001)
 
     return graph.optimize()
 
-- 
2.43.0


From 9a1dd75af7be0f5b903be4c5f126130f94fef21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:09 +0000
Subject: [PATCH 14/34] fix: separate the words of English ranges and numbers

---
 tn/english/rules/range.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tn/english/rules/range.py b/tn/english/rules/range.py
index d256f17..018c0dd 100644
--- a/tn/english/rules/range.py
+++ b/tn/english/rules/range.py
@@ -44,10 +44,11 @@ class Range(Processor):
         week = pynini.string_file(get_abs_path("english/data/date/week.tsv"))
         delete_space = pynutil.delete(" ").ques
 
-        approx = pynini.cross("~", "approximately")
+        approx = pynini.cross("~", "approximately ")
+        to = pynini.accep(" to ") | pynini.cross(pynini.union("-", " - "), " to ")
 
         # WEEK
-        week_graph = week + delete_space + (pynini.cross("-", " to ") | approx) + delete_space + week
+        week_graph = week + delete_space + (pynini.cross("-", " to ") | pynini.cross("~", " to ")) + delete_space + week
 
         # TIME
         time_graph = time + delete_space + pynini.cross("-", " to ") + delete_space + time
@@ -88,15 +89,15 @@ class Range(Processor):
                 range_graph |= cardinal + pynini.cross(x, " times")
 
                 # 5x to 7x-> five to seven x/times
-                range_graph |= (cardinal + pynutil.delete(x) + pynini.union(" to ", "-", " - ") + cardinal +
+                range_graph |= (cardinal + pynutil.delete(x) + to + cardinal +
                                 pynini.cross(x, pynini.union(" x", " times")))
 
             for x in ["*", " * "]:
                 range_graph |= cardinal + (pynini.cross(x, " times ") + cardinal).plus
 
             # supports "No. 12" -> "Number 12"
-            range_graph |= ((pynini.cross(pynini.union("NO", "No"), "Number") | pynini.cross("no", "number")) +
-                            pynini.union(". ", " ").ques + cardinal)
+            range_graph |= ((pynini.cross(pynini.union("NO", "No"), "Number ") | pynini.cross("no", "number ")) +
+                            pynutil.delete(pynini.union(". ", " ")).ques + cardinal)
 
             for x in ["/", " / "]:
                 range_graph |= cardinal + (pynini.cross(x, " divided by ") + cardinal).plus
@@ -104,7 +105,7 @@ class Range(Processor):
             # 10% to 20% -> ten to twenty percent
             range_graph |= (
                 cardinal + (pynini.cross("%", " percent") | pynutil.delete("%")).ques  # noqa
-                + pynini.union(" to ", "-", " - ") + cardinal  # noqa
+                + to + cardinal  # noqa
                 + pynini.cross("%", " percent"))  # noqa
 
         self.graph |= range_graph
-- 
2.43.0


From f6f62727b275517a21e9ea2db6a66fb2aa7df54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:19 +0000
Subject: [PATCH 15/34] fix: say twenty one hours, not twenty one hour

---
 tn/english/rules/time.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tn/english/rules/time.py b/tn/english/rules/time.py
index 8aeee1c..6303330 100644
--- a/tn/english/rules/time.py
+++ b/tn/english/rules/time.py
@@ -120,15 +120,12 @@ class Time(Processor):
                   (self.minute_graph | self.minute_zero_graph) + pynutil.delete('"'))
         graph_hms = (hour + pynutil.insert(" hours ") + self.DELETE_SPACE + minute + pynutil.insert(" minutes and ") +
                      self.DELETE_SPACE + second + pynutil.insert(" seconds") + optional_suffix + optional_zone)
-        graph_hms @= pynini.cdrewrite(
-            pynutil.delete("o ")
-            | pynini.cross("one minutes", "one minute")
-            | pynini.cross("one seconds", "one second")
-            | pynini.cross("one hours", "one hour"),
-            pynini.union(" ", "[BOS]"),
-            "",
-            self.VCHAR.star,
-        )
+        graph_hms @= pynini.cdrewrite(pynutil.delete("o "), " ", "", self.VCHAR.star)
+        # only a lone "one" takes the singular: one hour, but twenty one hours
+        graph_hms @= pynini.cdrewrite(pynini.cross("one hours", "one hour"), "[BOS]", "", self.VCHAR.star)
+        graph_hms @= pynini.cdrewrite(pynini.cross("one minutes", "one minute"), pynini.union("hour ", "hours "), "",
+                                      self.VCHAR.star)
+        graph_hms @= pynini.cdrewrite(pynini.cross("one seconds", "one second"), "and ", "", self.VCHAR.star)
         graph = hour + self.DELETE_SPACE + self.INSERT_SPACE + minute_nonzero + optional_suffix + optional_zone
         graph |= (hour + self.DELETE_SPACE + zero_minute + self.INSERT_SPACE + pynutil.insert("o'clock") + optional_zone)
         graph |= (hour + self.DELETE_SPACE + zero_minute + self.DELETE_SPACE + self.INSERT_SPACE + suffix + optional_zone)
-- 
2.43.0


From 016abdbe624b70671f7ea76c47b54263fbad05a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:13 +0000
Subject: [PATCH 16/34] fix: read a range of years as years

---
 tn/english/rules/range.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tn/english/rules/range.py b/tn/english/rules/range.py
index 018c0dd..0de2266 100644
--- a/tn/english/rules/range.py
+++ b/tn/english/rules/range.py
@@ -61,7 +61,8 @@ class Range(Processor):
                               (date_year_four_digit | date_year_two_digit | (self.DIGIT**2 @ cardinal)))
         mid_year_graph = pynini.accep("mid") + pynini.cross("-", " ") + (date_year_four_digit | date_year_two_digit)
 
-        self.graph |= year_to_year_graph
+        # preferred to a range of cardinals such as 1990-1995
+        self.graph |= pynutil.add_weight(year_to_year_graph, -0.001)
         self.graph |= mid_year_graph
 
         # ADDITION
-- 
2.43.0


From ee4afb3adde7fe7fcdb82f21505be47e47d28e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:57 +0000
Subject: [PATCH 17/34] fix: read tb, mA, ms, ps and pg as the units they stand
 for

---
 tn/english/data/measure/unit.tsv              | 4 ++--
 tn/english/data/measure/unit_alternatives.tsv | 7 ++-----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/tn/english/data/measure/unit.tsv b/tn/english/data/measure/unit.tsv
index adfe562..a905a5a 100644
--- a/tn/english/data/measure/unit.tsv
+++ b/tn/english/data/measure/unit.tsv
@@ -99,7 +99,7 @@ gy	GY
 ha	HA
 h	H
 hl	HL
-hp	GP
+hp	HP
 hs	HS
 kb	KB
 kl	KL
@@ -122,5 +122,5 @@ pg	PG
 ps	PS
 s	S
 tb	TB
-tb	YB
+yb	YB
 zb	ZB
diff --git a/tn/english/data/measure/unit_alternatives.tsv b/tn/english/data/measure/unit_alternatives.tsv
index a28c956..d2ffa3e 100644
--- a/tn/english/data/measure/unit_alternatives.tsv
+++ b/tn/english/data/measure/unit_alternatives.tsv
@@ -14,7 +14,6 @@ hp	horsepower
 kb	kilobit
 kb	kilobyte
 ma	megaampere
-mA	megaampere
 ma	milliampere
 mA	milliampere
 mb	megabyte
@@ -25,16 +24,14 @@ m	minute
 mm	millimeter
 mm	millimeter
 mm	millimeter
-ms	megasecond
-ms	mega siemens
 ms	millisecond
 mv	millivolt
 mV	millivolt
 mw	megawatt
 mW	megawatt
 pb	petabyte
-pg	petagram
-ps	petasecond
+pg	picogram
+ps	picosecond
 s	second
 tb	terabyte
 tb	terabyte
-- 
2.43.0


From 8e3211f1850784ff0ccbf1ff203dfc1443b60511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:57 +0000
Subject: [PATCH 18/34] fix: read kHz, kPa, kWh, dB and mL as units like kW

---
 tn/english/data/measure/unit.tsv | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tn/english/data/measure/unit.tsv b/tn/english/data/measure/unit.tsv
index a905a5a..5029d0a 100644
--- a/tn/english/data/measure/unit.tsv
+++ b/tn/english/data/measure/unit.tsv
@@ -14,6 +14,7 @@ cm³	cubic centimeter
 cm	centimeter
 cwt	hundredweight
 db	decibel
+dB	decibel
 dm3	cubic decimeter
 dm³	cubic decimeter
 dm	decimeter
@@ -31,13 +32,16 @@ kcal	kilo calory
 kgf	kilogram force
 kg	kilogram
 khz	kilohertz
+kHz	kilohertz
 km2	square kilometer
 km²	square kilometer
 km3	cubic kilometer
 km³	cubic kilometer
 km	kilometer
 kpa	kilopascal
+kPa	kilopascal
 kwh	kilowatt hour
+kWh	kilowatt hour
 kw	kilowatt
 kW	kilowatt
 lb	pound
@@ -57,6 +61,7 @@ cu mi	cubic mile
 mi	mile
 min	minute
 ml	milliliter
+mL	milliliter
 mm2	square millimeter
 mm²	square millimeter
 mol	mole
-- 
2.43.0


From 41689d2d555943ec76dfbd0b614d3c7a1e80a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:57 +0000
Subject: [PATCH 19/34] fix: accept HK$ in Japanese money

---
 tn/japanese/data/money/code.tsv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/japanese/data/money/code.tsv b/tn/japanese/data/money/code.tsv
index 8f7fa9e..c6f6f64 100644
--- a/tn/japanese/data/money/code.tsv
+++ b/tn/japanese/data/money/code.tsv
@@ -8,7 +8,7 @@ CHF	スイスフラン
 CNY	人民元
 EUR	ユーロ
 GBP	ポンド
-HK＄	香港ドル
+HK$	香港ドル
 HKD	香港ドル
 INR	インドルピー
 J￥	円
-- 
2.43.0


From 8e6a52adf5bf1f567800097614dc3b08f023bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:57 +0000
Subject: [PATCH 20/34] fix: read 1000000000 as a number in Japanese

---
 tn/japanese/rules/cardinal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tn/japanese/rules/cardinal.py b/tn/japanese/rules/cardinal.py
index 4e1d3bb..7ba814f 100644
--- a/tn/japanese/rules/cardinal.py
+++ b/tn/japanese/rules/cardinal.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import accep, cross, string_file
+from pynini import accep, cross, difference, project, string_file
 from pynini.lib.pynutil import delete, insert
 
 from tn.processor import Processor
@@ -101,6 +101,8 @@ class Cardinal(Processor):
         room = digits.plus + accep("号室")
         # others like 342388491
         others = digits**8 + digits.plus
+        # 1000000000 is a number
+        others = difference(project(others, "input"), project(number, "input")) @ others
 
         self.cardinal = self.apply_input_processor(
             number | percent | ip | phone | ordinal | room | others,
-- 
2.43.0


From d81dc4406944a56dd86c4745ee677fe927a0c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:25 +0000
Subject: [PATCH 21/34] fix: Japanese TN raised for every text with
 remove_interjections (empty blacklist)

---
 tn/japanese/rules/postprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tn/japanese/rules/postprocessor.py b/tn/japanese/rules/postprocessor.py
index 8898f32..e872d1e 100644
--- a/tn/japanese/rules/postprocessor.py
+++ b/tn/japanese/rules/postprocessor.py
@@ -36,7 +36,8 @@ class PostProcessor(Processor):
             full2half = string_file(get_abs_path("japanese/data/char/fullwidth_to_halfwidth.tsv"))
             processor @= self.build_rule(full2half)
 
-        if remove_interjections:
+        # a rule over an empty blacklist would reject every text
+        if remove_interjections and blacklist.num_states() > 0:
             processor @= self.build_rule(delete(blacklist))
 
         if remove_puncts:
-- 
2.43.0


From 92b6f5c0faef033d0c40a1b3a22905105c51dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:25 +0000
Subject: [PATCH 22/34] =?UTF-8?q?fix:=20tag=5Foov=20marked=20=E3=83=BC=20a?=
 =?UTF-8?q?nd=20=E3=80=87=20of=20Japanese=20readings=20as=20out=20of=20voc?=
 =?UTF-8?q?abulary?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 tn/japanese/data/char/common_chinese_char.tsv   | 3 ++-
 tn/japanese/data/char/hiragana_and_katakana.tsv | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tn/japanese/data/char/common_chinese_char.tsv b/tn/japanese/data/char/common_chinese_char.tsv
index f047193..2fa9419 100644
--- a/tn/japanese/data/char/common_chinese_char.tsv
+++ b/tn/japanese/data/char/common_chinese_char.tsv
@@ -2499,4 +2499,5 @@
 悔
 福
 瞬
-滋
\ No newline at end of file
+滋
+〇
\ No newline at end of file
diff --git a/tn/japanese/data/char/hiragana_and_katakana.tsv b/tn/japanese/data/char/hiragana_and_katakana.tsv
index d09d8a1..cae29da 100644
--- a/tn/japanese/data/char/hiragana_and_katakana.tsv
+++ b/tn/japanese/data/char/hiragana_and_katakana.tsv
@@ -157,4 +157,5 @@
 っ
 ゃ
 ゅ
-ょ
\ No newline at end of file
+ょ
+ー
\ No newline at end of file
-- 
2.43.0


From dc30e1925e791203ff614be31977a76616c8446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:25 +0000
Subject: [PATCH 23/34] =?UTF-8?q?fix:=20Japanese=20ITN=20read=20=E4=BA=8C?=
 =?UTF-8?q?=E6=99=82=20with=20minutes=20only=20in=20part=20(=E4=B8=A1?=
 =?UTF-8?q?=E6=99=82=20listed=20for=20=E4=BA=8C=E6=99=82)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/data/time/hour.tsv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/japanese/data/time/hour.tsv b/itn/japanese/data/time/hour.tsv
index 39c6325..1d714a1 100644
--- a/itn/japanese/data/time/hour.tsv
+++ b/itn/japanese/data/time/hour.tsv
@@ -1,5 +1,5 @@
 一時	1
-两時	2
+二時	2
 三時	3
 四時	4
 五時	5
-- 
2.43.0


From c74383f33b792a3a037976b6f38cd35bec2ae086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:25 +0000
Subject: [PATCH 24/34] =?UTF-8?q?fix:=20Japanese=20ITN=20took=20=E5=8D=83?=
 =?UTF-8?q?=E3=82=AD=E3=83=AD=E3=83=A1=E3=83=BC=E3=83=88=E3=83=AB=20from?=
 =?UTF-8?q?=20the=20number=20in=20front=20of=20=E3=82=AD=E3=83=AD=E3=83=A1?=
 =?UTF-8?q?=E3=83=BC=E3=83=88=E3=83=AB?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/data/measure/unit_en.tsv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/japanese/data/measure/unit_en.tsv b/itn/japanese/data/measure/unit_en.tsv
index 4de2ba3..49ccc45 100644
--- a/itn/japanese/data/measure/unit_en.tsv
+++ b/itn/japanese/data/measure/unit_en.tsv
@@ -1,7 +1,7 @@
 華氏	f
 摂氏	c
 キロメートル	km
-千キロメートル	km
+千キロメートル	km	0.01
 メートル	m
 センチ	cm
 インチ	インチ
-- 
2.43.0


From 09cd1571dea4aff5a7686bc44043e82d381a7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:25 +0000
Subject: [PATCH 25/34] fix: Japanese ITN joined the last number of a formula
 or range to its unit

---
 itn/japanese/inverse_normalizer.py | 2 +-
 itn/japanese/rules/math.py         | 9 +++++++--
 itn/japanese/rules/measure.py      | 4 +++-
 itn/japanese/rules/money.py        | 4 +++-
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/itn/japanese/inverse_normalizer.py b/itn/japanese/inverse_normalizer.py
index 2c6b16a..102c125 100644
--- a/itn/japanese/inverse_normalizer.py
+++ b/itn/japanese/inverse_normalizer.py
@@ -78,7 +78,6 @@ class InverseNormalizer(Processor):
         char = Char(input_processor=processor)
         date = Date(cardinal=cardinal, input_processor=processor)
         fraction = Fraction(cardinal=cardinal_million, input_processor=processor)
-        math = Math(cardinal=cardinal, input_processor=processor)
         measure = Measure(
             enable_0_to_9=self.enable_0_to_9,
             cardinal=cardinal,
@@ -89,6 +88,7 @@ class InverseNormalizer(Processor):
             cardinal=cardinal,
             input_processor=processor,
         )
+        math = Math(cardinal=cardinal, unit=measure.unit | money.unit, input_processor=processor)
         ordinal = Ordinal(cardinal=cardinal, input_processor=processor)
         time = Time(input_processor=processor)
         whitelist = Whitelist(input_processor=processor)
diff --git a/itn/japanese/rules/math.py b/itn/japanese/rules/math.py
index ef7dca9..54039b4 100644
--- a/itn/japanese/rules/math.py
+++ b/itn/japanese/rules/math.py
@@ -20,9 +20,10 @@ from itn.utils import get_abs_path
 
 class Math(Processor):
 
-    def __init__(self, cardinal=None, input_processor=None):
+    def __init__(self, cardinal=None, unit=None, input_processor=None):
         super().__init__(name="math")
         self.cardinal = cardinal or Cardinal()
+        self.unit = unit
         self.input_processor = input_processor
         self.build_tagger()
         self.build_verbalizer()
@@ -33,7 +34,11 @@ class Math(Processor):
         number = self.cardinal.big_integer
         decimal = self.cardinal.decimal
         number |= decimal
-        self.graph = self.apply_input_processor(number + (operator + number).plus, self.input_processor)
+        math = number + (operator + number).plus
+        # 十から二十歳 => 10~20歳, the unit belongs to 二十 and not only to 十
+        if self.unit is not None:
+            math += self.unit.ques
+        self.graph = self.apply_input_processor(math, self.input_processor)
         self.tagger = self.add_tokens(self.tag_field("value", self.graph))
 
     def build_verbalizer(self):
diff --git a/itn/japanese/rules/measure.py b/itn/japanese/rules/measure.py
index 8575d24..5bc90ae 100644
--- a/itn/japanese/rules/measure.py
+++ b/itn/japanese/rules/measure.py
@@ -27,6 +27,7 @@ class Measure(Processor):
         self.enable_0_to_9 = enable_0_to_9
         self.cardinal = cardinal or Cardinal()
         self.input_processor = input_processor
+        self.unit = None  # used for math
         self.build_tagger()
         self.build_verbalizer()
 
@@ -40,7 +41,8 @@ class Measure(Processor):
         suffix = (insert("/") + (delete("每") | delete("毎")) +
                   (unit_en | cross("時", "h") | cross("分", "min") | cross("秒", "s")))
 
-        measure = ((cardinal | decimal) + unit_en + suffix.ques | (cardinal | decimal) + add_weight(unit_ja, 0.001))
+        self.unit = unit_en + suffix.ques | add_weight(unit_ja, 0.001)
+        measure = (cardinal | decimal) + self.unit
 
         self.graph = self.apply_input_processor(measure, self.input_processor)
         self.tagger = self.add_tokens(self.tag_field("value", self.graph))
diff --git a/itn/japanese/rules/money.py b/itn/japanese/rules/money.py
index 159c659..56fa4f2 100644
--- a/itn/japanese/rules/money.py
+++ b/itn/japanese/rules/money.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import string_file
+from pynini import project, string_file
 from pynini.lib.pynutil import insert
 
 from itn.japanese.rules.cardinal import Cardinal
@@ -27,11 +27,13 @@ class Money(Processor):
         self.enable_0_to_9 = enable_0_to_9
         self.cardinal = cardinal or Cardinal()
         self.input_processor = input_processor
+        self.unit = None  # used for math
         self.build_tagger()
         self.build_verbalizer()
 
     def build_tagger(self):
         symbol = string_file(get_abs_path("japanese/data/money/symbol.tsv"))
+        self.unit = project(symbol, "input").optimize()
 
         number = self.cardinal.number if self.enable_0_to_9 else self.cardinal.number_exclude_0_to_9
         decimal = self.cardinal.decimal
-- 
2.43.0


From 63faa27f508d097f5885b0414ded773e09b62ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:25 +0000
Subject: [PATCH 26/34] =?UTF-8?q?fix:=20Japanese=20ITN=20listed=20the=20si?=
 =?UTF-8?q?gn=20=E8=B4=9F=E3=81=AE=20with=20a=20Chinese=20character?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/data/number/sign.tsv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/japanese/data/number/sign.tsv b/itn/japanese/data/number/sign.tsv
index 49ec76f..4d051bd 100644
--- a/itn/japanese/data/number/sign.tsv
+++ b/itn/japanese/data/number/sign.tsv
@@ -1,4 +1,4 @@
 プラス	+
 プラスマイナス	±
 マイナス	-
-负の	-
\ No newline at end of file
+負の	-
\ No newline at end of file
-- 
2.43.0


From 23c791f59e0e7df56a66a40688bfe30c391af101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:25 +0000
Subject: [PATCH 27/34] fix: Japanese ITN moved the sign of a fraction to the
 denominator

---
 itn/japanese/rules/cardinal.py | 7 ++++++-
 itn/japanese/rules/fraction.py | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/itn/japanese/rules/cardinal.py b/itn/japanese/rules/cardinal.py
index df8bc7e..e5bdc87 100644
--- a/itn/japanese/rules/cardinal.py
+++ b/itn/japanese/rules/cardinal.py
@@ -37,6 +37,8 @@ class Cardinal(Processor):
         self.number = None
         self.number_exclude_0_to_9 = None
         self.decimal = None  # used for math
+        self.positive_integer = None  # used for fraction
+        self.positive_decimal = None  # used for fraction
         self.build_tagger()
         self.build_verbalizer()
 
@@ -100,11 +102,14 @@ class Cardinal(Processor):
         # ±0~99999999
         number = (sign.ques + positive_integer).optimize()
         self.number = number
+        self.positive_integer = positive_integer  # used for fraction
         self.number_exclude_0_to_9 = teen | tens | hundred | thousand | ten_thousand
 
         # ±0.0~99999999.99...
-        decimal = sign.ques + positive_integer + dot + digits.plus
+        positive_decimal = positive_integer + dot + digits.plus
+        decimal = sign.ques + positive_decimal
         self.decimal = decimal
+        self.positive_decimal = positive_decimal  # used for fraction
         # % like -27.00%
         percent = (number | decimal) + cross("パーセント", "%")
 
diff --git a/itn/japanese/rules/fraction.py b/itn/japanese/rules/fraction.py
index 31b1762..d1aa4d4 100644
--- a/itn/japanese/rules/fraction.py
+++ b/itn/japanese/rules/fraction.py
@@ -32,6 +32,9 @@ class Fraction(Processor):
     def build_tagger(self):
         cardinal = self.cardinal.number
         decimal = self.cardinal.decimal
+        # マイナス三分の一 => -1/3, the sign belongs to the fraction
+        positive = self.cardinal.positive_integer
+        positive_decimal = self.cardinal.positive_decimal
         self.sign = self.apply_input_processor(
             string_file(get_abs_path("japanese/data/number/sign.tsv")),
             self.input_processor,
@@ -42,7 +45,7 @@ class Fraction(Processor):
 
         # denominator
         self.denominator = self.apply_input_processor(
-            (decimal | (cardinal + root_word + cardinal) | (root_word + cardinal) | cardinal) + delete(" ").ques +
+            (positive_decimal | (positive + root_word + positive) | (root_word + positive) | positive) + delete(" ").ques +
             fraction_word,
             self.input_processor,
         )
-- 
2.43.0


From 4b6846a0ecdabb3a59bace3b2bb4c9d73503baf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:25 +0000
Subject: [PATCH 28/34] fix: English ITN joined numbers around "and" (between
 fifteen and twenty)

---
 itn/english/rules/cardinal.py | 7 ++++---
 itn/english/rules/date.py     | 5 ++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/itn/english/rules/cardinal.py b/itn/english/rules/cardinal.py
index 01e7766..1ab49ec 100644
--- a/itn/english/rules/cardinal.py
+++ b/itn/english/rules/cardinal.py
@@ -81,9 +81,10 @@ class Cardinal(Processor):
 
         # strip leading zeros
         graph = graph @ union(delete(closure("0")) + (self.DIGIT - "0") + closure(self.DIGIT), "0")
-        # delete optional "and"
-        delete_and = self.build_rule(delete("and "), " ", self.ALPHA)
-        graph = (delete_and @ graph).optimize()
+        # delete optional "and" after a magnitude: "one hundred and five", but not "twenty and five"
+        magnitudes = union("hundred", "thousand", "million", "billion", "trillion", "quadrillion", "quintillion", "sextillion")
+        self.delete_and = self.build_rule(delete("and "), magnitudes + " ", self.ALPHA)
+        graph = (self.delete_and @ graph).optimize()
 
         self.graph = graph
         self.graph_no_exception = graph
diff --git a/itn/english/rules/date.py b/itn/english/rules/date.py
index 7ddb7ab..eefdf7f 100644
--- a/itn/english/rules/date.py
+++ b/itn/english/rules/date.py
@@ -73,9 +73,8 @@ class Date(Processor):
 
         year_graph = year_two_parts | year_thousands | year_hundreds | year_xx_hundred
 
-        # Delete optional "and" within year
-        delete_and = self.build_rule(delete("and "), " ", self.ALPHA)
-        year_graph = (delete_and @ year_graph).optimize()
+        # Delete optional "and" within year: "two thousand and nine"
+        year_graph = (self.cardinal.delete_and @ year_graph).optimize()
 
         self.year = year_graph
         year = self.tag_field("year", self.year)
-- 
2.43.0


From 98c0c576eedb6934a6cc51d1750671699e1be6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:42 +0000
Subject: [PATCH 29/34] fix: write fifty nine to one as 12:01, not 12:1

---
 itn/english/data/time/minute_to.tsv | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/itn/english/data/time/minute_to.tsv b/itn/english/data/time/minute_to.tsv
index edab4d5..07ad9fc 100644
--- a/itn/english/data/time/minute_to.tsv
+++ b/itn/english/data/time/minute_to.tsv
@@ -48,12 +48,12 @@
 48	12
 49	11
 50	10
-51	9
-52	8
-53	7
-54	6
-55	5
-56	4
-57	3
-58	2
-59	1
+51	09
+52	08
+53	07
+54	06
+55	05
+56	04
+57	03
+58	02
+59	01
-- 
2.43.0


From ab02e9129738f18145e2c7f0511f65630b32c3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:42 +0000
Subject: [PATCH 30/34] fix: write nineteen tens as 1910s, not 19100s

---
 itn/english/rules/date.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/english/rules/date.py b/itn/english/rules/date.py
index eefdf7f..8efef69 100644
--- a/itn/english/rules/date.py
+++ b/itn/english/rules/date.py
@@ -98,7 +98,7 @@ class Date(Processor):
 
         # Decades: "nineteen eighties" => 1980s
         decade_suffix = closure(self.ALPHA, 1) + (cross("ies", "y") | delete("s"))
-        decade_word = pynini.compose(decade_suffix, ties | cross("ten", "10"))
+        decade_word = pynini.compose(decade_suffix, ties | cross("ten", "1"))
         self.year_decade = (teen | two_digit) + ds + decade_word + insert("0s")
         graph_decade = self.tag_field("year", self.year_decade) + po
 
-- 
2.43.0


From 66ff3535c76a95fb4f72fe5ab060f938ebf09c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:42 +0000
Subject: [PATCH 31/34] fix: keep a.m. and p.m. with quarter to one and half
 past two

---
 itn/english/rules/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/itn/english/rules/time.py b/itn/english/rules/time.py
index 0d1f0de..2d60e10 100644
--- a/itn/english/rules/time.py
+++ b/itn/english/rules/time.py
@@ -93,10 +93,10 @@ class Time(Processor):
                                                                        delete("o") + ds + graph_min_single) + suffix +
                               zone_opt)
         # "half past two", "quarter past two", "ten past four"
-        graph_past = (self.tag_field("minute", self.minute_past) + ds + insert(" ") + hour)
+        graph_past = (self.tag_field("minute", self.minute_past) + ds + insert(" ") + hour + closure(suffix + zone_opt, 0, 1))
         # "quarter to one" / "quarter till one" => 12:45
         graph_quarter_to = (self.tag_field("minute", self.minute_quarter_to) + ds + insert(" ") +
-                            self.tag_field("hour", self.hour_to) + insert(' style: "to"'))
+                            self.tag_field("hour", self.hour_to) + closure(suffix, 0, 1) + insert(' style: "to"'))
         # "ten to eleven pm" / "ten till eleven pm" => 10:50 p.m.
         graph_min_to = (self.tag_field("minute", self.minute_to) + ds + insert(" ") + self.tag_field("hour", self.hour_to) +
                         suffix + insert(' style: "to"'))
-- 
2.43.0


From 9fe86ed986e43c54ccbd0fe78c34e3334f2801ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:42 +0000
Subject: [PATCH 32/34] fix: do not take the first digits of a card number as a
 country code

---
 itn/english/rules/telephone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/itn/english/rules/telephone.py b/itn/english/rules/telephone.py
index f994f83..489343f 100644
--- a/itn/english/rules/telephone.py
+++ b/itn/english/rules/telephone.py
@@ -115,7 +115,8 @@ class Telephone(Processor):
                      | D**4 + space + D**6 + space + D**5)
         cc = seq @ cc_format
         self.number_parts["credit_card"] = cc
-        graph |= optional_cc + number_field(cc, "credit_card")
+        # prefer a whole card number to a country code in front of a shorter one
+        graph |= optional_cc + number_field(cc, "credit_card") | add_weight(number_field(cc, "credit_card"), -0.003)
 
         # serial: mixed alpha+digits, at least one digit, length >= 3
         # Exclude "a" as first char to avoid "a thirty six" -> "a36"
-- 
2.43.0


From 6af5e52f13c93bdfe1f13a148e2251841de736dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:42 +0000
Subject: [PATCH 33/34] fix: write a spoken o between digits as the digit

---
 itn/english/rules/telephone.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/itn/english/rules/telephone.py b/itn/english/rules/telephone.py
index 489343f..1e9e983 100644
--- a/itn/english/rules/telephone.py
+++ b/itn/english/rules/telephone.py
@@ -120,14 +120,16 @@ class Telephone(Processor):
 
         # serial: mixed alpha+digits, at least one digit, length >= 3
         # Exclude "a" as first char to avoid "a thirty six" -> "a36"
-        not_a = difference(self.ALPHA, union("a", "A"))
+        # Prefer the digit where a spoken "o" can be both
+        alpha = difference(self.ALPHA, "o") | add_weight("o", 0.001)
+        not_a = difference(alpha, union("a", "A"))
         serial_digit = single | add_weight(two_digit, -0.002)
-        serial_char = serial_digit | self.ALPHA
+        serial_char = serial_digit | alpha
         seq1 = (not_a | serial_digit) + closure(ds + serial_char, 2)
-        seq1 |= serial_char + closure(ds + (single | self.ALPHA), 2)
-        seq2 = self.ALPHA + closure(ds + self.ALPHA, 1) + closure(ds + two_digit, 1)
+        seq1 |= serial_char + closure(ds + (single | alpha), 2)
+        seq2 = alpha + closure(ds + alpha, 1) + closure(ds + two_digit, 1)
         seq2 |= not_a + closure(ds + two_digit, 1)
-        seq2 |= two_digit + closure(ds + two_digit, 1) + closure(ds + self.ALPHA, 1)
+        seq2 |= two_digit + closure(ds + two_digit, 1) + closure(ds + alpha, 1)
         serial = (seq1 | seq2) @ (closure(self.ALPHA | D) + D + closure(self.ALPHA | D))
         serial = add_weight(serial, 2.0)
         self.number_parts["serial"] = serial
-- 
2.43.0


From ea5f16bfbc68935d94ddf844dfeb8f6f1beff8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:42 +0000
Subject: [PATCH 34/34] fix: an address leaves the words around it alone

---
 itn/english/rules/electronic.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/itn/english/rules/electronic.py b/itn/english/rules/electronic.py
index a1aa98d..d2b70d9 100644
--- a/itn/english/rules/electronic.py
+++ b/itn/english/rules/electronic.py
@@ -33,13 +33,17 @@ class Electronic(Processor):
         symbols = invert(string_file(get_abs_path("english/data/electronic/symbols.tsv")))
 
         char = self.ALPHA | digit | zero
-        word = add_weight(closure(self.ALPHA, 2), 0.1)
+        # as costly as a word of the text, so that an address leaves the words around it alone
+        word = add_weight(closure(self.ALPHA, 2), 50.001)
         token = char | symbols | word
-        first_token = char | difference(word, accep("dot"))
+        first_word = difference(word, accep("dot"))
+        first_token = char | first_word
         component = first_token + closure(ds + token)
+        top_level = string_file(get_abs_path("english/data/electronic/domain.tsv"))
+        label = (char | add_weight(first_word, -0.2) | top_level) + closure(ds + token)
 
         dot = cross("dot", ".")
-        domain = component + (ds + dot + ds + component).plus
+        domain = component + (ds + dot + ds + label).plus
 
         self.username = component
         self.domain = delete("at") + ds + domain
-- 
2.43.0

