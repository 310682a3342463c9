From 3962827d395a5d1b3d817b50eedd3895b1e20681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 01/81] fix: accept letters in suffixed hexadecimal numbers
 (0FFh, 0dh)

---
 necroassembler/assembler.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 5008b15..7840dd0 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -1,3 +1,4 @@
+import string
 from necroassembler.tokenizer import Tokenizer
 from necroassembler.utils import (pack_byte, pack_le32u, pack_le16u,
                                   pack_be32u, pack_be16u, in_bit_range,
@@ -312,6 +313,14 @@ class Assembler:
         if token[0] == '\'' and token[2] == '\'':
             return ord(token[1:2]), False
 
+        # suffixed hex numbers can contain letters (0Fh) and can look
+        # like prefixed numbers (0b1h, 0dh), so check for them early
+        for suffix in self.hex_suffixes:
+            digits = token[:-len(suffix)]
+            if token.endswith(suffix) and digits[:1].isdigit():
+                if all(digit in string.hexdigits for digit in digits):
+                    return int(digits, 16), False
+
         for prefix in self.hex_prefixes:
             if token.startswith(prefix):
                 return int(token[len(prefix):], 16), False
@@ -328,11 +337,6 @@ class Assembler:
             if token.startswith(prefix):
                 return int(token[len(prefix):], 10), True
 
-        for suffix in self.hex_suffixes:
-            if token.endswith(suffix):
-                if token[:-len(suffix)].isdigit():
-                    return int(token[0:-len(suffix)], 16), False
-
         for suffix in self.bin_suffixes:
             if token.endswith(suffix):
                 if token[:-len(suffix)].isdigit():
-- 
2.43.0


From e3ad19a4c3b20e5d420fba25076ccf47aeadf039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 02/81] fix: pad the last bounded origin also when a single
 byte is missing

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 7840dd0..7464cbc 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -199,7 +199,7 @@ class Assembler:
 
         # check if we need to fill something
         if self.current_org_end > 0:
-            if self.current_org + self.org_counter < self.current_org_end:
+            if self.current_org + self.org_counter <= self.current_org_end:
                 blob = bytes([self.fill_value] * ((self.current_org_end + 1) -
                                                   (self.current_org + self.org_counter)))
                 self.append_assembled_bytes(blob)
-- 
2.43.0


From 219bafbac4704489804880214334efcc9f45f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 03/81] fix: check goto and upto targets against the location
 counter

---
 necroassembler/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 7464cbc..48ec9a5 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -615,7 +615,7 @@ class Assembler:
         offset = self.parse_integer(instr.tokens[1], 64, False)
         if offset is None:
             raise InvalidArgumentsForDirective(instr)
-        if offset < len(self.assembled_bytes):
+        if offset < self.pc:
             raise AddressOverlap(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
@@ -631,7 +631,7 @@ class Assembler:
         offset = self.parse_integer(instr.tokens[1], 64, False)
         if offset is None:
             raise InvalidArgumentsForDirective(instr)
-        if offset < len(self.assembled_bytes):
+        if offset < self.org_counter:
             raise AddressOverlap(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
-- 
2.43.0


From 306bfd42b925094f9f0922cb2781cbe63ffabf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 04/81] fix: raise on invalid arguments of the log directive

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 48ec9a5..b506b96 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -591,7 +591,7 @@ class Assembler:
             elif instr.tokens[1].upper() == 'OFF':
                 self.log = False
             else:
-                InvalidArgumentsForDirective()
+                raise InvalidArgumentsForDirective(instr)
         else:
             self.log = True
 
-- 
2.43.0


From 4b73b55ee0005406bc40c62034d8aa5b4990916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 05/81] fix: do not pad the current bounded origin at the end
 of an included file

---
 necroassembler/assembler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index b506b96..2b31962 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -89,6 +89,7 @@ class Assembler:
         self.sections = {}
         self.current_section = None
         self.exports = []
+        self.include_depth = 0
 
         # avoid subclasses to overwrite parent
         # class variables by making a copy
@@ -197,6 +198,10 @@ class Assembler:
                     print('assembled {0} -> ({1}) at 0x{2:x}'.format(statement,
                                                                      ','.join(['0x{0:02x}'.format(x) for x in self.assembled_bytes[current_index:]]), current_index))
 
+        # an included source is only a part of the including one
+        if self.include_depth > 0:
+            return
+
         # check if we need to fill something
         if self.current_org_end > 0:
             if self.current_org + self.org_counter <= self.current_org_end:
@@ -738,7 +743,11 @@ class Assembler:
             raise InvalidArgumentsForDirective(instr)
         filename = self.stringify(instr.tokens[1])
         with open(filename) as f:
-            self.assemble(f.read(), context=filename)
+            self.include_depth += 1
+            try:
+                self.assemble(f.read(), context=filename)
+            finally:
+                self.include_depth -= 1
 
     def directive_incbin(self, instr):
         if len(instr.tokens) != 2:
-- 
2.43.0


From feef728fbe4a50b61f9518d060588bbf5a0e14ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 06/81] fix: redefining a name no longer redefines its old
 value

---
 necroassembler/statements.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 68299cb..98b1bda 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -121,11 +121,13 @@ class Label(Statement):
 
 class Directive(Statement):
     def assemble(self, assembler):
-        # skip directive for defines substitution
-        substitute_with_dict(self.tokens, assembler.defines, 1)
         key = self.tokens[0][1:]
         if not assembler.case_sensitive:
             key = key.upper()
+        # skip directive for defines substitution (and the
+        # name being defined, as it could be a redefinition)
+        start = 2 if key.upper() == 'DEFINE' else 1
+        substitute_with_dict(self.tokens, assembler.defines, start)
         if not key in assembler.directives:
             raise UnknownDirective(self)
         assembler.directives[key](self)
-- 
2.43.0


From 28e7c3a4ca66d280014642e95c0f952b1371c04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 07/81] fix: resolve labels in every copy of a repeat block

---
 necroassembler/assembler.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 2b31962..097b308 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -1,4 +1,5 @@
 import string
+from copy import copy
 from necroassembler.tokenizer import Tokenizer
 from necroassembler.utils import (pack_byte, pack_le32u, pack_le16u,
                                   pack_be32u, pack_be16u, in_bit_range,
@@ -684,7 +685,16 @@ class Assembler:
         size, index = self.repeat
         self.repeat = None
         blob = self.assembled_bytes[index:]
-        for i in range(0, size-1):
+        translations = [(address, data) for address, data in self.labels_addresses.items()
+                        if address >= index]
+        for i in range(1, size):
+            distance = len(blob) * i
+            for address, data in translations:
+                data = copy(data)
+                # relative labels must be resolved from the copied instruction
+                if data.relative != 0:
+                    data.relative += distance
+                self.labels_addresses[address + distance] = data
             self.append_assembled_bytes(blob)
 
     def directive_db_to_ascii(self, instr):
-- 
2.43.0


From 48f303b4035e837a2541042028210f6d229367f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 08/81] fix: quoted operator characters are not math formulas

---
 necroassembler/assembler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 097b308..656a4bc 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -855,6 +855,9 @@ class Assembler:
     def _get_math_formula(self, token):
         pre_formula = ''
         post_formula = ''
+        # quoted chars can be operators
+        if token.startswith('\''):
+            return token, pre_formula, post_formula
         for char in token:
             if char in ('<', '>'):
                 pre_formula += char
-- 
2.43.0


From fb35fcdccc9f594ed304a9d87b4c4d57d6be9784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 09/81] fix: refuse a source ending inside an open string or
 char

---
 necroassembler/tokenizer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index bb2b5d0..ed92401 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -10,6 +10,14 @@ class InvalidLabel(Exception):
             'invalid label at line {0}'.format(tokenizer.line))
 
 
+class UnterminatedString(Exception):
+    '''Raised when a string or a char is still open at the end of the source'''
+
+    def __init__(self, tokenizer):
+        super().__init__(
+            'unterminated string at line {0}'.format(tokenizer.line))
+
+
 class Tokenizer:
     '''Builds a list of tokenized statements from assembly source code'''
 
@@ -142,3 +150,5 @@ class Tokenizer:
             self.step(byte)
             if byte == '\n':
                 self.line += 1
+        if self.state not in (self._state_token, self._state_comment):
+            raise UnterminatedString(self)
-- 
2.43.0


From 2f5f76cdc303244feb3110541c7992e306e58e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 10/81] fix: refuse 6502 branches with extra operands

---
 necroassembler/cpu/mos6502.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/cpu/mos6502.py b/necroassembler/cpu/mos6502.py
index 443ca53..1a76b9b 100644
--- a/necroassembler/cpu/mos6502.py
+++ b/necroassembler/cpu/mos6502.py
@@ -84,6 +84,8 @@ class AssemblerMOS6502(Assembler):
         self.register_instruction('PLP', b'\x28')
 
     def _manage_branching(self, instr, code):
+        if len(instr.tokens) != 2:
+            raise InvalidMode()
         arg = instr.tokens[1]
         address = self.parse_integer_or_label(
             label=arg, bits_size=8,
-- 
2.43.0


From d0a87b37b6471e26a07a8510186d8f2ea2570a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 11/81] fix: accept register names ending with a quote (AF')

---
 necroassembler/tokenizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index ed92401..75c28c0 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -117,6 +117,10 @@ class Tokenizer:
         self.current_token = ''
         self.state = self._state_char
 
+    def _is_primed_register(self):
+        # the quote of AF' is part of the name
+        return self.current_token[-1:].isalnum() and not self.current_token.startswith('.')
+
     def _state_token(self, char):
         if char in (' ', '\n', '\r', '\t', ',', ';'):
             self._token_spaces(char)
@@ -130,7 +134,7 @@ class Tokenizer:
         if char == '"':
             self._token_string()
             return
-        if char == '\'':
+        if char == '\'' and not self._is_primed_register():
             self._token_char()
             return
         self.current_token += char
-- 
2.43.0


From 0a1cb254163dfd21851bfb1c16ad5aa2e1a0d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 12/81] fix: encode BIT b,(IX+d) and BIT b,(IY+d) with their
 documented opcodes

---
 necroassembler/cpu/z80.py | 112 --------------------------------------
 1 file changed, 112 deletions(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 228e316..1a68f4b 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -623,70 +623,14 @@ OPCODES_TABLE = (
     ([0xDDCB, 0x3D], 'LD', 'L', 'SRL ', '(', 'IX+d', ')'),
     ([0xDDCB, 0x3E], 'SRL', '(', 'IX+d', ')'),
     ([0xDDCB, 0x3F], 'LD', 'A', 'SRL ', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x40], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x41], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x42], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x43], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x44], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x45], 'BIT', '0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x46], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x47], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x48], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x49], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4A], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4B], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4C], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4D], 'BIT', '1', '(', 'IX+d', ')'),
     ([0xDDCB, 0x4E], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4F], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x50], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x51], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x52], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x53], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x54], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x55], 'BIT', '2', '(', 'IX+d', ')'),
     ([0xDDCB, 0x56], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x57], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x58], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x59], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5A], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5B], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5C], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5D], 'BIT', '3', '(', 'IX+d', ')'),
     ([0xDDCB, 0x5E], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5F], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x60], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x61], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x62], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x63], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x64], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x65], 'BIT', '4', '(', 'IX+d', ')'),
     ([0xDDCB, 0x66], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x67], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x68], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x69], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6A], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6B], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6C], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6D], 'BIT', '5', '(', 'IX+d', ')'),
     ([0xDDCB, 0x6E], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6F], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x70], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x71], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x72], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x73], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x74], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x75], 'BIT', '6', '(', 'IX+d', ')'),
     ([0xDDCB, 0x76], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x77], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x78], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x79], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7A], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7B], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7C], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7D], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x7E], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7F], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x80], 'LD', 'B', 'RES 0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x81], 'LD', 'C', 'RES 0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x82], 'LD', 'D', 'RES 0', '(', 'IX+d', ')'),
@@ -1072,70 +1016,14 @@ OPCODES_TABLE = (
     ([0xFDCB, 0x3D], 'LD', 'L', 'SRL ', '(', 'IY+d', ')'),
     ([0xFDCB, 0x3E], 'SRL', '(', 'IY+d', ')'),
     ([0xFDCB, 0x3F], 'LD', 'A', 'SRL ', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x40], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x41], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x42], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x43], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x44], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x45], 'BIT', '0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x46], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x47], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x48], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x49], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4A], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4B], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4C], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4D], 'BIT', '1', '(', 'IY+d', ')'),
     ([0xFDCB, 0x4E], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4F], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x50], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x51], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x52], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x53], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x54], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x55], 'BIT', '2', '(', 'IY+d', ')'),
     ([0xFDCB, 0x56], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x57], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x58], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x59], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5A], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5B], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5C], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5D], 'BIT', '3', '(', 'IY+d', ')'),
     ([0xFDCB, 0x5E], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5F], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x60], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x61], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x62], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x63], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x64], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x65], 'BIT', '4', '(', 'IY+d', ')'),
     ([0xFDCB, 0x66], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x67], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x68], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x69], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6A], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6B], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6C], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6D], 'BIT', '5', '(', 'IY+d', ')'),
     ([0xFDCB, 0x6E], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6F], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x70], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x71], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x72], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x73], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x74], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x75], 'BIT', '6', '(', 'IY+d', ')'),
     ([0xFDCB, 0x76], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x77], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x78], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x79], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7A], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7B], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7C], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7D], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x7E], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7F], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x80], 'LD', 'B', 'RES 0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x81], 'LD', 'C', 'RES 0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x82], 'LD', 'D', 'RES 0', '(', 'IY+d', ')'),
-- 
2.43.0


From 8d52d0455d1ea95123b87c5be5c53b8a87d4c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 13/81] fix: do not take (IX+d) and (IY+d) for absolute
 addresses

---
 necroassembler/cpu/z80.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 1a68f4b..13dbb4c 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1176,6 +1176,8 @@ class Z80OpCode:
         self.add_variant(code, args)
 
     def _is_value(self, arg):
+        if self._is_index_x(arg) or self._is_index_y(arg):
+            return False
         return arg.upper() not in REGS8+REGS16
 
     def _is_index_x(self, arg):
-- 
2.43.0


From 2d2dd91a73fdecfe236539a19beec2f6727e83fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 14/81] fix: emit both operands of LD (IX+d),n and LD (IY+d),n

---
 necroassembler/cpu/z80.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 13dbb4c..dcd09e9 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1239,30 +1239,30 @@ class Z80OpCode:
 
     def add_variant(self, code, args):
         sanitized_args = []
-        hook = None
+        hooks = []
         for index, arg in enumerate(args):
             if arg == 'nn':
                 sanitized_args.append(self._is_value)
-                hook = self._build_nn, index
+                hooks.append((self._build_nn, index))
             elif arg == 'n':
                 sanitized_args.append(self._is_value)
-                hook = self._build_n, index
+                hooks.append((self._build_n, index))
             elif arg == 'e':
                 sanitized_args.append(self._is_value)
-                hook = self._build_e, index
+                hooks.append((self._build_e, index))
             elif arg == 'd':
                 sanitized_args.append(self._is_value)
-                hook = self._build_d, index
+                hooks.append((self._build_d, index))
             elif arg == 'IX+d':
                 sanitized_args.append(self._is_index_x)
-                hook = self._build_index, index
+                hooks.append((self._build_index, index))
             elif arg == 'IY+d':
                 sanitized_args.append(self._is_index_y)
-                hook = self._build_index, index
+                hooks.append((self._build_index, index))
             else:
                 sanitized_args.append(arg)
 
-        self.variants.append((code, sanitized_args, hook))
+        self.variants.append((code, sanitized_args, hooks))
 
     def __call__(self, instr):
         for variant in self.variants:
@@ -1274,8 +1274,7 @@ class Z80OpCode:
                 else:
                     base += pack_byte(code >> 8)
                     base += pack_byte(code & 0xFF)
-                if variant[2] is not None:
-                    hook, index = variant[2]
+                for hook, index in variant[2]:
                     base += hook(base, instr.tokens[index+1])
                 for suffix in variant[0][1:]:
                     base += pack_byte(suffix)
-- 
2.43.0


From 216fd77b3f2c87030987cd256eb9761d9e47b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 15/81] fix: accept math formulas starting with a negative
 number

---
 necroassembler/assembler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 656a4bc..d1a602b 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -868,7 +868,10 @@ class Assembler:
         valid_chars = 0
         for char in token[len(pre_formula):]:
             if not in_math:
-                if char in ('+', '-', '*', '/', '&', '|'):
+                if char == '-' and valid_chars < 1:
+                    # sign of a negative number
+                    valid_chars += 1
+                elif char in ('+', '-', '*', '/', '&', '|'):
                     if valid_chars < 1:
                         break
                     in_math = True
-- 
2.43.0


From 04cf96ba195d15578cd3de6980241d661a03b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 16/81] fix: check the range of labels converted to decimal
 text

---
 necroassembler/assembler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index d1a602b..c2f490a 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -242,10 +242,6 @@ class Assembler:
                     self, address, data)
                 absolute_address = true_address
 
-            if data.hook:
-                data.hook(address, true_address)
-                continue
-
             if absolute_address % data.alignment != 0:
                 raise AlignmentError(label)
 
@@ -258,6 +254,10 @@ class Assembler:
             if not in_bit_range_decimal(true_address, total_bits, signed=is_relative):
                 raise NotInBitRange(true_address, total_bits, label)
 
+            if data.hook:
+                data.hook(address, true_address)
+                continue
+
             if data.filter:
                 true_address = data.filter(true_address)
 
-- 
2.43.0


From a825e7f2b42f2331549780ccb14c2975f18ed0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 17/81] fix: do not replace names inside of strings and chars

---
 necroassembler/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/utils.py b/necroassembler/utils.py
index 9242d22..1ce5065 100644
--- a/necroassembler/utils.py
+++ b/necroassembler/utils.py
@@ -148,6 +148,9 @@ def substitute_with_dict(tokens, _dict, start):
         if name in _dict:
             tokens[i] = _dict[name]
             continue
+        # the text of strings and chars is not made of names
+        if name[:1] in ('"', '\''):
+            continue
         # now decompose each token
         accumulator = ''
         rebuilt_token = ''
-- 
2.43.0


From 1f4c42ea2f16292105ba4e8ef6f61d57547e51c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 18/81] fix: refuse to link when a macro or a repeat block is
 still open

---
 necroassembler/assembler.py  | 9 ++++++++-
 necroassembler/exceptions.py | 8 ++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index c2f490a..a846d16 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -9,7 +9,8 @@ from necroassembler.exceptions import (UnknownLabel, UnsupportedNestedMacro, Not
                                        UnsupportedNestedRepeat,
                                        AlignmentError, NotInBitRange, OnlyForwardAddressesAllowed,
                                        InvalidArgumentsForDirective, LabelNotAllowed, InvalidDefine,
-                                       SectionAlreadyDefined, SymbolAlreadyExported)
+                                       SectionAlreadyDefined, SymbolAlreadyExported,
+                                       UnterminatedMacro, UnterminatedRepeat)
 from necroassembler.macros import Macro
 from necroassembler.linker import Dummy
 
@@ -281,6 +282,12 @@ class Assembler:
         if not linker:
             linker = Dummy()
 
+        # blocks left open swallow the rest of the source
+        if self.macro_recording is not None:
+            raise UnterminatedMacro(self.macro_recording.name)
+        if self.repeat is not None:
+            raise UnterminatedRepeat()
+
         for _pass in self.pre_link_passes:
             if hasattr(_pass, '__self__') and _pass.__self__ == self:
                 _pass()
diff --git a/necroassembler/exceptions.py b/necroassembler/exceptions.py
index 46bdb9a..d032098 100644
--- a/necroassembler/exceptions.py
+++ b/necroassembler/exceptions.py
@@ -80,6 +80,14 @@ class NotInRepeatMode(AssemblerException):
     message = 'not in repeat mode'
 
 
+class UnterminatedMacro(AssemblerException):
+    message = 'macro without end'
+
+
+class UnterminatedRepeat(AssemblerException):
+    message = 'repeat without end'
+
+
 class UnknownRegister(AssemblerException):
     message = 'unknown cpu register'
 
-- 
2.43.0


From 4ef8ba4de5a23718b6064eb9a0126e4603fe848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:48 +0000
Subject: [PATCH 19/81] fix: restore the body of a macro after a failed call

---
 necroassembler/macros.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/macros.py b/necroassembler/macros.py
index de0b661..fb992f7 100644
--- a/necroassembler/macros.py
+++ b/necroassembler/macros.py
@@ -34,5 +34,7 @@ class Macro:
                 
             substitute_with_dict(instr.tokens, macro_dict, 0)
 
-            instr.assemble(assembler)
-            instr.tokens = original_tokens
+            try:
+                instr.assemble(assembler)
+            finally:
+                instr.tokens = original_tokens
-- 
2.43.0


From 50ce0d5ac217eae1fa26dbd1c07a86c1c9debd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 20/81] fix: refuse negative sizes of ram and repeat

---
 necroassembler/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index a846d16..1338b25 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -657,7 +657,7 @@ class Assembler:
     def directive_ram(self, instr):
         if len(instr.tokens) != 2:
             raise InvalidArgumentsForDirective(instr)
-        size = self.parse_integer(instr.tokens[1], 64, False)
+        size = self.parse_integer(instr.tokens[1], 64, True)
         if size is None or size < 1:
             raise InvalidArgumentsForDirective(instr)
         self.org_counter += size
@@ -679,7 +679,7 @@ class Assembler:
             raise UnsupportedNestedRepeat(instr)
         if len(instr.tokens) != 2:
             raise InvalidArgumentsForDirective(instr)
-        size = self.parse_integer(instr.tokens[1], 64, False)
+        size = self.parse_integer(instr.tokens[1], 64, True)
         if size is None or size <= 0:
             raise InvalidArgumentsForDirective(instr)
 
-- 
2.43.0


From 1b49750ef8dcc2489ca637ca6a6aefab2fd594f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 21/81] fix: store the NES bank counts at their iNES offsets

---
 necroassembler/platforms/nes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/platforms/nes.py b/necroassembler/platforms/nes.py
index 85f7c9a..d5f3405 100644
--- a/necroassembler/platforms/nes.py
+++ b/necroassembler/platforms/nes.py
@@ -69,11 +69,11 @@ class AssemblerNES(AssemblerMOS6502):
 
     @directive('cartridge_prg_roms')
     def _set_cartridge_title(self, instr):
-        self._cartridge_fill(instr, 0x05, 1)
+        self._cartridge_fill(instr, 0x04, 1)
 
     @directive('cartridge_chr_roms')
     def _set_cartridge_license(self, instr):
-        self._cartridge_fill(instr, 0x06, 1)
+        self._cartridge_fill(instr, 0x05, 1)
 
     @directive('chr_pattern_table')
     def _build_chr_pattern_table(self, instr):
-- 
2.43.0


From 4ec3d9ce44c72d76eecf62ebb6fcd666ff70a06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 22/81] fix: checksum Genesis images with an odd number of
 bytes

---
 necroassembler/platforms/genesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/platforms/genesis.py b/necroassembler/platforms/genesis.py
index 938991f..c343455 100644
--- a/necroassembler/platforms/genesis.py
+++ b/necroassembler/platforms/genesis.py
@@ -13,7 +13,7 @@ def main():
     header_checksum = 0
     for i in range(0x200, len(asm.assembled_bytes), 2):
         high = asm.assembled_bytes[i]
-        low = asm.assembled_bytes[i+1]
+        low = asm.assembled_bytes[i+1] if i + 1 < len(asm.assembled_bytes) else 0
         header_checksum += (high << 8) | low
     asm.assembled_bytes[0x18e] = (header_checksum >> 8) & 0xFF
     asm.assembled_bytes[0x18f] = header_checksum & 0xFF
-- 
2.43.0


From 78cce917412ae9953ebefeec79b7de36606b0337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 23/81] fix: write the PS-X EXE stack pointer at its offset

---
 necroassembler/platforms/psx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/necroassembler/platforms/psx.py b/necroassembler/platforms/psx.py
index 85dde68..fdb170e 100644
--- a/necroassembler/platforms/psx.py
+++ b/necroassembler/platforms/psx.py
@@ -24,6 +24,7 @@ def main():
         output.write(b'\xFF\xFF\xFF\xFF')  # gp
         output.write(b'\x00\x00\x01\x80')  # text 0x80010000
         output.write(pack_le32u(len(asm.assembled_bytes)))
+        output.seek(0x30)
         output.write(b'\xF0\xFF\x1F\x80')  # stack ptr
         output.seek(0x4C)
         output.write(
-- 
2.43.0


From 0be0313642a7af85acf8960d3948ae0ad167bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 24/81] fix: exclude the global checksum of Game Boy images
 from itself

---
 necroassembler/platforms/gameboy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 50aae17..6e43df5 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -164,8 +164,10 @@ class AssemblerGameboy(AssemblerLR35902):
 
         # global checksum
         global_checksum = 0
-        for byte in self.assembled_bytes:
-            global_checksum += int(byte)
+        for index, byte in enumerate(self.assembled_bytes):
+            # the checksum does not include itself
+            if index not in (0x14e, 0x14f):
+                global_checksum += int(byte)
 
         self.assembled_bytes[0x14e] = (global_checksum >> 8) & 0xFF
         self.assembled_bytes[0x14f] = global_checksum & 0xFF
-- 
2.43.0


From 71a4d4432c8b4cb781846ce0c1db1a90a031de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 25/81] fix: accept the Game Boy header at the start of a
 bounded origin

---
 necroassembler/platforms/gameboy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 6e43df5..24480ce 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -50,7 +50,9 @@ class AssemblerGameboy(AssemblerLR35902):
         if len(self.assembled_bytes) != 256:
             raise InvalidCartidgeHeaderOffset(instr)
 
-        self.change_org(0x100, self.current_org_end)
+        # the header can be already at the start of its own origin
+        if self.current_org != 0x100 or self.org_counter != 0:
+            self.change_org(0x100, self.current_org_end)
         nop_jp_150 = b'\x00\xC3\x50\x01'
         nintendo_logo = bytes((
             0xCE, 0xED, 0x66, 0x66, 0xCC, 0x0D, 0x00, 0x0B,
-- 
2.43.0


From da0265fdcfc66f33285dfa664ca5a830dde37a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 26/81] fix: report the file name of malformed labels

---
 necroassembler/tokenizer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index 75c28c0..74e1479 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -7,7 +7,7 @@ class InvalidLabel(Exception):
 
     def __init__(self, tokenizer):
         super().__init__(
-            'invalid label at line {0}'.format(tokenizer.line))
+            'invalid label {0}'.format(tokenizer.position()))
 
 
 class UnterminatedString(Exception):
@@ -15,7 +15,7 @@ class UnterminatedString(Exception):
 
     def __init__(self, tokenizer):
         super().__init__(
-            'unterminated string at line {0}'.format(tokenizer.line))
+            'unterminated string {0}'.format(tokenizer.position()))
 
 
 class Tokenizer:
@@ -30,6 +30,12 @@ class Tokenizer:
         self.line = 1
         self.context = context
 
+    def position(self):
+        """Describes the current position for the error messages"""
+        if self.context is not None:
+            return 'at line {0} of {1}'.format(self.line, self.context)
+        return 'at line {0}'.format(self.line)
+
     def step(self, char):
         """Advances the Tokenizer State Machine
 
-- 
2.43.0


From 6c02aa3b9757411e1397b88f6345b896144ee153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 27/81] fix: refuse a label without a name as an invalid label

---
 necroassembler/tokenizer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index 74e1479..3b567b5 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -101,10 +101,9 @@ class Tokenizer:
         self.current_token = ''
 
     def _token_colon(self):
-        if self.tokens:
+        if self.tokens or not self.current_token:
             raise InvalidLabel(self)
-        if self.current_token:
-            self.tokens.append(self.current_token)
+        self.tokens.append(self.current_token)
         self.statements.append(
             Label(self.tokens, self.line, self.context))
         self.state = self._state_token
-- 
2.43.0


From 422f163fce59f89ff9c30b10dd87f29a69025369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 28/81] fix: report the statement of macro calls with missing
 arguments

---
 necroassembler/statements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 98b1bda..304bfbf 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -32,6 +32,8 @@ class Instruction(Statement):
 
         if key in assembler.macros:
             macro = assembler.macros[key]
+            if len(self.tokens) - 1 < len(macro.args):
+                raise InvalidOpCodeArguments(self)
             macro.assemble(assembler, self.tokens)
             return
 
-- 
2.43.0


From fed531d68ab1d24bb87729e2ea988984ba2832d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 29/81] fix: do not silently ignore unknown labels when linking
 to ELF

---
 necroassembler/linker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index b4c6346..390d331 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -70,6 +70,10 @@ class ELF:
 
     def link(self, assembler):
 
+        # labels unknown to the assembler must be relocated
+        for address, symbol_data in self.relocations.items():
+            self.relocate(address, symbol_data)
+
         # first prepare the .shstrtab section
         sh_string_table = b'\x00'
         for section_name, section_data in assembler.sections.items():
-- 
2.43.0


From 66a2b0c96e9af3fa7cc2457faa2428b2338bf42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 30/81] fix: do not accumulate the header of previous links in
 the ELF linker

---
 necroassembler/linker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index 390d331..7d73ef9 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -132,12 +132,12 @@ class ELF:
             symtab_name_offset, self.file_base + code_size + len(sh_string_table) + len(string_table), symtab, len(assembler.sections) + 2)
 
         if self.bits == 32:
-            self.header += pack(self.endianess_prefix + 'IIIIHHHHHH', self.entry_point,
+            header = self.header + pack(self.endianess_prefix + 'IIIIHHHHHH', self.entry_point,
                                 0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
                                 len(assembler.sections) + 4, len(assembler.sections) + 1)
         elif self.bits == 64:
-            self.header += pack(self.endianess_prefix + 'QQQIHHHHHH', self.entry_point,
+            header = self.header + pack(self.endianess_prefix + 'QQQIHHHHHH', self.entry_point,
                                 0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
                                 len(assembler.sections) + 4, len(assembler.sections) + 1)
 
-        return self.header + sections + assembler.assembled_bytes + sh_string_table + string_table + symtab
+        return header + sections + assembler.assembled_bytes + sh_string_table + string_table + symtab
-- 
2.43.0


From 81139f2f584f150d8b8fc2cac79dedd7f34c666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 31/81] fix: start the ELF symbol table with the undefined
 symbol

---
 necroassembler/linker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index 7d73ef9..c7d75a2 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -59,7 +59,7 @@ class ELF:
         return pack(self.section_pack_format, name_offset, 0x03, 0x20, 0, offset, len(data), 0, 0, 0, 0)
 
     def _build_symtab_section(self, name_offset, offset, data, link):
-        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 0, 0, 16 if self.bits == 32 else 24)
+        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 1, 0, 16 if self.bits == 32 else 24)
 
     def resolve_unknown_symbol(self, assembler, address, symbol_data):
         self.relocations[address] = symbol_data
@@ -107,7 +107,8 @@ class ELF:
             section_data['elf_section_index'] = section_index
             sections += self._build_section(section_data)
 
-        symtab = b''
+        # the first symbol is always the undefined one
+        symtab = bytes(16 if self.bits == 32 else 24)
         for symbol_name, symbol_data in assembler.labels.items():
             if symbol_name not in assembler.exports:
                 continue
-- 
2.43.0


From ee63106642f381af2ded7f15f6cbf2226493f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 32/81] fix: compute the value of ELF symbols from the start of
 their section

---
 necroassembler/linker.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index c7d75a2..30ca441 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -20,6 +20,7 @@ class ELF:
         self.header = b'\x7fELF' + \
             pack('BBBB', 2 if bits == 64 else 1, 2 if big_endian else 1, 1, 0)
         self.bits = bits
+        self.relocatable = e_type == 0x01
         self.endianess_prefix = '>' if big_endian else '<'
         self.header += bytes(8)
         self.header += pack(self.endianess_prefix + 'HHI', e_type, machine, 1)
@@ -112,14 +113,19 @@ class ELF:
         for symbol_name, symbol_data in assembler.labels.items():
             if symbol_name not in assembler.exports:
                 continue
+            section_data = assembler.sections[symbol_data['section']]
+            value = assembler.get_label_absolute_address(symbol_data)
+            # in relocatable files the value is an offset in the section
+            if self.relocatable:
+                value -= section_data['start']
             if self.bits == 32:
                 symtab += pack(self.endianess_prefix + 'IIIBBH',
-                               symbol_data['elf_string_offset'], symbol_data['base'], 0,
-                               0x10, 0, assembler.sections[symbol_data['section']]['elf_section_index'] + 1)
+                               symbol_data['elf_string_offset'], value, 0,
+                               0x10, 0, section_data['elf_section_index'] + 1)
             if self.bits == 64:
                 symtab += pack(self.endianess_prefix + 'IBBHQQ',
                                symbol_data['elf_string_offset'], 0x10, 0,
-                               assembler.sections[symbol_data['section']]['elf_section_index'] + 1, symbol_data['base'], 0)
+                               section_data['elf_section_index'] + 1, value, 0)
 
         code_size = len(assembler.assembled_bytes)
 
-- 
2.43.0


From e9ad315e59ecc2cde5d61787e94ecf8b60293c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 33/81] fix: export labels defined before the first section to
 ELF

---
 necroassembler/linker.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index 30ca441..f067e2a 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -113,19 +113,23 @@ class ELF:
         for symbol_name, symbol_data in assembler.labels.items():
             if symbol_name not in assembler.exports:
                 continue
-            section_data = assembler.sections[symbol_data['section']]
             value = assembler.get_label_absolute_address(symbol_data)
-            # in relocatable files the value is an offset in the section
-            if self.relocatable:
-                value -= section_data['start']
+            # labels outside of sections are absolute symbols (SHN_ABS)
+            section_index = 0xfff1
+            if symbol_data['section'] is not None:
+                section_data = assembler.sections[symbol_data['section']]
+                section_index = section_data['elf_section_index'] + 1
+                # in relocatable files the value is an offset in the section
+                if self.relocatable:
+                    value -= section_data['start']
             if self.bits == 32:
                 symtab += pack(self.endianess_prefix + 'IIIBBH',
                                symbol_data['elf_string_offset'], value, 0,
-                               0x10, 0, section_data['elf_section_index'] + 1)
+                               0x10, 0, section_index)
             if self.bits == 64:
                 symtab += pack(self.endianess_prefix + 'IBBHQQ',
                                symbol_data['elf_string_offset'], 0x10, 0,
-                               section_data['elf_section_index'] + 1, value, 0)
+                               section_index, value, 0)
 
         code_size = len(assembler.assembled_bytes)
 
-- 
2.43.0


From f01e1db04e296570df360378e690bb89030040d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 34/81] fix: forget the relocations of a refused ELF link

---
 necroassembler/linker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index f067e2a..973e803 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -72,7 +72,8 @@ class ELF:
     def link(self, assembler):
 
         # labels unknown to the assembler must be relocated
-        for address, symbol_data in self.relocations.items():
+        relocations, self.relocations = self.relocations, {}
+        for address, symbol_data in relocations.items():
             self.relocate(address, symbol_data)
 
         # first prepare the .shstrtab section
-- 
2.43.0


From bf63e8e77ffa603bf5afc3e5e92ffb013ecd7261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 35/81] fix: accept the Game Boy header after a bounded origin
 ending at 0xFF

---
 necroassembler/platforms/gameboy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 24480ce..fdc8767 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -52,7 +52,9 @@ class AssemblerGameboy(AssemblerLR35902):
 
         # the header can be already at the start of its own origin
         if self.current_org != 0x100 or self.org_counter != 0:
-            self.change_org(0x100, self.current_org_end)
+            # (or can follow an origin ending just before it)
+            end = self.current_org_end
+            self.change_org(0x100, end if end >= 0x100 else 0)
         nop_jp_150 = b'\x00\xC3\x50\x01'
         nintendo_logo = bytes((
             0xCE, 0xED, 0x66, 0x66, 0xCC, 0x0D, 0x00, 0x0B,
-- 
2.43.0


From 1a655c505eb6311f01a8b7e1b717871dcd975c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 36/81] fix: write the whole header of empty PS-X programs

---
 necroassembler/platforms/psx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/platforms/psx.py b/necroassembler/platforms/psx.py
index fdb170e..4eb79b2 100644
--- a/necroassembler/platforms/psx.py
+++ b/necroassembler/platforms/psx.py
@@ -29,7 +29,7 @@ def main():
         output.seek(0x4C)
         output.write(
             'Sony Computer Entertainment Inc. for Europe area'.encode('ascii'))
-        output.seek(0x800)
+        output.write(bytes(0x800 - output.tell()))
         output.write(asm.assembled_bytes)
 
 
-- 
2.43.0


From e3d5135b2ea41f87004588b955235349baff5ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 37/81] fix: match operand patterns as whole names, not by
 their single letters

---
 necroassembler/cpu/lr35902.py | 3 ++-
 necroassembler/statements.py  | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 4077be7..2e82f82 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -5,6 +5,7 @@ from necroassembler.exceptions import InvalidOpCodeArguments
 REGS8 = ('A', 'F', 'B', 'C', 'D', 'E', 'H', 'L')
 REGS16 = ('AF', 'BC', 'DE', 'HL', 'HL+', 'HL-', 'SP')
 CONDITIONS = ('Z', 'C', 'NZ', 'NC')
+IND_C = ('$FF00+C', 'C')
 
 
 def _is_value(token):
@@ -100,7 +101,7 @@ class AssemblerLR35902(Assembler):
                 condition, = instr.apply(self._reg_name)
                 return pack_byte(kwargs[condition])
 
-            if instr.match('(', '$FF00+C', ')', 'A') or instr.match('[', '$FF00+C', ']', 'A'):
+            if instr.match('(', IND_C, ')', 'A') or instr.match('[', IND_C, ']', 'A'):
                 return pack_byte(kwargs['ind_c_a'])
 
             if instr.match('(', LDH, ')', 'A') or instr.match('[', LDH, ']', 'A'):
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 304bfbf..7221a97 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -73,7 +73,7 @@ class Instruction(Statement):
                 if isinstance(pattern, str):
                     if self.tokens[index + start].upper() == pattern.upper():
                         continue
-                if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
+                elif any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False
         return True
@@ -91,7 +91,7 @@ class Instruction(Statement):
                 if isinstance(pattern, str):
                     if self.tokens[index + start].upper() == pattern.upper():
                         continue
-                if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
+                elif any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False, None
         return True, start+index+1
-- 
2.43.0


From d846192ee5497355f954c6152c4f2824d2c8039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 38/81] fix: accept SP plus displacement only as the source of
 LD HL

---
 necroassembler/cpu/lr35902.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 2e82f82..5d65431 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -207,14 +207,10 @@ class AssemblerLR35902(Assembler):
 
     @opcode('LD')
     def _ld(self, instr):
-        if len(instr.tokens) > 2:
-            value = None
-            if instr.tokens[2].startswith('SP+'):
-                value = self._rel8(instr.tokens[2][3:])
-            elif instr.tokens[2].startswith('SP-'):
-                value = self._rel8(instr.tokens[2][2:])
-            if value is not None:
-                return pack_byte(0xF8) + value
+        if instr.match('HL', None) and instr.tokens[2].upper().startswith(('SP+', 'SP-')):
+            # the sign is part of the value
+            start = 3 if instr.tokens[2][2] == '+' else 2
+            return pack_byte(0xF8) + self._rel8(instr.tokens[2][start:])
         return self._build_opcode(instr,
                                   bc_d16=0x01,
                                   ind_bc_a=0x02,
-- 
2.43.0


From dd9216c709087b580be4a53b2f5419ebefb776a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 39/81] fix: pass the arguments of the MIPS32 register
 instructions in order

---
 necroassembler/cpu/mips32.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 5d4b022..ee12bc9 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -191,27 +191,27 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('div')
     def _div(self, instr):
-        return self._div_mult(0b011010, instr)
+        return self._div_mult(instr, 0b011010)
 
     @opcode('divu')
     def _divu(self, instr):
-        return self._div_mult(0b011011, instr)
+        return self._div_mult(instr, 0b011011)
 
     @opcode('mult')
     def _mult(self, instr):
-        return self._div_mult(0b011000, instr)
+        return self._div_mult(instr, 0b011000)
 
     @opcode('multu')
     def _multu(self, instr):
-        return self._div_mult(0b011001, instr)
+        return self._div_mult(instr, 0b011001)
 
     @opcode('nor')
     def _nor(self, instr):
-        return self._arith_log(0b100111, instr)
+        return self._arith_log(instr, 0b100111)
 
     @opcode('or')
     def _or(self, instr):
-        return self._arith_log(0b100101, instr)
+        return self._arith_log(instr, 0b100101)
 
     @opcode('ori')
     def _ori(self, instr):
@@ -243,15 +243,15 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sub')
     def _sub(self, instr):
-        return self._arith_log(0b100010, instr)
+        return self._arith_log(instr, 0b100010)
 
     @opcode('subu')
     def _subu(self, instr):
-        return self._arith_log(0b100011, instr)
+        return self._arith_log(instr, 0b100011)
 
     @opcode('xor')
     def _xor(self, instr):
-        return self._arith_log(0b100110, instr)
+        return self._arith_log(instr, 0b100110)
 
     @opcode('xori')
     def _xori(self, instr):
-- 
2.43.0


From 32ac58dbe9380dd510796647a1a635b46ead837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 40/81] fix: encode MIPS32 sltu and sltiu with their own
 opcodes

---
 necroassembler/cpu/mips32.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index ee12bc9..49269fe 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -275,7 +275,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sltu')
     def _sltu(self, instr):
-        return self._arith_log(instr, 0b101001)
+        return self._arith_log(instr, 0b101011)
 
     @opcode('slti')
     def _slti(self, instr):
@@ -283,7 +283,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sltiu')
     def _sltiu(self, instr):
-        return self._arith_log_i(instr, 0b001001, False)
+        return self._arith_log_i(instr, 0b001011, False)
 
     @opcode('beq')
     def _beq(self, instr):
-- 
2.43.0


From 5bb121dede207c3906cdbe36c85bf202da381e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 41/81] fix: accept the whole unsigned range in MIPS32 andi,
 ori and xori

---
 necroassembler/cpu/mips32.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 49269fe..7728abb 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -187,7 +187,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('andi')
     def _andi(self, instr):
-        return self._arith_log_i(instr, 0b001100, True)
+        return self._arith_log_i(instr, 0b001100, False)
 
     @opcode('div')
     def _div(self, instr):
@@ -215,7 +215,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('ori')
     def _ori(self, instr):
-        return self._arith_log_i(instr, 0b001101, True)
+        return self._arith_log_i(instr, 0b001101, False)
 
     @opcode('sll')
     def _sll(self, instr):
@@ -255,7 +255,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('xori')
     def _xori(self, instr):
-        return self._arith_log_i(instr, 0b001110, True)
+        return self._arith_log_i(instr, 0b001110, False)
 
     @opcode('lui')
     def _lui(self, instr):
-- 
2.43.0


From bf5012f4ac535f9324fdf2b3d4c6084794116730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 42/81] fix: link MIPS32 jalr to $ra

---
 necroassembler/cpu/mips32.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 7728abb..dff080c 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -141,10 +141,10 @@ class AssemblerMIPS32(Assembler):
             label, = instr.apply(self._abs_label)
             return self._build_opcode(0, ((31, 26), op), ((25, 0), label))
 
-    def _jump_r(self, instr, func):
+    def _jump_r(self, instr, func, rd=0):
         if instr.match(REGS):
             rs, = instr.apply(_reg)
-            return self._build_opcode(0, ((25, 21), rs), ((5, 0), func))
+            return self._build_opcode(0, ((25, 21), rs), ((15, 11), rd), ((5, 0), func))
 
     def _load_store(self, instr, op):
         if instr.match(REGS, IMMEDIATE, '(', REGS, ')'):
@@ -311,7 +311,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('jalr')
     def _jalr(self, instr):
-        return self._jump_r(instr, 0b001001)
+        return self._jump_r(instr, 0b001001, 31)
 
     @opcode('jr')
     def _jr(self, instr):
-- 
2.43.0


From 69b1a79290f6478fa9cc52bb3bf384b3984b4e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 43/81] fix: encode MIPS32 break and syscall

---
 necroassembler/cpu/mips32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index dff080c..7d29b26 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -163,7 +163,7 @@ class AssemblerMIPS32(Assembler):
 
     def _no_args(self, instr, func):
         if len(instr.tokens) == 1:
-            return self._build_opcode(0, (((5, 0)), func))
+            return self._build_opcode(0, ((5, 0), func))
 
     @opcode('add')
     def _add(self, instr):
-- 
2.43.0


From de02ce05c6c6ddcfafd4de0e5b3ce6356b7a3e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 44/81] fix: refuse MIPS32 branch targets that are not words

---
 necroassembler/cpu/mips32.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 7d29b26..256e7e6 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -1,6 +1,6 @@
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits, pack_le32u, pack_be32u
-from necroassembler.exceptions import LabelNotAllowed, NotInBitRange
+from necroassembler.exceptions import AlignmentError, LabelNotAllowed, NotInBitRange
 
 REGS_BASE = ('$0', '$1', '$2', '$3', '$4', '$5',
              '$6', '$7', '$8', '$9', '$10', '$11',
@@ -61,12 +61,16 @@ class AssemblerMIPS32(Assembler):
                                            size=4) >> 2
 
     def _rel_label(self, token):
-        return self.parse_integer_or_label(label=token,
-                                           bits_size=18,
-                                           bits=(15, 0),
-                                           filter=lambda x: x >> 2,
-                                           relative=self.pc + 4,
-                                           size=4) >> 2
+        value = self.parse_integer_or_label(label=token,
+                                            bits_size=18,
+                                            bits=(15, 0),
+                                            filter=lambda x: x >> 2,
+                                            alignment=4,
+                                            relative=self.pc + 4,
+                                            size=4)
+        if value % 4 != 0:
+            raise AlignmentError(token)
+        return value >> 2
 
     def _immediate32(self, high):
         def _high(token):
-- 
2.43.0


From 5e747c91716c6f6080b6a20b3c213cfdfc244f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 45/81] fix: scale the immediates of Thumb ADD with PC and SP

---
 necroassembler/cpu/thumb.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 832261a..68ab79a 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -73,6 +73,27 @@ class AssemblerThumb(Assembler):
             raise InvalideImmediateValue()
         return value
 
+    def _scaled(self, bits, scale):
+        # unsigned immediate, stored divided by its scale
+        def _parse(arg):
+            value = self.parse_integer(arg[1:], bits + 1, True)
+            if value is None:
+                raise InvalideImmediateValue()
+            if not 0 <= value < (1 << bits):
+                raise NotInBitRange(value, bits)
+            if value % scale != 0:
+                raise InvalideImmediateValue()
+            return value // scale
+        return _parse
+
+    def _offset9(self, arg):
+        value = self.parse_integer(arg[1:], 10, True)
+        if value is None or value % 4 != 0:
+            raise InvalideImmediateValue()
+        if not -508 <= value <= 508:
+            raise NotInBitRange(value, 9)
+        return value
+
     def _word8(self, arg):
         return self.parse_integer_or_label(label=arg[1:],
                                            size=2,
@@ -164,14 +185,14 @@ class AssemblerThumb(Assembler):
             hd, hs = instr.apply(high_reg, high_reg)
             return self._build_opcode(0b0100010011000000, ((5, 3), hs), ((2, 0), hd))
         if instr.match(LOW_REGS, PC, IMMEDIATE):
-            rd, imm = instr.apply(low_reg, None, self._imm)
+            rd, imm = instr.apply(low_reg, None, self._scaled(10, 4))
             return self._build_opcode(0b1010000000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(LOW_REGS, SP, IMMEDIATE):
-            rd, imm = instr.apply(low_reg, None, self._imm)
+            rd, imm = instr.apply(low_reg, None, self._scaled(10, 4))
             return self._build_opcode(0b1010100000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(SP, IMMEDIATE):
-            imm, = instr.apply(None, self._imm)
-            return self._build_opcode(0b1011000000000000, ((7, 0), imm >> 1, True))
+            imm, = instr.apply(None, self._offset9)
+            return self._build_opcode(0b1011000000000000, ((7, 7), 1 if imm < 0 else 0), ((6, 0), abs(imm) >> 2))
 
     @opcode('SUB')
     def _sub(self, instr):
-- 
2.43.0


From 96f804ca9794bc53185663feab88d8166a643fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 46/81] fix: use the whole offset of Thumb loads from PC and SP

---
 necroassembler/cpu/thumb.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 68ab79a..3263a5a 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -95,12 +95,20 @@ class AssemblerThumb(Assembler):
         return value
 
     def _word8(self, arg):
+        def _forward(value):
+            # only words after the pc can be reached
+            if value < 0:
+                raise NotInBitRange(value, 10, arg[1:])
+            return value >> 2
+
+        if self.parse_integer(arg[1:], 11, True) is not None:
+            return self._scaled(10, 4)(arg)
         return self.parse_integer_or_label(label=arg[1:],
                                            size=2,
-                                           bits_size=8,
+                                           bits_size=11,
                                            bits=(7, 0),
                                            alignment=4,
-                                           filter=lambda x: x >> 2,
+                                           filter=_forward,
                                            # bit 1 of pc must be turned off
                                            relative=(self.pc + 4) & ~(0b10))
 
@@ -305,7 +313,7 @@ class AssemblerThumb(Assembler):
     def _ldr(self, instr):
         if instr.match(LOW_REGS, '[', PC, IMMEDIATE, ']'):
             rd, imm = instr.apply(low_reg, None, None, self._word8, None)
-            return self._build_opcode(0b0100100000000000, ((10, 8), rd), ((7, 0), imm >> 2))
+            return self._build_opcode(0b0100100000000000, ((10, 8), rd), ((7, 0), imm))
 
         if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
             rd, rb, ro = instr.apply(
@@ -318,8 +326,8 @@ class AssemblerThumb(Assembler):
             return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', SP, IMMEDIATE, ']'):
-            rd, imm = instr.apply(low_reg, None, None, self._word8, None)
-            return self._build_opcode(0b1001100000000000, ((10, 8), rd), ((7, 0), imm >> 2))
+            rd, imm = instr.apply(low_reg, None, None, self._scaled(10, 4), None)
+            return self._build_opcode(0b1001100000000000, ((10, 8), rd), ((7, 0), imm))
 
     @opcode('LDRB')
     def _ldrb(self, instr):
-- 
2.43.0


From bf0c81d9682e14045d6fdfe6df50520ba5ee0133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 47/81] fix: encode the Thumb loads and stores as the manual
 defines

---
 necroassembler/cpu/thumb.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 3263a5a..9047a07 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -322,8 +322,8 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+                low_reg, None, low_reg, self._scaled(7, 4), None)
+            return self._build_opcode(0b0110100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', SP, IMMEDIATE, ']'):
             rd, imm = instr.apply(low_reg, None, None, self._scaled(10, 4), None)
@@ -346,11 +346,11 @@ class AssemblerThumb(Assembler):
         if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
             rd, rb, ro = instr.apply(
                 low_reg, None, low_reg, low_reg, None)
-            return self._build_opcode(0b010110000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
+            return self._build_opcode(0b0101101000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
+                low_reg, None, low_reg, self._scaled(6, 2), None)
             return self._build_opcode(0b1000100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('LDSB')
@@ -376,12 +376,20 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+                low_reg, None, low_reg, self._scaled(7, 4), None)
+            return self._build_opcode(0b0110000000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('STRB')
     def _strb(self, instr):
-        pass
+        if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
+            rd, rb, ro = instr.apply(
+                low_reg, None, low_reg, low_reg, None)
+            return self._build_opcode(0b0101010000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
+
+        if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
+            rd, rb, imm = instr.apply(
+                low_reg, None, low_reg, self._imm, None)
+            return self._build_opcode(0b0111000000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('STRH')
     def _strh(self, instr):
-- 
2.43.0


From 80033504d6632b886834f9a0ad65117d35fd0f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 48/81] fix: refuse odd Thumb branch displacements and accept
 BL 0

---
 necroassembler/cpu/thumb.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 9047a07..d066475 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -1,7 +1,7 @@
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits_le16u, pack_le16u, pack_bit
 from necroassembler.exceptions import (
-    AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, NotInBitRange)
+    AlignmentError, AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, NotInBitRange)
 
 LOW_REGS = ('r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'r7')
 HIGH_REGS_TRUE = ('r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15')
@@ -57,15 +57,18 @@ class AssemblerThumb(Assembler):
     bin_prefixes = ('0b', '0y')
 
     def _offset(self, arg, bits, alignment):
-        return self.parse_integer_or_label(label=arg,
-                                           size=2,
-                                           bits_size=(
-                                               bits[0] - bits[1]) + 1 + (alignment//2),
-                                           bits=bits,
-                                           filter=lambda x: x >> (
-                                               alignment//2),
-                                           alignment=alignment,
-                                           relative=self.pc + 4)
+        value = self.parse_integer_or_label(label=arg,
+                                            size=2,
+                                            bits_size=(
+                                                bits[0] - bits[1]) + 1 + (alignment//2),
+                                            bits=bits,
+                                            filter=lambda x: x >> (
+                                                alignment//2),
+                                            alignment=alignment,
+                                            relative=self.pc + 4)
+        if value % alignment != 0:
+            raise AlignmentError(arg)
+        return value
 
     def _imm(self, arg):
         value = self.parse_integer(arg[1:], 8, False)
@@ -406,7 +409,9 @@ class AssemblerThumb(Assembler):
         offset = instr.tokens[1]
 
         address = self.parse_integer(offset, 23, signed=True)
-        if address:
+        if address is not None:
+            if address % 2 != 0:
+                raise AlignmentError(offset)
             address >>= 1
             address0 = address >> 11
             address1 = address & 0x7ff
-- 
2.43.0


From 8a7ee42bedfe67745578ba5f27ac478b06dd1583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 49/81] fix: accept upper case registers in Thumb register
 lists

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index d066475..63bfc3c 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -129,7 +129,7 @@ class AssemblerThumb(Assembler):
 
         rlist = 0
         for token in tokens:
-            if token in LOW_REGS:
+            if token.lower() in LOW_REGS:
                 bit_to_set = low_reg(token)
                 rlist = pack_bit(rlist, (bit_to_set, 1))
                 continue
-- 
2.43.0


From ea34440fa3080b28ae82657425c92bd3e8a1eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:20 +0000
Subject: [PATCH 50/81] fix: treat labels relative to address 0 as relative

---
 necroassembler/assembler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 1338b25..67c2a80 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -229,7 +229,7 @@ class Assembler:
         for address in self.labels_addresses:
             data = self.labels_addresses[address]
             label = data.label
-            is_relative = data.relative != 0
+            is_relative = data.relative is not None
 
             absolute_address = self.get_label_absolute_address_by_name(label)
             if not is_relative:
@@ -311,7 +311,7 @@ class Assembler:
     def add_label_translation(self, label,
                               size, bits_size,
                               offset=0, alignment=1, bits=None, filter=None,
-                              relative=0, hook=None):
+                              relative=None, hook=None):
         index = len(self.assembled_bytes) + offset
         label_data = LabelData(label, size, bits_size, relative)
         label_data.offset = offset
@@ -398,10 +398,10 @@ class Assembler:
         return value
 
     def parse_integer_or_label(self, label,
-                               size, bits_size, relative=0,
+                               size, bits_size, relative=None,
                                offset=0, alignment=1, bits=None, filter=None,
                                hook=None, signed=False):
-        if relative != 0:
+        if relative is not None:
             signed = True
         value = self.parse_integer(label, bits_size, signed)
         # label ?
@@ -699,7 +699,7 @@ class Assembler:
             for address, data in translations:
                 data = copy(data)
                 # relative labels must be resolved from the copied instruction
-                if data.relative != 0:
+                if data.relative is not None:
                     data.relative += distance
                 self.labels_addresses[address + distance] = data
             self.append_assembled_bytes(blob)
-- 
2.43.0


From 9e81793e88dfb350c341efc5218bc946e415a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 51/81] fix: accept r0 as PowerPC general register

---
 necroassembler/cpu/powerpc.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index e2f4e1a..74ea8e7 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -9,8 +9,6 @@ def _greg(token, assembler=None, bits=None):
     reg = token.lower()
     if assembler is not None:
         return int(token[1:])
-    if reg == 'r0':
-        return False
     return reg in GREGS
 
 
-- 
2.43.0


From dfca0f0894711e51fdad4bce22b35653f769dff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 52/81] fix: use the own opcode of every form of a PowerPC
 mnemonic

---
 necroassembler/cpu/powerpc.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 74ea8e7..7e899a3 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1322,23 +1322,22 @@ OPCODES_TABLE = [
 
 class PowerPCOPCode:
 
-    def __init__(self, assembler, name, base):
+    def __init__(self, assembler, name):
         self.conditions = []
         self.assembler = assembler
         self.name = name
-        self.base = base
 
-    def add_condition(self, condition):
-        self.conditions.append(condition)
+    def add_condition(self, base, condition):
+        self.conditions.append((base, condition))
 
     def __call__(self, instr):
-        for condition in self.conditions:
+        for base, condition in self.conditions:
             if condition is None:
                 if len(instr.tokens) == 1:
-                    return pack_be32u(self.base)
+                    return pack_be32u(base)
             elif instr.match(*[item[2] for item in condition]):
                 return pack_be32u(
-                    pack_bits(self.base, *[
+                    pack_bits(base, *[
                         ((item[0] + item[1] - 1, item[0]), item[2](
                             instr.tokens[index+1], self.assembler, (item[0] + item[1] - 1, item[0]))
                          ) for index, item in enumerate(condition)
@@ -1358,17 +1357,18 @@ class AssemblerPowerPC(Assembler):
             # already defined ?
             if name.upper() in self.instructions:
                 if len(entry) > 2:
-                    self.instructions[name.upper()].add_condition(entry[2])
+                    self.instructions[name.upper()].add_condition(
+                        entry[0], entry[2])
                 else:
-                    self.instructions[name.upper()].add_condition(None)
+                    self.instructions[name.upper()].add_condition(
+                        entry[0], None)
                 continue
 
-            base = entry[0]
-            powerpc_opcode = PowerPCOPCode(self, name, base)
+            powerpc_opcode = PowerPCOPCode(self, name)
             if len(entry) > 2:
-                powerpc_opcode.add_condition(entry[2])
+                powerpc_opcode.add_condition(entry[0], entry[2])
             else:
-                powerpc_opcode.add_condition(None)
+                powerpc_opcode.add_condition(entry[0], None)
             self.register_instruction(entry[1], powerpc_opcode)
 
 
-- 
2.43.0


From 399fceab63a05aa38b428881cd30e1309031745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 53/81] fix: encode PowerPC branch targets as words

---
 necroassembler/cpu/powerpc.py | 41 +++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 7e899a3..f973024 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1,5 +1,6 @@
 from necroassembler import Assembler
-from necroassembler.utils import pack_be32u, pack_bits
+from necroassembler.utils import pack_be32u, pack_bits, in_bit_range_decimal
+from necroassembler.exceptions import AlignmentError, NotInBitRange
 
 GREGS = tuple(['r{0}'.format(n) for n in range(0, 32)])
 FREGS = tuple(['f{0}'.format(n) for n in range(0, 32)])
@@ -30,27 +31,39 @@ def _freg(token, assembler=None, bits=None):
     return reg in FREGS
 
 
+def _word(token, assembler, bits, relative):
+    size = bits[0] - bits[1] + 3
+
+    def _filter(value):
+        # the processor extends the sign of absolute targets too
+        if not in_bit_range_decimal(value, size, signed=True):
+            raise NotInBitRange(value, size, token)
+        # the two low bits are not stored
+        return value >> 2
+
+    value = assembler.parse_integer_or_label(token,
+                                             size=4,
+                                             bits_size=size,
+                                             bits=bits,
+                                             alignment=4,
+                                             filter=_filter,
+                                             relative=relative,
+                                             signed=True)
+    if value % 4 != 0:
+        raise AlignmentError(token)
+    return value >> 2
+
+
 def _pcrel(token, assembler=None, bits=None):
     if assembler is not None:
-        return assembler.parse_integer_or_label(token,
-                                                size=4,
-                                                bits_size=(
-                                                    bits[0] - bits[1] + 1),
-                                                bits=bits,
-                                                filter=lambda x: x >> 2,
-                                                relative=assembler.pc)
+        return _word(token, assembler, bits, assembler.pc)
 
     return token not in GREGS+FREGS
 
 
 def _baddr(token, assembler=None, bits=None):
     if assembler is not None:
-        return assembler.parse_integer_or_label(token,
-                                                size=4,
-                                                bits_size=(
-                                                    bits[0] - bits[1] + 1),
-                                                bits=bits,
-                                                filter=lambda x: x >> 2)
+        return _word(token, assembler, bits, None)
     return token not in GREGS+FREGS
 
 
-- 
2.43.0


From 951307eb2c4c48740494accee74b39b8cbd588ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 54/81] fix: refuse PowerPC mcrfs fields above 7

---
 necroassembler/cpu/powerpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index f973024..6eabf11 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -709,7 +709,7 @@ OPCODES_TABLE = [
     [0xfc00048e, "mffs",    [[21, 5, _freg]]],
     [0xfc00048f, "mffs.",   [[21, 5, _freg]]],
     [0xfc000080, "mcrfs",   [[21, 5, CRFONLY], [18, 5, _num]]],
-    [0xfc000080, "mcrfs",   [[23, 3, _num],  [18, 5, _num]]],
+    [0xfc000080, "mcrfs",   [[23, 3, _num],  [18, 3, _num]]],
     [0xfc00010c, "mtfsfi",  [[23, 3, _num],  [12, 4, _num]]],
     [0xfc00010d, "mtfsfi.", [[23, 3, _num],  [12, 4, _num]]],
     [0xfc00058e, "mtfsf",   [[17, 8, _num],  [11, 5, _freg]]],
-- 
2.43.0


From 6e7df2fefab581764452874c1a5697465d021f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 55/81] fix: do not let unsupported PowerPC forms hide the
 other ones

---
 necroassembler/cpu/powerpc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 6eabf11..78baec5 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1348,6 +1348,9 @@ class PowerPCOPCode:
             if condition is None:
                 if len(instr.tokens) == 1:
                     return pack_be32u(base)
+            elif None in [item[2] for item in condition]:
+                # operand type not supported yet
+                continue
             elif instr.match(*[item[2] for item in condition]):
                 return pack_be32u(
                     pack_bits(base, *[
-- 
2.43.0


From 38297c7997dc17a16cbb6feb9c5cde8be7bb2db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 56/81] fix: resolve every label of an instruction with more of
 them in one word

---
 necroassembler/assembler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 67c2a80..680274c 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -226,8 +226,7 @@ class Assembler:
             handle.write(self.assembled_bytes)
 
     def _resolve_labels(self, linker):
-        for address in self.labels_addresses:
-            data = self.labels_addresses[address]
+        for (address, _), data in self.labels_addresses.items():
             label = data.label
             is_relative = data.relative is not None
 
@@ -319,7 +318,8 @@ class Assembler:
         label_data.bits = bits
         label_data.hook = hook
         label_data.filter = filter
-        self.labels_addresses[index] = label_data
+        # the bit fields of a single word can get different labels
+        self.labels_addresses[index, str(bits)] = label_data
 
     def _internal_parse_integer(self, token):
         # first check for an ascii char
@@ -692,7 +692,7 @@ class Assembler:
         size, index = self.repeat
         self.repeat = None
         blob = self.assembled_bytes[index:]
-        translations = [(address, data) for address, data in self.labels_addresses.items()
+        translations = [(address, data) for (address, _), data in self.labels_addresses.items()
                         if address >= index]
         for i in range(1, size):
             distance = len(blob) * i
@@ -701,7 +701,7 @@ class Assembler:
                 # relative labels must be resolved from the copied instruction
                 if data.relative is not None:
                     data.relative += distance
-                self.labels_addresses[address + distance] = data
+                self.labels_addresses[address + distance, str(data.bits)] = data
             self.append_assembled_bytes(blob)
 
     def directive_db_to_ascii(self, instr):
-- 
2.43.0


From eccea7ae7dc2b1efdcc038b4ab926ff05b455822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 57/81] fix: encode the memory operand of 8086 POP and MOV
 immediate

---
 necroassembler/cpu/intel8086.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 44277ef..7953d2c 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -453,7 +453,7 @@ OPCODES_TABLE = (
     (0x8C, 'MOV', _Ev, _Sw),
     (0x8D, 'LEA', _Gv, _M),
     (0x8E, 'MOV', _Sw, _Ev),
-    (0x8F, 'POP', _Ev),
+    (0x8F00, 'POP', _Ev),
     (0x90, 'NOP'),
     (0x91, 'XCHG', _eCX, _eAX),
     (0x92, 'XCHG', _eDX, _eAX),
@@ -506,8 +506,8 @@ OPCODES_TABLE = (
     (0xC3, 'RET'),
     (0xC4, 'LES', _Gv, _Mp),
     (0xC5, 'LDS', _Gv, _Mp),
-    (0xC6, 'MOV', _Eb, _Ib),
-    (0xC7, 'MOV', _Ev, _Iv),
+    (0xC600, 'MOV', _Eb, _Ib),
+    (0xC700, 'MOV', _Ev, _Iv),
     (0xCA, 'RETF', _Iv),
     (0xCB, 'RETF'),
     (0xCC, 'INT', _3),
-- 
2.43.0


From e1b22a318f3c02612911ac6eb2a98e8a3e45a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 58/81] fix: resolve 8086 labels after the ModRM byte

---
 necroassembler/cpu/intel8086.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 7953d2c..84799db 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -19,8 +19,9 @@ def _build_modrm(assembler, modrm):
             modrm['displacement'].lstrip('+'),
             size=2,
             bits_size=16,
-            offset=1,
+            offset=2,
             signed=True))
+    modrm['size'] = len(blob)
     return blob
 
 
@@ -182,13 +183,13 @@ def _SS(instr, assembler, index, modrm):
 def _Ib(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in REGS8 + REGS16 + SEGMENTS + ('[', ']'):
         return 1, pack_byte(assembler.parse_integer_or_label(
-            instr.tokens[index], size=1, bits_size=8, offset=1))
+            instr.tokens[index], size=1, bits_size=8, offset=1+modrm.get('size', 0)))
 
 
 def _Iv(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in REGS8 + REGS16 + SEGMENTS + ('[', ']'):
         return 1, pack_le16u(assembler.parse_integer_or_label(
-            instr.tokens[index], size=2, bits_size=16, offset=1))
+            instr.tokens[index], size=2, bits_size=16, offset=1+modrm.get('size', 0)))
 
 
 def _Jb(instr, assembler, index, modrm):
@@ -299,7 +300,7 @@ def _Mp(instr, assembler, index, modrm):
             modrm['mod'] = 0
             modrm['rm'] = 6
             return 3, _build_modrm(assembler, modrm) + pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=2, bits_size=16, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=2))
 
 
 def _Ap(instr, assembler, index, modrm):
-- 
2.43.0


From ee93ee629b5cdd4e8f25c9c20a7e02dd728d5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 59/81] fix: encode 8086 [BP] with a displacement

---
 necroassembler/cpu/intel8086.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 84799db..1ff4532 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -38,8 +38,9 @@ def _get_modrm_mod(arg):
         return 0b00, 0b100, 1, None
     if match(arg, 'DI'):
         return 0b00, 0b101, 1, None
+    # without displacement this would be a direct address
     if match(arg, 'BP'):
-        return 0b00, 0b110, 1, None
+        return 0b10, 0b110, 1, '0'
     if match(arg, 'BX'):
         return 0b00, 0b111, 1, None
     # displacement (16 bit only)
-- 
2.43.0


From a7104f5707310ca89934f16ad6f668f73da8fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 60/81] fix: accept 16 bit addresses of 8086 byte operands

---
 necroassembler/cpu/intel8086.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 1ff4532..eabde97 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -209,7 +209,7 @@ def _Ob(instr, assembler, index, modrm):
     if match(instr.tokens[index:index+3], '[', None, ']'):
         if instr.tokens[index+1].upper() not in REGS8 + REGS16 + SEGMENTS:
             return 3, pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=1, bits_size=8, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=1))
 
 
 def _Ov(instr, assembler, index, modrm):
-- 
2.43.0


From 4bef56a2d99fbfea7c095b6ad0e9aea563a4e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 61/81] fix: refuse extra operands of 8086 instructions

---
 necroassembler/cpu/intel8086.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index eabde97..eeb375c 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -552,10 +552,10 @@ OPCODES_TABLE = (
     # extended opcodes
     (0xF706, 'DIV', _Ev),
     (0xF704, 'MUL', _Ev),
-    (0xD004, 'SHL', _Eb),
-    (0xD104, 'SHL', _Ev),
-    (0xD005, 'SHR', _Eb),
-    (0xD105, 'SHR', _Ev)
+    (0xD004, 'SHL', _Eb, _1),
+    (0xD104, 'SHL', _Ev, _1),
+    (0xD005, 'SHR', _Eb, _1),
+    (0xD105, 'SHR', _Ev, _1)
 )
 
 
@@ -592,7 +592,7 @@ class Intel8086OpCode:
                 else:
                     index += delta_and_blob[0]
                     full_blob += delta_and_blob[1]
-            if not skip:
+            if not skip and index == len(instr.tokens):
                 return pack_byte(base) + full_blob
 
 
-- 
2.43.0


From 585cd2ab559d3473030421af29af310b06db18fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 62/81] fix: accept segment:offset operands

---
 necroassembler/tokenizer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index 3b567b5..5b62f0b 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -77,6 +77,8 @@ class Tokenizer:
         self.current_token += char
 
     def _token_spaces(self, char):
+        if self.current_token.endswith(':'):
+            raise InvalidLabel(self)
         if self.current_token:
             self.tokens.append(self.current_token)
         self.current_token = ''
@@ -95,12 +97,18 @@ class Tokenizer:
                 self.state = self._state_token
 
     def _token_brackets(self, char):
+        if self.current_token.endswith(':'):
+            raise InvalidLabel(self)
         if self.current_token:
             self.tokens.append(self.current_token)
         self.tokens.append(char)
         self.current_token = ''
 
     def _token_colon(self):
+        # segment:offset operands
+        if self.tokens and self.current_token:
+            self.current_token += ':'
+            return
         if self.tokens or not self.current_token:
             raise InvalidLabel(self)
         self.tokens.append(self.current_token)
-- 
2.43.0


From 00a26a1047159f1ab93fd08cd7f9ebc2a6f7e214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 63/81] fix: refuse extra operands of 68000 instructions

---
 necroassembler/cpu/mc68000.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 3e34ef5..67b1275 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -248,6 +248,13 @@ class AssemblerMC68000(Assembler):
 
         raise InvalidMode(instr)
 
+    def _last_mode(self, instr, *args, **kwargs):
+        mode = self._mode(instr, *args, **kwargs)
+        # something left
+        if mode[0] != len(instr.tokens):
+            raise InvalidMode(instr)
+        return mode
+
     def _build_opcode(self, base, *args):
         return pack_bits_be16u(base, *args)
 
@@ -264,7 +271,7 @@ class AssemblerMC68000(Assembler):
         # convert to MOVEA
         if op_size in (2, 4) and instr.match(A_REGS, start=next_index):
             return self._build_opcode(0b0000000001000000, ((13, 12), s), ((11, 9), _reg(instr.tokens[next_index])), ((5, 3), src_m), ((2, 0), src_xn)) + src_data
-        _, dst_m, dst_xn, dst_data = self._mode(
+        _, dst_m, dst_xn, dst_data = self._last_mode(
             instr, next_index, len(src_data), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
         return self._build_opcode(0b0000000000000000, ((13, 12), s), ((11, 9), dst_xn), ((8, 6), dst_m), ((5, 3), src_m), ((2, 0), src_xn)) + src_data + dst_data
 
@@ -287,7 +294,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000000000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -303,7 +310,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000001000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -313,7 +320,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000010000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -323,7 +330,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000011000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -339,7 +346,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000101000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -349,13 +356,13 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000110000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
     @opcode('jmp')
     def _jmp(self, instr):
-        _, src_m, src_xn, src_data = self._mode(
+        _, src_m, src_xn, src_data = self._last_mode(
             instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
         return self._build_opcode(0b0100111011000000, ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
@@ -408,7 +415,7 @@ class AssemblerMC68000(Assembler):
 
     @opcode('jsr')
     def _jsr(self, instr):
-        _, src_m, src_xn, src_data = self._mode(
+        _, src_m, src_xn, src_data = self._last_mode(
             instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
         return self._build_opcode(0b0100111010000000, ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
-- 
2.43.0


From a1d2eef01c969fb7145768f71535a2fd0c5b04c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 64/81] fix: refuse 68000 byte accesses to address registers

---
 necroassembler/cpu/mc68000.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 67b1275..ca936be 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -125,7 +125,8 @@ class AssemblerMC68000(Assembler):
 
         # An
         found, index = instr.unbound_match(A_REGS, start=start_index)
-        if found and 'An' not in blacklist:
+        # no byte access to address registers
+        if found and 'An' not in blacklist and size != 1:
             return index, 1, _reg(instr.tokens[start_index]), b''
 
         # (An)+ must be checked before (An) !
-- 
2.43.0


From 8026d03b02c1091fbd96e80706d5b0e4242c4e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 65/81] fix: accept upper case 68000 index registers

---
 necroassembler/cpu/mc68000.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index ca936be..821410c 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -36,7 +36,7 @@ def _is_indexed_reg(token):
         return token.lower()[0:-2] in D_REGS+A_REGS
     if token.lower().endswith('.l'):
         return token.lower()[0:-2] in D_REGS+A_REGS
-    return token in D_REGS+A_REGS
+    return token.lower() in D_REGS+A_REGS
 
 
 IMMEDIATE = _is_immediate
-- 
2.43.0


From c4397eac3c1daa6d3fe46f7890d5c45748c42898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 66/81] fix: accept dbt.w and dbf.w

---
 necroassembler/cpu/mc68000.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 821410c..39660bb 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -55,9 +55,10 @@ def _reg(token):
 
 
 def _cond(token):
-    if token[0:2].upper() == 'RA':
+    condition = token.split('.')[0].upper()
+    if condition == 'RA':
         return 1
-    return CONDITIONS.index(token[0:2].upper())
+    return CONDITIONS.index(condition)
 
 
 def _indexed_reg(token):
-- 
2.43.0


From 206300ab633cdcd8eaf9f669d4a6ed2fc9533cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 67/81] fix: refuse short 68000 branches to the next
 instruction

---
 necroassembler/cpu/mc68000.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 39660bb..9912ba7 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -1,7 +1,7 @@
 
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits_be16u, pack_be16u, pack_be32u
-from necroassembler.exceptions import AssemblerException
+from necroassembler.exceptions import AssemblerException, NotInBitRange
 
 
 class InvalidMode(AssemblerException):
@@ -384,10 +384,20 @@ class AssemblerMC68000(Assembler):
             condition = _cond(instr.tokens[0][1:])
             op_size, _ = _s_dark(instr.tokens[0])
             if op_size == 1:
+                def _not_zero(value):
+                    # a zero means that the displacement is in the next word
+                    if value == 0:
+                        raise NotInBitRange(value, 8, instr.tokens[1])
+                    return value
+
+                value = self.parse_integer(instr.tokens[1], 8, True)
+                if value is not None:
+                    _not_zero(value)
                 value = self.parse_integer_or_label(instr.tokens[1],
                                                     size=2,
                                                     bits_size=8,
                                                     bits=(7, 0),
+                                                    filter=_not_zero,
                                                     alignment=2,  # here is safe to check for alignment
                                                     relative=self.pc+2)
                 return self._build_opcode(0b0110000000000000, ((11, 8), condition), ((7, 0), value))
-- 
2.43.0


From 330148e162c8433fcec202f3f83e1e7b976152b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 68/81] fix: store the 32 bit targets of x86 jumps in four
 bytes

---
 necroassembler/cpu/x86.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 10b4d6b..dfd64df 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -464,7 +464,7 @@ def _Jvds(instr, base, assembler, index, modrm):
             return 1, base, pack_le32u(assembler.parse_integer_or_label(
                 instr.tokens[index],
                 relative=assembler.pc + len(base) + 4,
-                size=2, bits_size=16, offset=len(base)))
+                size=4, bits_size=32, offset=len(base)))
 
 
 def _Eq(instr, base, assembler, index, modrm):
-- 
2.43.0


From b811234a6937fad1432630c5f441f079e756f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 69/81] fix: do not lose or ignore operands of x86 instructions

---
 necroassembler/cpu/x86.py | 79 ++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 39 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index dfd64df..db90bca 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -744,12 +744,12 @@ OPCODES_TABLE = (
     (0x34, 'XOR', _AL, _Ib),
     (0x35, 'XOR', _rAX, _Ivds),
     (0x37, 'AAA'),
-    (0x38, 'CMP', _Eb),
-    (0x39, 'CMP', _Evqp),
-    (0x3a, 'CMP', _Gb),
-    (0x3b, 'CMP', _Gvqp),
-    (0x3c, 'CMP', _AL),
-    (0x3d, 'CMP', _rAX),
+    (0x38, 'CMP', _Eb, _Gb),
+    (0x39, 'CMP', _Evqp, _Gvqp),
+    (0x3a, 'CMP', _Gb, _Eb),
+    (0x3b, 'CMP', _Gvqp, _Evqp),
+    (0x3c, 'CMP', _AL, _Ib),
+    (0x3d, 'CMP', _rAX, _Ivds),
     (0x3e, 'TAKEN'),
     (0x3f, 'AAS'),
     (0x40, 'INC', _Zv),
@@ -783,9 +783,9 @@ OPCODES_TABLE = (
     (0x63, 'MOVSXD', _Gdqp, _Ed),
     (0x64, 'ALTER'),
     (0x68, 'PUSH', _Ivs),
-    (0x69, 'IMUL', _Gvqp, _Evqp),
+    (0x69, 'IMUL', _Gvqp, _Evqp, _Ivds),
     (0x6a, 'PUSH', _Ibss),
-    (0x6b, 'IMUL', _Gvqp, _Evqp),
+    (0x6b, 'IMUL', _Gvqp, _Evqp, _Ibs),
     (0x6c, 'INS', _Yb, _DX),
     (0x6c, 'INSB'),
     (0x6d, 'INS', _Ywo, _DX),
@@ -835,7 +835,7 @@ OPCODES_TABLE = (
     (0x80, 'AND', _Eb, _Ib),
     (0x80, 'SUB', _Eb, _Ib),
     (0x80, 'XOR', _Eb, _Ib),
-    (0x80, 'CMP', _Eb),
+    (0x80, 'CMP', _Eb, _Ib),
     (0x81, 'ADD', _Evqp, _Ivds),
     (0x81, 'OR', _Evqp, _Ivds),
     (0x81, 'ADC', _Evqp, _Ivds),
@@ -843,7 +843,7 @@ OPCODES_TABLE = (
     (0x81, 'AND', _Evqp, _Ivds),
     (0x81, 'SUB', _Evqp, _Ivds),
     (0x81, 'XOR', _Evqp, _Ivds),
-    (0x81, 'CMP', _Evqp),
+    (0x81, 'CMP', _Evqp, _Ivds),
     (0x82, 'ADD', _Eb, _Ib),
     (0x82, 'OR', _Eb, _Ib),
     (0x82, 'ADC', _Eb, _Ib),
@@ -851,7 +851,7 @@ OPCODES_TABLE = (
     (0x82, 'AND', _Eb, _Ib),
     (0x82, 'SUB', _Eb, _Ib),
     (0x82, 'XOR', _Eb, _Ib),
-    (0x82, 'CMP', _Eb),
+    (0x82, 'CMP', _Eb, _Ib),
     (0x83, 'ADD', _Evqp, _Ibs),
     (0x83, 'OR', _Evqp, _Ibs),
     (0x83, 'ADC', _Evqp, _Ibs),
@@ -859,11 +859,11 @@ OPCODES_TABLE = (
     (0x83, 'AND', _Evqp, _Ibs),
     (0x83, 'SUB', _Evqp, _Ibs),
     (0x83, 'XOR', _Evqp, _Ibs),
-    (0x83, 'CMP', _Evqp),
-    (0x84, 'TEST', _Eb),
-    (0x85, 'TEST', _Evqp),
-    (0x86, 'XCHG', _Gb),
-    (0x87, 'XCHG', _Gvqp),
+    (0x83, 'CMP', _Evqp, _Ibs),
+    (0x84, 'TEST', _Eb, _Gb),
+    (0x85, 'TEST', _Evqp, _Gvqp),
+    (0x86, 'XCHG', _Gb, _Eb),
+    (0x87, 'XCHG', _Gvqp, _Evqp),
     (0x88, 'MOV', _Eb, _Gb),
     (0x89, 'MOV', _Evqp, _Gvqp),
     (0x8a, 'MOV', _Gb, _Eb),
@@ -874,7 +874,7 @@ OPCODES_TABLE = (
     (0x8e, 'MOV', _Sw, _Ew),
     (0x8f, 'POP', _Ev),
     (0x8f, 'POP', _Evq),
-    (0x90, 'XCHG', _Zvqp),
+    (0x90, 'XCHG', _Zvqp, _rAX),
     (0x90, 'NOP'),
     (0x90, 'NOP'),
     (0x90, 'PAUSE'),
@@ -925,8 +925,8 @@ OPCODES_TABLE = (
     (0xa7, 'CMPSW'),
     (0xa7, 'CMPSD'),
     (0xa7, 'CMPSQ'),
-    (0xa8, 'TEST', _AL),
-    (0xa9, 'TEST', _rAX),
+    (0xa8, 'TEST', _AL, _Ib),
+    (0xa9, 'TEST', _rAX, _Ivds),
     (0xaa, 'STOS', _Yb),
     (0xaa, 'STOSB'),
     (0xab, 'STOS', _Ywo),
@@ -979,7 +979,7 @@ OPCODES_TABLE = (
     (0xc1, 'SAL', _Evqp, _Ib),
     (0xc1, 'SHL', _Evqp, _Ib),
     (0xc1, 'SAR', _Evqp, _Ib),
-    (0xc2, 'RETN'),
+    (0xc2, 'RETN', _Iw),
     (0xc3, 'RETN'),
     (0xc3, 'RET'),
     (0xc6, 'MOV', _Eb, _Ib),
@@ -1258,16 +1258,16 @@ OPCODES_TABLE = (
     (0xf3, 'REP'),
     (0xf4, 'HLT'),
     (0xf5, 'CMC'),
-    (0xf6, 'TEST', _Eb),
-    (0xf6, 'TEST', _Eb),
+    (0xf6, 'TEST', _Eb, _Ib),
+    (0xf6, 'TEST', _Eb, _Ib),
     (0xf6, 'NOT', _Eb),
     (0xf6, 'NEG', _Eb),
-    (0xf6, 'MUL'),
-    (0xf6, 'IMUL'),
-    (0xf6, 'DIV'),
-    (0xf6, 'IDIV'),
-    (0xf7, 'TEST', _Evqp),
-    (0xf7, 'TEST', _Evqp),
+    (0xf6, 'MUL', _Eb),
+    (0xf6, 'IMUL', _Eb),
+    (0xf6, 'DIV', _Eb),
+    (0xf6, 'IDIV', _Eb),
+    (0xf7, 'TEST', _Evqp, _Ivds),
+    (0xf7, 'TEST', _Evqp, _Ivds),
     (0xf7, 'NOT', _Evqp),
     (0xf7, 'NEG', _Evqp),
     (0xf7, 'MUL', _Evqp),
@@ -1763,13 +1763,13 @@ OPCODES_TABLE = (
     (0xf9f, 'SETNLE', _Eb),
     (0xf9f, 'SETG', _Eb),
     (0xfa2, 'CPUID'),
-    (0xfa3, 'BT', _Evqp),
-    (0xfa4, 'SHLD', _Evqp, _Gvqp),
-    (0xfa5, 'SHLD', _Evqp, _Gvqp),
+    (0xfa3, 'BT', _Evqp, _Gvqp),
+    (0xfa4, 'SHLD', _Evqp, _Gvqp, _Ib),
+    (0xfa5, 'SHLD', _Evqp, _Gvqp, _CL),
     (0xfaa, 'RSM'),
     (0xfab, 'BTS', _Evqp, _Gvqp),
-    (0xfac, 'SHRD', _Evqp, _Gvqp),
-    (0xfad, 'SHRD', _Evqp, _Gvqp),
+    (0xfac, 'SHRD', _Evqp, _Gvqp, _Ib),
+    (0xfad, 'SHRD', _Evqp, _Gvqp, _CL),
     (0xfae, 'FXSAVE', _Mstx),
     (0xfae, 'FXSAVE', _Mstx),
     (0xfae, 'FXRSTOR', _Mstx),
@@ -1793,7 +1793,7 @@ OPCODES_TABLE = (
     (0xfb8, 'JMPE'),
     (0xfb8, 'POPCNT', _Gvqp, _Evqp),
     (0xfb9, 'UD', _G),
-    (0xfba, 'BT', _Evqp),
+    (0xfba, 'BT', _Evqp, _Ib),
     (0xfba, 'BTS', _Evqp, _Ib),
     (0xfba, 'BTR', _Evqp, _Ib),
     (0xfba, 'BTC', _Evqp, _Ib),
@@ -1802,8 +1802,8 @@ OPCODES_TABLE = (
     (0xfbd, 'BSR', _Gvqp, _Evqp),
     (0xfbe, 'MOVSX', _Gvqp, _Eb),
     (0xfbf, 'MOVSX', _Gvqp, _Ew),
-    (0xfc0, 'XADD', _Eb),
-    (0xfc1, 'XADD', _Evqp),
+    (0xfc0, 'XADD', _Eb, _Gb),
+    (0xfc1, 'XADD', _Evqp, _Gvqp),
     (0xfc2, 'CMPPS', _Vps, _Wps),
     (0xfc2, 'CMPSS', _Vss, _Wss),
     (0xfc2, 'CMPPD', _Vpd, _Wpd),
@@ -1948,8 +1948,6 @@ class X86OpCode:
                     return pack_byte(base) + self.assembler.instructions[new_instr.tokens[0].upper()](new_instr)
                 if len(instr.tokens) == 1:
                     return pack_byte(base)
-                raise InvalidOpCodeArguments(instr)
-            if len(instr.tokens) < 2:
                 continue
             index = 1
             skip = False
@@ -1959,6 +1957,9 @@ class X86OpCode:
             else:
                 new_base = [base]
             for arg in args:
+                if index >= len(instr.tokens):
+                    skip = True
+                    break
                 delta_base_and_blob = arg(
                     instr, new_base, self.assembler, index, modrm)
                 if not delta_base_and_blob or len(delta_base_and_blob) != 3:
@@ -1968,7 +1969,7 @@ class X86OpCode:
                     new_index, new_base, new_blob = delta_base_and_blob
                     index += new_index
                     full_blob += new_blob
-            if not skip:
+            if not skip and index == len(instr.tokens):
                 return pack_byte(*new_base) + full_blob
 
 
-- 
2.43.0


From 4fb0c655c9a426e4d1ff3928de6b670ae6fdf723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 70/81] fix: emit all opcode bytes of x86 instructions without
 operands

---
 necroassembler/cpu/x86.py | 197 +++++++++++++++++++-------------------
 1 file changed, 99 insertions(+), 98 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index db90bca..4a927f4 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -877,7 +877,7 @@ OPCODES_TABLE = (
     (0x90, 'XCHG', _Zvqp, _rAX),
     (0x90, 'NOP'),
     (0x90, 'NOP'),
-    (0x90, 'PAUSE'),
+    (0xf390, 'PAUSE'),
     (0x98, 'CBW'),
     (0x98, 'CWDE'),
     (0x98, 'CBW'),
@@ -1038,9 +1038,9 @@ OPCODES_TABLE = (
     (0xd3, 'SAL', _Evqp, _CL),
     (0xd3, 'SHL', _Evqp, _CL),
     (0xd3, 'SAR', _Evqp, _CL),
-    (0xd4, 'AAM'),
+    (0xd40a, 'AAM'),
     (0xd4, 'AMX', _Ib),
-    (0xd5, 'AAD'),
+    (0xd50a, 'AAD'),
     (0xd5, 'ADX', _Ib),
     (0xd6, 'SALC'),
     (0xd6, 'SETALC'),
@@ -1050,10 +1050,10 @@ OPCODES_TABLE = (
     (0xd8, 'FADD', _ST, _EST),
     (0xd8, 'FMUL', _Msr),
     (0xd8, 'FMUL', _ST, _EST),
-    (0xd8, 'FCOM'),
-    (0xd8, 'FCOM'),
-    (0xd8, 'FCOMP'),
-    (0xd8, 'FCOMP'),
+    (0xd8d1, 'FCOM'),
+    (0xd8d1, 'FCOM'),
+    (0xd8d9, 'FCOMP'),
+    (0xd8d9, 'FCOMP'),
     (0xd8, 'FSUB', _Msr),
     (0xd8, 'FSUB', _ST, _EST),
     (0xd8, 'FSUBR', _Msr),
@@ -1063,57 +1063,57 @@ OPCODES_TABLE = (
     (0xd8, 'FDIVR', _Msr),
     (0xd8, 'FDIVR', _ST, _EST),
     (0xd9, 'FLD', _ESsr),
-    (0xd9, 'FXCH'),
-    (0xd9, 'FXCH'),
+    (0xd9c9, 'FXCH'),
+    (0xd9c9, 'FXCH'),
     (0xd9, 'FST', _Msr),
-    (0xd9, 'FNOP'),
+    (0xd9d0, 'FNOP'),
     (0xd9, 'FSTP', _Msr),
     (0xd9, 'FSTP1', _EST),
     (0xd9, 'FSTP1', _EST),
     (0xd9, 'FLDENV', _Me),
-    (0xd9, 'FCHS'),
-    (0xd9, 'FABS'),
-    (0xd9, 'FTST'),
-    (0xd9, 'FXAM'),
+    (0xd9e0, 'FCHS'),
+    (0xd9e1, 'FABS'),
+    (0xd9e4, 'FTST'),
+    (0xd9e5, 'FXAM'),
     (0xd9, 'FLDCW', _Mw),
-    (0xd9, 'FLD1'),
-    (0xd9, 'FLDL2T'),
-    (0xd9, 'FLDL2E'),
-    (0xd9, 'FLDPI'),
-    (0xd9, 'FLDLG2'),
-    (0xd9, 'FLDLN2'),
-    (0xd9, 'FLDZ'),
+    (0xd9e8, 'FLD1'),
+    (0xd9e9, 'FLDL2T'),
+    (0xd9ea, 'FLDL2E'),
+    (0xd9eb, 'FLDPI'),
+    (0xd9ec, 'FLDLG2'),
+    (0xd9ed, 'FLDLN2'),
+    (0xd9ee, 'FLDZ'),
     (0xd9, 'FNSTENV', _Me),
     (0xd9, 'FSTENV', _Me),
-    (0xd9, 'F2XM1'),
-    (0xd9, 'FYL2X'),
-    (0xd9, 'FPTAN'),
-    (0xd9, 'FPATAN'),
-    (0xd9, 'FXTRACT'),
-    (0xd9, 'FPREM1'),
-    (0xd9, 'FDECSTP'),
-    (0xd9, 'FINCSTP'),
+    (0xd9f0, 'F2XM1'),
+    (0xd9f1, 'FYL2X'),
+    (0xd9f2, 'FPTAN'),
+    (0xd9f3, 'FPATAN'),
+    (0xd9f4, 'FXTRACT'),
+    (0xd9f5, 'FPREM1'),
+    (0xd9f6, 'FDECSTP'),
+    (0xd9f7, 'FINCSTP'),
     (0xd9, 'FNSTCW', _Mw),
     (0xd9, 'FSTCW', _Mw),
-    (0xd9, 'FPREM'),
-    (0xd9, 'FYL2XP1'),
-    (0xd9, 'FSQRT'),
-    (0xd9, 'FSINCOS'),
-    (0xd9, 'FRNDINT'),
-    (0xd9, 'FSCALE'),
-    (0xd9, 'FSIN'),
-    (0xd9, 'FCOS'),
+    (0xd9f8, 'FPREM'),
+    (0xd9f9, 'FYL2XP1'),
+    (0xd9fa, 'FSQRT'),
+    (0xd9fb, 'FSINCOS'),
+    (0xd9fc, 'FRNDINT'),
+    (0xd9fd, 'FSCALE'),
+    (0xd9fe, 'FSIN'),
+    (0xd9ff, 'FCOS'),
     (0xda, 'FIADD', _Mdi),
     (0xda, 'FCMOVB', _ST, _EST),
     (0xda, 'FIMUL', _Mdi),
     (0xda, 'FCMOVE', _ST, _EST),
-    (0xda, 'FICOM'),
+    (0xda, 'FICOM', _Mdi),
     (0xda, 'FCMOVBE', _ST, _EST),
-    (0xda, 'FICOMP'),
+    (0xda, 'FICOMP', _Mdi),
     (0xda, 'FCMOVU', _ST, _EST),
     (0xda, 'FISUB', _Mdi),
     (0xda, 'FISUBR', _Mdi),
-    (0xda, 'FUCOMPP'),
+    (0xdae9, 'FUCOMPP'),
     (0xda, 'FIDIV', _Mdi),
     (0xda, 'FIDIVR', _Mdi),
     (0xdb, 'FILD', _Mdi),
@@ -1124,19 +1124,19 @@ OPCODES_TABLE = (
     (0xdb, 'FCMOVNBE', _ST, _EST),
     (0xdb, 'FISTP', _Mdi),
     (0xdb, 'FCMOVNU', _ST, _EST),
-    (0xdb, 'FNENI'),
-    (0xdb, 'FENI'),
-    (0xdb, 'FNENI'),
-    (0xdb, 'FNDISI'),
-    (0xdb, 'FDISI'),
-    (0xdb, 'FNDISI'),
-    (0xdb, 'FNCLEX'),
-    (0xdb, 'FCLEX'),
-    (0xdb, 'FNINIT'),
-    (0xdb, 'FINIT'),
-    (0xdb, 'FNSETPM'),
-    (0xdb, 'FSETPM'),
-    (0xdb, 'FNSETPM'),
+    (0xdbe0, 'FNENI'),
+    (0x9bdbe0, 'FENI'),
+    (0xdbe0, 'FNENI'),
+    (0xdbe1, 'FNDISI'),
+    (0x9bdbe1, 'FDISI'),
+    (0xdbe1, 'FNDISI'),
+    (0xdbe2, 'FNCLEX'),
+    (0x9bdbe2, 'FCLEX'),
+    (0xdbe3, 'FNINIT'),
+    (0x9bdbe3, 'FINIT'),
+    (0xdbe4, 'FNSETPM'),
+    (0x9bdbe4, 'FSETPM'),
+    (0xdbe4, 'FNSETPM'),
     (0xdb, 'FLD', _Mer),
     (0xdb, 'FUCOMI', _ST),
     (0xdb, 'FCOMI', _ST),
@@ -1145,12 +1145,12 @@ OPCODES_TABLE = (
     (0xdc, 'FADD', _EST, _ST),
     (0xdc, 'FMUL', _Mdr),
     (0xdc, 'FMUL', _EST, _ST),
-    (0xdc, 'FCOM'),
-    (0xdc, 'FCOM2'),
-    (0xdc, 'FCOM2'),
-    (0xdc, 'FCOMP'),
-    (0xdc, 'FCOMP3'),
-    (0xdc, 'FCOMP3'),
+    (0xdc, 'FCOM', _Mdr),
+    (0xdcd1, 'FCOM2'),
+    (0xdcd1, 'FCOM2'),
+    (0xdc, 'FCOMP', _Mdr),
+    (0xdcd9, 'FCOMP3'),
+    (0xdcd9, 'FCOMP3'),
     (0xdc, 'FSUB', _Mdr),
     (0xdc, 'FSUBR', _EST, _ST),
     (0xdc, 'FSUBR', _Mdr),
@@ -1162,49 +1162,49 @@ OPCODES_TABLE = (
     (0xdd, 'FLD', _Mdr),
     (0xdd, 'FFREE', _EST),
     (0xdd, 'FISTTP', _Mqi),
-    (0xdd, 'FXCH4'),
-    (0xdd, 'FXCH4'),
+    (0xddc9, 'FXCH4'),
+    (0xddc9, 'FXCH4'),
     (0xdd, 'FST', _Mdr),
     (0xdd, 'FST', _EST),
     (0xdd, 'FSTP', _Mdr),
     (0xdd, 'FSTP', _EST),
     (0xdd, 'FRSTOR', _Mst),
-    (0xdd, 'FUCOM'),
-    (0xdd, 'FUCOM'),
-    (0xdd, 'FUCOMP'),
-    (0xdd, 'FUCOMP'),
+    (0xdde1, 'FUCOM'),
+    (0xdde1, 'FUCOM'),
+    (0xdde9, 'FUCOMP'),
+    (0xdde9, 'FUCOMP'),
     (0xdd, 'FNSAVE', _Mst),
     (0xdd, 'FSAVE', _Mst),
     (0xdd, 'FNSTSW', _Mw),
     (0xdd, 'FSTSW', _Mw),
     (0xde, 'FIADD', _Mwi),
     (0xde, 'FADDP', _EST, _ST),
-    (0xde, 'FADDP'),
+    (0xdec1, 'FADDP'),
     (0xde, 'FIMUL', _Mwi),
     (0xde, 'FMULP', _EST, _ST),
-    (0xde, 'FMULP'),
-    (0xde, 'FICOM'),
-    (0xde, 'FCOMP5'),
-    (0xde, 'FCOMP5'),
-    (0xde, 'FICOMP'),
-    (0xde, 'FCOMPP'),
+    (0xdec9, 'FMULP'),
+    (0xde, 'FICOM', _Mwi),
+    (0xded1, 'FCOMP5'),
+    (0xded1, 'FCOMP5'),
+    (0xde, 'FICOMP', _Mwi),
+    (0xded9, 'FCOMPP'),
     (0xde, 'FISUB', _Mwi),
     (0xde, 'FSUBRP', _EST, _ST),
-    (0xde, 'FSUBRP'),
+    (0xdee1, 'FSUBRP'),
     (0xde, 'FISUBR', _Mwi),
     (0xde, 'FSUBP', _EST, _ST),
-    (0xde, 'FSUBP'),
+    (0xdee9, 'FSUBP'),
     (0xde, 'FIDIV', _Mwi),
     (0xde, 'FDIVRP', _EST, _ST),
-    (0xde, 'FDIVRP'),
+    (0xdef1, 'FDIVRP'),
     (0xde, 'FIDIVR', _Mwi),
     (0xde, 'FDIVP', _EST, _ST),
-    (0xde, 'FDIVP'),
+    (0xdef9, 'FDIVP'),
     (0xdf, 'FILD', _Mwi),
     (0xdf, 'FFREEP', _EST),
     (0xdf, 'FISTTP', _Mwi),
-    (0xdf, 'FXCH7'),
-    (0xdf, 'FXCH7'),
+    (0xdfc9, 'FXCH7'),
+    (0xdfc9, 'FXCH7'),
     (0xdf, 'FIST', _Mwi),
     (0xdf, 'FSTP8', _EST),
     (0xdf, 'FSTP8', _EST),
@@ -1302,23 +1302,23 @@ OPCODES_TABLE = (
     (0xf00, 'VERW', _Ew),
     (0xf00, 'JMPE'),
     (0xf01, 'SGDT', _Ms),
-    (0xf01, 'VMCALL'),
-    (0xf01, 'VMLAUNCH'),
-    (0xf01, 'VMRESUME'),
-    (0xf01, 'VMXOFF'),
+    (0xf01c1, 'VMCALL'),
+    (0xf01c2, 'VMLAUNCH'),
+    (0xf01c3, 'VMRESUME'),
+    (0xf01c4, 'VMXOFF'),
     (0xf01, 'SIDT', _Ms),
-    (0xf01, 'MONITOR'),
-    (0xf01, 'MWAIT'),
+    (0xf01c8, 'MONITOR'),
+    (0xf01c9, 'MWAIT'),
     (0xf01, 'LGDT', _Ms),
-    (0xf01, 'XGETBV'),
-    (0xf01, 'XSETBV'),
+    (0xf01d0, 'XGETBV'),
+    (0xf01d1, 'XSETBV'),
     (0xf01, 'LIDT', _Ms),
     (0xf01, 'SMSW', _Mw),
     (0xf01, 'SMSW', _Rvqp),
     (0xf01, 'LMSW', _Ew),
     (0xf01, 'INVLPG', _M),
-    (0xf01, 'SWAPGS'),
-    (0xf01, 'RDTSCP'),
+    (0xf01f8, 'SWAPGS'),
+    (0xf01f9, 'RDTSCP'),
     (0xf02, 'LAR', _Gvqp, _Mw),
     (0xf02, 'LAR', _Gvqp, _Rv),
     (0xf03, 'LSL', _Gvqp, _Mw),
@@ -1778,11 +1778,11 @@ OPCODES_TABLE = (
     (0xfae, 'STMXCSR', _Md),
     (0xfae, 'XSAVE', _M),
     (0xfae, 'XSAVE', _M),
-    (0xfae, 'LFENCE'),
+    (0xfaee8, 'LFENCE'),
     (0xfae, 'XRSTOR', _M),
     (0xfae, 'XRSTOR', _M),
-    (0xfae, 'MFENCE'),
-    (0xfae, 'SFENCE'),
+    (0xfaef0, 'MFENCE'),
+    (0xfaef8, 'SFENCE'),
     (0xfae, 'CLFLUSH', _Mb),
     (0xfaf, 'IMUL', _Gvqp, _Evqp),
     (0xfb0, 'CMPXCHG', _Eb, _Gb),
@@ -1791,7 +1791,7 @@ OPCODES_TABLE = (
     (0xfb6, 'MOVZX', _Gvqp, _Eb),
     (0xfb7, 'MOVZX', _Gvqp, _Ew),
     (0xfb8, 'JMPE'),
-    (0xfb8, 'POPCNT', _Gvqp, _Evqp),
+    (0xf30fb8, 'POPCNT', _Gvqp, _Evqp),
     (0xfb9, 'UD', _G),
     (0xfba, 'BT', _Evqp, _Ib),
     (0xfba, 'BTS', _Evqp, _Ib),
@@ -1922,6 +1922,10 @@ OPCODES_TABLE = (
     (0xffe, 'PADDD', _Vdq, _Wdq)
 )
 
+def _opcode_bytes(value):
+    return list(value.to_bytes(max((value.bit_length() + 7) // 8, 1), 'big'))
+
+
 OPCODES_IMPLICIT_32 = ('STOSD', 'LODSD')
 
 
@@ -1941,21 +1945,18 @@ class X86OpCode:
             if not args:
                 if instr.tokens[0].upper() in OPCODES_IMPLICIT_32:
                     if self.assembler.bits == 16:
-                        return pack_byte(0x66, base)
+                        return pack_byte(0x66, *_opcode_bytes(base))
                 if instr.tokens[0].upper().startswith('REP'):
                     new_instr = Instruction(
                         instr.tokens[1:], instr.line, instr.context)
                     return pack_byte(base) + self.assembler.instructions[new_instr.tokens[0].upper()](new_instr)
                 if len(instr.tokens) == 1:
-                    return pack_byte(base)
+                    return pack_byte(*_opcode_bytes(base))
                 continue
             index = 1
             skip = False
             full_blob = b''
-            if base > 0xFF:
-                new_base = [base >> 8, base & 0xff]
-            else:
-                new_base = [base]
+            new_base = _opcode_bytes(base)
             for arg in args:
                 if index >= len(instr.tokens):
                     skip = True
-- 
2.43.0


From 77c9f27d84919d9289fd42163a03db7c5a360550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 71/81] fix: encode the opcode extensions of x86 instructions

---
 necroassembler/cpu/x86.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 4a927f4..b27702f 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -478,7 +478,6 @@ def _Mptp(instr, base, assembler, index, modrm):
 def _Ms(instr, base, assembler, index, modrm):
     if match(instr.tokens[index:index+3], '[', None, ']'):
         if instr.tokens[index+1].upper() not in ALL_REGS:
-            modrm['reg'] = 0
             modrm['mod'] = 0
             modrm['rm'] = 6
             if assembler.bits == 16:
@@ -1929,6 +1928,17 @@ def _opcode_bytes(value):
 OPCODES_IMPLICIT_32 = ('STOSD', 'LODSD')
 
 
+# opcodes completed by the reg field of their ModR/M byte
+OPCODES_EXTENSIONS = {
+    0x81: ('ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP'),
+    0xc7: ('MOV',),
+    0xf7: ('TEST', None, 'NOT', 'NEG', 'MUL', 'IMUL', 'DIV', 'IDIV'),
+    0xff: ('INC', 'DEC'),
+    0xf01: ('SGDT', 'SIDT', 'LGDT', 'LIDT', None, None, None, 'INVLPG'),
+    0xfae: (None, None, None, None, 'XSAVE', 'XRSTOR')
+}
+
+
 class X86OpCode:
 
     def __init__(self, assembler, name, base, args):
@@ -1942,6 +1952,8 @@ class X86OpCode:
     def __call__(self, instr):
         for base, args in self.conditions:
             modrm = {}
+            if self.name in OPCODES_EXTENSIONS.get(base, ()):
+                modrm['reg'] = OPCODES_EXTENSIONS[base].index(self.name)
             if not args:
                 if instr.tokens[0].upper() in OPCODES_IMPLICIT_32:
                     if self.assembler.bits == 16:
-- 
2.43.0


From 99ec78e6d04f674690d3e25ad6c5bb398943ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 72/81] fix: prefix x86 instructions by the size of their
 operands

---
 necroassembler/cpu/x86.py | 111 ++++++++++++--------------------------
 1 file changed, 34 insertions(+), 77 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index b27702f..7aca27b 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -96,31 +96,33 @@ def _Gb(instr, base, assembler, index, modrm):
     pass
 
 
-def _Evqp(instr, base, assembler, index, modrm):
-    arg = instr.tokens[index].upper()
-    if arg in REGS16:
-        modrm['mod'] = 3
-        modrm['rm'] = REGS16.index(arg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 16
-            if assembler.bits != 16:
-                base.insert(0, 0x66)
-        return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
+def _set_bits(assembler, base, modrm, bits):
+    # the first register chooses the size, the others must have the same one
+    if 'bits' in modrm:
+        return modrm['bits'] == bits
+    if bits == 64:
+        if assembler.bits != 64:
+            return False
+        # REX.W follows the other prefixes
+        base.insert(1 if base[0] in (0x67, 0xf3) else 0, 0x48)
+    elif (bits == 16) != (assembler.bits == 16):
+        base.insert(0, 0x66)
+    modrm['bits'] = bits
+    return True
+
+
+def _get_reg(assembler, base, modrm, reg):
+    for bits, regs in ((16, REGS16), (32, REGS32), (64, REGS64)):
+        if reg.upper() in regs and _set_bits(assembler, base, modrm, bits):
+            return regs.index(reg.upper())
 
-    if arg in REGS32:
-        modrm['mod'] = 3
-        modrm['rm'] = REGS32.index(arg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 32
-            if assembler.bits == 16:
-                base.insert(0, 0x66)
-        return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
 
-    if arg in REGS64:
+def _Evqp(instr, base, assembler, index, modrm):
+    arg = instr.tokens[index]
+    rm = _get_reg(assembler, base, modrm, arg)
+    if rm is not None:
         modrm['mod'] = 3
-        modrm['rm'] = REGS64.index(arg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 64
+        modrm['rm'] = rm
         return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
 
     if arg == '[':
@@ -137,51 +139,18 @@ def _Evqp(instr, base, assembler, index, modrm):
 
 
 def _Gvqp(instr, base, assembler, index, modrm):
-    reg = instr.tokens[index].upper()
-    if reg in REGS16:
-        modrm['reg'] = REGS16.index(reg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 16
-            if assembler.bits != 16:
-                base.insert(0, 0x66)
-        if index > 1:
-            return 1, base, _build_modrm(assembler, base, modrm)
-        return 1, base, b''
-    if reg in REGS32:
-        modrm['reg'] = REGS32.index(reg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 32
-            if assembler.bits == 16:
-                base.insert(0, 0x66)
-        if index > 1:
-            return 1, base, _build_modrm(assembler, base, modrm)
-        return 1, base, b''
-    if reg in REGS64:
-        modrm['reg'] = REGS64.index(reg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 64
+    reg = _get_reg(assembler, base, modrm, instr.tokens[index])
+    if reg is not None:
+        modrm['reg'] = reg
         if index > 1:
             return 1, base, _build_modrm(assembler, base, modrm)
         return 1, base, b''
 
 
 def _Zvqp(instr, base, assembler, index, modrm):
-    reg = instr.tokens[index].upper()
-    if reg in REGS32:
-        base = _apply_Z(base, reg, REGS32)
-        if assembler.bits == 16:
-            base.insert(0, 0x66)
-        modrm['bits'] = 32
-        return 1, base, b''
-    if reg in REGS64:
-        base = _apply_Z(base, reg, REGS64)
-        modrm['bits'] = 64
-        return 1, base, b''
-    if reg in REGS16:
-        if assembler.bits != 16:
-            base.insert(0, 0x66)
-        modrm['bits'] = 16
-        base = _apply_Z(base, reg, REGS16)
+    reg = _get_reg(assembler, base, modrm, instr.tokens[index])
+    if reg is not None:
+        base[-1] |= reg
         return 1, base, b''
 
 
@@ -217,19 +186,9 @@ def _Ivds(instr, base, assembler, index, modrm):
 
 
 def _rAX(instr, base, assembler, index, modrm):
-    if instr.tokens[index].upper() == 'AX':
-        modrm['bits'] = 16
-        if assembler.bits != 16:
-            base.insert(0, 0x66)
-        return 1, base, b''
-    if instr.tokens[index].upper() == 'EAX':
-        modrm['bits'] = 32
-        if assembler.bits == 16:
-            base.insert(0, 0x66)
-        return 1, base, b''
-    if instr.tokens[index].upper() == 'RAX':
-        modrm['bits'] = 64
-        return 1, base, b''
+    if instr.tokens[index].upper() in ('AX', 'EAX', 'RAX'):
+        if _get_reg(assembler, base, modrm, instr.tokens[index]) is not None:
+            return 1, base, b''
 
 
 def _Zv(instr, base, assembler, index, modrm):
@@ -238,10 +197,8 @@ def _Zv(instr, base, assembler, index, modrm):
 
 def _Zvq(instr, base, assembler, index, modrm):
     reg = instr.tokens[index].upper()
-    if reg in REGS64:
+    if reg in REGS64 and assembler.bits == 64:
         base = _apply_Z(base, reg, REGS64)
-        if assembler.bits == 16:
-            base.insert(0, 0x66)
         modrm['bits'] = 64
         return 1, base, b''
     if reg in REGS16:
-- 
2.43.0


From 099a375d6b65f226255395b46902a74bf7869278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 73/81] fix: encode x86 memory operands with the address size
 of their registers

---
 necroassembler/cpu/x86.py | 208 ++++++++++++++++++++------------------
 1 file changed, 108 insertions(+), 100 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 7aca27b..f622a65 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -1,7 +1,7 @@
 from necroassembler import Assembler, directive
 from necroassembler.exceptions import InvalidOpCodeArguments, InvalidArgumentsForDirective
 from necroassembler.utils import (pack_byte, pack_le16u, pack_le32u,
-                                  pack_le64u, pack_bits, pack_le16s, pack_le32s, pack_le64s, match)
+                                  pack_le64u, pack_bits, match)
 from necroassembler.statements import Instruction
 
 REGS8 = ('AL', 'CL', 'DL', 'BL', 'AH', 'CH', 'DH', 'BH')
@@ -14,72 +14,97 @@ SEGMENTS = ('ES', 'CS', 'SS', 'DS')
 ALL_REGS = REGS8 + REGS16 + REGS32 + REGS64 + CREGS + SEGMENTS
 
 
+# base and index registers of 16 bit addresses, in ModR/M order
+ADDRESSES16 = (('BX', 'SI'), ('BX', 'DI'), ('BP', 'SI'), ('BP', 'DI'),
+               ('SI',), ('DI',), ('BP',), ('BX',))
+
+
+def _modrm_size(modrm):
+    if 'mod' not in modrm:
+        return 0
+    return 1 + len(modrm.get('sib', b'')) + modrm.get('displacement_size', 0)
+
+
 def _build_modrm(assembler, base, modrm):
     blob = pack_byte(pack_bits(0,
                                ((7, 6), modrm['mod']),
                                ((5, 3), modrm['reg']),
-                               ((2, 0), modrm['rm'])))
+                               ((2, 0), modrm['rm']))) + modrm.get('sib', b'')
 
-    if modrm.get('displacement') is not None:
-        if modrm['bits'] == 16:
-            blob += pack_le16s(assembler.parse_integer_or_label(
+    size = modrm.get('displacement_size', 0)
+    if size:
+        displacement = 0
+        if modrm['displacement'] is not None:
+            displacement = assembler.parse_integer_or_label(
                 modrm['displacement'].lstrip('+'),
-                size=2,
-                bits_size=16,
-                offset=len(base),
-                signed=True))
-        if modrm['bits'] == 32:
-            blob += pack_le32s(assembler.parse_integer_or_label(
-                modrm['displacement'].lstrip('+'),
-                size=4,
-                bits_size=32,
-                offset=len(base),
-                signed=True))
-        if modrm['bits'] == 64:
-            blob += pack_le64s(assembler.parse_integer_or_label(
-                modrm['displacement'].lstrip('+'),
-                size=8,
-                bits_size=64,
-                offset=len(base),
-                signed=True))
+                size=size,
+                bits_size=size * 8,
+                offset=len(base) + len(blob),
+                signed=modrm.get('signed', True))
+        blob += pack_le16u(displacement) if size == 2 else pack_le32u(displacement)
     return blob
 
 
-def _get_modrm_mod(arg):
-    if match(arg, ('BX', 'EBX', 'RBX'), '+', ('SI', 'ESI', 'RSI')):
-        return 0b00, 0b000, 3, None
-    if match(arg, ('BX', 'EBX', 'RBX'), '+', ('DI', 'EDI', 'RDI')):
-        return 0b00, 0b001, 3, None
-    if match(arg, ('BP', 'EBP', 'RBP'), '+', ('SI', 'ESI', 'RSI')):
-        return 0b00, 0b010, 3, None
-    if match(arg, ('BP', 'EBP', 'RBP'), '+', ('DI', 'EDI', 'RDI')):
-        return 0b00, 0b011, 3, None
-    if match(arg, ('SI', 'ESI', 'RSI')):
-        return 0b00, 0b100, 1, None
-    if match(arg, ('DI', 'EDI', 'RDI')):
-        return 0b00, 0b101, 1, None
-    if match(arg, ('BP', 'EBP', 'RBP')):
-        return 0b00, 0b110, 1, None
-    if match(arg, ('BX', 'EBX', 'RBX')):
-        return 0b00, 0b111, 1, None
-    # displacement (16 bit only)
-    if match(arg, 'BX', '+', 'SI', ('+', '-'), None):
-        return 0b10, 0b000, 5, arg[3] + arg[4]
-    if match(arg, 'BX', '+', 'DI', ('+', '-'), None):
-        return 0b10, 0b001, 5, arg[3] + arg[4]
-    if match(arg, 'BP', '+', 'SI', ('+', '-'), None):
-        return 0b10, 0b010, 5, arg[3] + arg[4]
-    if match(arg, 'BP', '+', 'DI', ('+', '-'), None):
-        return 0b10, 0b011, 5, arg[3] + arg[4]
-    if match(arg, 'SI', ('+', '-'), None):
-        return 0b10, 0b100, 3, arg[1] + arg[2]
-    if match(arg, 'DI', ('+', '-'), None):
-        return 0b10, 0b101, 3, arg[1] + arg[2]
-    if match(arg, 'BP', ('+', '-'), None):
-        return 0b10, 0b110, 3, arg[1] + arg[2]
-    if match(arg, 'BX', ('+', '-'), None):
-        return 0b10, 0b111, 3, arg[1] + arg[2]
-    raise InvalidOpCodeArguments()
+def _get_address(assembler, base, modrm, arg):
+    for bits, regs in ((16, REGS16), (32, REGS32), (64, REGS64)):
+        if arg and arg[0].upper() in regs:
+            break
+    else:
+        return False
+
+    address = [arg[0].upper()]
+    if len(arg) > 2 and arg[1] == '+' and arg[2].upper() in regs:
+        address.append(arg[2].upper())
+    displacement = arg[len(address) * 2 - 1:]
+    if displacement and not match(displacement, ('+', '-'), None):
+        return False
+    if displacement and displacement[1].upper() in ALL_REGS:
+        return False
+
+    if bits == 16:
+        if assembler.bits == 64 or tuple(address) not in ADDRESSES16:
+            return False
+        modrm['rm'] = ADDRESSES16.index(tuple(address))
+        # BP alone has no form without displacement
+        has_displacement = bool(displacement) or address == ['BP']
+        size = 2
+    else:
+        if bits == 64 and assembler.bits != 64:
+            return False
+        address = [regs.index(reg) for reg in address]
+        if len(address) == 2:
+            # the stack pointer can not be an index
+            if address[1] == 4:
+                return False
+            modrm['rm'] = 4
+            modrm['sib'] = pack_byte(address[1] << 3 | address[0])
+        else:
+            modrm['rm'] = address[0]
+            if address[0] == 4:
+                modrm['sib'] = pack_byte(0x24)
+        # neither has the base pointer
+        has_displacement = bool(displacement) or address[0] == 5
+        size = 4
+
+    modrm['mod'] = 0b10 if has_displacement else 0b00
+    if has_displacement:
+        modrm['displacement'] = displacement[0] + \
+            displacement[1] if displacement else None
+        modrm['displacement_size'] = size
+    if bits != assembler.bits:
+        base.insert(0, 0x67)
+    return True
+
+
+def _get_memory(instr, base, assembler, index, modrm):
+    if instr.tokens[index] != '[':
+        return None
+    try:
+        end_index = instr.tokens.index(']', index+1)
+    except ValueError:
+        raise InvalidOpCodeArguments(instr)
+    if _get_address(assembler, base, modrm, tuple(instr.tokens[index+1:end_index])):
+        return end_index - index + 1, base, b''
 
 
 def _apply_Z(base, reg, regs):
@@ -118,32 +143,21 @@ def _get_reg(assembler, base, modrm, reg):
 
 
 def _Evqp(instr, base, assembler, index, modrm):
-    arg = instr.tokens[index]
-    rm = _get_reg(assembler, base, modrm, arg)
+    rm = _get_reg(assembler, base, modrm, instr.tokens[index])
     if rm is not None:
         modrm['mod'] = 3
         modrm['rm'] = rm
-        return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
+        return 1, base, b''
 
-    if arg == '[':
-        try:
-            end_index = instr.tokens.index(']', index+1)
-        except ValueError:
-            raise InvalidOpCodeArguments(instr)
-        try:
-            modrm['mod'], modrm['rm'], delta, modrm['displacement'] = _get_modrm_mod(
-                tuple(instr.tokens[index+1:end_index]))
-            return 2 + delta, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
-        except InvalidOpCodeArguments:
-            return None
+    # the size comes from another operand
+    modrm['needs_bits'] = True
+    return _get_memory(instr, base, assembler, index, modrm)
 
 
 def _Gvqp(instr, base, assembler, index, modrm):
     reg = _get_reg(assembler, base, modrm, instr.tokens[index])
     if reg is not None:
         modrm['reg'] = reg
-        if index > 1:
-            return 1, base, _build_modrm(assembler, base, modrm)
         return 1, base, b''
 
 
@@ -179,10 +193,10 @@ def _Ivds(instr, base, assembler, index, modrm):
         if 'bits' in modrm:
             if modrm['bits'] == 16:
                 return 1, base, pack_le16u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=2, bits_size=16, offset=len(base)))
+                    instr.tokens[index], size=2, bits_size=16, offset=len(base) + _modrm_size(modrm)))
             if modrm['bits'] == 32:
                 return 1, base, pack_le32u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=4, bits_size=32, offset=len(base)))
+                    instr.tokens[index], size=4, bits_size=32, offset=len(base) + _modrm_size(modrm)))
 
 
 def _rAX(instr, base, assembler, index, modrm):
@@ -266,17 +280,7 @@ def _Sw(instr, base, assembler, index, modrm):
 
 
 def _M(instr, base, assembler, index, modrm):
-    if instr.tokens[index] == '[':
-        try:
-            end_index = instr.tokens.index(']', index+1)
-        except ValueError:
-            raise InvalidOpCodeArguments(instr)
-        try:
-            modrm['mod'], modrm['rm'], delta, modrm['displacement'] = _get_modrm_mod(
-                tuple(instr.tokens[index+1:end_index]))
-            return 2 + delta, base,  b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
-        except InvalidOpCodeArguments:
-            return None
+    return _get_memory(instr, base, assembler, index, modrm)
 
 
 def _Evq(instr, base, assembler, index, modrm):
@@ -304,13 +308,13 @@ def _Ivqp(instr, base, assembler, index, modrm):
         if 'bits' in modrm:
             if modrm['bits'] == 16:
                 return 1, base, pack_le16u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=2, bits_size=16, offset=len(base)))
+                    instr.tokens[index], size=2, bits_size=16, offset=len(base) + _modrm_size(modrm)))
             if modrm['bits'] == 32:
                 return 1, base, pack_le32u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=4, bits_size=32, offset=len(base)))
+                    instr.tokens[index], size=4, bits_size=32, offset=len(base) + _modrm_size(modrm)))
             if modrm['bits'] == 64:
                 return 1, base, pack_le64u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=8, bits_size=64, offset=len(base)))
+                    instr.tokens[index], size=8, bits_size=64, offset=len(base) + _modrm_size(modrm)))
 
 
 def _Iw(instr, base, assembler, index, modrm):
@@ -436,16 +440,17 @@ def _Ms(instr, base, assembler, index, modrm):
     if match(instr.tokens[index:index+3], '[', None, ']'):
         if instr.tokens[index+1].upper() not in ALL_REGS:
             modrm['mod'] = 0
-            modrm['rm'] = 6
+            modrm['displacement'] = instr.tokens[index+1]
+            modrm['displacement_size'] = 2 if assembler.bits == 16 else 4
+            modrm['signed'] = assembler.bits == 64
             if assembler.bits == 16:
-                return 3, base, _build_modrm(assembler, base, modrm) + pack_le16u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=2, bits_size=16, offset=len(base)))
+                modrm['rm'] = 6
             elif assembler.bits == 32:
-                return 3, base, _build_modrm(assembler, base, modrm) + pack_le32u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=4, bits_size=32, offset=len(base)))
+                modrm['rm'] = 5
             elif assembler.bits == 64:
-                return 3, base, _build_modrm(assembler, base, modrm) + pack_le64u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=8, bits_size=64, offset=len(base)))
+                modrm['rm'] = 4
+                modrm['sib'] = pack_byte(0x25)
+            return 3, base, b''
 
 
 def _Rv(instr, base, assembler, index, modrm):
@@ -509,15 +514,13 @@ def _Rd(instr, base, assembler, index, modrm):
     if reg in REGS32:
         modrm['mod'] = 3
         modrm['rm'] = REGS32.index(reg)
-        return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
+        return 1, base, b''
 
 
 def _Cd(instr, base, assembler, index, modrm):
     reg = instr.tokens[index].upper()
     if reg in CREGS:
         modrm['reg'] = CREGS.index(reg)
-        if index > 1:
-            return 1, base, _build_modrm(assembler, base, modrm)
         return 1, base, b''
 
 
@@ -1939,7 +1942,12 @@ class X86OpCode:
                     new_index, new_base, new_blob = delta_base_and_blob
                     index += new_index
                     full_blob += new_blob
+            if modrm.get('needs_bits') and 'bits' not in modrm:
+                skip = True
             if not skip and index == len(instr.tokens):
+                if 'mod' in modrm:
+                    full_blob = _build_modrm(
+                        self.assembler, new_base, modrm) + full_blob
                 return pack_byte(*new_base) + full_blob
 
 
-- 
2.43.0


From d06e53d2d3275a2b8588951e3fa0f9e048349300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 74/81] fix: prefix x86 instructions without operands by their
 size

---
 necroassembler/cpu/x86.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index f622a65..ca1878e 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -1885,7 +1885,13 @@ def _opcode_bytes(value):
     return list(value.to_bytes(max((value.bit_length() + 7) // 8, 1), 'big'))
 
 
-OPCODES_IMPLICIT_32 = ('STOSD', 'LODSD')
+# instructions without operands that need the prefix of their operand size
+OPCODES_IMPLICIT_16 = ('STOSW', 'LODSW', 'MOVSW', 'CMPSW', 'SCASW', 'INSW', 'OUTSW',
+                       'PUSHA', 'POPA', 'PUSHF', 'POPF', 'IRET', 'CBW', 'CWD')
+OPCODES_IMPLICIT_32 = ('STOSD', 'LODSD', 'MOVSD', 'CMPSD', 'SCASD', 'INSD', 'OUTSD',
+                       'PUSHAD', 'POPAD', 'PUSHFD', 'POPFD', 'IRETD', 'CWDE', 'CDQ')
+OPCODES_IMPLICIT_64 = ('STOSQ', 'LODSQ', 'MOVSQ', 'CMPSQ', 'SCASQ',
+                       'PUSHFQ', 'POPFQ', 'IRETQ', 'CDQE', 'CQO')
 
 
 # opcodes completed by the reg field of their ModR/M byte
@@ -1915,16 +1921,24 @@ class X86OpCode:
             if self.name in OPCODES_EXTENSIONS.get(base, ()):
                 modrm['reg'] = OPCODES_EXTENSIONS[base].index(self.name)
             if not args:
-                if instr.tokens[0].upper() in OPCODES_IMPLICIT_32:
-                    if self.assembler.bits == 16:
-                        return pack_byte(0x66, *_opcode_bytes(base))
                 if instr.tokens[0].upper().startswith('REP'):
                     new_instr = Instruction(
                         instr.tokens[1:], instr.line, instr.context)
                     return pack_byte(base) + self.assembler.instructions[new_instr.tokens[0].upper()](new_instr)
-                if len(instr.tokens) == 1:
-                    return pack_byte(*_opcode_bytes(base))
-                continue
+                if len(instr.tokens) > 1:
+                    continue
+                prefix = b''
+                if self.name in OPCODES_IMPLICIT_16 and self.assembler.bits != 16:
+                    prefix = pack_byte(0x66)
+                if self.name in OPCODES_IMPLICIT_32 and self.assembler.bits == 16:
+                    prefix = pack_byte(0x66)
+                if self.name in OPCODES_IMPLICIT_64:
+                    if self.assembler.bits != 64:
+                        continue
+                    # these are always 64 bit wide
+                    if self.name not in ('PUSHFQ', 'POPFQ'):
+                        prefix = pack_byte(0x48)
+                return prefix + pack_byte(*_opcode_bytes(base))
             index = 1
             skip = False
             full_blob = b''
-- 
2.43.0


From 4fb56ad46b155f9e38fb9e48f1156c2c3ae3ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 75/81] fix: accept 6502 expressions on labels that are not
 defined yet

---
 necroassembler/cpu/mos6502.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mos6502.py b/necroassembler/cpu/mos6502.py
index 1a76b9b..e1021e9 100644
--- a/necroassembler/cpu/mos6502.py
+++ b/necroassembler/cpu/mos6502.py
@@ -1,7 +1,7 @@
 
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack, pack_byte, known_args
-from necroassembler.exceptions import AssemblerException
+from necroassembler.exceptions import AssemblerException, UnknownLabel
 
 
 class InvalidMode(AssemblerException):
@@ -108,7 +108,11 @@ class AssemblerMOS6502(Assembler):
         # label management
 
         # check for already defined label (zero page optimization)
-        address = self.get_label_absolute_address_by_name(arg)
+        try:
+            address = self.get_label_absolute_address_by_name(arg)
+        except UnknownLabel:
+            # an expression can use labels that are not defined yet
+            address = None
         if address is None:
             if absolute is None:
                 raise AbsoluteAddressNotAllowed()
-- 
2.43.0


From d5676dffcc557f347181383336b685437b35575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 76/81] fix: store wide text in the byte order of the target

---
 necroassembler/assembler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 680274c..9ca17b5 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -545,11 +545,15 @@ class Assembler:
         self.assembled_bytes += blob
         self.org_counter += len(blob)
 
+    def _encode_wide(self, text, encoding):
+        # text starts with a byte order mark, in the order of the target
+        return ('\ufeff' + text).encode(encoding + ('-be' if self.big_endian else '-le'))
+
     def directive_dw(self, instr):
         for token in instr.tokens[1:]:
             blob = b''
             if token[0] in ('"', '\''):
-                blob = token[1:-1].encode('utf16')
+                blob = self._encode_wide(token[1:-1], 'utf-16')
             else:
                 value = self.parse_integer_or_label(
                     label=token, bits_size=16, size=2)
@@ -563,7 +567,7 @@ class Assembler:
         for token in instr.tokens[1:]:
             blob = b''
             if token[0] in ('"', '\''):
-                blob = token[1:-1].encode('utf32')
+                blob = self._encode_wide(token[1:-1], 'utf-32')
             else:
                 value = self.parse_integer_or_label(
                     label=token, bits_size=32, size=4)
-- 
2.43.0


From 46a0038e1b1eaf6fb1008956f07bc630ffd2577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 77/81] fix: accept quoted numbers in .dw_to_ascii

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 9ca17b5..9d0c796 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -586,7 +586,7 @@ class Assembler:
 
         for token in instr.tokens[1:]:
             if token[0] in ('"', '\''):
-                blob = str(int(token[1:-1].encode('utf16'))).encode('ascii')
+                blob = str(int(token[1:-1])).encode('ascii')
             else:
                 value = self.parse_integer(token, 16, False)
                 if value is None:
-- 
2.43.0


From 0952fcce0718507b2d517a6a9d5a5dcb36435d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 78/81] fix: relocate every bit field of a word

---
 necroassembler/linker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index 973e803..99aeb55 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -63,7 +63,8 @@ class ELF:
         return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 1, 0, 16 if self.bits == 32 else 24)
 
     def resolve_unknown_symbol(self, assembler, address, symbol_data):
-        self.relocations[address] = symbol_data
+        # the bit fields of a single word can get different labels
+        self.relocations[address, str(symbol_data.bits)] = symbol_data
         return 0
 
     def relocate(self, address, symbol_data):
@@ -73,7 +74,7 @@ class ELF:
 
         # labels unknown to the assembler must be relocated
         relocations, self.relocations = self.relocations, {}
-        for address, symbol_data in relocations.items():
+        for (address, _), symbol_data in relocations.items():
             self.relocate(address, symbol_data)
 
         # first prepare the .shstrtab section
-- 
2.43.0


From ba4dea27f55f92306521ef46d48839394a0ad68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:55 +0000
Subject: [PATCH 79/81] fix: accept MIPS32 jumps to numbers above 256 MB

---
 necroassembler/cpu/mips32.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 256e7e6..0000067 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -53,12 +53,14 @@ class AssemblerMIPS32(Assembler):
         return value
 
     def _abs_label(self, token):
-        return self.parse_integer_or_label(label=token,
+        value = self.parse_integer_or_label(label=token,
                                            bits=(25, 0),
                                            bits_size=32,
                                            filter=lambda x: (
                                                x & 0x0fffffff) >> 2,
-                                           size=4) >> 2
+                                           size=4)
+        # the upper bits come from the program counter
+        return (value & 0x0fffffff) >> 2
 
     def _rel_label(self, token):
         value = self.parse_integer_or_label(label=token,
-- 
2.43.0


From f0b70a2b7e64d700cd70bde46a457e286d16c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 80/81] fix: reserve RAM in every copy of a repeat block

---
 necroassembler/assembler.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 9d0c796..23e4259 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -665,6 +665,10 @@ class Assembler:
         if size is None or size < 1:
             raise InvalidArgumentsForDirective(instr)
         self.org_counter += size
+        # the copies of a repeat block reserve as much
+        if self.repeat is not None:
+            times, index, reserved = self.repeat
+            self.repeat = (times, index, reserved + size)
 
     def directive_align(self, instr):
         if len(instr.tokens) != 2:
@@ -687,13 +691,13 @@ class Assembler:
         if size is None or size <= 0:
             raise InvalidArgumentsForDirective(instr)
 
-        self.repeat = (size, len(self.assembled_bytes))
+        self.repeat = (size, len(self.assembled_bytes), 0)
 
     def directive_end_repeat(self, instr):
         if self.repeat is None:
             raise NotInRepeatMode(instr)
 
-        size, index = self.repeat
+        size, index, reserved = self.repeat
         self.repeat = None
         blob = self.assembled_bytes[index:]
         translations = [(address, data) for (address, _), data in self.labels_addresses.items()
@@ -704,9 +708,10 @@ class Assembler:
                 data = copy(data)
                 # relative labels must be resolved from the copied instruction
                 if data.relative is not None:
-                    data.relative += distance
+                    data.relative += distance + reserved * i
                 self.labels_addresses[address + distance, str(data.bits)] = data
             self.append_assembled_bytes(blob)
+            self.org_counter += reserved
 
     def directive_db_to_ascii(self, instr):
         def db_to_str(address, true_address):
-- 
2.43.0


From ec67a46b21c4a585d0ea53f63508a0f2a5c572ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:01 +0000
Subject: [PATCH 81/81] fix: refuse relative branches from addresses not
 aligned for their field

---
 necroassembler/cpu/mips32.py  | 12 ++++++++----
 necroassembler/cpu/powerpc.py |  2 ++
 necroassembler/cpu/thumb.py   | 18 ++++++++++++++----
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 0000067..0cb2d7b 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -63,16 +63,20 @@ class AssemblerMIPS32(Assembler):
         return (value & 0x0fffffff) >> 2
 
     def _rel_label(self, token):
+        def _words(value):
+            # only whole words are stored
+            if value % 4 != 0:
+                raise AlignmentError(token)
+            return value >> 2
+
         value = self.parse_integer_or_label(label=token,
                                             bits_size=18,
                                             bits=(15, 0),
-                                            filter=lambda x: x >> 2,
+                                            filter=_words,
                                             alignment=4,
                                             relative=self.pc + 4,
                                             size=4)
-        if value % 4 != 0:
-            raise AlignmentError(token)
-        return value >> 2
+        return _words(value)
 
     def _immediate32(self, high):
         def _high(token):
diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 78baec5..b96c197 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -39,6 +39,8 @@ def _word(token, assembler, bits, relative):
         if not in_bit_range_decimal(value, size, signed=True):
             raise NotInBitRange(value, size, token)
         # the two low bits are not stored
+        if value % 4 != 0:
+            raise AlignmentError(token)
         return value >> 2
 
     value = assembler.parse_integer_or_label(token,
diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 63bfc3c..406a2a3 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -56,14 +56,22 @@ class AssemblerThumb(Assembler):
 
     bin_prefixes = ('0b', '0y')
 
+    def _aligned(self, arg, alignment, shift):
+        # the low bits of the distance are not stored
+        def _filter(value):
+            if value % alignment != 0:
+                raise AlignmentError(arg)
+            return value >> shift
+        return _filter
+
     def _offset(self, arg, bits, alignment):
         value = self.parse_integer_or_label(label=arg,
                                             size=2,
                                             bits_size=(
                                                 bits[0] - bits[1]) + 1 + (alignment//2),
                                             bits=bits,
-                                            filter=lambda x: x >> (
-                                                alignment//2),
+                                            filter=self._aligned(
+                                                arg, alignment, alignment//2),
                                             alignment=alignment,
                                             relative=self.pc + 4)
         if value % alignment != 0:
@@ -102,6 +110,8 @@ class AssemblerThumb(Assembler):
             # only words after the pc can be reached
             if value < 0:
                 raise NotInBitRange(value, 10, arg[1:])
+            if value % 4 != 0:
+                raise AlignmentError(arg[1:])
             return value >> 2
 
         if self.parse_integer(arg[1:], 11, True) is not None:
@@ -424,7 +434,7 @@ class AssemblerThumb(Assembler):
                                    alignment=2,
                                    relative=self.pc + 4,
                                    # get high 11 bits (after >> 1)
-                                   filter=lambda x: x >> 12)
+                                   filter=self._aligned(offset, 2, 12))
         self.add_label_translation(label=offset,
                                    offset=2,
                                    size=2,
@@ -433,7 +443,7 @@ class AssemblerThumb(Assembler):
                                    alignment=2,
                                    relative=self.pc + 4,
                                    # get low 11 bits (after >> 1)
-                                   filter=lambda x: ((x >> 1) & 0x7FF))
+                                   filter=lambda x: self._aligned(offset, 2, 1)(x) & 0x7FF)
 
         return pack_le16u(0b1111000000000000, 0b1111100000000000)
 
-- 
2.43.0

