From 30fce9c00c407d1c98620ec1e8ae4d486986ef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 01/67] fix: pad the last bounded region when exactly one byte
 is missing

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 5008b15..86561a2 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -198,7 +198,7 @@ class Assembler:
 
         # check if we need to fill something
         if self.current_org_end > 0:
-            if self.current_org + self.org_counter < self.current_org_end:
+            if self.current_org + self.org_counter <= self.current_org_end:
                 blob = bytes([self.fill_value] * ((self.current_org_end + 1) -
                                                   (self.current_org + self.org_counter)))
                 self.append_assembled_bytes(blob)
-- 
2.43.0


From 9f634701a43ae98beaead37c79e9f227148b004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 02/67] fix: do not pad the open region at the end of an
 included source

---
 necroassembler/assembler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 86561a2..4204989 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -88,6 +88,7 @@ class Assembler:
         self.sections = {}
         self.current_section = None
         self.exports = []
+        self.include_depth = 0
 
         # avoid subclasses to overwrite parent
         # class variables by making a copy
@@ -196,6 +197,10 @@ class Assembler:
                     print('assembled {0} -> ({1}) at 0x{2:x}'.format(statement,
                                                                      ','.join(['0x{0:02x}'.format(x) for x in self.assembled_bytes[current_index:]]), current_index))
 
+        # an included source does not end the current region/section
+        if self.include_depth > 0:
+            return
+
         # check if we need to fill something
         if self.current_org_end > 0:
             if self.current_org + self.org_counter <= self.current_org_end:
@@ -734,7 +739,11 @@ class Assembler:
             raise InvalidArgumentsForDirective(instr)
         filename = self.stringify(instr.tokens[1])
         with open(filename) as f:
-            self.assemble(f.read(), context=filename)
+            self.include_depth += 1
+            try:
+                self.assemble(f.read(), context=filename)
+            finally:
+                self.include_depth -= 1
 
     def directive_incbin(self, instr):
         if len(instr.tokens) != 2:
-- 
2.43.0


From 4cad67a48afcbc6dca7aa8c7749d1d5ec6ba178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 03/67] fix: check goto/upto against the location counter
 instead of the output size

---
 necroassembler/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 4204989..21c1f79 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -616,7 +616,7 @@ class Assembler:
         offset = self.parse_integer(instr.tokens[1], 64, False)
         if offset is None:
             raise InvalidArgumentsForDirective(instr)
-        if offset < len(self.assembled_bytes):
+        if offset < self.pc:
             raise AddressOverlap(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
@@ -632,7 +632,7 @@ class Assembler:
         offset = self.parse_integer(instr.tokens[1], 64, False)
         if offset is None:
             raise InvalidArgumentsForDirective(instr)
-        if offset < len(self.assembled_bytes):
+        if offset < self.org_counter:
             raise AddressOverlap(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
-- 
2.43.0


From b80039427d1e3540085e17389934ce9943bbec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 04/67] fix: check the range of labels converted to decimal
 text

---
 necroassembler/assembler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 21c1f79..b73bafc 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -240,10 +240,6 @@ class Assembler:
                     self, address, data)
                 absolute_address = true_address
 
-            if data.hook:
-                data.hook(address, true_address)
-                continue
-
             if absolute_address % data.alignment != 0:
                 raise AlignmentError(label)
 
@@ -256,6 +252,10 @@ class Assembler:
             if not in_bit_range_decimal(true_address, total_bits, signed=is_relative):
                 raise NotInBitRange(true_address, total_bits, label)
 
+            if data.hook:
+                data.hook(address, true_address)
+                continue
+
             if data.filter:
                 true_address = data.filter(true_address)
 
-- 
2.43.0


From 241ef902059faa03f9e1cd6d4226ef9f03443729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 05/67] fix: reject invalid arguments of .log

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index b73bafc..9decce4 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -592,7 +592,7 @@ class Assembler:
             elif instr.tokens[1].upper() == 'OFF':
                 self.log = False
             else:
-                InvalidArgumentsForDirective()
+                raise InvalidArgumentsForDirective(instr)
         else:
             self.log = True
 
-- 
2.43.0


From 890a6e35d0553840b8aa3694862c2b7fc5f8e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 06/67] fix: restore the macro body when an invocation fails

---
 necroassembler/macros.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/necroassembler/macros.py b/necroassembler/macros.py
index de0b661..2524ecf 100644
--- a/necroassembler/macros.py
+++ b/necroassembler/macros.py
@@ -32,7 +32,8 @@ class Macro:
             for macro_arg_index, macro_arg in enumerate(macro_args):
                 macro_dict[macro_arg] = args[macro_arg_index]
                 
-            substitute_with_dict(instr.tokens, macro_dict, 0)
-
-            instr.assemble(assembler)
-            instr.tokens = original_tokens
+            try:
+                substitute_with_dict(instr.tokens, macro_dict, 0)
+                instr.assemble(assembler)
+            finally:
+                instr.tokens = original_tokens
-- 
2.43.0


From b6899cfb6c6a5de36f3fb138589490f8d14c1c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 07/67] fix: report a quoted text which is never closed

---
 necroassembler/tokenizer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index bb2b5d0..8018a30 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -10,6 +10,14 @@ class InvalidLabel(Exception):
             'invalid label at line {0}'.format(tokenizer.line))
 
 
+class UnterminatedQuote(Exception):
+    '''Raised when the source ends inside a quoted text'''
+
+    def __init__(self, tokenizer):
+        super().__init__(
+            'unterminated quote at line {0}'.format(tokenizer.line))
+
+
 class Tokenizer:
     '''Builds a list of tokenized statements from assembly source code'''
 
@@ -142,3 +150,5 @@ class Tokenizer:
             self.step(byte)
             if byte == '\n':
                 self.line += 1
+        if self.state not in (self._state_token, self._state_comment):
+            raise UnterminatedQuote(self)
-- 
2.43.0


From 86d66e3a9abfe194441233158b1de2a72cb7471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 08/67] fix: keep the references to labels in different bit
 fields of the same word

---
 necroassembler/assembler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 9decce4..d77b5b9 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -223,8 +223,7 @@ class Assembler:
             handle.write(self.assembled_bytes)
 
     def _resolve_labels(self, linker):
-        for address in self.labels_addresses:
-            data = self.labels_addresses[address]
+        for (address, _), data in self.labels_addresses.items():
             label = data.label
             is_relative = data.relative != 0
 
@@ -310,7 +309,8 @@ class Assembler:
         label_data.bits = bits
         label_data.hook = hook
         label_data.filter = filter
-        self.labels_addresses[index] = label_data
+        # different bit fields of the same word are different references
+        self.labels_addresses[(index, bits)] = label_data
 
     def _internal_parse_integer(self, token):
         # first check for an ascii char
-- 
2.43.0


From 181832ea69ef256d2dff2fb6d2df1b43d1c9e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 09/67] fix: resolve the label references in every copy of a
 repeat block

---
 necroassembler/assembler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index d77b5b9..3890076 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -1,3 +1,4 @@
+import copy
 from necroassembler.tokenizer import Tokenizer
 from necroassembler.utils import (pack_byte, pack_le32u, pack_le16u,
                                   pack_be32u, pack_be16u, in_bit_range,
@@ -680,7 +681,16 @@ class Assembler:
         size, index = self.repeat
         self.repeat = None
         blob = self.assembled_bytes[index:]
+        references = [(key, data) for key, data in self.labels_addresses.items()
+                      if key[0] >= index]
         for i in range(0, size-1):
+            # the label references of the block are repeated too
+            shift = (i + 1) * len(blob)
+            for (address, bits), data in references:
+                label_data = copy.copy(data)
+                if label_data.relative != 0:
+                    label_data.relative += shift
+                self.labels_addresses[(address + shift, bits)] = label_data
             self.append_assembled_bytes(blob)
 
     def directive_db_to_ascii(self, instr):
-- 
2.43.0


From 88d0a57721f50e738e00bd8972617670ee60d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:17 +0000
Subject: [PATCH 10/67] fix: do not split char literals containing an operator

---
 necroassembler/assembler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 3890076..544d4c0 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -859,7 +859,12 @@ class Assembler:
 
         in_math = False
         valid_chars = 0
-        for char in token[len(pre_formula):]:
+        # a char literal is a single unit (it could contain an operator)
+        start = len(pre_formula)
+        if token[start:start+1] == '\'' and token[start+2:start+3] == '\'':
+            start += 3
+            valid_chars = 3
+        for char in token[start:]:
             if not in_math:
                 if char in ('+', '-', '*', '/', '&', '|'):
                     if valid_chars < 1:
-- 
2.43.0


From 20c9c1ad0b0353a20d67f30e8aea6ac13e30dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 11/67] fix: allow to redefine a define

---
 necroassembler/statements.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 68299cb..5df32fc 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -121,11 +121,13 @@ class Label(Statement):
 
 class Directive(Statement):
     def assemble(self, assembler):
-        # skip directive for defines substitution
-        substitute_with_dict(self.tokens, assembler.defines, 1)
         key = self.tokens[0][1:]
         if not assembler.case_sensitive:
             key = key.upper()
+        # skip directive for defines substitution (and the name to define,
+        # it could be already defined)
+        start = 2 if key.upper() == 'DEFINE' else 1
+        substitute_with_dict(self.tokens, assembler.defines, start)
         if not key in assembler.directives:
             raise UnknownDirective(self)
         assembler.directives[key](self)
-- 
2.43.0


From cf23b5ca975502945cf252f92fa4e0c08a6bb373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 12/67] fix: do not match a token against the single letters of
 a pattern

---
 necroassembler/cpu/lr35902.py | 2 +-
 necroassembler/statements.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 4077be7..3ea6058 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -100,7 +100,7 @@ class AssemblerLR35902(Assembler):
                 condition, = instr.apply(self._reg_name)
                 return pack_byte(kwargs[condition])
 
-            if instr.match('(', '$FF00+C', ')', 'A') or instr.match('[', '$FF00+C', ']', 'A'):
+            if instr.match('(', ('$FF00+C', 'C'), ')', 'A') or instr.match('[', ('$FF00+C', 'C'), ']', 'A'):
                 return pack_byte(kwargs['ind_c_a'])
 
             if instr.match('(', LDH, ')', 'A') or instr.match('[', LDH, ']', 'A'):
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 5df32fc..68074e6 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -71,7 +71,7 @@ class Instruction(Statement):
                 if isinstance(pattern, str):
                     if self.tokens[index + start].upper() == pattern.upper():
                         continue
-                if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
+                elif any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False
         return True
@@ -89,7 +89,7 @@ class Instruction(Statement):
                 if isinstance(pattern, str):
                     if self.tokens[index + start].upper() == pattern.upper():
                         continue
-                if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
+                elif any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False, None
         return True, start+index+1
-- 
2.43.0


From 591942483928565dbb5afe339c52510d700bc5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 13/67] fix: exclude the checksum itself from the Game Boy
 global checksum

---
 necroassembler/platforms/gameboy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 50aae17..9ee80b3 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -164,7 +164,7 @@ class AssemblerGameboy(AssemblerLR35902):
 
         # global checksum
         global_checksum = 0
-        for byte in self.assembled_bytes:
+        for byte in self.assembled_bytes[:0x14e] + self.assembled_bytes[0x150:]:
             global_checksum += int(byte)
 
         self.assembled_bytes[0x14e] = (global_checksum >> 8) & 0xFF
-- 
2.43.0


From aa5b251ef9d43b79490d56a4e7aeb0326dc14218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 14/67] fix: write the NES PRG and CHR rom counts at their iNES
 offsets

---
 necroassembler/platforms/nes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/platforms/nes.py b/necroassembler/platforms/nes.py
index 85f7c9a..d5f3405 100644
--- a/necroassembler/platforms/nes.py
+++ b/necroassembler/platforms/nes.py
@@ -69,11 +69,11 @@ class AssemblerNES(AssemblerMOS6502):
 
     @directive('cartridge_prg_roms')
     def _set_cartridge_title(self, instr):
-        self._cartridge_fill(instr, 0x05, 1)
+        self._cartridge_fill(instr, 0x04, 1)
 
     @directive('cartridge_chr_roms')
     def _set_cartridge_license(self, instr):
-        self._cartridge_fill(instr, 0x06, 1)
+        self._cartridge_fill(instr, 0x05, 1)
 
     @directive('chr_pattern_table')
     def _build_chr_pattern_table(self, instr):
-- 
2.43.0


From a67d7c980a9df8bb80bd008aaa440f68ce2363e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 15/67] fix: build a fresh ELF header at every link

---
 necroassembler/linker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index b4c6346..d13a6e4 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -128,12 +128,12 @@ class ELF:
             symtab_name_offset, self.file_base + code_size + len(sh_string_table) + len(string_table), symtab, len(assembler.sections) + 2)
 
         if self.bits == 32:
-            self.header += pack(self.endianess_prefix + 'IIIIHHHHHH', self.entry_point,
+            header = self.header + pack(self.endianess_prefix + 'IIIIHHHHHH', self.entry_point,
                                 0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
                                 len(assembler.sections) + 4, len(assembler.sections) + 1)
         elif self.bits == 64:
-            self.header += pack(self.endianess_prefix + 'QQQIHHHHHH', self.entry_point,
+            header = self.header + pack(self.endianess_prefix + 'QQQIHHHHHH', self.entry_point,
                                 0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
                                 len(assembler.sections) + 4, len(assembler.sections) + 1)
 
-        return self.header + sections + assembler.assembled_bytes + sh_string_table + string_table + symtab
+        return header + sections + assembler.assembled_bytes + sh_string_table + string_table + symtab
-- 
2.43.0


From 45eb9b9d96d58584fed985ea4d4f591bc0759c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 16/67] fix: start the ELF symbol table with the null symbol

---
 necroassembler/linker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index d13a6e4..569db92 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -59,7 +59,7 @@ class ELF:
         return pack(self.section_pack_format, name_offset, 0x03, 0x20, 0, offset, len(data), 0, 0, 0, 0)
 
     def _build_symtab_section(self, name_offset, offset, data, link):
-        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 0, 0, 16 if self.bits == 32 else 24)
+        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 1, 0, 16 if self.bits == 32 else 24)
 
     def resolve_unknown_symbol(self, assembler, address, symbol_data):
         self.relocations[address] = symbol_data
@@ -103,7 +103,8 @@ class ELF:
             section_data['elf_section_index'] = section_index
             sections += self._build_section(section_data)
 
-        symtab = b''
+        # the first symbol is always the null one
+        symtab = bytes(16 if self.bits == 32 else 24)
         for symbol_name, symbol_data in assembler.labels.items():
             if symbol_name not in assembler.exports:
                 continue
-- 
2.43.0


From fcc21e179799d2e41677d76a0e8b1be5df557218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 17/67] fix: make ELF symbol values relative to the start of
 their section

---
 necroassembler/linker.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index 569db92..4131671 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -108,14 +108,17 @@ class ELF:
         for symbol_name, symbol_data in assembler.labels.items():
             if symbol_name not in assembler.exports:
                 continue
+            section_data = assembler.sections[symbol_data['section']]
+            value = assembler.get_label_absolute_address(
+                symbol_data) - section_data['start']
             if self.bits == 32:
                 symtab += pack(self.endianess_prefix + 'IIIBBH',
-                               symbol_data['elf_string_offset'], symbol_data['base'], 0,
-                               0x10, 0, assembler.sections[symbol_data['section']]['elf_section_index'] + 1)
+                               symbol_data['elf_string_offset'], value, 0,
+                               0x10, 0, section_data['elf_section_index'] + 1)
             if self.bits == 64:
                 symtab += pack(self.endianess_prefix + 'IBBHQQ',
                                symbol_data['elf_string_offset'], 0x10, 0,
-                               assembler.sections[symbol_data['section']]['elf_section_index'] + 1, symbol_data['base'], 0)
+                               section_data['elf_section_index'] + 1, value, 0)
 
         code_size = len(assembler.assembled_bytes)
 
-- 
2.43.0


From 35466dabf9fb7ec8d33a1ceb279277493e3d1b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 18/67] fix: report the undefined symbols when linking an ELF
 object

---
 necroassembler/linker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index 4131671..4ab8e15 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -70,6 +70,12 @@ class ELF:
 
     def link(self, assembler):
 
+        # give a chance to the subclasses to manage the undefined symbols
+        relocations = self.relocations
+        self.relocations = {}
+        for address, symbol_data in relocations.items():
+            self.relocate(address, symbol_data)
+
         # first prepare the .shstrtab section
         sh_string_table = b'\x00'
         for section_name, section_data in assembler.sections.items():
-- 
2.43.0


From 4ef9dda3d0c1042ad7183329598142d3248e25fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 19/67] fix: write the initial stack pointer at its offset of
 the PS-X EXE header

---
 necroassembler/platforms/psx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/necroassembler/platforms/psx.py b/necroassembler/platforms/psx.py
index 85dde68..fdb170e 100644
--- a/necroassembler/platforms/psx.py
+++ b/necroassembler/platforms/psx.py
@@ -24,6 +24,7 @@ def main():
         output.write(b'\xFF\xFF\xFF\xFF')  # gp
         output.write(b'\x00\x00\x01\x80')  # text 0x80010000
         output.write(pack_le32u(len(asm.assembled_bytes)))
+        output.seek(0x30)
         output.write(b'\xF0\xFF\x1F\x80')  # stack ptr
         output.seek(0x4C)
         output.write(
-- 
2.43.0


From b54786216f285effffddb1c9b8b22c624c21672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 20/67] fix: do not overwrite the only argument of the command
 line tool

---
 necroassembler/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 544d4c0..5e6b7e1 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -903,7 +903,7 @@ class Assembler:
         import sys
         import os
         try:
-            *sources, destination = sys.argv[1:]
+            source, *sources, destination = sys.argv[1:]
         except ValueError:
             print('usage: {0} <sources> <destination>'.format(
                 os.path.basename(sys.argv[0])))
@@ -911,7 +911,7 @@ class Assembler:
         asm = cls()
         asm.pre_link_passes += pre_link_passes
         asm.post_link_passes += post_link_passes
-        for source in sources:
+        for source in [source] + sources:
             asm.assemble_file(source)
         asm.link(linker=linker)
         asm.save(destination)
-- 
2.43.0


From b8563060d844e5cc9f8c05203c1cff3679963a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:47 +0000
Subject: [PATCH 21/67] fix: let the necro_mips32 tool find its assembler

---
 setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/setup.py b/setup.py
index 4341992..6fa8f46 100644
--- a/setup.py
+++ b/setup.py
@@ -13,7 +13,7 @@ setup(name='necroassembler',
           'console_scripts': [
               'necro_6502=necroassembler.cpu.mos6502:AssemblerMOS6502.main',
               'necro_thumb=necroassembler.cpu.thumb:AssemblerThumb.main',
-              'necro_mips32=necroassembler.cpu.thumb:AssemblerMIPS32.main',
+              'necro_mips32=necroassembler.cpu.mips32:AssemblerMIPS32.main',
               'necro_nes=necroassembler.platforms.nes:main',
               'necro_gb=necroassembler.platforms.gameboy:AssemblerGameboy.main',
               'necro_sms=necroassembler.platforms.sms:AssemblerSegaMasterSystem.main',
-- 
2.43.0


From ee56e161cae134a5229ad3ad3e6d06dbccccc965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 22/67] fix: reject 6502 branches with surplus operands

---
 necroassembler/cpu/mos6502.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/cpu/mos6502.py b/necroassembler/cpu/mos6502.py
index 443ca53..1a76b9b 100644
--- a/necroassembler/cpu/mos6502.py
+++ b/necroassembler/cpu/mos6502.py
@@ -84,6 +84,8 @@ class AssemblerMOS6502(Assembler):
         self.register_instruction('PLP', b'\x28')
 
     def _manage_branching(self, instr, code):
+        if len(instr.tokens) != 2:
+            raise InvalidMode()
         arg = instr.tokens[1]
         address = self.parse_integer_or_label(
             label=arg, bits_size=8,
-- 
2.43.0


From 3186cfbb170c7125c687c0c6d86066a9b643592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 23/67] fix: do not take a Z80 index operand for an address

---
 necroassembler/cpu/z80.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 228e316..1634a8d 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1288,7 +1288,8 @@ class Z80OpCode:
         self.add_variant(code, args)
 
     def _is_value(self, arg):
-        return arg.upper() not in REGS8+REGS16
+        return (arg.upper() not in REGS8+REGS16 and
+                not self._is_index_x(arg) and not self._is_index_y(arg))
 
     def _is_index_x(self, arg):
         return (
-- 
2.43.0


From 67f2cf9830c6ad6b9edf94d0ba0dc6b0b07bb6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 24/67] fix: encode both operands of Z80 LD (IX+d),n and LD
 (IY+d),n

---
 necroassembler/cpu/z80.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 1634a8d..dc10c38 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1350,30 +1350,30 @@ class Z80OpCode:
 
     def add_variant(self, code, args):
         sanitized_args = []
-        hook = None
+        hooks = []
         for index, arg in enumerate(args):
             if arg == 'nn':
                 sanitized_args.append(self._is_value)
-                hook = self._build_nn, index
+                hooks.append((self._build_nn, index))
             elif arg == 'n':
                 sanitized_args.append(self._is_value)
-                hook = self._build_n, index
+                hooks.append((self._build_n, index))
             elif arg == 'e':
                 sanitized_args.append(self._is_value)
-                hook = self._build_e, index
+                hooks.append((self._build_e, index))
             elif arg == 'd':
                 sanitized_args.append(self._is_value)
-                hook = self._build_d, index
+                hooks.append((self._build_d, index))
             elif arg == 'IX+d':
                 sanitized_args.append(self._is_index_x)
-                hook = self._build_index, index
+                hooks.append((self._build_index, index))
             elif arg == 'IY+d':
                 sanitized_args.append(self._is_index_y)
-                hook = self._build_index, index
+                hooks.append((self._build_index, index))
             else:
                 sanitized_args.append(arg)
 
-        self.variants.append((code, sanitized_args, hook))
+        self.variants.append((code, sanitized_args, hooks))
 
     def __call__(self, instr):
         for variant in self.variants:
@@ -1385,8 +1385,7 @@ class Z80OpCode:
                 else:
                     base += pack_byte(code >> 8)
                     base += pack_byte(code & 0xFF)
-                if variant[2] is not None:
-                    hook, index = variant[2]
+                for hook, index in variant[2]:
                     base += hook(base, instr.tokens[index+1])
                 for suffix in variant[0][1:]:
                     base += pack_byte(suffix)
-- 
2.43.0


From 4a7d5478d82f5594d30a0d2b3c0c35428b4276fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:03 +0000
Subject: [PATCH 25/67] fix: reject labels out of the range of a Z80 index
 displacement

---
 necroassembler/cpu/z80.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index dc10c38..e424f6d 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1,5 +1,6 @@
 from necroassembler import Assembler
 from necroassembler.utils import pack_le16u, pack_byte, pack_8s, match
+from necroassembler.exceptions import NotInBitRange
 
 
 OPCODES_TABLE = (
@@ -1345,9 +1346,16 @@ class Z80OpCode:
             size=1,
             bits_size=8,
             offset=len(base),
-            signed=True
+            signed=True,
+            filter=self._displacement
         ))
 
+    def _displacement(self, value):
+        # the index registers are displaced by a signed byte
+        if value > 127:
+            raise NotInBitRange(value, 8, 'index displacement')
+        return value
+
     def add_variant(self, code, args):
         sanitized_args = []
         hooks = []
-- 
2.43.0


From 415a553fde7657d880557ef2938497813379c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 26/67] fix: use the documented opcodes of Z80 BIT with an
 index register

---
 necroassembler/cpu/z80.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index e424f6d..72caa2b 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -624,69 +624,69 @@ OPCODES_TABLE = (
     ([0xDDCB, 0x3D], 'LD', 'L', 'SRL ', '(', 'IX+d', ')'),
     ([0xDDCB, 0x3E], 'SRL', '(', 'IX+d', ')'),
     ([0xDDCB, 0x3F], 'LD', 'A', 'SRL ', '(', 'IX+d', ')'),
+    ([0xDDCB, 0x46], 'BIT', '0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x40], 'BIT', '0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x41], 'BIT', '0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x42], 'BIT', '0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x43], 'BIT', '0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x44], 'BIT', '0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x45], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x46], 'BIT', '0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x47], 'BIT', '0', '(', 'IX+d', ')'),
+    ([0xDDCB, 0x4E], 'BIT', '1', '(', 'IX+d', ')'),
     ([0xDDCB, 0x48], 'BIT', '1', '(', 'IX+d', ')'),
     ([0xDDCB, 0x49], 'BIT', '1', '(', 'IX+d', ')'),
     ([0xDDCB, 0x4A], 'BIT', '1', '(', 'IX+d', ')'),
     ([0xDDCB, 0x4B], 'BIT', '1', '(', 'IX+d', ')'),
     ([0xDDCB, 0x4C], 'BIT', '1', '(', 'IX+d', ')'),
     ([0xDDCB, 0x4D], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4E], 'BIT', '1', '(', 'IX+d', ')'),
     ([0xDDCB, 0x4F], 'BIT', '1', '(', 'IX+d', ')'),
+    ([0xDDCB, 0x56], 'BIT', '2', '(', 'IX+d', ')'),
     ([0xDDCB, 0x50], 'BIT', '2', '(', 'IX+d', ')'),
     ([0xDDCB, 0x51], 'BIT', '2', '(', 'IX+d', ')'),
     ([0xDDCB, 0x52], 'BIT', '2', '(', 'IX+d', ')'),
     ([0xDDCB, 0x53], 'BIT', '2', '(', 'IX+d', ')'),
     ([0xDDCB, 0x54], 'BIT', '2', '(', 'IX+d', ')'),
     ([0xDDCB, 0x55], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x56], 'BIT', '2', '(', 'IX+d', ')'),
     ([0xDDCB, 0x57], 'BIT', '2', '(', 'IX+d', ')'),
+    ([0xDDCB, 0x5E], 'BIT', '3', '(', 'IX+d', ')'),
     ([0xDDCB, 0x58], 'BIT', '3', '(', 'IX+d', ')'),
     ([0xDDCB, 0x59], 'BIT', '3', '(', 'IX+d', ')'),
     ([0xDDCB, 0x5A], 'BIT', '3', '(', 'IX+d', ')'),
     ([0xDDCB, 0x5B], 'BIT', '3', '(', 'IX+d', ')'),
     ([0xDDCB, 0x5C], 'BIT', '3', '(', 'IX+d', ')'),
     ([0xDDCB, 0x5D], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5E], 'BIT', '3', '(', 'IX+d', ')'),
     ([0xDDCB, 0x5F], 'BIT', '3', '(', 'IX+d', ')'),
+    ([0xDDCB, 0x66], 'BIT', '4', '(', 'IX+d', ')'),
     ([0xDDCB, 0x60], 'BIT', '4', '(', 'IX+d', ')'),
     ([0xDDCB, 0x61], 'BIT', '4', '(', 'IX+d', ')'),
     ([0xDDCB, 0x62], 'BIT', '4', '(', 'IX+d', ')'),
     ([0xDDCB, 0x63], 'BIT', '4', '(', 'IX+d', ')'),
     ([0xDDCB, 0x64], 'BIT', '4', '(', 'IX+d', ')'),
     ([0xDDCB, 0x65], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x66], 'BIT', '4', '(', 'IX+d', ')'),
     ([0xDDCB, 0x67], 'BIT', '4', '(', 'IX+d', ')'),
+    ([0xDDCB, 0x6E], 'BIT', '5', '(', 'IX+d', ')'),
     ([0xDDCB, 0x68], 'BIT', '5', '(', 'IX+d', ')'),
     ([0xDDCB, 0x69], 'BIT', '5', '(', 'IX+d', ')'),
     ([0xDDCB, 0x6A], 'BIT', '5', '(', 'IX+d', ')'),
     ([0xDDCB, 0x6B], 'BIT', '5', '(', 'IX+d', ')'),
     ([0xDDCB, 0x6C], 'BIT', '5', '(', 'IX+d', ')'),
     ([0xDDCB, 0x6D], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6E], 'BIT', '5', '(', 'IX+d', ')'),
     ([0xDDCB, 0x6F], 'BIT', '5', '(', 'IX+d', ')'),
+    ([0xDDCB, 0x76], 'BIT', '6', '(', 'IX+d', ')'),
     ([0xDDCB, 0x70], 'BIT', '6', '(', 'IX+d', ')'),
     ([0xDDCB, 0x71], 'BIT', '6', '(', 'IX+d', ')'),
     ([0xDDCB, 0x72], 'BIT', '6', '(', 'IX+d', ')'),
     ([0xDDCB, 0x73], 'BIT', '6', '(', 'IX+d', ')'),
     ([0xDDCB, 0x74], 'BIT', '6', '(', 'IX+d', ')'),
     ([0xDDCB, 0x75], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x76], 'BIT', '6', '(', 'IX+d', ')'),
     ([0xDDCB, 0x77], 'BIT', '6', '(', 'IX+d', ')'),
+    ([0xDDCB, 0x7E], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x78], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x79], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x7A], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x7B], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x7C], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x7D], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7E], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x7F], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x80], 'LD', 'B', 'RES 0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x81], 'LD', 'C', 'RES 0', '(', 'IX+d', ')'),
@@ -1073,69 +1073,69 @@ OPCODES_TABLE = (
     ([0xFDCB, 0x3D], 'LD', 'L', 'SRL ', '(', 'IY+d', ')'),
     ([0xFDCB, 0x3E], 'SRL', '(', 'IY+d', ')'),
     ([0xFDCB, 0x3F], 'LD', 'A', 'SRL ', '(', 'IY+d', ')'),
+    ([0xFDCB, 0x46], 'BIT', '0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x40], 'BIT', '0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x41], 'BIT', '0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x42], 'BIT', '0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x43], 'BIT', '0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x44], 'BIT', '0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x45], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x46], 'BIT', '0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x47], 'BIT', '0', '(', 'IY+d', ')'),
+    ([0xFDCB, 0x4E], 'BIT', '1', '(', 'IY+d', ')'),
     ([0xFDCB, 0x48], 'BIT', '1', '(', 'IY+d', ')'),
     ([0xFDCB, 0x49], 'BIT', '1', '(', 'IY+d', ')'),
     ([0xFDCB, 0x4A], 'BIT', '1', '(', 'IY+d', ')'),
     ([0xFDCB, 0x4B], 'BIT', '1', '(', 'IY+d', ')'),
     ([0xFDCB, 0x4C], 'BIT', '1', '(', 'IY+d', ')'),
     ([0xFDCB, 0x4D], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4E], 'BIT', '1', '(', 'IY+d', ')'),
     ([0xFDCB, 0x4F], 'BIT', '1', '(', 'IY+d', ')'),
+    ([0xFDCB, 0x56], 'BIT', '2', '(', 'IY+d', ')'),
     ([0xFDCB, 0x50], 'BIT', '2', '(', 'IY+d', ')'),
     ([0xFDCB, 0x51], 'BIT', '2', '(', 'IY+d', ')'),
     ([0xFDCB, 0x52], 'BIT', '2', '(', 'IY+d', ')'),
     ([0xFDCB, 0x53], 'BIT', '2', '(', 'IY+d', ')'),
     ([0xFDCB, 0x54], 'BIT', '2', '(', 'IY+d', ')'),
     ([0xFDCB, 0x55], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x56], 'BIT', '2', '(', 'IY+d', ')'),
     ([0xFDCB, 0x57], 'BIT', '2', '(', 'IY+d', ')'),
+    ([0xFDCB, 0x5E], 'BIT', '3', '(', 'IY+d', ')'),
     ([0xFDCB, 0x58], 'BIT', '3', '(', 'IY+d', ')'),
     ([0xFDCB, 0x59], 'BIT', '3', '(', 'IY+d', ')'),
     ([0xFDCB, 0x5A], 'BIT', '3', '(', 'IY+d', ')'),
     ([0xFDCB, 0x5B], 'BIT', '3', '(', 'IY+d', ')'),
     ([0xFDCB, 0x5C], 'BIT', '3', '(', 'IY+d', ')'),
     ([0xFDCB, 0x5D], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5E], 'BIT', '3', '(', 'IY+d', ')'),
     ([0xFDCB, 0x5F], 'BIT', '3', '(', 'IY+d', ')'),
+    ([0xFDCB, 0x66], 'BIT', '4', '(', 'IY+d', ')'),
     ([0xFDCB, 0x60], 'BIT', '4', '(', 'IY+d', ')'),
     ([0xFDCB, 0x61], 'BIT', '4', '(', 'IY+d', ')'),
     ([0xFDCB, 0x62], 'BIT', '4', '(', 'IY+d', ')'),
     ([0xFDCB, 0x63], 'BIT', '4', '(', 'IY+d', ')'),
     ([0xFDCB, 0x64], 'BIT', '4', '(', 'IY+d', ')'),
     ([0xFDCB, 0x65], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x66], 'BIT', '4', '(', 'IY+d', ')'),
     ([0xFDCB, 0x67], 'BIT', '4', '(', 'IY+d', ')'),
+    ([0xFDCB, 0x6E], 'BIT', '5', '(', 'IY+d', ')'),
     ([0xFDCB, 0x68], 'BIT', '5', '(', 'IY+d', ')'),
     ([0xFDCB, 0x69], 'BIT', '5', '(', 'IY+d', ')'),
     ([0xFDCB, 0x6A], 'BIT', '5', '(', 'IY+d', ')'),
     ([0xFDCB, 0x6B], 'BIT', '5', '(', 'IY+d', ')'),
     ([0xFDCB, 0x6C], 'BIT', '5', '(', 'IY+d', ')'),
     ([0xFDCB, 0x6D], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6E], 'BIT', '5', '(', 'IY+d', ')'),
     ([0xFDCB, 0x6F], 'BIT', '5', '(', 'IY+d', ')'),
+    ([0xFDCB, 0x76], 'BIT', '6', '(', 'IY+d', ')'),
     ([0xFDCB, 0x70], 'BIT', '6', '(', 'IY+d', ')'),
     ([0xFDCB, 0x71], 'BIT', '6', '(', 'IY+d', ')'),
     ([0xFDCB, 0x72], 'BIT', '6', '(', 'IY+d', ')'),
     ([0xFDCB, 0x73], 'BIT', '6', '(', 'IY+d', ')'),
     ([0xFDCB, 0x74], 'BIT', '6', '(', 'IY+d', ')'),
     ([0xFDCB, 0x75], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x76], 'BIT', '6', '(', 'IY+d', ')'),
     ([0xFDCB, 0x77], 'BIT', '6', '(', 'IY+d', ')'),
+    ([0xFDCB, 0x7E], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x78], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x79], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x7A], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x7B], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x7C], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x7D], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7E], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x7F], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x80], 'LD', 'B', 'RES 0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x81], 'LD', 'C', 'RES 0', '(', 'IY+d', ')'),
-- 
2.43.0


From e14f23983b109fee342439b9d9b2170a5da92805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 27/67] fix: do not make LR35902 stack offsets relative to the
 program counter

---
 necroassembler/cpu/lr35902.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 3ea6058..7215728 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -1,6 +1,6 @@
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_byte, pack_le16u, pack_8s
-from necroassembler.exceptions import InvalidOpCodeArguments
+from necroassembler.exceptions import InvalidOpCodeArguments, NotInBitRange
 
 REGS8 = ('A', 'F', 'B', 'C', 'D', 'E', 'H', 'L')
 REGS16 = ('AF', 'BC', 'DE', 'HL', 'HL+', 'HL-', 'SP')
@@ -60,6 +60,20 @@ class AssemblerLR35902(Assembler):
                                             relative=self.pc + 2)
         return pack_8s(value)
 
+    def _signed8(self, arg):
+        value = self.parse_integer_or_label(label=arg, bits_size=8,
+                                            offset=1,
+                                            size=1,
+                                            signed=True,
+                                            filter=self._stack_offset)
+        return pack_8s(value)
+
+    def _stack_offset(self, value):
+        # the stack pointer is displaced by a signed byte
+        if value > 127:
+            raise NotInBitRange(value, 8, 'stack offset')
+        return value
+
     def _data16(self, arg):
         value = self.parse_integer_or_label(
             label=arg, bits_size=16, offset=1, size=2)
@@ -121,7 +135,7 @@ class AssemblerLR35902(Assembler):
 
             if instr.match(REGS16, VALUE):
                 if self._reg_name(instr.tokens[1]) + '_r8' in kwargs:
-                    reg16, value = instr.apply(self._reg_name, self._rel8)
+                    reg16, value = instr.apply(self._reg_name, self._signed8)
                     return pack_byte(kwargs[reg16 + '_r8']) + value
                 reg16, value = instr.apply(self._reg_name, self._data16)
                 return pack_byte(kwargs[reg16 + '_d16']) + value
@@ -209,9 +223,9 @@ class AssemblerLR35902(Assembler):
         if len(instr.tokens) > 2:
             value = None
             if instr.tokens[2].startswith('SP+'):
-                value = self._rel8(instr.tokens[2][3:])
+                value = self._signed8(instr.tokens[2][3:])
             elif instr.tokens[2].startswith('SP-'):
-                value = self._rel8(instr.tokens[2][2:])
+                value = self._signed8(instr.tokens[2][2:])
             if value is not None:
                 return pack_byte(0xF8) + value
         return self._build_opcode(instr,
-- 
2.43.0


From 2f4f23335e2ce8169e8800c754bdb0c427dbaa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 28/67] fix: allow only HL as the target of LR35902 LD HL,SP+e

---
 necroassembler/cpu/lr35902.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 7215728..120d208 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -220,7 +220,7 @@ class AssemblerLR35902(Assembler):
 
     @opcode('LD')
     def _ld(self, instr):
-        if len(instr.tokens) > 2:
+        if instr.match('HL', VALUE):
             value = None
             if instr.tokens[2].startswith('SP+'):
                 value = self._signed8(instr.tokens[2][3:])
-- 
2.43.0


From 33bc303567b481a02ccd72cbe9b303ca250386c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 29/67] fix: make MIPS div, divu, mult, multu, nor, or, sub,
 subu and xor usable

---
 necroassembler/cpu/mips32.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 5d4b022..464ab60 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -103,7 +103,7 @@ class AssemblerMIPS32(Assembler):
     def _div_mult(self, instr, func):
         if instr.match(REGS, REGS):
             rs, rt = instr.apply(_reg, _reg)
-        return self._build_opcode(0, ((25, 21), rs), ((20, 16), rt), ((5, 0), func))
+            return self._build_opcode(0, ((25, 21), rs), ((20, 16), rt), ((5, 0), func))
 
     def _arith_log_i(self, instr, op, signed):
         if instr.match(REGS, REGS, IMMEDIATE):
@@ -191,27 +191,27 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('div')
     def _div(self, instr):
-        return self._div_mult(0b011010, instr)
+        return self._div_mult(instr, 0b011010)
 
     @opcode('divu')
     def _divu(self, instr):
-        return self._div_mult(0b011011, instr)
+        return self._div_mult(instr, 0b011011)
 
     @opcode('mult')
     def _mult(self, instr):
-        return self._div_mult(0b011000, instr)
+        return self._div_mult(instr, 0b011000)
 
     @opcode('multu')
     def _multu(self, instr):
-        return self._div_mult(0b011001, instr)
+        return self._div_mult(instr, 0b011001)
 
     @opcode('nor')
     def _nor(self, instr):
-        return self._arith_log(0b100111, instr)
+        return self._arith_log(instr, 0b100111)
 
     @opcode('or')
     def _or(self, instr):
-        return self._arith_log(0b100101, instr)
+        return self._arith_log(instr, 0b100101)
 
     @opcode('ori')
     def _ori(self, instr):
@@ -243,15 +243,15 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sub')
     def _sub(self, instr):
-        return self._arith_log(0b100010, instr)
+        return self._arith_log(instr, 0b100010)
 
     @opcode('subu')
     def _subu(self, instr):
-        return self._arith_log(0b100011, instr)
+        return self._arith_log(instr, 0b100011)
 
     @opcode('xor')
     def _xor(self, instr):
-        return self._arith_log(0b100110, instr)
+        return self._arith_log(instr, 0b100110)
 
     @opcode('xori')
     def _xori(self, instr):
-- 
2.43.0


From 37fae1bc11e85c1b6be776396cbb4039eba43445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 30/67] fix: encode MIPS sltu with its own function code

---
 necroassembler/cpu/mips32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 464ab60..316055e 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -275,7 +275,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sltu')
     def _sltu(self, instr):
-        return self._arith_log(instr, 0b101001)
+        return self._arith_log(instr, 0b101011)
 
     @opcode('slti')
     def _slti(self, instr):
-- 
2.43.0


From 20608038bda755c21e432bdb2b1fd6d1cacdd4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 31/67] fix: encode MIPS sltiu with its own opcode

---
 necroassembler/cpu/mips32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 316055e..54adc9d 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -283,7 +283,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sltiu')
     def _sltiu(self, instr):
-        return self._arith_log_i(instr, 0b001001, False)
+        return self._arith_log_i(instr, 0b001011, False)
 
     @opcode('beq')
     def _beq(self, instr):
-- 
2.43.0


From 36c72eefd7e4f44be6b92f8699ddbbc0ca799990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 32/67] fix: link MIPS jalr to $ra

---
 necroassembler/cpu/mips32.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 54adc9d..880ebea 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -311,7 +311,9 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('jalr')
     def _jalr(self, instr):
-        return self._jump_r(instr, 0b001001)
+        if instr.match(REGS):
+            rs, = instr.apply(_reg)
+            return self._build_opcode(0, ((25, 21), rs), ((15, 11), 31), ((5, 0), 0b001001))
 
     @opcode('jr')
     def _jr(self, instr):
-- 
2.43.0


From d81a539adde6672ad02d91d399a781aa1564cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 33/67] fix: take the immediates of MIPS andi, ori and xori as
 unsigned

---
 necroassembler/cpu/mips32.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 880ebea..a8d5b2e 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -187,7 +187,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('andi')
     def _andi(self, instr):
-        return self._arith_log_i(instr, 0b001100, True)
+        return self._arith_log_i(instr, 0b001100, False)
 
     @opcode('div')
     def _div(self, instr):
@@ -215,7 +215,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('ori')
     def _ori(self, instr):
-        return self._arith_log_i(instr, 0b001101, True)
+        return self._arith_log_i(instr, 0b001101, False)
 
     @opcode('sll')
     def _sll(self, instr):
@@ -255,7 +255,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('xori')
     def _xori(self, instr):
-        return self._arith_log_i(instr, 0b001110, True)
+        return self._arith_log_i(instr, 0b001110, False)
 
     @opcode('lui')
     def _lui(self, instr):
-- 
2.43.0


From 74574a76b1193df0ca57f0a22e0d4b2d582646d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 34/67] fix: reject MIPS branches to targets which are not word
 aligned

---
 necroassembler/cpu/mips32.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index a8d5b2e..7c303ca 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -1,6 +1,6 @@
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits, pack_le32u, pack_be32u
-from necroassembler.exceptions import LabelNotAllowed, NotInBitRange
+from necroassembler.exceptions import AlignmentError, LabelNotAllowed, NotInBitRange
 
 REGS_BASE = ('$0', '$1', '$2', '$3', '$4', '$5',
              '$6', '$7', '$8', '$9', '$10', '$11',
@@ -61,12 +61,16 @@ class AssemblerMIPS32(Assembler):
                                            size=4) >> 2
 
     def _rel_label(self, token):
-        return self.parse_integer_or_label(label=token,
-                                           bits_size=18,
-                                           bits=(15, 0),
-                                           filter=lambda x: x >> 2,
-                                           relative=self.pc + 4,
-                                           size=4) >> 2
+        def _words(displacement):
+            if displacement % 4 != 0:
+                raise AlignmentError(token)
+            return displacement >> 2
+        return _words(self.parse_integer_or_label(label=token,
+                                                  bits_size=18,
+                                                  bits=(15, 0),
+                                                  filter=_words,
+                                                  relative=self.pc + 4,
+                                                  size=4))
 
     def _immediate32(self, high):
         def _high(token):
-- 
2.43.0


From 1b16cfee90586373ab28fff385427dd0695e2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 35/67] fix: reject MIPS jumps to labels in another 256 MB
 region

---
 necroassembler/cpu/mips32.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 7c303ca..02ffd45 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -53,11 +53,17 @@ class AssemblerMIPS32(Assembler):
         return value
 
     def _abs_label(self, token):
+        region = (self.pc + 4) >> 28
+
+        def _index(address):
+            # the upper bits come from the address of the delay slot
+            if address >> 28 != region:
+                raise NotInBitRange(address, 28, token)
+            return (address & 0x0fffffff) >> 2
         return self.parse_integer_or_label(label=token,
                                            bits=(25, 0),
                                            bits_size=32,
-                                           filter=lambda x: (
-                                               x & 0x0fffffff) >> 2,
+                                           filter=_index,
                                            size=4) >> 2
 
     def _rel_label(self, token):
-- 
2.43.0


From 104e4850923ff57a376987eedaae33c066ecae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 36/67] fix: encode Thumb LDRH with a register offset with its
 own opcode

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 832261a..0077ee2 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -317,7 +317,7 @@ class AssemblerThumb(Assembler):
         if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
             rd, rb, ro = instr.apply(
                 low_reg, None, low_reg, low_reg, None)
-            return self._build_opcode(0b010110000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
+            return self._build_opcode(0b0101101000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-- 
2.43.0


From 3e0ce9145c4019e6dfd4904d949413dc2055ead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 37/67] fix: do not encode Thumb STR with an immediate offset
 as LDR

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 0077ee2..386206e 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -348,7 +348,7 @@ class AssemblerThumb(Assembler):
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
                 low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+            return self._build_opcode(0b0110000000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('STRB')
     def _strb(self, instr):
-- 
2.43.0


From 32c30e8bc88341cde69699ac0c1fae9462f31f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 38/67] fix: store the offset of Thumb LDRH in halfwords

---
 necroassembler/cpu/thumb.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 386206e..4f58910 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -1,7 +1,7 @@
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits_le16u, pack_le16u, pack_bit
 from necroassembler.exceptions import (
-    AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, NotInBitRange)
+    AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, NotInBitRange, AlignmentError)
 
 LOW_REGS = ('r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'r7')
 HIGH_REGS_TRUE = ('r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15')
@@ -73,6 +73,21 @@ class AssemblerThumb(Assembler):
             raise InvalideImmediateValue()
         return value
 
+    def _scaled(self, bits, scale):
+        # unsigned immediate stored as a multiple of scale
+        limit = (1 << bits) * scale
+
+        def _parse(arg):
+            value = self.parse_integer(arg[1:], 16, True)
+            if value is None:
+                raise InvalideImmediateValue()
+            if value < 0 or value >= limit:
+                raise NotInBitRange(value, bits)
+            if value % scale != 0:
+                raise AlignmentError(arg)
+            return value // scale
+        return _parse
+
     def _word8(self, arg):
         return self.parse_integer_or_label(label=arg[1:],
                                            size=2,
@@ -321,7 +336,7 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
+                low_reg, None, low_reg, self._scaled(5, 2), None)
             return self._build_opcode(0b1000100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('LDSB')
-- 
2.43.0


From c1de0650c39962adfc980e235a4f4d5f72a4e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 39/67] fix: reject misaligned offsets of Thumb LDR and STR

---
 necroassembler/cpu/thumb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 4f58910..6818dd6 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -308,8 +308,8 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+                low_reg, None, low_reg, self._scaled(5, 4), None)
+            return self._build_opcode(0b0110100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', SP, IMMEDIATE, ']'):
             rd, imm = instr.apply(low_reg, None, None, self._word8, None)
@@ -362,8 +362,8 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110000000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+                low_reg, None, low_reg, self._scaled(5, 4), None)
+            return self._build_opcode(0b0110000000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('STRB')
     def _strb(self, instr):
-- 
2.43.0


From 0b482374083769550ce1db1cd7bc80e159f55a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 40/67] fix: store the immediates of Thumb ADD with PC and SP
 in words

---
 necroassembler/cpu/thumb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 6818dd6..37d26eb 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -179,14 +179,14 @@ class AssemblerThumb(Assembler):
             hd, hs = instr.apply(high_reg, high_reg)
             return self._build_opcode(0b0100010011000000, ((5, 3), hs), ((2, 0), hd))
         if instr.match(LOW_REGS, PC, IMMEDIATE):
-            rd, imm = instr.apply(low_reg, None, self._imm)
+            rd, imm = instr.apply(low_reg, None, self._scaled(8, 4))
             return self._build_opcode(0b1010000000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(LOW_REGS, SP, IMMEDIATE):
-            rd, imm = instr.apply(low_reg, None, self._imm)
+            rd, imm = instr.apply(low_reg, None, self._scaled(8, 4))
             return self._build_opcode(0b1010100000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(SP, IMMEDIATE):
-            imm, = instr.apply(None, self._imm)
-            return self._build_opcode(0b1011000000000000, ((7, 0), imm >> 1, True))
+            imm, = instr.apply(None, self._scaled(7, 4))
+            return self._build_opcode(0b1011000000000000, ((6, 0), imm))
 
     @opcode('SUB')
     def _sub(self, instr):
-- 
2.43.0


From 1ea6f930d8a4346a005d7aca65885ac3eb41a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 41/67] fix: Thumb literal loads reach from 0 to 1020 bytes
 forward

---
 necroassembler/cpu/thumb.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 37d26eb..ea0c1c3 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -89,14 +89,21 @@ class AssemblerThumb(Assembler):
         return _parse
 
     def _word8(self, arg):
-        return self.parse_integer_or_label(label=arg[1:],
-                                           size=2,
-                                           bits_size=8,
-                                           bits=(7, 0),
-                                           alignment=4,
-                                           filter=lambda x: x >> 2,
-                                           # bit 1 of pc must be turned off
-                                           relative=(self.pc + 4) & ~(0b10))
+        def _words(offset):
+            # the offset is unsigned
+            if offset < 0 or offset > 1020:
+                raise NotInBitRange(offset, 8, arg)
+            if offset % 4 != 0:
+                raise AlignmentError(arg)
+            return offset >> 2
+        return _words(self.parse_integer_or_label(label=arg[1:],
+                                                  size=2,
+                                                  bits_size=11,
+                                                  bits=(7, 0),
+                                                  alignment=4,
+                                                  filter=_words,
+                                                  # bit 1 of pc must be turned off
+                                                  relative=(self.pc + 4) & ~(0b10)))
 
     def _conditional_branch(self, instr, cond):
         if instr.match(LABEL):
@@ -299,7 +306,7 @@ class AssemblerThumb(Assembler):
     def _ldr(self, instr):
         if instr.match(LOW_REGS, '[', PC, IMMEDIATE, ']'):
             rd, imm = instr.apply(low_reg, None, None, self._word8, None)
-            return self._build_opcode(0b0100100000000000, ((10, 8), rd), ((7, 0), imm >> 2))
+            return self._build_opcode(0b0100100000000000, ((10, 8), rd), ((7, 0), imm))
 
         if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
             rd, rb, ro = instr.apply(
@@ -312,8 +319,9 @@ class AssemblerThumb(Assembler):
             return self._build_opcode(0b0110100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', SP, IMMEDIATE, ']'):
-            rd, imm = instr.apply(low_reg, None, None, self._word8, None)
-            return self._build_opcode(0b1001100000000000, ((10, 8), rd), ((7, 0), imm >> 2))
+            rd, imm = instr.apply(
+                low_reg, None, None, self._scaled(8, 4), None)
+            return self._build_opcode(0b1001100000000000, ((10, 8), rd), ((7, 0), imm))
 
     @opcode('LDRB')
     def _ldrb(self, instr):
-- 
2.43.0


From 2ea60d94cd9fc45bec1f0192aca6a94dfc725605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 42/67] fix: reject odd displacements of Thumb branches and
 accept BL 0

---
 necroassembler/cpu/thumb.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index ea0c1c3..a4775a5 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -56,14 +56,18 @@ class AssemblerThumb(Assembler):
 
     bin_prefixes = ('0b', '0y')
 
+    def _halfwords(self, displacement):
+        if displacement % 2 != 0:
+            raise AlignmentError(displacement)
+        return displacement >> 1
+
     def _offset(self, arg, bits, alignment):
         return self.parse_integer_or_label(label=arg,
                                            size=2,
                                            bits_size=(
                                                bits[0] - bits[1]) + 1 + (alignment//2),
                                            bits=bits,
-                                           filter=lambda x: x >> (
-                                               alignment//2),
+                                           filter=self._halfwords,
                                            alignment=alignment,
                                            relative=self.pc + 4)
 
@@ -108,7 +112,7 @@ class AssemblerThumb(Assembler):
     def _conditional_branch(self, instr, cond):
         if instr.match(LABEL):
             offset = self._offset(instr.tokens[1], (7, 0), 2)
-            return self._build_opcode(0b1101000000000000, ((11, 8), cond), ((7, 0), offset >> 1))
+            return self._build_opcode(0b1101000000000000, ((11, 8), cond), ((7, 0), self._halfwords(offset)))
 
     def _alu(self, instr, op):
         if instr.match(LOW_REGS, LOW_REGS):
@@ -392,8 +396,8 @@ class AssemblerThumb(Assembler):
         offset = instr.tokens[1]
 
         address = self.parse_integer(offset, 23, signed=True)
-        if address:
-            address >>= 1
+        if address is not None:
+            address = self._halfwords(address)
             address0 = address >> 11
             address1 = address & 0x7ff
             return self._build_opcode(0b1111000000000000, ((10, 0), address0)) + self._build_opcode(0b1111100000000000, ((10, 0), address1))
@@ -405,7 +409,7 @@ class AssemblerThumb(Assembler):
                                    alignment=2,
                                    relative=self.pc + 4,
                                    # get high 11 bits (after >> 1)
-                                   filter=lambda x: x >> 12)
+                                   filter=lambda x: self._halfwords(x) >> 11)
         self.add_label_translation(label=offset,
                                    offset=2,
                                    size=2,
@@ -414,7 +418,7 @@ class AssemblerThumb(Assembler):
                                    alignment=2,
                                    relative=self.pc + 4,
                                    # get low 11 bits (after >> 1)
-                                   filter=lambda x: ((x >> 1) & 0x7FF))
+                                   filter=lambda x: self._halfwords(x) & 0x7FF)
 
         return pack_le16u(0b1111000000000000, 0b1111100000000000)
 
@@ -422,7 +426,7 @@ class AssemblerThumb(Assembler):
     def _b(self, instr):
         if instr.match(LABEL):
             offset = self._offset(instr.tokens[1], (10, 0), 2)
-            return self._build_opcode(0b1110000000000000, ((10, 0), offset >> 1))
+            return self._build_opcode(0b1110000000000000, ((10, 0), self._halfwords(offset)))
 
     @opcode('BEQ')
     def _beq(self, instr):
-- 
2.43.0


From f20e65375b5802ed80ce6a17d5388af6211519a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 43/67] fix: Thumb LSR and ASR shift by 1 to 32 bits

---
 necroassembler/cpu/thumb.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index a4775a5..058d928 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -92,6 +92,13 @@ class AssemblerThumb(Assembler):
             return value // scale
         return _parse
 
+    def _right_shift(self, arg):
+        # from 1 to 32, where 32 is stored as 0
+        value = self._imm(arg)
+        if value < 1 or value > 32:
+            raise NotInBitRange(value, 5)
+        return value % 32
+
     def _word8(self, arg):
         def _words(offset):
             # the offset is unsigned
@@ -158,14 +165,14 @@ class AssemblerThumb(Assembler):
     @opcode('LSR')
     def _lsr(self, instr):
         if instr.match(LOW_REGS, LOW_REGS, IMMEDIATE):
-            rd, rs, imm = instr.apply(low_reg, low_reg, self._imm)
+            rd, rs, imm = instr.apply(low_reg, low_reg, self._right_shift)
             return self._build_opcode(0b0000100000000000, ((10, 6), imm), ((5, 3), rs), ((2, 0), rd))
         return self._alu(instr, 0b0011)
 
     @opcode('ASR')
     def _asr(self, instr):
         if instr.match(LOW_REGS, LOW_REGS, IMMEDIATE):
-            rd, rs, imm = instr.apply(low_reg, low_reg, self._imm)
+            rd, rs, imm = instr.apply(low_reg, low_reg, self._right_shift)
             return self._build_opcode(0b0001000000000000, ((10, 6), imm), ((5, 3), rs), ((2, 0), rd))
         return self._alu(instr, 0b0100)
 
-- 
2.43.0


From d25c53a1491ef5b75056a66df3e704401ef393cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 44/67] fix: reject 68000 instructions with tokens after the
 last operand

move d0,4(a0) was assembled as move d0,4 and jmp (a0)+ as jmp (a0).
---
 necroassembler/cpu/mc68000.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 3e34ef5..15de26f 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -248,6 +248,14 @@ class AssemblerMC68000(Assembler):
 
         raise InvalidMode(instr)
 
+    def _last_mode(self, instr, start_index, offset, size, blacklist=()):
+        # the last operand, nothing can follow it
+        index, m, xn, data = self._mode(
+            instr, start_index, offset, size, blacklist=blacklist)
+        if index != len(instr.tokens):
+            raise InvalidMode(instr)
+        return index, m, xn, data
+
     def _build_opcode(self, base, *args):
         return pack_bits_be16u(base, *args)
 
@@ -264,7 +272,7 @@ class AssemblerMC68000(Assembler):
         # convert to MOVEA
         if op_size in (2, 4) and instr.match(A_REGS, start=next_index):
             return self._build_opcode(0b0000000001000000, ((13, 12), s), ((11, 9), _reg(instr.tokens[next_index])), ((5, 3), src_m), ((2, 0), src_xn)) + src_data
-        _, dst_m, dst_xn, dst_data = self._mode(
+        _, dst_m, dst_xn, dst_data = self._last_mode(
             instr, next_index, len(src_data), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
         return self._build_opcode(0b0000000000000000, ((13, 12), s), ((11, 9), dst_xn), ((8, 6), dst_m), ((5, 3), src_m), ((2, 0), src_xn)) + src_data + dst_data
 
@@ -287,7 +295,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000000000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -303,7 +311,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000001000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -313,7 +321,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000010000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -323,7 +331,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000011000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -339,7 +347,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000101000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -349,13 +357,13 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000110000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
     @opcode('jmp')
     def _jmp(self, instr):
-        _, src_m, src_xn, src_data = self._mode(
+        _, src_m, src_xn, src_data = self._last_mode(
             instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
         return self._build_opcode(0b0100111011000000, ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
@@ -408,7 +416,7 @@ class AssemblerMC68000(Assembler):
 
     @opcode('jsr')
     def _jsr(self, instr):
-        _, src_m, src_xn, src_data = self._mode(
+        _, src_m, src_xn, src_data = self._last_mode(
             instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
         return self._build_opcode(0b0100111010000000, ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
-- 
2.43.0


From b1cb653458e107c073a01a1a0c55c09d553da384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 45/67] fix: reject odd displacements in 68000 branches

---
 necroassembler/cpu/mc68000.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 15de26f..606f934 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -1,7 +1,7 @@
 
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits_be16u, pack_be16u, pack_be32u
-from necroassembler.exceptions import AssemblerException
+from necroassembler.exceptions import AssemblerException, AlignmentError, NotInBitRange
 
 
 class InvalidMode(AssemblerException):
@@ -259,6 +259,11 @@ class AssemblerMC68000(Assembler):
     def _build_opcode(self, base, *args):
         return pack_bits_be16u(base, *args)
 
+    def _even(self, displacement):
+        if displacement % 2 != 0:
+            raise AlignmentError(displacement)
+        return displacement
+
     def _packer(self, token, op_size, offset):
         value = self.parse_integer_or_label(
             token, size=op_size + (op_size % 2), bits_size=op_size*8, offset=2+offset)
@@ -388,16 +393,18 @@ class AssemblerMC68000(Assembler):
                                                     bits_size=8,
                                                     bits=(7, 0),
                                                     alignment=2,  # here is safe to check for alignment
+                                                    filter=self._even,
                                                     relative=self.pc+2)
-                return self._build_opcode(0b0110000000000000, ((11, 8), condition), ((7, 0), value))
+                return self._build_opcode(0b0110000000000000, ((11, 8), condition), ((7, 0), self._even(value)))
             elif op_size == 2:
                 value = self.parse_integer_or_label(instr.tokens[1],
                                                     size=2,
                                                     bits_size=16,
                                                     alignment=2,  # here is safe to check for alignment
                                                     offset=2,
+                                                    filter=self._even,
                                                     relative=self.pc+2)
-                return self._build_opcode(0b0110000000000000, ((11, 8), condition)) + pack_be16u(value)
+                return self._build_opcode(0b0110000000000000, ((11, 8), condition)) + pack_be16u(self._even(value))
 
     @opcode('dbt', 'dbf', 'dbra', 'dbhi', 'dbls', 'dbcc', 'dbcs', 'dbne', 'dbeq', 'dbvc', 'dbvs', 'dbpl', 'dbmi', 'dbge', 'dblt', 'dbgt', 'dble',
             'dbt.w', 'dbf.w', 'dbra.w', 'dbhi.w', 'dbls.w', 'dbcc.w', 'dbcs.w', 'dbne.w', 'dbeq.w', 'dbvc.w', 'dbvs.w', 'dbpl.w', 'dbmi.w', 'dbge.w', 'dblt.w', 'dbgt.w', 'dble.w'
@@ -411,8 +418,9 @@ class AssemblerMC68000(Assembler):
                                                 bits_size=16,
                                                 alignment=2,  # here is safe to check for alignment
                                                 offset=2,
+                                                filter=self._even,
                                                 relative=self.pc+2)
-            return self._build_opcode(0b0101000011001000, ((11, 8), condition), ((2, 0), d_reg)) + pack_be16u(value)
+            return self._build_opcode(0b0101000011001000, ((11, 8), condition), ((2, 0), d_reg)) + pack_be16u(self._even(value))
 
     @opcode('jsr')
     def _jsr(self, instr):
-- 
2.43.0


From 0655f68245d18e27740ec3afc97bd8c518e64523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 46/67] fix: reject 68000 short branches with a null
 displacement

The processor reads them as branches with a word displacement.
---
 necroassembler/cpu/mc68000.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 606f934..55fdb8f 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -264,6 +264,12 @@ class AssemblerMC68000(Assembler):
             raise AlignmentError(displacement)
         return displacement
 
+    def _short(self, displacement):
+        # 0 announces a word displacement
+        if displacement == 0:
+            raise NotInBitRange(displacement, 8)
+        return self._even(displacement)
+
     def _packer(self, token, op_size, offset):
         value = self.parse_integer_or_label(
             token, size=op_size + (op_size % 2), bits_size=op_size*8, offset=2+offset)
@@ -393,8 +399,10 @@ class AssemblerMC68000(Assembler):
                                                     bits_size=8,
                                                     bits=(7, 0),
                                                     alignment=2,  # here is safe to check for alignment
-                                                    filter=self._even,
+                                                    filter=self._short,
                                                     relative=self.pc+2)
+                if self.parse_integer(instr.tokens[1], 8, True) == 0:
+                    raise NotInBitRange(0, 8)
                 return self._build_opcode(0b0110000000000000, ((11, 8), condition), ((7, 0), self._even(value)))
             elif op_size == 2:
                 value = self.parse_integer_or_label(instr.tokens[1],
-- 
2.43.0


From c17b50c2b95136e963f63ea0e003464889441fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 47/67] fix: make 68000 dbt.w and dbf.w usable

---
 necroassembler/cpu/mc68000.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 55fdb8f..e857bd0 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -55,9 +55,10 @@ def _reg(token):
 
 
 def _cond(token):
-    if token[0:2].upper() == 'RA':
+    name = token.upper().split('.')[0]
+    if name == 'RA':
         return 1
-    return CONDITIONS.index(token[0:2].upper())
+    return CONDITIONS.index(name)
 
 
 def _indexed_reg(token):
-- 
2.43.0


From b7a62d27bab6ee8b8cc5e353ce638e9e18b5f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 48/67] fix: reject byte accesses to 68000 address registers

---
 necroassembler/cpu/mc68000.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index e857bd0..947db6b 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -280,7 +280,9 @@ class AssemblerMC68000(Assembler):
     @opcode('move', 'move.w', 'move.b', 'move.l')
     def _move(self, instr):
         op_size, s = _s_dark(instr.tokens[0])
-        next_index, src_m, src_xn, src_data = self._mode(instr, 1, 0, op_size)
+        # address registers have no byte access
+        next_index, src_m, src_xn, src_data = self._mode(
+            instr, 1, 0, op_size, blacklist=('An',) if op_size == 1 else ())
         # convert to MOVEA
         if op_size in (2, 4) and instr.match(A_REGS, start=next_index):
             return self._build_opcode(0b0000000001000000, ((13, 12), s), ((11, 9), _reg(instr.tokens[next_index])), ((5, 3), src_m), ((2, 0), src_xn)) + src_data
-- 
2.43.0


From b2be2c9d7bef696356099de20fa937cab9b93cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 49/67] fix: store label displacements of the 8086 after the
 ModRM byte

---
 necroassembler/cpu/intel8086.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 44277ef..37b2dc9 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -19,7 +19,7 @@ def _build_modrm(assembler, modrm):
             modrm['displacement'].lstrip('+'),
             size=2,
             bits_size=16,
-            offset=1,
+            offset=2,
             signed=True))
     return blob
 
@@ -299,7 +299,7 @@ def _Mp(instr, assembler, index, modrm):
             modrm['mod'] = 0
             modrm['rm'] = 6
             return 3, _build_modrm(assembler, modrm) + pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=2, bits_size=16, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=2))
 
 
 def _Ap(instr, assembler, index, modrm):
-- 
2.43.0


From 098880fbec4fc12385de92173908366c370aef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 50/67] fix: the addresses of 8086 MOV AL,[address] have 16
 bits

---
 necroassembler/cpu/intel8086.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 37b2dc9..2372a11 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -207,7 +207,7 @@ def _Ob(instr, assembler, index, modrm):
     if match(instr.tokens[index:index+3], '[', None, ']'):
         if instr.tokens[index+1].upper() not in REGS8 + REGS16 + SEGMENTS:
             return 3, pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=1, bits_size=8, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=1))
 
 
 def _Ov(instr, assembler, index, modrm):
-- 
2.43.0


From 98f3d4163a7d7f9b67e46011862f6710656ef04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 51/67] fix: encode the operands of 8086 POP to memory and MOV
 of immediates to memory

---
 necroassembler/cpu/intel8086.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 2372a11..a93ddab 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -21,6 +21,7 @@ def _build_modrm(assembler, modrm):
             bits_size=16,
             offset=2,
             signed=True))
+    modrm['length'] = len(blob)
     return blob
 
 
@@ -182,13 +183,13 @@ def _SS(instr, assembler, index, modrm):
 def _Ib(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in REGS8 + REGS16 + SEGMENTS + ('[', ']'):
         return 1, pack_byte(assembler.parse_integer_or_label(
-            instr.tokens[index], size=1, bits_size=8, offset=1))
+            instr.tokens[index], size=1, bits_size=8, offset=1 + modrm.get('length', 0)))
 
 
 def _Iv(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in REGS8 + REGS16 + SEGMENTS + ('[', ']'):
         return 1, pack_le16u(assembler.parse_integer_or_label(
-            instr.tokens[index], size=2, bits_size=16, offset=1))
+            instr.tokens[index], size=2, bits_size=16, offset=1 + modrm.get('length', 0)))
 
 
 def _Jb(instr, assembler, index, modrm):
@@ -453,7 +454,7 @@ OPCODES_TABLE = (
     (0x8C, 'MOV', _Ev, _Sw),
     (0x8D, 'LEA', _Gv, _M),
     (0x8E, 'MOV', _Sw, _Ev),
-    (0x8F, 'POP', _Ev),
+    (0x8F00, 'POP', _Ev),
     (0x90, 'NOP'),
     (0x91, 'XCHG', _eCX, _eAX),
     (0x92, 'XCHG', _eDX, _eAX),
@@ -506,8 +507,8 @@ OPCODES_TABLE = (
     (0xC3, 'RET'),
     (0xC4, 'LES', _Gv, _Mp),
     (0xC5, 'LDS', _Gv, _Mp),
-    (0xC6, 'MOV', _Eb, _Ib),
-    (0xC7, 'MOV', _Ev, _Iv),
+    (0xC600, 'MOV', _Eb, _Ib),
+    (0xC700, 'MOV', _Ev, _Iv),
     (0xCA, 'RETF', _Iv),
     (0xCB, 'RETF'),
     (0xCC, 'INT', _3),
-- 
2.43.0


From c5cd82b971af012895e1128648858c1eb903ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 52/67] fix: encode the 8086 operand [BP] with a displacement

Without one it is a direct address.
---
 necroassembler/cpu/intel8086.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index a93ddab..8c29310 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -39,7 +39,8 @@ def _get_modrm_mod(arg):
     if match(arg, 'DI'):
         return 0b00, 0b101, 1, None
     if match(arg, 'BP'):
-        return 0b00, 0b110, 1, None
+        # without displacement this would be a direct address
+        return 0b10, 0b110, 1, '0'
     if match(arg, 'BX'):
         return 0b00, 0b111, 1, None
     # displacement (16 bit only)
-- 
2.43.0


From ce88b11168aa8f76ac61160b0ee85a98d3dfefa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 53/67] fix: reject 8086 instructions with tokens after the
 last operand

SHL BX,4 and SHL BX,CL were assembled as SHL BX,1.
---
 necroassembler/cpu/intel8086.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 8c29310..5b3ef93 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -553,9 +553,13 @@ OPCODES_TABLE = (
     (0xF706, 'DIV', _Ev),
     (0xF704, 'MUL', _Ev),
     (0xD004, 'SHL', _Eb),
+    (0xD004, 'SHL', _Eb, _1),
     (0xD104, 'SHL', _Ev),
+    (0xD104, 'SHL', _Ev, _1),
     (0xD005, 'SHR', _Eb),
-    (0xD105, 'SHR', _Ev)
+    (0xD005, 'SHR', _Eb, _1),
+    (0xD105, 'SHR', _Ev),
+    (0xD105, 'SHR', _Ev, _1)
 )
 
 
@@ -592,7 +596,7 @@ class Intel8086OpCode:
                 else:
                     index += delta_and_blob[0]
                     full_blob += delta_and_blob[1]
-            if not skip:
+            if not skip and index == len(instr.tokens):
                 return pack_byte(base) + full_blob
 
 
-- 
2.43.0


From 9cdf12b2347fc118d68f4986ea896296ecffc890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 54/67] fix: do not take 8086 registers for displacements

---
 necroassembler/cpu/intel8086.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 5b3ef93..e4d4dbf 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -26,6 +26,9 @@ def _build_modrm(assembler, modrm):
 
 
 def _get_modrm_mod(arg):
+    # a register is not a displacement (AH would be the number 10)
+    if len(arg) > 1 and arg[-2] in ('+', '-') and arg[-1].upper() in REGS8:
+        raise InvalidOpCodeArguments()
     if match(arg, 'BX', '+', 'SI'):
         return 0b00, 0b000, 3, None
     if match(arg, 'BX', '+', 'DI'):
-- 
2.43.0


From c2fe80e139c535f49b7ed61a1fabb3b572dfdbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 55/67] fix: use the opcode of the matching form of a PowerPC
 mnemonic

---
 necroassembler/cpu/powerpc.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index e2f4e1a..90ebd02 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1324,23 +1324,23 @@ OPCODES_TABLE = [
 
 class PowerPCOPCode:
 
-    def __init__(self, assembler, name, base):
+    def __init__(self, assembler, name):
         self.conditions = []
         self.assembler = assembler
         self.name = name
-        self.base = base
 
-    def add_condition(self, condition):
-        self.conditions.append(condition)
+    def add_condition(self, condition, base):
+        # the forms of a mnemonic can have different opcodes
+        self.conditions.append((condition, base))
 
     def __call__(self, instr):
-        for condition in self.conditions:
+        for condition, base in self.conditions:
             if condition is None:
                 if len(instr.tokens) == 1:
-                    return pack_be32u(self.base)
+                    return pack_be32u(base)
             elif instr.match(*[item[2] for item in condition]):
                 return pack_be32u(
-                    pack_bits(self.base, *[
+                    pack_bits(base, *[
                         ((item[0] + item[1] - 1, item[0]), item[2](
                             instr.tokens[index+1], self.assembler, (item[0] + item[1] - 1, item[0]))
                          ) for index, item in enumerate(condition)
@@ -1360,17 +1360,19 @@ class AssemblerPowerPC(Assembler):
             # already defined ?
             if name.upper() in self.instructions:
                 if len(entry) > 2:
-                    self.instructions[name.upper()].add_condition(entry[2])
+                    self.instructions[name.upper()].add_condition(
+                        entry[2], entry[0])
                 else:
-                    self.instructions[name.upper()].add_condition(None)
+                    self.instructions[name.upper()].add_condition(
+                        None, entry[0])
                 continue
 
             base = entry[0]
-            powerpc_opcode = PowerPCOPCode(self, name, base)
+            powerpc_opcode = PowerPCOPCode(self, name)
             if len(entry) > 2:
-                powerpc_opcode.add_condition(entry[2])
+                powerpc_opcode.add_condition(entry[2], base)
             else:
-                powerpc_opcode.add_condition(None)
+                powerpc_opcode.add_condition(None, base)
             self.register_instruction(entry[1], powerpc_opcode)
 
 
-- 
2.43.0


From 303c9ce2da70d5fcaed4c1771f957f04aa12f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 56/67] fix: encode PowerPC branch targets as signed numbers of
 words

---
 necroassembler/cpu/powerpc.py | 39 +++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 90ebd02..3e8562d 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1,5 +1,6 @@
 from necroassembler import Assembler
-from necroassembler.utils import pack_be32u, pack_bits
+from necroassembler.exceptions import AlignmentError, NotInBitRange
+from necroassembler.utils import pack_be32u, pack_bits, in_bit_range_decimal
 
 GREGS = tuple(['r{0}'.format(n) for n in range(0, 32)])
 FREGS = tuple(['f{0}'.format(n) for n in range(0, 32)])
@@ -32,27 +33,35 @@ def _freg(token, assembler=None, bits=None):
     return reg in FREGS
 
 
+def _target(token, assembler, bits, relative):
+    # a signed number of words
+    bits_size = bits[0] - bits[1] + 3
+
+    def _words(value):
+        if value % 4 != 0:
+            raise AlignmentError(token)
+        if not in_bit_range_decimal(value, bits_size, True):
+            raise NotInBitRange(value, bits_size, token)
+        return value >> 2
+
+    return _words(assembler.parse_integer_or_label(token,
+                                                   size=4,
+                                                   bits_size=bits_size,
+                                                   bits=bits,
+                                                   filter=_words,
+                                                   relative=relative,
+                                                   signed=True))
+
+
 def _pcrel(token, assembler=None, bits=None):
     if assembler is not None:
-        return assembler.parse_integer_or_label(token,
-                                                size=4,
-                                                bits_size=(
-                                                    bits[0] - bits[1] + 1),
-                                                bits=bits,
-                                                filter=lambda x: x >> 2,
-                                                relative=assembler.pc)
-
+        return _target(token, assembler, bits, assembler.pc)
     return token not in GREGS+FREGS
 
 
 def _baddr(token, assembler=None, bits=None):
     if assembler is not None:
-        return assembler.parse_integer_or_label(token,
-                                                size=4,
-                                                bits_size=(
-                                                    bits[0] - bits[1] + 1),
-                                                bits=bits,
-                                                filter=lambda x: x >> 2)
+        return _target(token, assembler, bits, 0)
     return token not in GREGS+FREGS
 
 
-- 
2.43.0


From 13831c9ef5665d9063149f6e62cc35558ef5fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 57/67] fix: accept r0 as a PowerPC register operand

---
 necroassembler/cpu/powerpc.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 3e8562d..80cb80c 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -10,11 +10,16 @@ def _greg(token, assembler=None, bits=None):
     reg = token.lower()
     if assembler is not None:
         return int(token[1:])
-    if reg == 'r0':
-        return False
     return reg in GREGS
 
 
+def _ureg(token, assembler=None, bits=None):
+    # the base of the instructions with update
+    if assembler is None and token.lower() == 'r0':
+        return False
+    return _greg(token, assembler, bits)
+
+
 def _g0reg(token, assembler=None, bits=None):
     reg = token.lower()
     if assembler is not None:
@@ -720,19 +725,19 @@ OPCODES_TABLE = [
     [0x88000000, "lbz",     [[21, 5, _greg], [0, 16, D],     [16, 5, _g0reg]]],
     [0x7c0000ae, "lbzx",    [[21, 5, _greg], [16, 5, _g0reg], [11, 5, _greg]]],
     [0x8c000000, "lbzu",    [[21, 5, _greg], [0, 16, D],     [16, 5, _g0reg]]],
-    [0x7c0000ee, "lbzux",   [[21, 5, _greg], [16, 5, _greg],  [11, 5, _greg]]],
+    [0x7c0000ee, "lbzux",   [[21, 5, _greg], [16, 5, _ureg],  [11, 5, _greg]]],
     [0xa0000000, "lhz",     [[21, 5, _greg], [0, 16, D],     [16, 5, _g0reg]]],
     [0x7c00022e, "lhzx",    [[21, 5, _greg], [16, 5, _g0reg], [11, 5, _greg]]],
     [0xa4000000, "lhzu",    [[21, 5, _greg], [0, 16, D],     [16, 5, _g0reg]]],
-    [0x7c00026e, "lhzux",   [[21, 5, _greg], [16, 5, _greg],  [11, 5, _greg]]],
+    [0x7c00026e, "lhzux",   [[21, 5, _greg], [16, 5, _ureg],  [11, 5, _greg]]],
     [0xa8000000, "lha",     [[21, 5, _greg], [0, 16, D],     [16, 5, _g0reg]]],
     [0x7c0002ae, "lhax",    [[21, 5, _greg], [16, 5, _g0reg], [11, 5, _greg]]],
     [0xac000000, "lhau",    [[21, 5, _greg], [0, 16, D],     [16, 5, _greg]]],
-    [0x7c0002ee, "lhaux",   [[21, 5, _greg], [16, 5, _greg],  [11, 5, _greg]]],
+    [0x7c0002ee, "lhaux",   [[21, 5, _greg], [16, 5, _ureg],  [11, 5, _greg]]],
     [0x80000000, "lwz",     [[21, 5, _greg], [0, 16, D],     [16, 5, _g0reg]]],
     [0x7c00002e, "lwzx",    [[21, 5, _greg], [16, 5, _g0reg], [11, 5, _greg]]],
     [0x84000000, "lwzu",    [[21, 5, _greg], [0, 16, D],     [16, 5, _greg]]],
-    [0x7c00006e, "lwzux",   [[21, 5, _greg], [16, 5, _greg],  [11, 5, _greg]]],
+    [0x7c00006e, "lwzux",   [[21, 5, _greg], [16, 5, _ureg],  [11, 5, _greg]]],
 
     [0xb8000000, "lmw",     [[21, 5, _greg], [0, 16, D],     [16, 5, _g0reg]]],
     [0xbc000000, "stmw",    [[21, 5, _greg], [0, 16, D],     [16, 5, _g0reg]]],
@@ -750,11 +755,11 @@ OPCODES_TABLE = [
     [0xc0000000, "lfs",     [[21, 5, _freg], [0, 16, D],     [16, 5, _g0reg]]],
     [0xc4000000, "lfsu",    [[21, 5, _freg], [0, 16, D],     [16, 5, _greg]]],
     [0x7c00042e, "lfsx",    [[21, 5, _freg], [16, 5, _g0reg], [11, 5, _greg]]],
-    [0x7c00046e, "lfsux",   [[21, 5, _freg], [16, 5, _greg],  [11, 5, _greg]]],
+    [0x7c00046e, "lfsux",   [[21, 5, _freg], [16, 5, _ureg],  [11, 5, _greg]]],
     [0xc8000000, "lfd",     [[21, 5, _freg], [0, 16, D],     [16, 5, _g0reg]]],
     [0xcc000000, "lfdu",    [[21, 5, _freg], [0, 16, D],     [16, 5, _greg]]],
     [0x7c0004ae, "lfdx",    [[21, 5, _freg], [16, 5, _g0reg], [11, 5, _greg]]],
-    [0x7c0004ee, "lfdux",   [[21, 5, _freg], [16, 5, _greg],  [11, 5, _greg]]],
+    [0x7c0004ee, "lfdux",   [[21, 5, _freg], [16, 5, _ureg],  [11, 5, _greg]]],
 
     [0x38000000, "la",      [[21, 5, _greg], [0, 16, D],     [16, 5, _g0reg]]],
 
@@ -855,15 +860,15 @@ OPCODES_TABLE = [
     [0x98000000, "stb",     [[21, 5, _greg], [0, 16, D],    [16, 5, _g0reg]]],
     [0x9c000000, "stbu",    [[21, 5, _greg], [0, 16, D],    [16, 5, _greg]]],
     [0x7c0001ae, "stbx",    [[21, 5, _greg], [16, 5, _g0reg], [11, 5, _greg]]],
-    [0x7c0001ee, "stbux",   [[21, 5, _greg], [16, 5, _greg], [11, 5, _greg]]],
+    [0x7c0001ee, "stbux",   [[21, 5, _greg], [16, 5, _ureg], [11, 5, _greg]]],
     [0xb0000000, "sth",     [[21, 5, _greg], [0, 16, D],    [16, 5, _g0reg]]],
     [0xb4000000, "sthu",    [[21, 5, _greg], [0, 16, D],    [16, 5, _greg]]],
     [0x7c00032e, "sthx",    [[21, 5, _greg], [16, 5, _g0reg], [11, 5, _greg]]],
-    [0x7c00036e, "sthux",   [[21, 5, _greg], [16, 5, _greg], [11, 5, _greg]]],
+    [0x7c00036e, "sthux",   [[21, 5, _greg], [16, 5, _ureg], [11, 5, _greg]]],
     [0x90000000, "stw",     [[21, 5, _greg], [0, 16, D],    [16, 5, _g0reg]]],
     [0x94000000, "stwu",    [[21, 5, _greg], [0, 16, D],    [16, 5, _greg]]],
     [0x7c00012e, "stwx",    [[21, 5, _greg], [16, 5, _g0reg], [11, 5, _greg]]],
-    [0x7c00016e, "stwux",   [[21, 5, _greg], [16, 5, _greg], [11, 5, _greg]]],
+    [0x7c00016e, "stwux",   [[21, 5, _greg], [16, 5, _ureg], [11, 5, _greg]]],
 
     [0x7c00072c, "sthbrx",  [[21, 5, _greg], [16, 5, _g0reg], [11, 5, _greg]]],
     [0x7c00052c, "stwbrx",  [[21, 5, _greg], [16, 5, _g0reg], [11, 5, _greg]]],
@@ -877,11 +882,11 @@ OPCODES_TABLE = [
     [0xd0000000, "stfs",    [[21, 5, _freg], [0, 16, D],    [16, 5, _g0reg]]],
     [0xd4000000, "stfsu",   [[21, 5, _freg], [0, 16, D],    [16, 5, _greg]]],
     [0x7c00052e, "stfsx",   [[21, 5, _freg], [16, 5, _g0reg], [11, 5, _greg]]],
-    [0x7c00056e, "stfsux",  [[21, 5, _freg], [16, 5, _greg], [11, 5, _greg]]],
+    [0x7c00056e, "stfsux",  [[21, 5, _freg], [16, 5, _ureg], [11, 5, _greg]]],
     [0xd8000000, "stfd",    [[21, 5, _freg], [0, 16, D],    [16, 5, _g0reg]]],
     [0xdc000000, "stfdu",   [[21, 5, _freg], [0, 16, D],    [16, 5, _greg]]],
     [0x7c0005ae, "stfdx",   [[21, 5, _freg], [16, 5, _g0reg], [11, 5, _greg]]],
-    [0x7c0005ee, "stfdux",  [[21, 5, _freg], [16, 5, _greg], [11, 5, _greg]]],
+    [0x7c0005ee, "stfdux",  [[21, 5, _freg], [16, 5, _ureg], [11, 5, _greg]]],
 
     [0x20000000, "subfic",  [[21, 5, _greg], [16, 5, _greg], [0, 16, _si]]],
     [0x7c000050, "sub",     [[21, 5, _greg], [11, 5, _greg], [16, 5, _greg]]],
-- 
2.43.0


From d21f2a2e2a5d5a9b46edc165f06f11fc07e60e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 58/67] fix: reject PowerPC status fields above seven in mcrfs

---
 necroassembler/cpu/powerpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 80cb80c..cc60a83 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -712,7 +712,7 @@ OPCODES_TABLE = [
     [0xfc00048e, "mffs",    [[21, 5, _freg]]],
     [0xfc00048f, "mffs.",   [[21, 5, _freg]]],
     [0xfc000080, "mcrfs",   [[21, 5, CRFONLY], [18, 5, _num]]],
-    [0xfc000080, "mcrfs",   [[23, 3, _num],  [18, 5, _num]]],
+    [0xfc000080, "mcrfs",   [[23, 3, _num],  [18, 3, _num]]],
     [0xfc00010c, "mtfsfi",  [[23, 3, _num],  [12, 4, _num]]],
     [0xfc00010d, "mtfsfi.", [[23, 3, _num],  [12, 4, _num]]],
     [0xfc00058e, "mtfsf",   [[17, 8, _num],  [11, 5, _freg]]],
-- 
2.43.0


From 4c0474b57c2d32a6a5945b50bff1e2216fee8d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 59/67] fix: let unsupported PowerPC operand types not hide the
 forms after them

---
 necroassembler/cpu/powerpc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index cc60a83..884c1ea 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1352,6 +1352,9 @@ class PowerPCOPCode:
             if condition is None:
                 if len(instr.tokens) == 1:
                     return pack_be32u(base)
+            elif None in [item[2] for item in condition]:
+                # unsupported operand type
+                continue
             elif instr.match(*[item[2] for item in condition]):
                 return pack_be32u(
                     pack_bits(base, *[
-- 
2.43.0


From 31dba3195bb0ac620bf6bc0c7d54cadcd76bfc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 60/67] fix: make Thumb literal loads in a repeat block reach
 their label

---
 necroassembler/cpu/thumb.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 058d928..c78da58 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -107,14 +107,17 @@ class AssemblerThumb(Assembler):
             if offset % 4 != 0:
                 raise AlignmentError(arg)
             return offset >> 2
+
+        def _from_pc(displacement):
+            # bit 1 of pc must be turned off, also in the copies of a repeat block
+            return _words(displacement + displacement % 4)
         return _words(self.parse_integer_or_label(label=arg[1:],
                                                   size=2,
                                                   bits_size=11,
                                                   bits=(7, 0),
                                                   alignment=4,
-                                                  filter=_words,
-                                                  # bit 1 of pc must be turned off
-                                                  relative=(self.pc + 4) & ~(0b10)))
+                                                  filter=_from_pc,
+                                                  relative=self.pc + 4))
 
     def _conditional_branch(self, instr, cond):
         if instr.match(LABEL):
-- 
2.43.0


From b6a90d204a62f6fee1e3090c3c591504ce650c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 61/67] fix: take displacements from address zero for relative

---
 necroassembler/assembler.py   | 10 +++++-----
 necroassembler/cpu/powerpc.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 5e6b7e1..90e554a 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -226,7 +226,7 @@ class Assembler:
     def _resolve_labels(self, linker):
         for (address, _), data in self.labels_addresses.items():
             label = data.label
-            is_relative = data.relative != 0
+            is_relative = data.relative is not None
 
             absolute_address = self.get_label_absolute_address_by_name(label)
             if not is_relative:
@@ -302,7 +302,7 @@ class Assembler:
     def add_label_translation(self, label,
                               size, bits_size,
                               offset=0, alignment=1, bits=None, filter=None,
-                              relative=0, hook=None):
+                              relative=None, hook=None):
         index = len(self.assembled_bytes) + offset
         label_data = LabelData(label, size, bits_size, relative)
         label_data.offset = offset
@@ -387,10 +387,10 @@ class Assembler:
         return value
 
     def parse_integer_or_label(self, label,
-                               size, bits_size, relative=0,
+                               size, bits_size, relative=None,
                                offset=0, alignment=1, bits=None, filter=None,
                                hook=None, signed=False):
-        if relative != 0:
+        if relative is not None:
             signed = True
         value = self.parse_integer(label, bits_size, signed)
         # label ?
@@ -688,7 +688,7 @@ class Assembler:
             shift = (i + 1) * len(blob)
             for (address, bits), data in references:
                 label_data = copy.copy(data)
-                if label_data.relative != 0:
+                if label_data.relative is not None:
                     label_data.relative += shift
                 self.labels_addresses[(address + shift, bits)] = label_data
             self.append_assembled_bytes(blob)
diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 884c1ea..f9c4846 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -66,7 +66,7 @@ def _pcrel(token, assembler=None, bits=None):
 
 def _baddr(token, assembler=None, bits=None):
     if assembler is not None:
-        return _target(token, assembler, bits, 0)
+        return _target(token, assembler, bits, None)
     return token not in GREGS+FREGS
 
 
-- 
2.43.0


From 12790b6312ca4e3f4451d2e0ececc099e3876806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:35 +0000
Subject: [PATCH 62/67] fix: report exactly the undefined references of the
 linked program

---
 necroassembler/linker.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index 4ab8e15..7faf6dc 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -62,7 +62,8 @@ class ELF:
         return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 1, 0, 16 if self.bits == 32 else 24)
 
     def resolve_unknown_symbol(self, assembler, address, symbol_data):
-        self.relocations[address] = symbol_data
+        # different bit fields of the same word are different references
+        self.relocations[(assembler, address, symbol_data.bits)] = symbol_data
         return 0
 
     def relocate(self, address, symbol_data):
@@ -73,8 +74,10 @@ class ELF:
         # give a chance to the subclasses to manage the undefined symbols
         relocations = self.relocations
         self.relocations = {}
-        for address, symbol_data in relocations.items():
-            self.relocate(address, symbol_data)
+        for (owner, address, _), symbol_data in relocations.items():
+            # a link that failed before may have left references of its own
+            if owner is assembler and assembler.get_label_absolute_address_by_name(symbol_data.label) is None:
+                self.relocate(address, symbol_data)
 
         # first prepare the .shstrtab section
         sh_string_table = b'\x00'
-- 
2.43.0


From 01361b2957611f322970b7cacc58fb02374fc2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 63/67] fix: apply defines to macro arguments only once

---
 necroassembler/statements.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 68074e6..91d69c1 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -23,18 +23,23 @@ class Instruction(Statement):
             macro.add_instruction(self)
             return
 
-        # apply defines
-        substitute_with_dict(self.tokens, assembler.defines, 0)
+        # the defines in the arguments of a macro are applied (once)
+        # by the instructions of the macro
+        name = self.tokens[:1]
+        substitute_with_dict(name, assembler.defines, 0)
 
-        key = self.tokens[0]
+        key = name[0]
         if not assembler.case_sensitive:
             key = key.upper()
 
         if key in assembler.macros:
             macro = assembler.macros[key]
-            macro.assemble(assembler, self.tokens)
+            macro.assemble(assembler, name + self.tokens[1:])
             return
 
+        # apply defines
+        substitute_with_dict(self.tokens, assembler.defines, 0)
+
         if not key in assembler.instructions:
             raise UnknownInstruction(self)
         instruction = assembler.instructions[key]
-- 
2.43.0


From f0c69b76625bddfc68817446ef5667dbf5da036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 64/67] fix: repeat the ram reserved by the block of a repeat

---
 necroassembler/assembler.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 90e554a..d6d21bb 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -650,6 +650,9 @@ class Assembler:
         if size is None or size < 1:
             raise InvalidArgumentsForDirective(instr)
         self.org_counter += size
+        if self.repeat is not None:
+            count, index, ram = self.repeat
+            self.repeat = (count, index, ram + size)
 
     def directive_align(self, instr):
         if len(instr.tokens) != 2:
@@ -672,13 +675,13 @@ class Assembler:
         if size is None or size <= 0:
             raise InvalidArgumentsForDirective(instr)
 
-        self.repeat = (size, len(self.assembled_bytes))
+        self.repeat = (size, len(self.assembled_bytes), 0)
 
     def directive_end_repeat(self, instr):
         if self.repeat is None:
             raise NotInRepeatMode(instr)
 
-        size, index = self.repeat
+        size, index, ram = self.repeat
         self.repeat = None
         blob = self.assembled_bytes[index:]
         references = [(key, data) for key, data in self.labels_addresses.items()
@@ -689,9 +692,11 @@ class Assembler:
             for (address, bits), data in references:
                 label_data = copy.copy(data)
                 if label_data.relative is not None:
-                    label_data.relative += shift
+                    label_data.relative += shift + (i + 1) * ram
                 self.labels_addresses[(address + shift, bits)] = label_data
             self.append_assembled_bytes(blob)
+            # and so is the ram it reserves
+            self.org_counter += ram
 
     def directive_db_to_ascii(self, instr):
         def db_to_str(address, true_address):
-- 
2.43.0


From f2abc7c71b7a0f79b6b4148e6f7c1ddfd72b2127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:30 +0000
Subject: [PATCH 65/67] fix: accept all the digits of hexadecimal literals with
 a suffix

---
 necroassembler/assembler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index d6d21bb..55d9d61 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -1,4 +1,5 @@
 import copy
+from string import hexdigits
 from necroassembler.tokenizer import Tokenizer
 from necroassembler.utils import (pack_byte, pack_le32u, pack_le16u,
                                   pack_be32u, pack_be16u, in_bit_range,
@@ -336,8 +337,10 @@ class Assembler:
 
         for suffix in self.hex_suffixes:
             if token.endswith(suffix):
-                if token[:-len(suffix)].isdigit():
-                    return int(token[0:-len(suffix)], 16), False
+                # the first digit tells a number from a name
+                digits = token[:-len(suffix)]
+                if digits[:1].isdigit() and all(char in hexdigits for char in digits):
+                    return int(digits, 16), False
 
         for suffix in self.bin_suffixes:
             if token.endswith(suffix):
-- 
2.43.0


From b0dee8bfc10d2edcada66d67f645db77e8a61a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:48 +0000
Subject: [PATCH 66/67] fix: accept the registers of thumb lists in upper case

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index c78da58..a5f5489 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -133,7 +133,7 @@ class AssemblerThumb(Assembler):
 
         rlist = 0
         for token in tokens:
-            if token in LOW_REGS:
+            if token.lower() in LOW_REGS:
                 bit_to_set = low_reg(token)
                 rlist = pack_bit(rlist, (bit_to_set, 1))
                 continue
-- 
2.43.0


From 5dc90a658a5580d911e43ff330a3e816f3faa840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:50 +0000
Subject: [PATCH 67/67] fix: accept 68000 index registers without a size in
 upper case

---
 necroassembler/cpu/mc68000.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 947db6b..143f121 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -36,7 +36,7 @@ def _is_indexed_reg(token):
         return token.lower()[0:-2] in D_REGS+A_REGS
     if token.lower().endswith('.l'):
         return token.lower()[0:-2] in D_REGS+A_REGS
-    return token in D_REGS+A_REGS
+    return token.lower() in D_REGS+A_REGS
 
 
 IMMEDIATE = _is_immediate
-- 
2.43.0

