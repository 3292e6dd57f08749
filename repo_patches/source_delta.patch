From bdb8b54f36d83b6bd5836a42805bce251723c209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 01/31] fix: fill the last byte of a bounded .org region at the
 end of a source

The end of a region is inclusive; with exactly one byte missing the fill
was skipped.
---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 5008b15..86561a2 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -198,7 +198,7 @@ class Assembler:
 
         # check if we need to fill something
         if self.current_org_end > 0:
-            if self.current_org + self.org_counter < self.current_org_end:
+            if self.current_org + self.org_counter <= self.current_org_end:
                 blob = bytes([self.fill_value] * ((self.current_org_end + 1) -
                                                   (self.current_org + self.org_counter)))
                 self.append_assembled_bytes(blob)
-- 
2.43.0


From 226106ccdf376ad049c69bf5ec1c6f0898c39b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 02/31] fix: do not fill the open .org region at the end of an
 included file

---
 necroassembler/assembler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 86561a2..9c95c29 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -181,7 +181,7 @@ class Assembler:
             raise NotInMacroRecordingMode(instr)
         self.macro_recording = None
 
-    def assemble(self, code, context=None):
+    def _assemble_statements(self, code, context):
         tokenizer = Tokenizer(context=context)
         tokenizer.parse(code)
 
@@ -196,6 +196,9 @@ class Assembler:
                     print('assembled {0} -> ({1}) at 0x{2:x}'.format(statement,
                                                                      ','.join(['0x{0:02x}'.format(x) for x in self.assembled_bytes[current_index:]]), current_index))
 
+    def assemble(self, code, context=None):
+        self._assemble_statements(code, context)
+
         # check if we need to fill something
         if self.current_org_end > 0:
             if self.current_org + self.org_counter <= self.current_org_end:
@@ -734,7 +737,9 @@ class Assembler:
             raise InvalidArgumentsForDirective(instr)
         filename = self.stringify(instr.tokens[1])
         with open(filename) as f:
-            self.assemble(f.read(), context=filename)
+            # the including source goes on after this one, so any open
+            # region or section must be left open
+            self._assemble_statements(f.read(), context=filename)
 
     def directive_incbin(self, instr):
         if len(instr.tokens) != 2:
-- 
2.43.0


From 7d54611d6c3a4b1a111d05627604e19afa341ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 03/31] fix: restore the macro body when its expansion fails

---
 necroassembler/macros.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/necroassembler/macros.py b/necroassembler/macros.py
index de0b661..8952b1a 100644
--- a/necroassembler/macros.py
+++ b/necroassembler/macros.py
@@ -26,13 +26,16 @@ class Macro:
         macro_args = self.args
         for instr in self.instructions:
             original_tokens = instr.tokens.copy()
-            # check for known macro args:
-            # first build a dictionary of arg: value
-            macro_dict = {}
-            for macro_arg_index, macro_arg in enumerate(macro_args):
-                macro_dict[macro_arg] = args[macro_arg_index]
-                
-            substitute_with_dict(instr.tokens, macro_dict, 0)
-
-            instr.assemble(assembler)
-            instr.tokens = original_tokens
+            try:
+                # check for known macro args:
+                # first build a dictionary of arg: value
+                macro_dict = {}
+                for macro_arg_index, macro_arg in enumerate(macro_args):
+                    macro_dict[macro_arg] = args[macro_arg_index]
+
+                substitute_with_dict(instr.tokens, macro_dict, 0)
+
+                instr.assemble(assembler)
+            finally:
+                # the body must survive a failed expansion too
+                instr.tokens = original_tokens
-- 
2.43.0


From 88f9db2a2f03d1d3bfa41664e2f26190e52b1bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 04/31] fix: drop the label references of a rejected
 instruction

---
 necroassembler/assembler.py  | 7 +++++++
 necroassembler/statements.py | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 9c95c29..30d79f8 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -310,6 +310,13 @@ class Assembler:
         label_data.filter = filter
         self.labels_addresses[index] = label_data
 
+    def discard_label_translations(self):
+        # forget the references of a rejected statement: they are
+        # the ones to bytes that have not been emitted
+        limit = len(self.assembled_bytes)
+        for address in [x for x in self.labels_addresses if x >= limit]:
+            del self.labels_addresses[address]
+
     def _internal_parse_integer(self, token):
         # first check for an ascii char
         if token[0] == '\'' and token[2] == '\'':
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 68299cb..a661d88 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -45,12 +45,14 @@ class Instruction(Statement):
                     # do not add 'self' here, will be added in the exception
                     raise InvalidInstruction()
             except AssemblerException as exc:
+                assembler.discard_label_translations()
                 # trick for adding more infos to the exception
                 exc.args = (exc.args[0] + ' ' + str(self),)
                 raise exc from None
             except:
                 # here we have a non-AssemblerException, so we
                 # need to report the whole exceptions chain
+                assembler.discard_label_translations()
                 raise InvalidInstruction(self)
         else:
             if len(self.tokens) != 1:
-- 
2.43.0


From d162787f52baf7c557e0c708a7ebd9b86a06c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 05/31] fix: gameboy global checksum was wrong when linking
 again

---
 necroassembler/platforms/gameboy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 50aae17..0e9dd52 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -162,7 +162,8 @@ class AssemblerGameboy(AssemblerLR35902):
                 int(self.assembled_bytes[i]) - 1
         self.assembled_bytes[0x14d] = header_checksum & 0xFF
 
-        # global checksum
+        # global checksum (its own bytes are not part of the sum)
+        self.assembled_bytes[0x14e:0x150] = bytes(2)
         global_checksum = 0
         for byte in self.assembled_bytes:
             global_checksum += int(byte)
-- 
2.43.0


From 4f8c70cc6401ee6afd60a444ee4e6f0df4a19052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 06/31] fix: do not accumulate headers when an ELF linker is
 used again

---
 necroassembler/linker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index b4c6346..d13a6e4 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -128,12 +128,12 @@ class ELF:
             symtab_name_offset, self.file_base + code_size + len(sh_string_table) + len(string_table), symtab, len(assembler.sections) + 2)
 
         if self.bits == 32:
-            self.header += pack(self.endianess_prefix + 'IIIIHHHHHH', self.entry_point,
+            header = self.header + pack(self.endianess_prefix + 'IIIIHHHHHH', self.entry_point,
                                 0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
                                 len(assembler.sections) + 4, len(assembler.sections) + 1)
         elif self.bits == 64:
-            self.header += pack(self.endianess_prefix + 'QQQIHHHHHH', self.entry_point,
+            header = self.header + pack(self.endianess_prefix + 'QQQIHHHHHH', self.entry_point,
                                 0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
                                 len(assembler.sections) + 4, len(assembler.sections) + 1)
 
-        return self.header + sections + assembler.assembled_bytes + sh_string_table + string_table + symtab
+        return header + sections + assembler.assembled_bytes + sh_string_table + string_table + symtab
-- 
2.43.0


From dcca976da6a30e4a3fc1b1ecf2109b97b5998572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 07/31] fix: check the range of labels used in db_to_ascii and
 dw_to_ascii

A larger value overwrote the bytes following the field.
---
 necroassembler/assembler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 30d79f8..7993093 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -238,10 +238,6 @@ class Assembler:
                     self, address, data)
                 absolute_address = true_address
 
-            if data.hook:
-                data.hook(address, true_address)
-                continue
-
             if absolute_address % data.alignment != 0:
                 raise AlignmentError(label)
 
@@ -254,6 +250,10 @@ class Assembler:
             if not in_bit_range_decimal(true_address, total_bits, signed=is_relative):
                 raise NotInBitRange(true_address, total_bits, label)
 
+            if data.hook:
+                data.hook(address, true_address)
+                continue
+
             if data.filter:
                 true_address = data.filter(true_address)
 
-- 
2.43.0


From 697468fe270d4f0137a66fd419b85d989eeca54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 08/31] fix: 8086 label displacements overwrote the modrm byte

---
 necroassembler/cpu/intel8086.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 44277ef..37b2dc9 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -19,7 +19,7 @@ def _build_modrm(assembler, modrm):
             modrm['displacement'].lstrip('+'),
             size=2,
             bits_size=16,
-            offset=1,
+            offset=2,
             signed=True))
     return blob
 
@@ -299,7 +299,7 @@ def _Mp(instr, assembler, index, modrm):
             modrm['mod'] = 0
             modrm['rm'] = 6
             return 3, _build_modrm(assembler, modrm) + pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=2, bits_size=16, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=2))
 
 
 def _Ap(instr, assembler, index, modrm):
-- 
2.43.0


From 40020579d6684ceed4f8e8b3fc4516afe37ca175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 09/31] fix: the iNES header has the prg and chr rom counts at
 4 and 5

---
 necroassembler/platforms/nes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/platforms/nes.py b/necroassembler/platforms/nes.py
index 85f7c9a..d5f3405 100644
--- a/necroassembler/platforms/nes.py
+++ b/necroassembler/platforms/nes.py
@@ -69,11 +69,11 @@ class AssemblerNES(AssemblerMOS6502):
 
     @directive('cartridge_prg_roms')
     def _set_cartridge_title(self, instr):
-        self._cartridge_fill(instr, 0x05, 1)
+        self._cartridge_fill(instr, 0x04, 1)
 
     @directive('cartridge_chr_roms')
     def _set_cartridge_license(self, instr):
-        self._cartridge_fill(instr, 0x06, 1)
+        self._cartridge_fill(instr, 0x05, 1)
 
     @directive('chr_pattern_table')
     def _build_chr_pattern_table(self, instr):
-- 
2.43.0


From 9334cda116673e2014b9a9ac5baa8d79e9d96377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 10/31] fix: a rejected .org must not change the location
 counter

---
 necroassembler/assembler.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 7993093..b1aaa28 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -493,28 +493,30 @@ class Assembler:
         previous_org_end = self.current_org_end
         previous_org_counter = self.org_counter
 
-        self.current_org = start
-        self.current_org_end = end
-        self.org_counter = 0
         # check if need to fill
         if previous_org_end > 0:
             # overlap check:
-            if previous_org + previous_org_counter > self.current_org:
+            if previous_org + previous_org_counter > start:
                 raise AddressOverlap()
             # NOTE: we have to NOT set org_counter here! (leave it as 0, as this is a new one .org)
             # new org is is higher than the previous end
-            if self.current_org > previous_org_end:
+            if start > previous_org_end:
                 blob = bytes([self.fill_value] * ((previous_org_end + 1) -
                                                   (previous_org + previous_org_counter)))
                 self.assembled_bytes += blob
             # new org is lower than previous end but higher than previous start
-            elif self.current_org <= previous_org_end and self.current_org > previous_org:
-                blob = bytes([self.fill_value] * (self.current_org -
+            elif start <= previous_org_end and start > previous_org:
+                blob = bytes([self.fill_value] * (start -
                                                   (previous_org + previous_org_counter)))
                 self.assembled_bytes += blob
             else:
                 raise AddressOverlap()
 
+        # everything is fine, switch to the new location
+        self.current_org = start
+        self.current_org_end = end
+        self.org_counter = 0
+
     def directive_org(self, instr):
         if len(instr.tokens) not in (2, 3):
             raise InvalidArgumentsForDirective(instr)
-- 
2.43.0


From 514175e7813c6dc33f7c216ccc5366885382359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 11/31] fix: resolve label references in every copy of a
 .repeat block

---
 necroassembler/assembler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index b1aaa28..2f9125c 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -1,3 +1,4 @@
+from copy import copy
 from necroassembler.tokenizer import Tokenizer
 from necroassembler.utils import (pack_byte, pack_le32u, pack_le16u,
                                   pack_be32u, pack_be16u, in_bit_range,
@@ -687,8 +688,17 @@ class Assembler:
         size, index = self.repeat
         self.repeat = None
         blob = self.assembled_bytes[index:]
+        references = [(address, data) for address, data in self.labels_addresses.items()
+                      if address >= index]
         for i in range(0, size-1):
             self.append_assembled_bytes(blob)
+            # each copy has its own references to labels
+            shift = len(blob) * (i + 1)
+            for address, data in references:
+                copied_data = copy(data)
+                if data.relative != 0:
+                    copied_data.relative += shift
+                self.labels_addresses[address + shift] = copied_data
 
     def directive_db_to_ascii(self, instr):
         def db_to_str(address, true_address):
-- 
2.43.0


From dd25e6163e78450e4c682a1ba55d6f5bd0f2ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 12/31] fix: thumb pc relative loads can not reach a label
 before them

---
 necroassembler/cpu/thumb.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 832261a..96430b8 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -73,13 +73,19 @@ class AssemblerThumb(Assembler):
             raise InvalideImmediateValue()
         return value
 
+    def _unsigned_word(self, value):
+        # the field has no sign: the label must follow the instruction
+        if value < 0:
+            raise NotInBitRange(value, 8)
+        return value >> 2
+
     def _word8(self, arg):
         return self.parse_integer_or_label(label=arg[1:],
                                            size=2,
                                            bits_size=8,
                                            bits=(7, 0),
                                            alignment=4,
-                                           filter=lambda x: x >> 2,
+                                           filter=self._unsigned_word,
                                            # bit 1 of pc must be turned off
                                            relative=(self.pc + 4) & ~(0b10))
 
-- 
2.43.0


From a865647a20dc5bc87f74c3ac893ba70d22e3671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 13/31] fix: x86 near jumps and calls have a 32 bit
 displacement out of 16 bit mode

---
 necroassembler/cpu/x86.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 10b4d6b..dfd64df 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -464,7 +464,7 @@ def _Jvds(instr, base, assembler, index, modrm):
             return 1, base, pack_le32u(assembler.parse_integer_or_label(
                 instr.tokens[index],
                 relative=assembler.pc + len(base) + 4,
-                size=2, bits_size=16, offset=len(base)))
+                size=4, bits_size=32, offset=len(base)))
 
 
 def _Eq(instr, base, assembler, index, modrm):
-- 
2.43.0


From 1caed9ae45022dc08a7d2263dcfc68cd0453b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 14/31] fix: mips32 branches and powerpc branches must target
 aligned labels

---
 necroassembler/cpu/mips32.py  | 1 +
 necroassembler/cpu/powerpc.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 5d4b022..6430d9e 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -64,6 +64,7 @@ class AssemblerMIPS32(Assembler):
         return self.parse_integer_or_label(label=token,
                                            bits_size=18,
                                            bits=(15, 0),
+                                           alignment=4,
                                            filter=lambda x: x >> 2,
                                            relative=self.pc + 4,
                                            size=4) >> 2
diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index e2f4e1a..1b334aa 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -39,6 +39,7 @@ def _pcrel(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits,
+                                                alignment=4,
                                                 filter=lambda x: x >> 2,
                                                 relative=assembler.pc)
 
@@ -52,6 +53,7 @@ def _baddr(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits,
+                                                alignment=4,
                                                 filter=lambda x: x >> 2)
     return token not in GREGS+FREGS
 
-- 
2.43.0


From e0be0b0b2cc82ad6fb6178c7a9ff74e9a896be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 15/31] fix: a rejected image must not leave its first cells in
 the output

---
 necroassembler/platforms/gameboy.py | 6 ++++--
 necroassembler/platforms/nes.py     | 6 ++++--
 necroassembler/platforms/sms.py     | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 0e9dd52..a2ba87a 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -148,10 +148,12 @@ class AssemblerGameboy(AssemblerLR35902):
         width, height = image.size
         if (width % 8) != 0 or (height % 8) != 0:
             raise InvalidImageSize(instr)
+        # nothing must be emitted if any of the cells is invalid
+        blob = b''
         for cell_y in range(0, height // 8):
             for cell_x in range(0, width // 8):
-                blob = _convert_cell(image, cell_x, cell_y)
-                self.append_assembled_bytes(blob)
+                blob += _convert_cell(image, cell_x, cell_y)
+        self.append_assembled_bytes(blob)
 
     @post_link
     def _fix(self):
diff --git a/necroassembler/platforms/nes.py b/necroassembler/platforms/nes.py
index d5f3405..9548580 100644
--- a/necroassembler/platforms/nes.py
+++ b/necroassembler/platforms/nes.py
@@ -110,10 +110,12 @@ class AssemblerNES(AssemblerMOS6502):
         width, height = image.size
         if width != 128 or height != 128:
             raise InvalidImageSize(instr)
+        # nothing must be emitted if any of the cells is invalid
+        blob = b''
         for cell_y in range(0, 16):
             for cell_x in range(0, 16):
-                blob = _convert_cell(image, cell_x, cell_y)
-                self.append_assembled_bytes(blob)
+                blob += _convert_cell(image, cell_x, cell_y)
+        self.append_assembled_bytes(blob)
 
 
 def main():
diff --git a/necroassembler/platforms/sms.py b/necroassembler/platforms/sms.py
index 2a6834f..bb5595d 100644
--- a/necroassembler/platforms/sms.py
+++ b/necroassembler/platforms/sms.py
@@ -65,10 +65,12 @@ class AssemblerSegaMasterSystem(AssemblerZ80):
         width, height = image.size
         if (width % 8) != 0 or (height % 8) != 0:
             raise InvalidImageSize(instr)
+        # nothing must be emitted if any of the cells is invalid
+        blob = b''
         for cell_y in range(0, height // 8):
             for cell_x in range(0, width // 8):
-                blob = _convert_cell(image, cell_x, cell_y)
-                self.append_assembled_bytes(blob)
+                blob += _convert_cell(image, cell_x, cell_y)
+        self.append_assembled_bytes(blob)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 6544f2203c8b8265275895caa1e20e53e87863d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 16/31] fix: x86 labels in memory operands must not be merged
 into the modrm byte

---
 necroassembler/cpu/x86.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index dfd64df..8702d27 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -26,21 +26,21 @@ def _build_modrm(assembler, base, modrm):
                 modrm['displacement'].lstrip('+'),
                 size=2,
                 bits_size=16,
-                offset=len(base),
+                offset=len(base)+1,
                 signed=True))
         if modrm['bits'] == 32:
             blob += pack_le32s(assembler.parse_integer_or_label(
                 modrm['displacement'].lstrip('+'),
                 size=4,
                 bits_size=32,
-                offset=len(base),
+                offset=len(base)+1,
                 signed=True))
         if modrm['bits'] == 64:
             blob += pack_le64s(assembler.parse_integer_or_label(
                 modrm['displacement'].lstrip('+'),
                 size=8,
                 bits_size=64,
-                offset=len(base),
+                offset=len(base)+1,
                 signed=True))
     return blob
 
@@ -483,13 +483,13 @@ def _Ms(instr, base, assembler, index, modrm):
             modrm['rm'] = 6
             if assembler.bits == 16:
                 return 3, base, _build_modrm(assembler, base, modrm) + pack_le16u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=2, bits_size=16, offset=len(base)))
+                    instr.tokens[index+1], size=2, bits_size=16, offset=len(base)+1))
             elif assembler.bits == 32:
                 return 3, base, _build_modrm(assembler, base, modrm) + pack_le32u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=4, bits_size=32, offset=len(base)))
+                    instr.tokens[index+1], size=4, bits_size=32, offset=len(base)+1))
             elif assembler.bits == 64:
                 return 3, base, _build_modrm(assembler, base, modrm) + pack_le64u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=8, bits_size=64, offset=len(base)))
+                    instr.tokens[index+1], size=8, bits_size=64, offset=len(base)+1))
 
 
 def _Rv(instr, base, assembler, index, modrm):
-- 
2.43.0


From 2b94940d3fc87fa23390e3bdabb5c7fc19b0f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 17/31] fix: an ELF link with an undefined symbol and no
 relocation must fail

---
 necroassembler/linker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index d13a6e4..362766e 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -63,6 +63,7 @@ class ELF:
 
     def resolve_unknown_symbol(self, assembler, address, symbol_data):
         self.relocations[address] = symbol_data
+        self.relocate(address, symbol_data)
         return 0
 
     def relocate(self, address, symbol_data):
-- 
2.43.0


From a2c1a908a33c10b716960e56487bfe116baf71f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 18/31] fix: ELF symbol tables need the reserved symbol and
 section relative values

---
 necroassembler/linker.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index 362766e..23b79d0 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -59,7 +59,7 @@ class ELF:
         return pack(self.section_pack_format, name_offset, 0x03, 0x20, 0, offset, len(data), 0, 0, 0, 0)
 
     def _build_symtab_section(self, name_offset, offset, data, link):
-        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 0, 0, 16 if self.bits == 32 else 24)
+        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 1, 0, 16 if self.bits == 32 else 24)
 
     def resolve_unknown_symbol(self, assembler, address, symbol_data):
         self.relocations[address] = symbol_data
@@ -104,18 +104,22 @@ class ELF:
             section_data['elf_section_index'] = section_index
             sections += self._build_section(section_data)
 
-        symtab = b''
+        # the first symbol is the reserved one
+        symtab = bytes(16 if self.bits == 32 else 24)
         for symbol_name, symbol_data in assembler.labels.items():
             if symbol_name not in assembler.exports:
                 continue
+            # the value of a symbol is its offset in the section
+            symbol_value = symbol_data['org'] + symbol_data['base'] - \
+                assembler.sections[symbol_data['section']]['start']
             if self.bits == 32:
                 symtab += pack(self.endianess_prefix + 'IIIBBH',
-                               symbol_data['elf_string_offset'], symbol_data['base'], 0,
+                               symbol_data['elf_string_offset'], symbol_value, 0,
                                0x10, 0, assembler.sections[symbol_data['section']]['elf_section_index'] + 1)
             if self.bits == 64:
                 symtab += pack(self.endianess_prefix + 'IBBHQQ',
                                symbol_data['elf_string_offset'], 0x10, 0,
-                               assembler.sections[symbol_data['section']]['elf_section_index'] + 1, symbol_data['base'], 0)
+                               assembler.sections[symbol_data['section']]['elf_section_index'] + 1, symbol_value, 0)
 
         code_size = len(assembler.assembled_bytes)
 
-- 
2.43.0


From d6004c1dd35e9540520e122ef06fa88af5cdb477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 19/31] fix: a branch relative to address zero must not become
 absolute

---
 necroassembler/assembler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 2f9125c..68d9c17 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -225,7 +225,7 @@ class Assembler:
         for address in self.labels_addresses:
             data = self.labels_addresses[address]
             label = data.label
-            is_relative = data.relative != 0
+            is_relative = data.relative is not None
 
             absolute_address = self.get_label_absolute_address_by_name(label)
             if not is_relative:
@@ -301,7 +301,7 @@ class Assembler:
     def add_label_translation(self, label,
                               size, bits_size,
                               offset=0, alignment=1, bits=None, filter=None,
-                              relative=0, hook=None):
+                              relative=None, hook=None):
         index = len(self.assembled_bytes) + offset
         label_data = LabelData(label, size, bits_size, relative)
         label_data.offset = offset
@@ -392,10 +392,10 @@ class Assembler:
         return value
 
     def parse_integer_or_label(self, label,
-                               size, bits_size, relative=0,
+                               size, bits_size, relative=None,
                                offset=0, alignment=1, bits=None, filter=None,
                                hook=None, signed=False):
-        if relative != 0:
+        if relative is not None:
             signed = True
         value = self.parse_integer(label, bits_size, signed)
         # label ?
@@ -696,7 +696,7 @@ class Assembler:
             shift = len(blob) * (i + 1)
             for address, data in references:
                 copied_data = copy(data)
-                if data.relative != 0:
+                if data.relative is not None:
                     copied_data.relative += shift
                 self.labels_addresses[address + shift] = copied_data
 
-- 
2.43.0


From c4f7c4954babb8bd6774df4d7492601cf4887d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 20/31] fix: repeated thumb pc relative loads rounded the pc of
 the first copy

---
 necroassembler/assembler.py | 14 ++++++++++----
 necroassembler/cpu/thumb.py |  3 ++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 68d9c17..64dae4c 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -44,6 +44,7 @@ class LabelData:
     bits = None
     hook = None
     filter = None
+    relative_filter = None
 
     def __init__(self, label, size, bits_size, relative):
         self.label = label
@@ -231,8 +232,11 @@ class Assembler:
             if not is_relative:
                 true_address = absolute_address
             else:
+                start = data.relative
+                if data.relative_filter:
+                    start = data.relative_filter(start)
                 true_address = self.get_label_relative_address_by_name(
-                    label, data.relative)
+                    label, start)
 
             if true_address is None:
                 true_address = linker.resolve_unknown_symbol(
@@ -301,7 +305,7 @@ class Assembler:
     def add_label_translation(self, label,
                               size, bits_size,
                               offset=0, alignment=1, bits=None, filter=None,
-                              relative=None, hook=None):
+                              relative=None, hook=None, relative_filter=None):
         index = len(self.assembled_bytes) + offset
         label_data = LabelData(label, size, bits_size, relative)
         label_data.offset = offset
@@ -309,6 +313,7 @@ class Assembler:
         label_data.bits = bits
         label_data.hook = hook
         label_data.filter = filter
+        label_data.relative_filter = relative_filter
         self.labels_addresses[index] = label_data
 
     def discard_label_translations(self):
@@ -394,7 +399,7 @@ class Assembler:
     def parse_integer_or_label(self, label,
                                size, bits_size, relative=None,
                                offset=0, alignment=1, bits=None, filter=None,
-                               hook=None, signed=False):
+                               hook=None, signed=False, relative_filter=None):
         if relative is not None:
             signed = True
         value = self.parse_integer(label, bits_size, signed)
@@ -408,7 +413,8 @@ class Assembler:
                                        alignment=alignment,
                                        bits=bits,
                                        filter=filter,
-                                       hook=hook)
+                                       hook=hook,
+                                       relative_filter=relative_filter)
             return 0
         return value
 
diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 96430b8..be0121a 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -86,8 +86,9 @@ class AssemblerThumb(Assembler):
                                            bits=(7, 0),
                                            alignment=4,
                                            filter=self._unsigned_word,
+                                           relative=self.pc + 4,
                                            # bit 1 of pc must be turned off
-                                           relative=(self.pc + 4) & ~(0b10))
+                                           relative_filter=lambda x: x & ~(0b10))
 
     def _conditional_branch(self, instr, cond):
         if instr.match(LABEL):
-- 
2.43.0


From 8d4026ddc776ca14e8ee3f4148f2c388d522adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 21/31] fix: defining a name again replaced its old value
 everywhere instead

---
 necroassembler/statements.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index a661d88..9f52046 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -123,11 +123,13 @@ class Label(Statement):
 
 class Directive(Statement):
     def assemble(self, assembler):
-        # skip directive for defines substitution
-        substitute_with_dict(self.tokens, assembler.defines, 1)
         key = self.tokens[0][1:]
         if not assembler.case_sensitive:
             key = key.upper()
+        # skip directive for defines substitution,
+        # and the name when it is (re)defined
+        start = 2 if key.lower() == 'define' else 1
+        substitute_with_dict(self.tokens, assembler.defines, start)
         if not key in assembler.directives:
             raise UnknownDirective(self)
         assembler.directives[key](self)
-- 
2.43.0


From 1bc7e7e5fc6111d04491b9be741057b02634dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 22/31] fix: an invalid label names its file and tokens, a
 nameless one its line

---
 necroassembler/tokenizer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index bb2b5d0..09407ae 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -3,11 +3,14 @@ from necroassembler.statements import Instruction, Directive, Label
 
 
 class InvalidLabel(Exception):
-    '''Raised when a label is specified after other tokens'''
+    '''Raised when a label is specified after other tokens (or has no name)'''
 
     def __init__(self, tokenizer):
-        super().__init__(
-            'invalid label at line {0}'.format(tokenizer.line))
+        tokens = list(tokenizer.tokens)
+        if tokenizer.current_token:
+            tokens.append(tokenizer.current_token)
+        super().__init__('invalid label {0}'.format(
+            Label(tokens, tokenizer.line, tokenizer.context)))
 
 
 class Tokenizer:
@@ -87,10 +90,9 @@ class Tokenizer:
         self.current_token = ''
 
     def _token_colon(self):
-        if self.tokens:
+        if self.tokens or not self.current_token:
             raise InvalidLabel(self)
-        if self.current_token:
-            self.tokens.append(self.current_token)
+        self.tokens.append(self.current_token)
         self.statements.append(
             Label(self.tokens, self.line, self.context))
         self.state = self._state_token
-- 
2.43.0


From 35703f626b9e40f8d34634a974d76e7f28b6f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 23/31] fix: a gameboy image that is too short for its checksum
 must not grow when linked

---
 necroassembler/platforms/gameboy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index a2ba87a..3bf4750 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -165,7 +165,8 @@ class AssemblerGameboy(AssemblerLR35902):
         self.assembled_bytes[0x14d] = header_checksum & 0xFF
 
         # global checksum (its own bytes are not part of the sum)
-        self.assembled_bytes[0x14e:0x150] = bytes(2)
+        self.assembled_bytes[0x14e] = 0
+        self.assembled_bytes[0x14f] = 0
         global_checksum = 0
         for byte in self.assembled_bytes:
             global_checksum += int(byte)
-- 
2.43.0


From 8c9b9fe75c04a22931cfcea993168ca74e04cb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 24/31] fix: tile images must be closed when they are rejected

---
 necroassembler/platforms/gameboy.py | 22 +++++++++++-----------
 necroassembler/platforms/nes.py     | 22 +++++++++++-----------
 necroassembler/platforms/sms.py     | 22 +++++++++++-----------
 3 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 3bf4750..af2ec34 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -142,17 +142,17 @@ class AssemblerGameboy(AssemblerLR35902):
             raise InvalidArgumentsForDirective(instr)
         filename = self.stringify(instr.tokens[1])
         from PIL import Image
-        image = Image.open(filename)
-        if image.mode != 'P':
-            raise OnlyIndexedImagesAreSupported(instr)
-        width, height = image.size
-        if (width % 8) != 0 or (height % 8) != 0:
-            raise InvalidImageSize(instr)
-        # nothing must be emitted if any of the cells is invalid
-        blob = b''
-        for cell_y in range(0, height // 8):
-            for cell_x in range(0, width // 8):
-                blob += _convert_cell(image, cell_x, cell_y)
+        with Image.open(filename) as image:
+            if image.mode != 'P':
+                raise OnlyIndexedImagesAreSupported(instr)
+            width, height = image.size
+            if (width % 8) != 0 or (height % 8) != 0:
+                raise InvalidImageSize(instr)
+            # nothing must be emitted if any of the cells is invalid
+            blob = b''
+            for cell_y in range(0, height // 8):
+                for cell_x in range(0, width // 8):
+                    blob += _convert_cell(image, cell_x, cell_y)
         self.append_assembled_bytes(blob)
 
     @post_link
diff --git a/necroassembler/platforms/nes.py b/necroassembler/platforms/nes.py
index 9548580..e81d8c6 100644
--- a/necroassembler/platforms/nes.py
+++ b/necroassembler/platforms/nes.py
@@ -104,17 +104,17 @@ class AssemblerNES(AssemblerMOS6502):
             raise InvalidArgumentsForDirective(instr)
         filename = self.stringify(instr.tokens[1])
         from PIL import Image
-        image = Image.open(filename)
-        if image.mode != 'P':
-            raise OnlyIndexedImagesAreSupported(instr)
-        width, height = image.size
-        if width != 128 or height != 128:
-            raise InvalidImageSize(instr)
-        # nothing must be emitted if any of the cells is invalid
-        blob = b''
-        for cell_y in range(0, 16):
-            for cell_x in range(0, 16):
-                blob += _convert_cell(image, cell_x, cell_y)
+        with Image.open(filename) as image:
+            if image.mode != 'P':
+                raise OnlyIndexedImagesAreSupported(instr)
+            width, height = image.size
+            if width != 128 or height != 128:
+                raise InvalidImageSize(instr)
+            # nothing must be emitted if any of the cells is invalid
+            blob = b''
+            for cell_y in range(0, 16):
+                for cell_x in range(0, 16):
+                    blob += _convert_cell(image, cell_x, cell_y)
         self.append_assembled_bytes(blob)
 
 
diff --git a/necroassembler/platforms/sms.py b/necroassembler/platforms/sms.py
index bb5595d..bbbd175 100644
--- a/necroassembler/platforms/sms.py
+++ b/necroassembler/platforms/sms.py
@@ -59,17 +59,17 @@ class AssemblerSegaMasterSystem(AssemblerZ80):
             raise InvalidArgumentsForDirective(instr)
         filename = self.stringify(instr.tokens[1])
         from PIL import Image
-        image = Image.open(filename)
-        if image.mode != 'P':
-            raise OnlyIndexedImagesAreSupported(instr)
-        width, height = image.size
-        if (width % 8) != 0 or (height % 8) != 0:
-            raise InvalidImageSize(instr)
-        # nothing must be emitted if any of the cells is invalid
-        blob = b''
-        for cell_y in range(0, height // 8):
-            for cell_x in range(0, width // 8):
-                blob += _convert_cell(image, cell_x, cell_y)
+        with Image.open(filename) as image:
+            if image.mode != 'P':
+                raise OnlyIndexedImagesAreSupported(instr)
+            width, height = image.size
+            if (width % 8) != 0 or (height % 8) != 0:
+                raise InvalidImageSize(instr)
+            # nothing must be emitted if any of the cells is invalid
+            blob = b''
+            for cell_y in range(0, height // 8):
+                for cell_x in range(0, width // 8):
+                    blob += _convert_cell(image, cell_x, cell_y)
         self.append_assembled_bytes(blob)
 
 
-- 
2.43.0


From a112b31db8ac4563320b53d638b9787d75cd7e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 25/31] fix: text files must be decoded the same way in every
 locale

---
 necroassembler/assembler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 64dae4c..879a6a5 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -215,7 +215,7 @@ class Assembler:
                 self.assembled_bytes) - self.sections[self.current_section]['offset']
 
     def assemble_file(self, filename):
-        with open(filename) as f:
+        with open(filename, encoding='utf-8') as f:
             self.assemble(f.read(), filename)
 
     def save(self, filename):
@@ -761,7 +761,7 @@ class Assembler:
         if len(instr.tokens) != 2:
             raise InvalidArgumentsForDirective(instr)
         filename = self.stringify(instr.tokens[1])
-        with open(filename) as f:
+        with open(filename, encoding='utf-8') as f:
             # the including source goes on after this one, so any open
             # region or section must be left open
             self._assemble_statements(f.read(), context=filename)
@@ -810,7 +810,7 @@ class Assembler:
         import csv
         filename = self.stringify(instr.tokens[1])
         blob = b''
-        with open(filename, 'r') as f:
+        with open(filename, 'r', encoding='utf-8') as f:
             csv_reader = csv.reader(f)
             for row in csv_reader:
                 for column in row:
@@ -827,7 +827,7 @@ class Assembler:
         import csv
         filename = self.stringify(instr.tokens[1])
         blob = b''
-        with open(filename, 'r') as f:
+        with open(filename, 'r', encoding='utf-8') as f:
             csv_reader = csv.reader(f)
             for row in csv_reader:
                 for column in row:
-- 
2.43.0


From d360ec4f8336e4862f23c9de39c43870470a4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 26/31] fix: .log with anything but ON or OFF must be rejected

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 879a6a5..8fdb65c 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -606,7 +606,7 @@ class Assembler:
             elif instr.tokens[1].upper() == 'OFF':
                 self.log = False
             else:
-                InvalidArgumentsForDirective()
+                raise InvalidArgumentsForDirective(instr)
         else:
             self.log = True
 
-- 
2.43.0


From 4d97e9d0d2387b2261b2f092ab312606c1548e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:29 +0000
Subject: [PATCH 27/31] fix: .macro without a name is rejected with its place

---
 necroassembler/assembler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 8fdb65c..e668c04 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -172,6 +172,8 @@ class Assembler:
     def macro_start(self, instr):
         if self.macro_recording is not None:
             raise UnsupportedNestedMacro(instr)
+        if len(instr.tokens) < 2:
+            raise InvalidArgumentsForDirective(instr)
         self.macro_recording = Macro(instr.tokens[1:])
         key = instr.tokens[1]
         if not self.case_sensitive:
-- 
2.43.0


From 7c628d28287420c9ec155b1c44e63b5054b9cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:29 +0000
Subject: [PATCH 28/31] fix: a macro use with too few arguments is rejected
 with its place

---
 necroassembler/statements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 9f52046..f1768cc 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -32,6 +32,8 @@ class Instruction(Statement):
 
         if key in assembler.macros:
             macro = assembler.macros[key]
+            if len(self.tokens) - 1 < len(macro.args):
+                raise InvalidOpCodeArguments(self)
             macro.assemble(assembler, self.tokens)
             return
 
-- 
2.43.0


From 70e0e9518f78bf53df21ee8252a2b473acee75d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:29 +0000
Subject: [PATCH 29/31] fix: .bits with a wrong number of arguments is rejected
 with its place

---
 necroassembler/cpu/x86.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 8702d27..613a8f6 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -1990,9 +1990,11 @@ class AssemblerX86(Assembler):
 
     @directive('bits')
     def directive_bits(self, instr):
+        if len(instr.tokens) != 2:
+            raise InvalidArgumentsForDirective(instr)
         value = self.parse_integer(instr.tokens[1], 8, False)
         if value is None or value not in (16, 32, 64):
-            raise InvalidArgumentsForDirective
+            raise InvalidArgumentsForDirective(instr)
         self.bits = value
 
     def register_instructions(self):
-- 
2.43.0


From 4af24f271936d96eb63cfde0d4d97dc0bf33dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:29 +0000
Subject: [PATCH 30/31] fix: EX AF,AF' was dropped together with everything
 behind it

---
 necroassembler/tokenizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index 09407ae..5d752a0 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -1,5 +1,6 @@
 '''Exposes the assembly source code tokenization features'''
 from necroassembler.statements import Instruction, Directive, Label
+from necroassembler.utils import is_valid_name
 
 
 class InvalidLabel(Exception):
@@ -124,7 +125,8 @@ class Tokenizer:
         if char == '"':
             self._token_string()
             return
-        if char == '\'':
+        # a quote that ends a name (like AF') belongs to it
+        if char == '\'' and not (self.current_token and is_valid_name(self.current_token[-1])):
             self._token_char()
             return
         self.current_token += char
-- 
2.43.0


From b043675b2d66d207bf558dfca5eb6ce6c55900b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:29 +0000
Subject: [PATCH 31/31] fix: a string that is never closed silently dropped the
 rest of the source

---
 necroassembler/tokenizer.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index 5d752a0..6a91140 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -14,6 +14,14 @@ class InvalidLabel(Exception):
             Label(tokens, tokenizer.line, tokenizer.context)))
 
 
+class UnterminatedString(Exception):
+    '''Raised when the source ends within a string or a character'''
+
+    def __init__(self, tokenizer):
+        super().__init__('unterminated string {0}'.format(
+            Instruction(tokenizer.tokens + [tokenizer.current_token.rstrip('\r\n')], tokenizer.string_line, tokenizer.context)))
+
+
 class Tokenizer:
     '''Builds a list of tokenized statements from assembly source code'''
 
@@ -24,6 +32,7 @@ class Tokenizer:
         self.tokens = []
         self.case_sensitive = case_sensitive
         self.line = 1
+        self.string_line = None
         self.context = context
 
     def step(self, char):
@@ -104,12 +113,14 @@ class Tokenizer:
         if self.current_token:
             self.tokens.append(self.current_token)
         self.current_token = ''
+        self.string_line = self.line
         self.state = self._state_string
 
     def _token_char(self):
         if self.current_token:
             self.tokens.append(self.current_token)
         self.current_token = ''
+        self.string_line = self.line
         self.state = self._state_char
 
     def _state_token(self, char):
@@ -146,3 +157,6 @@ class Tokenizer:
             self.step(byte)
             if byte == '\n':
                 self.line += 1
+        # nothing of what follows an open quote has been assembled
+        if self.state not in (self._state_token, self._state_comment):
+            raise UnterminatedString(self)
-- 
2.43.0

