From 6f6cbe6890f559bd1e11668463b17df0004c2546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 1/8] fix: only the exact ECALL encoding traps as an
 environment call

ExceptionControl ignored bits 1:0 of the instruction when comparing against
ECALL, so the illegal words 0x70, 0x71 and 0x72 set mcause to 11 instead of 2.
---
 src/sentinel/decode.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sentinel/decode.py b/src/sentinel/decode.py
index cec058c..fcba76e 100644
--- a/src/sentinel/decode.py
+++ b/src/sentinel/decode.py
@@ -368,9 +368,7 @@ class ExceptionControl(Component):
                         m.d.sync += self.exception.valid.eq(1)
                 with m.Case(OpcodeType.SYSTEM):
                     m.d.sync += self.exception.valid.eq(1)
-                    # Yes, stripping the lower bits inexplicably makes a
-                    # difference in resource usage...
-                    with m.If(insn.raw[7:] == (Insn.ECALL >> 7)):
+                    with m.If(insn.raw == Insn.ECALL):
                         m.d.sync += self.exception.e_type.eq(MCause.Cause.ECALL_MMODE)  # noqa: E501
                     with m.Elif(insn.raw == Insn.EBREAK):
                         m.d.sync += self.exception.e_type.eq(MCause.Cause.BREAKPOINT)  # noqa: E501
-- 
2.43.0


From 9a5e94c53b204717b71265f5f05ca560feb502f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 2/8] fix: clear the interrupt bit of mcause on synchronous
 exceptions

The latched interrupt bit was set by an interrupt but never cleared, so every
synchronous exception after the first interrupt reported mcause bit 31 set.
---
 src/sentinel/exception.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sentinel/exception.py b/src/sentinel/exception.py
index a875ae6..4d21add 100644
--- a/src/sentinel/exception.py
+++ b/src/sentinel/exception.py
@@ -232,7 +232,10 @@ class ExceptionRouter(Component):
         with m.If(self.src.ctrl.except_ctl == ExceptCtl.LATCH_DECODER):
             with m.If(self.src.decode.valid):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(self.src.decode.e_type)
+                m.d.sync += [
+                    mcause_latch.cause.eq(self.src.decode.e_type),
+                    mcause_latch.interrupt.eq(0)
+                ]
 
             with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &
                       self.src.csr.mie.meie):
@@ -248,8 +251,10 @@ class ExceptionRouter(Component):
                       ((self.src.alu_lo[0] == 1) |
                        (self.src.alu_lo[1] == 1)))):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(
-                    MCause.Cause.STORE_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.STORE_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
         with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_LOAD_ADR):
             with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                         self.src.alu_lo[0] == 1)) |
@@ -257,10 +262,16 @@ class ExceptionRouter(Component):
                       ((self.src.alu_lo[0] == 1) |
                        (self.src.alu_lo[1] == 1)))):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
         with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_JAL):
             with m.If(self.src.alu_lo[1] == 1):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
 
         return m
-- 
2.43.0


From f785892af9fc03fe2841d0bee0f6c17f70ea5870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 3/8] fix: report no destination register on RVFI for an
 instruction that traps

rd_addr kept the decoded rd and rd_wdata a stale value when an instruction
trapped or was preempted by an interrupt, so the RVFI stream claimed register
writes that never happened.
---
 src/sentinel/formal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sentinel/formal.py b/src/sentinel/formal.py
index f45ab2f..d763902 100644
--- a/src/sentinel/formal.py
+++ b/src/sentinel/formal.py
@@ -378,8 +378,12 @@ class FormalTop(Component):
 
         # Will be reset every time we commit to a new insn. But should be
         # overridden if there's an exception during the commit cycle.
+        # An insn that traps (or is preempted by an interrupt) writes no rd.
         with m.If(self.cpu.rvfi.exception):
-            m.d.sync += self.rvfi.trap.eq(1)
+            m.d.sync += [
+                self.rvfi.trap.eq(1),
+                self.rvfi.rd_addr.eq(0)
+            ]
 
         # Non-insn memory accesses.
         with m.If(~self.cpu.control.mem.insn_fetch & self.cpu.control.mem.req &
-- 
2.43.0


From e7f4f79baed05f7e695d18f5948a38d5771c34b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 4/8] fix: place microcode fields at their bit positions
 whatever the gaps

A second gap reused the first one's padding member (shrinking or growing it),
a gap below the first field was ignored, and fields declared out of bit order
failed, so later fields read the wrong bits of the ROM word.
---
 src/sentinel/ucoderom.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index fc133b3..d6fc172 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -2,7 +2,6 @@
 
 from io import IOBase
 from pathlib import Path
-from itertools import tee, zip_longest
 
 from amaranth import Shape, unsigned, Module
 from amaranth.lib.data import StructLayout
@@ -254,12 +253,17 @@ class UCodeROM(Component):
     def _create_field_layout(self, space):
         layout = dict()
         padding_id = 0
+        next_bit = 0
 
-        c, n = tee(space.fields.items())
-        next(n, None)
-        curr_next_pairs = zip_longest(c, n, fillvalue=(None, None))
+        # m5meta keeps declaration order, which need not be bit order.
+        for curr_n, curr_f in sorted(space.fields.items(),
+                                     key=lambda f: f[1].origin):
+            if curr_f.origin != next_bit:
+                layout[f"_padding_{padding_id}"] = \
+                    unsigned(curr_f.origin - next_bit)
+                padding_id += 1
+            next_bit = curr_f.origin + curr_f.width
 
-        for (curr_n, curr_f), (_, next_f) in curr_next_pairs:
             # bools in m5meta are internally enums, but we'll do just fine with
             # unsigned(1).
             if curr_f.enum and curr_f.enum != {"false": 0, "true": 1}:
@@ -268,10 +272,6 @@ class UCodeROM(Component):
                 layout[curr_n] = \
                     self._check_and_convert_dynamic_shape(curr_f)
 
-            if next_f and curr_f.origin + curr_f.width != next_f.origin:
-                layout[f"_padding_{padding_id}"] = \
-                    unsigned(next_f.origin - (curr_f.origin + curr_f.width))
-
         self.field_layout = StructLayout(layout)
 
     def _check_and_convert_dynamic_shape(self, field):
-- 
2.43.0


From 23f8c8e2df3ca7c86b3c3b7027df4a3664fd20a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 5/8] fix: raise the documented ValueError when microcode enum
 names do not match

A name present only in the microcode source or only in the Amaranth enum, or a
field_map entry that is not an enum, escaped as KeyError or TypeError.
---
 src/sentinel/ucoderom.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index d6fc172..d228514 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -297,10 +297,16 @@ class UCodeROM(Component):
         except KeyError as e:
             raise ValueError(f"{e.args[0]} was not in field_map") from e
 
-        if not (all(se_class[k.upper()].value == field.enum[k]
-                    for k in field.enum) and
-                all(field.enum[k.name.lower()] == k.value
-                    for k in se_class)):
+        try:
+            compatible = (all(se_class[k.upper()].value == field.enum[k]
+                              for k in field.enum) and
+                          all(field.enum[k.name.lower()] == k.value
+                              for k in se_class))
+        except (KeyError, TypeError):
+            # A name on only one side, or not an Enum in Amaranth source.
+            compatible = False
+
+        if not compatible:
             raise ValueError(f"{se_class} in Amaranth source and field {field}"
                              " in microcode source do not have compatible "
                              "fields and values.\n"
-- 
2.43.0


From 5d7f7f8dd433ad357eeb136e39e800a70529a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 6/8] fix: ALU takes CMP_LTU's borrow from its own width

sub.o[32] is only the borrow bit of a 32-bit ALU: narrower ones do not
elaborate, wider ones compare the wrong bit.
---
 src/sentinel/alu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sentinel/alu.py b/src/sentinel/alu.py
index 1783669..079285a 100644
--- a/src/sentinel/alu.py
+++ b/src/sentinel/alu.py
@@ -377,7 +377,7 @@ class ALU(Component):
             with m.Case(OpType.SRA):
                 m.d.comb += self.o_mux.eq(self.sar.o)
             with m.Case(OpType.CMP_LTU):
-                m.d.comb += self.o_mux.eq(self.sub.o[32])
+                m.d.comb += self.o_mux.eq(self.sub.o[self.width])
 
         m.d.sync += self.o.eq(self.o_mux)
         with m.If(self.ctrl.omod == ALUOMod.INV_LSB_O):
-- 
2.43.0


From 22e352946e96c5c0c1199081bea88cff0dbd480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:56 +0000
Subject: [PATCH 7/8] fix: let allow_zero_wr writes reach every register of the
 register file

'self.pub.adr_w != 0 | allow_zero_wr' compares adr_w with
'0 | allow_zero_wr': with allow_zero_wr set, a write to register 1 was
dropped, although the signal only lifts the restriction on register 0.
---
 src/sentinel/datapath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sentinel/datapath.py b/src/sentinel/datapath.py
index d7faf5e..b47fdce 100644
--- a/src/sentinel/datapath.py
+++ b/src/sentinel/datapath.py
@@ -409,7 +409,7 @@ class RegFile(Component):
                 m.d.comb += [
                     r_port.en.eq(self.pub.ctrl.reg_read),
                     w_port.en.eq(self.pub.ctrl.reg_write &
-                                 (self.pub.adr_w != 0 |
+                                 ((self.pub.adr_w != 0) |
                                   self.pub.ctrl.allow_zero_wr))
                 ]
             with m.Case(CSROp.READ_CSR):
-- 
2.43.0


From 1da9ac53ea9fa0f5a7626eb8f8f72e108520ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 8/8] fix: check aliases and empty field maps like the rest of
 the field map

An alias in the Amaranth enumeration that the microcode source does not
define was accepted because iterating an Enum skips aliases, and an empty
field_map was silently replaced by the default one.
---
 src/sentinel/ucoderom.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index d228514..051f98e 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -165,7 +165,7 @@ class UCodeROM(Component):
         self.field_defs = field_defs
         self.hex = hex
 
-        if field_map:
+        if field_map is not None:
             self.field_map = field_map
 
         self.assemble()
@@ -300,9 +300,9 @@ class UCodeROM(Component):
         try:
             compatible = (all(se_class[k.upper()].value == field.enum[k]
                               for k in field.enum) and
-                          all(field.enum[k.name.lower()] == k.value
-                              for k in se_class))
-        except (KeyError, TypeError):
+                          all(field.enum[n.lower()] == k.value
+                              for n, k in se_class.__members__.items()))
+        except (KeyError, TypeError, AttributeError):
             # A name on only one side, or not an Enum in Amaranth source.
             compatible = False
 
-- 
2.43.0

