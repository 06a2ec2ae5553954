From b6755b22fdaddde32056feda05371fb76b0fb761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 01/20] fix: keep linker reference and .BITS writes inside the
 ROM image

mem_insert_ref(), mem_insert_ref_13bit_high() and mem_insert_bits() accepted
an address equal to the ROM size, and mem_insert_bits() never checked the last
byte of the field and read one byte past it.
---
 wlalink/memory.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/wlalink/memory.c b/wlalink/memory.c
index 95a9e7a..6800fa7 100644
--- a/wlalink/memory.c
+++ b/wlalink/memory.c
@@ -53,7 +53,7 @@ int mem_insert_allow_overwrite(int address, unsigned char data, unsigned int all
 
 int mem_insert_ref(int address, unsigned char data) {
 
-  if (address > g_romsize || address < 0) {
+  if (address >= g_romsize || address < 0) {
     print_text(NO, "%s: %s:%d: MEM_INSERT: Address $%x is out of the output range $0-$%x.\n",
             get_file_name(g_memory_file_id), get_source_file_name(g_memory_file_id, g_memory_file_id_source), g_memory_line_number, address, g_romsize);
     if (g_mem_insert_action[0] != 0)
@@ -80,7 +80,7 @@ int mem_insert_ref(int address, unsigned char data) {
 
 int mem_insert_ref_13bit_high(int address, unsigned char data) {
 
-  if (address > g_romsize || address < 0) {
+  if (address >= g_romsize || address < 0) {
     print_text(NO, "%s: %s:%d: MEM_INSERT: Address $%x is out of the output range $0-$%x.\n",
                get_file_name(g_memory_file_id), get_source_file_name(g_memory_file_id, g_memory_file_id_source), g_memory_line_number, address, g_romsize);
     if (g_mem_insert_action[0] != 0)
@@ -153,9 +153,9 @@ void bits_add_bit(int *bits_byte, int *bits_position, int *bits_to_define, int d
 
 int mem_insert_bits(int address, int data, int bits_position, int bits_to_define) {
 
-  int bits_byte;
+  int bits_byte, last_address = address + (bits_position + bits_to_define - 1) / 8;
   
-  if (address > g_romsize || address < 0) {
+  if (address >= g_romsize || address < 0 || last_address >= g_romsize) {
     print_text(NO, "%s: %s:%d: MEM_INSERT: Address $%x is out of the output range $0-$%x.\n",
                get_file_name(g_memory_file_id), get_source_file_name(g_memory_file_id, g_memory_file_id_source), g_memory_line_number, address, g_romsize);
     if (g_mem_insert_action[0] != 0)
@@ -178,7 +178,8 @@ int mem_insert_bits(int address, int data, int bits_position, int bits_to_define
     if (bits_position == 8) {
       bits_position = 0;
       g_rom[address++] = (unsigned char)bits_byte;
-      bits_byte = g_rom[address];
+      if (bits_to_define > 0)
+        bits_byte = g_rom[address];
     }
   }
 
-- 
2.43.0


From f29603bb9593f185afa4889472258687f894f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 02/20] fix: use the section's final slot when resolving
 references and calculations

A section moved to another slot in the link file's [sections] kept the
assembler's slot in its references and calculations, so relative branches were
rejected or wrong and CADDR was computed for the old slot.
---
 wlalink/write.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 77a8f46..fbddb4a 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -1949,6 +1949,7 @@ int fix_references(void) {
       s = find_section(r->section);
       if (s != NULL) {
         r->bank = s->bank;
+        r->slot = s->slot;
         x += s->address;
         r->address += s->address;
       }
@@ -2799,8 +2800,10 @@ int compute_pending_calculations(void) {
     if (sta->section_status == ON) {
       /* get section address */
       s = find_section(sta->section);
-      if (s != NULL)
+      if (s != NULL) {
         sta->bank = s->bank;
+        sta->slot = s->slot;
+      }
       /* the computation is inside a discarded section? */
       if (s != NULL && s->alive == NO) {
         sta = sta->next;
-- 
2.43.0


From d77ac199372a95d0d19382759b482a94d94f7410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 03/20] fix: refuse out-of-range 8-bit relative displacements
 in pending calculations

---
 wlalink/write.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wlalink/write.c b/wlalink/write.c
index fbddb4a..3078451 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2916,6 +2916,12 @@ int compute_pending_calculations(void) {
                 get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, k, k);
         return FAILED;
       }
+      /* a relative displacement is signed */
+      if (sta->relative_references == YES && k > 127) {
+        print_text(NO, "%s: %s:%d: COMPUTE_PENDING_CALCULATIONS: Too large distance (%d bytes) for a 8-bit relative reference.\n",
+                get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, k);
+        return FAILED;
+      }
 
       /* special case ID handling! */
       if (sta->special_id > 0) {
-- 
2.43.0


From 12e76492809d1111aacdaf483152abef5d3878c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 04/20] fix: return the current slot, base and bank of a nested
 calculation

---
 wlalink/write.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 3078451..9358945 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -4001,12 +4001,6 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
     *result_ram = v_ram[0];
   if (result_rom != NULL)
     *result_rom = v_rom[0];
-  if (result_slot != NULL)
-    *result_slot = sta->result_slot;
-  if (result_base != NULL)
-    *result_base = sta->result_base;
-  if (result_bank != NULL)
-    *result_bank = sta->result_bank;
 
   sta->result_ram = v_ram[0];
   sta->result_rom = v_rom[0];
@@ -4014,6 +4008,13 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
   sta->result_base = (int)base[0];
   sta->result_bank = (int)bank[0];
 
+  if (result_slot != NULL)
+    *result_slot = sta->result_slot;
+  if (result_base != NULL)
+    *result_base = sta->result_base;
+  if (result_bank != NULL)
+    *result_bank = sta->result_bank;
+
   sta->computed = YES;
   sta->under_work = NO;
 
-- 
2.43.0


From 869f19d537147c43f88ab4500bb5fa599cd95f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 05/20] fix: pass on the base and bank of the operands of OR

---
 wlalink/write.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 9358945..9adf0a2 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3416,8 +3416,9 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         }
         v_ram[t - 2] = (int)v_ram[t - 1] | (int)v_ram[t - 2];
         v_rom[t - 2] = (int)v_rom[t - 1] | (int)v_rom[t - 2];
-        if (slot[t - 2] < 0 && slot[t - 1] >= 0)
-          slot[t - 2] = slot[t - 1];
+        _pass_on_slot(slot, t);
+        _pass_on_base(base, t);
+        _pass_on_bank(bank, t);
         t--;
         break;
       case SI_OP_AND:
-- 
2.43.0


From 4cdb8e00bfa93534123b9bdbb50eb9b5c74f8107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 06/20] fix: min() picks the smaller ROM address too

---
 wlalink/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 9adf0a2..168f618 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3462,7 +3462,7 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         if (v_ram[t - 1] < v_ram[t - 2])
           v_ram[t - 2] = v_ram[t - 1];
         if (v_rom[t - 1] < v_rom[t - 2])
-          v_rom[t - 2] = v_rom[t - 2];
+          v_rom[t - 2] = v_rom[t - 1];
         if (s->sign == SI_SIGN_NEGATIVE) {
           v_ram[t - 2] = -v_ram[t - 2];
           v_rom[t - 2] = -v_rom[t - 2];
-- 
2.43.0


From 833c1a4435cf7f216bb5cbe07d8b9fb710e86911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 07/20] fix: do not read past the end of a .BITS field in a
 BANKHEADER section

---
 wlalink/write.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 168f618..c36d50f 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -4135,7 +4135,8 @@ int write_bank_header_calculations(struct stack *sta) {
         bits_position = 0;
         *t = (unsigned char)bits_byte;
         t++;
-        bits_byte = *t;
+        if (bits_to_define > 0)
+          bits_byte = *t;
       }
     }
 
@@ -4327,7 +4328,8 @@ int write_bank_header_references(struct reference *r) {
           bits_position = 0;
           *t = (unsigned char)bits_byte;
           t++;
-          bits_byte = *t;
+          if (bits_to_define > 0)
+            bits_byte = *t;
         }
       }
 
-- 
2.43.0


From c6ee053feffee028aa0f07ee980418aa377d1417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 08/20] fix: handle consecutive prefix operators and signs in
 expressions

---
 stack.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/stack.c b/stack.c
index 206180c..392e9de 100644
--- a/stack.c
+++ b/stack.c
@@ -2916,6 +2916,14 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
         si[k + 2].sign = SI_SIGN_POSITIVE;
       /* it wasn't a minus operator, it was a sign */
       si[k + 1].type = STACK_ITEM_TYPE_DELETED;
+      /* "--1" where also the first minus is a sign? */
+      if (b == 1 && si[k].value == SI_OP_SUB) {
+        if (si[k + 2].sign == SI_SIGN_POSITIVE)
+          si[k + 2].sign = SI_SIGN_NEGATIVE;
+        else
+          si[k + 2].sign = SI_SIGN_POSITIVE;
+        si[k].type = STACK_ITEM_TYPE_DELETED;
+      }
     }
     /* -abs()? */
     if (k < q-1 && si[k].type == STACK_ITEM_TYPE_OPERATOR && si[k].value == SI_OP_SUB && si[k+1].type == STACK_ITEM_TYPE_OPERATOR &&
@@ -3158,16 +3166,20 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
         else {
           int priority = _get_op_priority((int)(in->value));
 
-          b--;
-          while (b != -1 && op[b] != SI_OP_LEFT && _get_op_priority(op[b]) >= priority) {
-            out->type = STACK_ITEM_TYPE_OPERATOR;
-            out->value = op[b];
-            out->sign = sign[b];
+          /* the operand of a prefix operator (or a function) comes after it, so it doesn't complete
+             the operators that are waiting for their (right) operands */
+          if (in->value != SI_OP_NEGATE && priority < _get_op_priority(SI_OP_LOW_BYTE)) {
             b--;
-            d++;
-            out = &ta[d];
+            while (b != -1 && op[b] != SI_OP_LEFT && _get_op_priority(op[b]) >= priority) {
+              out->type = STACK_ITEM_TYPE_OPERATOR;
+              out->value = op[b];
+              out->sign = sign[b];
+              b--;
+              d++;
+              out = &ta[d];
+            }
+            b++;
           }
-          b++;
           op[b] = (unsigned char)in->value;
           sign[b] = in->sign;
           b++;
-- 
2.43.0


From 1a91d7666bd485397346e0c0d40b2bf39fb355e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 09/20] fix: give exported definitions their value as the ROM
 value too

---
 wlalink/analyze.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wlalink/analyze.c b/wlalink/analyze.c
index 283134a..30b4380 100644
--- a/wlalink/analyze.c
+++ b/wlalink/analyze.c
@@ -755,6 +755,7 @@ int collect_dlr(void) {
 
         READ_DOU;
         l->address = dou;
+        l->rom_address = dou;
         l->base = 0;
         l->file_id = g_obj_tmp->id;
         l->section_status = OFF;
@@ -1019,6 +1020,7 @@ int collect_dlr(void) {
 
         READ_DOU;
         l->address = dou;
+        l->rom_address = dou;
         l->bank = g_obj_tmp->bank;
         l->slot = g_obj_tmp->slot;
         l->base = g_obj_tmp->base;
-- 
2.43.0


From 3bceb58809896551eeda05e91166319e68a3f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 10/20] fix: refuse asin() and acos() of a value outside [-1,1]
 at link time

---
 wlalink/write.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/wlalink/write.c b/wlalink/write.c
index c36d50f..18ea142 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3633,6 +3633,14 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         t--;
         break;
       case SI_OP_ASIN:
+        if (v_ram[t - 1] < -1.0 || v_ram[t - 1] > 1.0) {
+          print_text(NO, "%s: %s:%d: COMPUTE_STACK: asin() needs a value that is [-1.0, 1.0], %f doesn't work!\n", get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, v_ram[t - 1]);
+          return FAILED;
+        }
+        if (v_rom[t - 1] < -1.0 || v_rom[t - 1] > 1.0) {
+          print_text(NO, "%s: %s:%d: COMPUTE_STACK: asin() needs a value that is [-1.0, 1.0], %f doesn't work!\n", get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, v_rom[t - 1]);
+          return FAILED;
+        }
         v_ram[t - 1] = asin(v_ram[t - 1]);
         v_rom[t - 1] = asin(v_rom[t - 1]);
         if (s->sign == SI_SIGN_NEGATIVE) {
@@ -3641,6 +3649,14 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         }
         break;
       case SI_OP_ACOS:
+        if (v_ram[t - 1] < -1.0 || v_ram[t - 1] > 1.0) {
+          print_text(NO, "%s: %s:%d: COMPUTE_STACK: acos() needs a value that is [-1.0, 1.0], %f doesn't work!\n", get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, v_ram[t - 1]);
+          return FAILED;
+        }
+        if (v_rom[t - 1] < -1.0 || v_rom[t - 1] > 1.0) {
+          print_text(NO, "%s: %s:%d: COMPUTE_STACK: acos() needs a value that is [-1.0, 1.0], %f doesn't work!\n", get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, v_rom[t - 1]);
+          return FAILED;
+        }
         v_ram[t - 1] = acos(v_ram[t - 1]);
         v_rom[t - 1] = acos(v_rom[t - 1]);
         if (s->sign == SI_SIGN_NEGATIVE) {
-- 
2.43.0


From 4a6503cdcbcfb457654530e3a946a8ce07e89fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 11/20] fix: use the size of the bank being searched when
 placing SUPERFREE sections

---
 wlalink/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 18ea142..9ce12e4 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -982,7 +982,7 @@ static int _write_section_superfree(struct section *s) {
         f = (g_pc_bank + d) % s->alignment;
         if (f > 0)
           g_pc_bank += s->alignment - f;
-        for (; g_pc_bank + s->offset < g_banksizes[s->bank] && g_rom_usage[g_pc_bank + s->offset + d] != 0; g_pc_bank += s->alignment)
+        for (; g_pc_bank + s->offset < g_banksizes[q] && g_rom_usage[g_pc_bank + s->offset + d] != 0; g_pc_bank += s->alignment)
           ;
       }
     }
-- 
2.43.0


From 695d6a3333231009c443dc1306327f5cf2eb7032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 12/20] fix: align RAMSECTIONs upwards to a multiple of their
 alignment

---
 wlalink/write.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 9ce12e4..7b0351c 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -1113,7 +1113,8 @@ static int _write_ramsection_force(struct section *s) {
   /* align the starting address */
   overflow = (slot_address + s->address) % s->alignment;
   address = s->address;
-  address += overflow;
+  if (overflow > 0)
+    address += s->alignment - overflow;
   address += s->offset;
 
   c = g_ram_slots[s->bank][s->slot];
@@ -1171,7 +1172,8 @@ static int _write_ramsection_semisubfree(struct section *s) {
   overflow = slot_address % s->alignment;
   address = 0;
   offset = s->offset;
-  address += overflow;
+  if (overflow > 0)
+    address += s->alignment - overflow;
 
   c = g_ram_slots[s->bank][s->slot];
   max_address = s->address;
@@ -1241,7 +1243,8 @@ static int _write_ramsection_free_and_semifree(struct section *s) {
   overflow = (slot_address + s->address) % s->alignment;
   address = s->address;
   offset = s->offset;
-  address += overflow;
+  if (overflow > 0)
+    address += s->alignment - overflow;
 
   c = g_ram_slots[s->bank][s->slot];
   slot_size = g_slots[s->slot].size;
-- 
2.43.0


From 5a325ee4320af52a3c1a7115158dceb628c6ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 13/20] cmake: compile as C99 unless WLA_STRICT_C90 is on, so
 that // comments are accepted

---
 CMakeLists.txt | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 152a17a..591b780 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -30,6 +30,8 @@ set(ARCHS
 
 option(GDB_DEBUGGING
     "Enable debugging via gdb (Only when CMAKE_BUILD_TYPE is Debug)" ON)
+option(WLA_STRICT_C90
+    "Compile as ISO C90 (gcc/clang -ansi), in which // comments are errors" OFF)
 
 # CMake will automatically define WIN32 for us for Microsoft compilers, how
 # convenient! But we need MSDOS flag as well. Additionally, other compilers
@@ -50,8 +52,14 @@ set(CMAKE_C_STANDARD 90)
 set(CMAKE_C_EXTENSIONS OFF)
 
 if(CMAKE_C_COMPILER_ID MATCHES "GNU|Clang")
-    set(CMAKE_C_STANDARD) # Empty because we use -ansi
-    set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -pedantic-errors -Wall -Wextra -ansi")
+    set(CMAKE_C_STANDARD) # Empty because we give -ansi or -std=c99 ourselves
+    set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -pedantic-errors -Wall -Wextra")
+    if(WLA_STRICT_C90)
+        set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -ansi")
+    else()
+        # ISO C99: the same code, but "//" starts a comment
+        set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=c99")
+    endif()
     string(REPLACE "-O2" "-O3" CMAKE_C_FLAGS_RELEASE "${CMAKE_C_FLAGS_RELEASE}")
     if(CMAKE_C_COMPILER_ID MATCHES "Clang" AND
             CMAKE_C_COMPILER_VERSION VERSION_LESS 3.8)
-- 
2.43.0


From 6fe3124e5beb59a7c6c69b370941c0491a5f13da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 14/20] fix: do not crash on calculations in BANKHEADER
 sections when discarding sections

---
 wlalink/discard.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wlalink/discard.c b/wlalink/discard.c
index c5aa29a..bb4ea94 100644
--- a/wlalink/discard.c
+++ b/wlalink/discard.c
@@ -124,8 +124,14 @@ int discard_iteration(void) {
   /* loop through computations */
   st = g_stacks_first;
   while (st != NULL) {
-    if (st->section_status != 0)
-      ss = find_section(st->section);
+    if (st->section_status != 0) {
+      ss = g_sec_bankhd_first;
+      /* find it in special sections first */
+      while (ss != NULL && ss->id != st->section)
+        ss = ss->next;
+      if (ss == NULL)
+        ss = find_section(st->section);
+    }
     else
       ss = NULL;
 
-- 
2.43.0


From 307bb7cc56c34c930a762f600c3e59aa7e442937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 15/20] fix: refuse unusable -bS and -bE ranges and write
 nothing for an empty program

---
 wlalink/write.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 7b0351c..b71ecec 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2686,11 +2686,11 @@ int write_rom_file(char *outname) {
       return FAILED;
   }
 
-  if (g_program_address_start > g_romsize) {
+  if (g_program_address_start >= g_romsize) {
     print_text(NO, "WRITE_ROM_FILE: The supplied -bS ($%x) overflows from the ROM!\n", g_program_address_start);
     return FAILED;
   }
-  if (g_program_address_end > g_romsize) {
+  if (g_program_address_end >= g_romsize) {
     print_text(NO, "WRITE_ROM_FILE: The supplied -bE ($%x) overflows from the ROM!\n", g_program_address_end);
     return FAILED;
   }
@@ -2743,7 +2743,7 @@ int write_rom_file(char *outname) {
         break;
     }
     b = i;
-    for (e = b; i < g_romsize; i++) {
+    for (e = b - 1; i < g_romsize; i++) {
       if (g_rom_usage[i] != 0)
         e = i;
     }
@@ -2754,6 +2754,17 @@ int write_rom_file(char *outname) {
     if (g_program_address_end >= 0)
       e = g_program_address_end;
 
+    if (g_program_address_start >= 0 && b > e) {
+      print_text(NO, "WRITE_ROM_FILE: The supplied -bS ($%x) is larger than calculated end ($%x).\n", b, e);
+      fclose(f);
+      return FAILED;
+    }
+    if (g_program_address_end >= 0 && b > e) {
+      print_text(NO, "WRITE_ROM_FILE: The supplied -bE ($%x) is smaller than calculated start ($%x).\n", e, b);
+      fclose(f);
+      return FAILED;
+    }
+
     s = g_sec_bankhd_first;
     while (s != NULL) {
       if (s->bank == 0) {
@@ -2763,14 +2774,10 @@ int write_rom_file(char *outname) {
       s = s->next;
     }
 
-    fwrite(g_rom + b, 1, e - b + 1, f);
+    if (b <= e)
+      fwrite(g_rom + b, 1, e - b + 1, f);
     g_program_start = b;
     g_program_end = e;
-
-    if (g_program_address_start >= 0 && g_program_address_end < 0 && b > e) {
-      print_text(NO, "WRITE_ROM_FILE: The supplied -bS ($%x) is larger than calculated end ($%x).\n", b, e);
-      return FAILED;
-    }
   }
 
   if (g_file_footer != NULL)
-- 
2.43.0


From 4720d6a8d21bc8fe307f41c184c5fd80c3c2bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 16/20] fix: compute the Mega Drive checksum from big-endian
 words

---
 wlalink/compute.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wlalink/compute.c b/wlalink/compute.c
index 5714d9e..20d1049 100644
--- a/wlalink/compute.c
+++ b/wlalink/compute.c
@@ -201,7 +201,6 @@ int compute_gb_complement_check(void) {
 
 int compute_smd_checksum(void) {
 
-  unsigned short int *rom = (unsigned short int *)g_rom;
   int checksum, j;
 
   if (g_romsize < 0x1000) {
@@ -211,8 +210,9 @@ int compute_smd_checksum(void) {
 
   checksum = 0;
 
+  /* the words are in the 68000's byte order */
   for (j = 0x100; j < g_romsize/2; j++)
-    checksum += rom[j];
+    checksum += (g_rom[j*2] << 8) | g_rom[j*2 + 1];
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Writing SMD ROM checksum bytes");
-- 
2.43.0


From 8f60587672c4d826541bfc6c9f9a36ef3c790348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 17/20] fix: do not sum bytes outside the ROM image for the SMS
 checksum

---
 wlalink/compute.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wlalink/compute.c b/wlalink/compute.c
index 20d1049..0cec320 100644
--- a/wlalink/compute.c
+++ b/wlalink/compute.c
@@ -47,7 +47,7 @@ int reserve_checksum_bytes(void) {
   if (g_sms_checksum_already_written == 0 && (g_sms_checksum != 0 || g_sms_header != 0)) {
     int tag_address = get_sms_tag_address();
     
-    if (g_romsize >= 0x2000) {
+    if (g_romsize >= 0x2000 && tag_address >= 0 && tag_address + 0x10 <= g_romsize) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Reserving SMS ROM checksum bytes");
 
@@ -470,6 +470,10 @@ int compute_sms_checksum(void) {
   }
 
   tag_address = get_sms_tag_address();
+  if (tag_address < 0 || tag_address + 0x10 > g_romsize) {
+    print_text(NO, "COMPUTE_SMS_CHECKSUM: The header at $%x is outside the ROM - not calculating the checksum.\n", tag_address);
+    return FAILED;
+  }
 
   /* NOTE: this is one only if we have nothing written there as we've then reserved the byte (one write). if we had written to that
      previously then it would be > 1 as reserving it would increase the counter by one... */
@@ -535,6 +539,10 @@ int compute_sms_checksum(void) {
   /* OVERRIDE from CHECKSUMSIZE! */
   if (g_sms_checksum_size_defined != 0)
     checksum_max = g_sms_checksum_size;
+  if (checksum_max > g_romsize) {
+    print_text(NO, "COMPUTE_SMS_CHECKSUM: CHECKSUMSIZE (%d bytes) is bigger than the ROM image (%d bytes) itself - not calculating the checksum.\n", checksum_max, g_romsize);
+    return FAILED;
+  }
   
   /* add together ROM SIZE minus SMS/GG header */
   checksum = 0;
-- 
2.43.0


From 78bcfcd7c0f35f8f4edc07cd665709036f7b2dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 18/20] fix: do not write TMR SEGA outside the ROM image

---
 wlalink/compute.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wlalink/compute.c b/wlalink/compute.c
index 0cec320..927690a 100644
--- a/wlalink/compute.c
+++ b/wlalink/compute.c
@@ -82,7 +82,7 @@ int reserve_checksum_bytes(void) {
   if (g_smstag_defined != 0 || g_sms_header != 0) {
     int tag_address = get_sms_tag_address();
     
-    if (g_romsize >= 0x2000) {
+    if (g_romsize >= 0x2000 && tag_address >= 0 && tag_address + 0x10 <= g_romsize) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Reserving SMS ROM TMR SEGA bytes");
 
@@ -436,6 +436,11 @@ int add_tmr_sega(void) {
     return SUCCEEDED;
   }
 
+  if (tag_address < 0 || tag_address + 0x10 > g_romsize) {
+    print_text(NO, "ADD_TMR_SEGA: The header at $%x is outside the ROM - not writing TMR SEGA.\n", tag_address);
+    return SUCCEEDED;
+  }
+
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Writing TMR SEGA");
 
-- 
2.43.0


From 8f99c71341a537ae7e2950b81979ec3793c5c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:53 +0000
Subject: [PATCH 19/20] fix: keep the bits of unsigned 32-bit values

Decimal values from 2^31 to 2^32-1 were converted to int out of range and
all became 0x80000000.
---
 parse.c         | 14 ++++++++++++--
 parse.h         |  1 +
 stack.c         |  4 ++--
 wlalink/write.c |  6 ++++++
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/parse.c b/parse.c
index cb3a2f1..20bbd6c 100644
--- a/parse.c
+++ b/parse.c
@@ -420,10 +420,20 @@ int input_next_string(void) {
 }
 
 
+/* unsigned 32-bit values keep their bits, just like in hexadecimal */
+int convert_double_to_int(double d) {
+
+  if (d >= 2147483648.0 && d < 4294967296.0)
+    return (int)(unsigned int)d;
+
+  return (int)d;
+}
+
+
 static int _input_number_return_definition(struct definition *def) {
 
   if (def->type == DEFINITION_TYPE_VALUE) {
-    g_parsed_int = (int)def->value;
+    g_parsed_int = convert_double_to_int(def->value);
     g_parsed_double = def->value;
 
     if (g_operand_hint == HINT_NONE) {
@@ -1191,7 +1201,7 @@ int input_number(void) {
     }
 
     /* drop the decimals */
-    g_parsed_int = (int)g_parsed_double;
+    g_parsed_int = convert_double_to_int(g_parsed_double);
 
     if (g_operand_hint == HINT_NONE) {
       if (g_parsed_int > 0xFFFFFF)
diff --git a/parse.h b/parse.h
index 7d9cc31..3d1eafe 100644
--- a/parse.h
+++ b/parse.h
@@ -3,6 +3,7 @@
 #define _PARSE_H
 
 int input_number(void);
+int convert_double_to_int(double d);
 int input_next_string(void);
 int get_next_plain_string(void);
 int get_next_token(void);
diff --git a/stack.c b/stack.c
index 392e9de..8b63d90 100644
--- a/stack.c
+++ b/stack.c
@@ -2820,7 +2820,7 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
       if (g_input_float_mode == ON)
         return INPUT_NUMBER_FLOAT;
 
-      *value = (int)si[0].value;
+      *value = convert_double_to_int(si[0].value);
 
       return SUCCEEDED;
     }
@@ -3240,7 +3240,7 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
     print_text(NO, "RETURN INT %d\n", (int)dou);
 #endif
     
-    *value = (int)dou;
+    *value = convert_double_to_int(dou);
 
     return SUCCEEDED;
   }
diff --git a/wlalink/write.c b/wlalink/write.c
index b71ecec..345445b 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3019,6 +3019,9 @@ int compute_pending_calculations(void) {
       }
     }
     else if (sta->type == STACK_TYPE_32BIT) {
+      /* unsigned 32-bit values keep their bits */
+      if (result >= 2147483648.0 && result < 4294967296.0)
+        k = (int)(unsigned int)result;
       if (get_file(sta->file_id)->little_endian == YES) {
         if (mem_insert_ref(a, k & 0xFF) == FAILED)
           return FAILED;
@@ -4191,6 +4194,9 @@ int write_bank_header_calculations(struct stack *sta) {
     }
   }
   else if (sta->type == STACK_TYPE_32BIT) {
+    /* unsigned 32-bit values keep their bits */
+    if (result >= 2147483648.0 && result < 4294967296.0)
+      k = (int)(unsigned int)result;
     if (get_file(sta->file_id)->little_endian == YES) {
       *t = k & 0xFF;
       t++;
-- 
2.43.0


From c6aee89cf6e8e68893b89323efb9a22e82ff452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 20/20] fix: hexadecimal and binary literals with too many
 digits, and 7-digit ones

In an expression, a 7-digit hexadecimal literal above $7FFFFFF was sign
extended. Elsewhere a 9th digit, or a digit other than 0 and 1 in a binary
literal, silently started another value.
---
 parse.c | 16 ++++++++++++++++
 stack.c | 40 ++++++++++++++++------------------------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/parse.c b/parse.c
index 20bbd6c..339c8ae 100644
--- a/parse.c
+++ b/parse.c
@@ -1018,6 +1018,17 @@ int input_number(void) {
 
     e = g_buffer[g_source_index];
 
+    if (k == 8) {
+      if (e == 'h' || e == 'H') {
+        g_source_index++;
+        e = g_buffer[g_source_index];
+      }
+      else if ((e >= '0' && e <= '9') || (e >= 'A' && e <= 'F') || (e >= 'a' && e <= 'f')) {
+        print_error(ERROR_NUM, "Too many digits in a hexadecimal value, max is 8.\n");
+        return FAILED;
+      }
+    }
+
     if (e == '.') {
       e = g_buffer[g_source_index+1];
       if (e == 'b' || e == 'B') {
@@ -1090,6 +1101,11 @@ int input_number(void) {
     }
 
     e = g_buffer[g_source_index];
+
+    if (e >= '2' && e <= '9') {
+      print_error(ERROR_NUM, "Got '%c' (%d) when expected a 0 or 1.\n", e, e);
+      return FAILED;
+    }
     
     if (e == '.') {
       e = g_buffer[g_source_index+1];
diff --git a/stack.c b/stack.c
index 8b63d90..a75f265 100644
--- a/stack.c
+++ b/stack.c
@@ -2017,8 +2017,6 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
       q++;
     }
     else if (*in == '$' || (*in == '0' && (*(in+1) == 'x' || *(in+1) == 'X'))) {
-      int needs_shifting = NO;
-      
       /* we'll break if the previous item in the stack was a value or a string / label */
       if (_break_before_value_or_string(q, &si[0]) == SUCCEEDED)
         break;
@@ -2030,15 +2028,14 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
       for (k = 0, in++; k < 8; k++, in++) {
         e = *in;
         if (e >= '0' && e <= '9')
-          d += e - '0';
+          d = (d << 4) + e - '0';
         else if (e >= 'A' && e <= 'F')
-          d += e - 'A' + 10;
+          d = (d << 4) + e - 'A' + 10;
         else if (e >= 'a' && e <= 'f')
-          d += e - 'a' + 10;
+          d = (d << 4) + e - 'a' + 10;
         else if (e == ' ' || e == ')' || e == '|' || e == '&' || e == '+' || e == '-' || e == '(' ||
                  e == '*' || e == '/' || e == ',' || e == '^' || e == '<' || e == '>' ||
                  e == '#' || e == '~' || e == ']' || e == '.' || e == '=' || e == '!' || e == '}' || e == 0xA || e == 0) {
-          needs_shifting = YES;
           break;
         }
         else {
@@ -2047,16 +2044,15 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
           }
           return FAILED;
         }
-
-        if (k < 7)
-          d = d << 4;
       }
 
-      if (needs_shifting == YES)
-        d = d >> 4;
-
       if (*in == 'h' || *in == 'H')
         in++;
+      else if (k == 8 && ((*in >= '0' && *in <= '9') || (*in >= 'a' && *in <= 'f') || (*in >= 'A' && *in <= 'F'))) {
+        if (g_input_number_error_msg == YES)
+          print_error(ERROR_NUM, "Too many digits in a hexadecimal value, max is 8.\n");
+        return FAILED;
+      }
       
       si[q].type = STACK_ITEM_TYPE_VALUE;
       si[q].value = d;
@@ -2090,22 +2086,19 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
 
       if (n == 1) {
         /* it's hex */
-        int needs_shifting = NO;
-
         d = 0;
         for (k = 0; k < 8; k++, in++) {
           e = *in;
           if (e >= '0' && e <= '9')
-            d += e - '0';
+            d = (d << 4) + e - '0';
           else if (e >= 'A' && e <= 'F')
-            d += e - 'A' + 10;
+            d = (d << 4) + e - 'A' + 10;
           else if (e >= 'a' && e <= 'f')
-            d += e - 'a' + 10;
+            d = (d << 4) + e - 'a' + 10;
           else if (e == ' ' || e == ')' || e == '|' || e == '&' || e == '+' || e == '-' ||
                    e == '*' || e == '/' || e == ',' || e == '^' || e == '<' || e == '>' ||
                    e == '#' || e == '~' || e == ']' || e == '.' || e == 'h' || e == 'H' ||
                    e == '=' || e == '!' || e == '}' || e == '(' || e == 0xA || e == 0) {
-            needs_shifting = YES;
             break;
           }
           else {
@@ -2114,16 +2107,15 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
             }
             return FAILED;
           }
-
-          if (k < 7)
-            d = d << 4;
         }
 
-        if (needs_shifting == YES)
-          d = d >> 4;
-
         if (*in == 'h' || *in == 'H')
           in++;
+        else if (k == 8 && ((*in >= '0' && *in <= '9') || (*in >= 'a' && *in <= 'f') || (*in >= 'A' && *in <= 'F'))) {
+          if (g_input_number_error_msg == YES)
+            print_error(ERROR_NUM, "Too many digits in a hexadecimal value, max is 8.\n");
+          return FAILED;
+        }
 
         si[q].type = STACK_ITEM_TYPE_VALUE;
         si[q].value = d;
-- 
2.43.0

