From 657b2d363345b2fc28ff68cb35cdaca9e3ab16d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 01/72] fix: operator dispatch dictionaries read past the end
 of their tables

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 7e8b5f0..09b96a0 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -2017,7 +2017,7 @@ bool has_uninitialized_symbol(const parse_node_ptr p)
 
 static dictionary_ptr create_op_table_dictionary(op_table table[], const size_t size)
 {
-    dictionary_ptr dictionary = dict_create(sizeof(op_table), -1);
+    dictionary_ptr dictionary = dict_create(sizeof(expr), -1);
     for (size_t i = 0; i < size; ++i)
     {
         dict_insert(&dictionary, (void*)static_cast<size_t>(table[i].tag), &table[i].function);
-- 
2.43.0


From af887ceed85fbfa502e41e58808f975fa69e227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 02/72] fix: errors reported in the final pass fail the
 assembly

---
 CMakePasm/source/pass.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 4dbbc92..27c8969 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -299,6 +299,13 @@ int assemble(void)
 
     delete_list_table();
 
+    // errors found while generating the output fail the assembly as well
+    if (error_count > 0)
+    {
+        fprintf(console_error, "%d error(s)\n", error_count);
+        return -1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 4522b382c715f3492dc025cd158e3434e34e5a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:05 +0000
Subject: [PATCH 03/72] fix: relative branches accepted +128 and refused -128

---
 CMakePasm/source/expand.cc    | 2 +-
 CMakePasm/source/genoutput.cc | 2 +-
 CMakePasm/source/node.cc      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 09b96a0..9c024a4 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -919,7 +919,7 @@ int expand_op_code_node(const parse_node_ptr p)
                 // make sure a branch is in range
                 const int op = op_value - (p->opcode.program_counter + 2);
 
-                if (op > 128 || op < -127)
+                if (op > 127 || op < -128)
                 {
                     // reverse the logic and insert a jmp
                     switch (p->opcode.instruction)
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 2fabd7d..b921c1f 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -224,7 +224,7 @@ int write_opcode_node(FILE* file, const parse_node_ptr p)
             // make sure a branch is in range
             op -= (p->opcode.program_counter + 2);
 
-            if (op > 128 || op < -127)
+            if (op > 127 || op < -128)
             {
                 error(error_value_out_of_range);
                 return 0;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 64ed315..8e68a3a 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1751,7 +1751,7 @@ int generate_list_node(const parse_node_ptr p)
         if (p->opcode.mode == r)
         {
             op -= (p->opcode.program_counter + 2);
-            if (op > 128 || op < -127)
+            if (op > 127 || op < -128)
             {
                 // This error is reported in generate_output
                 fprintf(console, "%s\n", current_buffer);
-- 
2.43.0


From 0a7a71f461888fe63cb45e097e90189037b60530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 04/72] fix: far bvc and bvs branches were not inverted

---
 CMakePasm/source/expand.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 9c024a4..9db9fc0 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -950,6 +950,14 @@ int expand_op_code_node(const parse_node_ptr p)
                     case _bpl:
                         p->opcode.instruction = _bmi;
                         break;
+
+                    case _bvc:
+                        p->opcode.instruction = _bvs;
+                        break;
+
+                    case _bvs:
+                        p->opcode.instruction = _bvc;
+                        break;
                     }
                     code2 = get_op_code(p->opcode.instruction, r);
                     if (code2 != -1)
-- 
2.43.0


From 0303028c1c5794bf8df2b23ce12f419d4088230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 05/72] fix: expanding a far branch again used the inverted
 branch and a stale target

---
 CMakePasm/source/expand.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 9db9fc0..f6f2324 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -802,6 +802,7 @@ int expand_op_code_node(const parse_node_ptr p)
     int mode_check = p->opcode.mode;
     const int save_mode = p->opcode.mode;
     const int save_op_code = p->opcode.opcode;
+    const int save_instruction = p->opcode.instruction;
     int op_bytes;
 
     if (program_counter_assigned > 0)
@@ -988,6 +989,10 @@ int expand_op_code_node(const parse_node_ptr p)
                             warn(error_branch_out_of_range);
                         }
                         program_counter += get_op_code_byte_count(jmp) + 1;
+
+                        // the node may be expanded again (loops)
+                        p->op[index] = target;
+                        p->opcode.instruction = save_instruction;
                         p->opcode.opcode = save_op_code;
                         p->opcode.mode = save_mode;
 
-- 
2.43.0


From 8f3cd2b7d7389ec27466674b2fda173b36ec5671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:13 +0000
Subject: [PATCH 06/72] fix: processor directives of one pass leaked into the
 start of the next

---
 CMakePasm/source/pass.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 27c8969..a0ec9db 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -14,6 +14,7 @@
 #include "genlist.h"
 #include "genoutput.h"
 #include "memory.h"
+#include "opcodes.h"
 #include "pasm.h"
 #include "pasm.tab.h"
 #include "stacks.h"
@@ -187,6 +188,11 @@ int assemble(void)
         }
     }
 
+    // directives change these settings, every pass starts with those of the command line
+    const cpu start_cpu_mode = cpu_mode;
+    const int start_allow_illegal_op_codes = allow_illegal_op_codes;
+    const bool start_ignore_warnings = ignore_warnings;
+
     int clean_pass_count = 0;
     do
     {
@@ -195,6 +201,9 @@ int assemble(void)
             fprintf(console, "Pass %d\n", pass);
         }
 
+        cpu_mode = start_cpu_mode;
+        allow_illegal_op_codes = start_allow_illegal_op_codes;
+        ignore_warnings = start_ignore_warnings;
         parse_pass();
 
         const int unresolved_count = unresolved_symbol_count();
@@ -248,6 +257,9 @@ int assemble(void)
         }
     }
 
+    cpu_mode = start_cpu_mode;
+    allow_illegal_op_codes = start_allow_illegal_op_codes;
+    ignore_warnings = start_ignore_warnings;
     parse_pass();
 
     // close output line_content
-- 
2.43.0


From bb68225f643e6ff727806a0d8dd182be7f95dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 07/72] fix: a far bra skipped its own jmp

---
 CMakePasm/source/expand.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index f6f2324..73df8e3 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -972,14 +972,18 @@ int expand_op_code_node(const parse_node_ptr p)
                             exit(-1);
                         }
 
-                        p->opcode.opcode = code2;
-                        if (final_pass)
+                        // a far bra is just the jmp
+                        if (p->opcode.instruction != _bra)
                         {
-                            p->op[index] = constant_node(program_counter + 5, 0);
-                            generate_list_node(p);
-                            generate_output(output_file, p);
+                            p->opcode.opcode = code2;
+                            if (final_pass)
+                            {
+                                p->op[index] = constant_node(program_counter + 5, 0);
+                                generate_list_node(p);
+                                generate_output(output_file, p);
+                            }
+                            program_counter += get_op_code_byte_count(p) + 1;
                         }
-                        program_counter += get_op_code_byte_count(p) + 1;
                         if (final_pass)
                         {
                             jmp->opcode.program_counter = program_counter;
-- 
2.43.0


From 51003000593c890b84cce7272cf2e55431dbced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:43 +0000
Subject: [PATCH 08/72] fix: instruction operands beyond 16 bits were truncated
 silently

---
 CMakePasm/source/expand.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 73df8e3..87633b8 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -877,6 +877,13 @@ int expand_op_code_node(const parse_node_ptr p)
             // ReSharper disable once CppRedundantParentheses
             large_op = large_op | ((op_value & ~0xFF) != 0);
 
+            // a value that no operand can hold
+            if (op_value > 0xFFFF || op_value < -0xFFFF || (op_bytes < 2 && op_value < -0xFF))
+            {
+                error(error_value_out_of_range);
+                break;
+            }
+
             out_of_range = out_of_range | ((op_value & ~0xFFFF) != 0 || (op_bytes < 2 && large_op));
             if (out_of_range && op_bytes < 2 && (op_value & ~0xFFFF) == 0)
             {
-- 
2.43.0


From 52a356e1a4d274edc86ccc316de1241582e2be37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 09/72] fix: illegal 6502 instructions were accepted for the
 65C02

---
 CMakePasm/source/opcodes.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/opcodes.cc b/CMakePasm/source/opcodes.cc
index 690bdcb..5f4e3ff 100644
--- a/CMakePasm/source/opcodes.cc
+++ b/CMakePasm/source/opcodes.cc
@@ -450,7 +450,8 @@ int get_op_code(const int instruction, const int addressing_mode)
     if ((instruction >= 0 && instruction < _maxOpcode) &&
         (addressing_mode >= 0 && addressing_mode < max_addressing_mode))
     {
-        if (!allow_illegal_op_codes && instruction >= _illegalStart && cpu_mode == cpu_6502)
+        // only the 6502 has the illegal instructions
+        if (instruction >= _illegalStart && (!allow_illegal_op_codes || cpu_mode != cpu_6502))
             return -1;
 
         switch (cpu_mode)  // NOLINT(hicpp-multiway-paths-covered)
-- 
2.43.0


From 92289b3f2257fcd71af1e9ec2fe1383597119e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:27 +0000
Subject: [PATCH 10/72] fix: a fill of zero bytes was counted as one byte
 before the final pass

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 87633b8..201545d 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -405,7 +405,7 @@ int expand_operator_fill_node(const parse_node_ptr p)
     }
     else
     {
-        program_counter += count > 0 ? count : 1;
+        program_counter += count;
     }
     return byt;
 }
-- 
2.43.0


From 17d36a3d7f60c32bdd44ee21c7c78806c0633659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:29 +0000
Subject: [PATCH 11/72] fix: a fill at the start of a c64 program was short by
 the header's size

---
 CMakePasm/source/expand.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 201545d..32b63d9 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -378,9 +378,9 @@ int expand_operator_fill_node(const parse_node_ptr p)
                 {
                     generate_fill_node2 = data_node(data_word, constant_node(byt << 8 | byt, false));
                 }
-                int bytes = generate_output(output_file, generate_fill_node2);
-                if (bytes == 0)
-                    bytes = 2;
+                // the file header may be written as well, it is not part of the fill
+                generate_output(output_file, generate_fill_node2);
+                const int bytes = 2;
                 generate_list_node(generate_fill_node2);
                 program_counter += bytes;
                 count -= bytes;
@@ -393,9 +393,8 @@ int expand_operator_fill_node(const parse_node_ptr p)
                 {
                     generate_fill_node1 = data_node(data_byte, constant_node(byt, false));
                 }
-                int bytes = generate_output(output_file, generate_fill_node1);
-                if (bytes == 0)
-                    bytes = 1;
+                generate_output(output_file, generate_fill_node1);
+                const int bytes = 1;
                 generate_list_node(generate_fill_node1);
                 program_counter += bytes;
                 count -= bytes;
-- 
2.43.0


From 6aadd8afbfdc5c30e52a9f0de64e6bdf930ad05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:32 +0000
Subject: [PATCH 12/72] fix: the c64 header hid gaps between addresses and file
 positions

---
 CMakePasm/source/genoutput.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index b921c1f..ecd84a0 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -274,7 +274,8 @@ int generate_output(FILE* file, const parse_node_ptr p)
         }
     }
 
-    const int delta = program_counter - (origin + total_bytes_written);
+    // the header is not part of the program
+    const int delta = program_counter - (origin + total_bytes_written - byte_delta);
     if (delta > 0)
     {
         error(error_value_out_of_range);
-- 
2.43.0


From 8646c0cbee870c3a7d0accb3b6b0e02af093fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:34 +0000
Subject: [PATCH 13/72] fix: .ds 0 reserved one byte

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 32b63d9..10b33fe 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1659,7 +1659,7 @@ int expand_operator_ds_node(const parse_node_ptr p)
 
 //    if (final_pass)
     {
-        program_counter += count > 0 ? count : 1;
+        program_counter += count;
     }
     
     return op;
-- 
2.43.0


From e58ef5b1a389eaff8964e6ac6b7130e1ea0ff9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:11 +0000
Subject: [PATCH 14/72] fix: data with a short-circuited && or || operand was
 silently dropped

---
 CMakePasm/source/expand.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 10b33fe..20ea0c5 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1897,7 +1897,10 @@ int expand_operator_greater_than_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_or_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) || expand_node(p->op[1]);
+    // both sides are expanded, a symbol that is never looked up counts as undefined
+    const int left = expand_node(p->op[0]);
+    const int right = expand_node(p->op[1]);
+    return left || right;
 }
 
 /// <summary>
@@ -1907,7 +1910,10 @@ int expand_operator_or_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_and_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) && expand_node(p->op[1]);
+    // both sides are expanded, a symbol that is never looked up counts as undefined
+    const int left = expand_node(p->op[0]);
+    const int right = expand_node(p->op[1]);
+    return left && right;
 }
 
 /// <summary>
-- 
2.43.0


From 7a089b239d60f57eecb6e22b49cacc0a5d7127f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:44 +0000
Subject: [PATCH 15/72] fix: dividing the smallest integer by -1 crashed the
 assembler

---
 CMakePasm/source/expand.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 20ea0c5..c72f677 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1832,12 +1832,17 @@ int expand_operator_multiply_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_divide_node(const parse_node_ptr p)
 {
-    if (expand_node(p->op[1]) == 0)
+    const int divisor = expand_node(p->op[1]);
+    if (divisor == 0)
     {
         error(error_divide_by_zero);
         return 0;
     }
-    return expand_node(p->op[0]) / expand_node(p->op[1]);
+    const int dividend = expand_node(p->op[0]);
+    // the smallest integer has no positive counterpart, dividing it by -1 traps
+    if (divisor == -1)
+        return static_cast<int>(0U - static_cast<unsigned int>(dividend));
+    return dividend / divisor;
 }
 
 /// <summary>
-- 
2.43.0


From 1d75ef62c16a4f3b373f2b678a9b848cfde25a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:48 +0000
Subject: [PATCH 16/72] fix: octal, question mark and one-digit hexadecimal
 escapes

---
 CMakePasm/source/str.cc | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/str.cc b/CMakePasm/source/str.cc
index 5688386..f939e49 100644
--- a/CMakePasm/source/str.cc
+++ b/CMakePasm/source/str.cc
@@ -72,10 +72,18 @@ char* sanitize_string(char* str)
 
             case 'x':
                 str++;
-                if (*str == 0)
+                if (!isxdigit(*str))
                 {
                     error(error_unrecognized_escape_sequence);
-                    break;
+                    continue;
+                }
+                if (isxdigit(*str) && !isxdigit(*(str + 1)))
+                {
+                    // a single digit
+                    char temp[2] = { 0 };
+                    temp[0] = *str++;
+                    *tmp_str++ = static_cast<char>((int)strtol(temp, NULL, 16));
+                    continue;
                 }
                 while (isxdigit(*str) && isxdigit(*(str + 1)))
                 {
@@ -90,12 +98,34 @@ char* sanitize_string(char* str)
             case '\'':
             case '\"':
             case '\\':
+            case '?':
                 esc_char = *str & 0xFF;
                 break;
 
+            case '0':
+            case '1':
+            case '2':
+            case '3':
+            case '4':
+            case '5':
+            case '6':
+            case '7':
+                {
+                    // up to three octal digits
+                    int value = 0;
+                    for (int digits = 0; digits < 3 && *str >= '0' && *str <= '7'; digits++)
+                        value = value * 8 + (*str++ - '0');
+                    if (value > 255)
+                        error(error_value_out_of_range);
+                    *tmp_str++ = static_cast<char>(value);
+                }
+                continue;
+
             default:
                 esc_char = '?';
                 error(error_unrecognized_escape_sequence);
+                if (*str == 0)
+                    continue;
                 break;
             }
             *tmp_str++ = static_cast<char>(esc_char);
-- 
2.43.0


From 73ff15a225515067d29a9636fdb3cf351c196541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:33 +0000
Subject: [PATCH 17/72] fix: a zero byte in a string cut the string off

---
 CMakePasm/source/genoutput.cc | 7 +++----
 CMakePasm/source/node.cc      | 5 +++--
 CMakePasm/source/str.cc       | 5 ++++-
 CMakePasm/source/str.h        | 2 +-
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index ecd84a0..4243185 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -22,7 +22,7 @@ int origin = 0;
 
 int write_byte(FILE* file, unsigned char ch);
 int write_word(FILE* file, int word);
-int write_string(FILE* file, const char* str);
+int write_string(FILE* file, const char* str, size_t len);
 
 /**
  * \brief reset output variables
@@ -71,9 +71,8 @@ int write_word(FILE* file, const int word)
     return bytes_written;
 }
 
-int write_string(FILE* file, const char* str)
+int write_string(FILE* file, const char* str, const size_t len)
 {
-    const size_t len = strlen(str);
     // ReSharper disable once CppRedundantCastExpression
     const int bytes_written = static_cast<int>(fwrite(str, 1, len, file));
     if (bytes_written < static_cast<int>(len))
@@ -123,7 +122,7 @@ int write_program_counter_pad(FILE* file, const int delta)
 
 int write_string_node(FILE* file, const parse_node_ptr p)
 {
-    int bytes_written = write_string(output_file, p->str.value);
+    int bytes_written = write_string(output_file, p->str.value, p->str.len);
     total_bytes_written += (int)bytes_written;
     if (bytes_written < p->str.len)
     {
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 8e68a3a..5849679 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -142,13 +142,14 @@ parse_node_ptr string_node(const char* value)
     if (p->str.value)
         FREE(p->str.value);
 
-    p->str.value = sanitize_string(str);
+    int len = 0;
+    p->str.value = sanitize_string(str, &len);
     if (p->str.value == nullptr)
     {
         error(error_out_of_memory);
         exit(-1);  // NOLINT(concurrency-mt-unsafe)
     }
-    p->str.len = static_cast<int>(strlen(p->str.value));
+    p->str.len = len;
 
     return p;
 }
diff --git a/CMakePasm/source/str.cc b/CMakePasm/source/str.cc
index f939e49..5a15142 100644
--- a/CMakePasm/source/str.cc
+++ b/CMakePasm/source/str.cc
@@ -13,9 +13,10 @@
 /**
  * \brief Normalize a string that may contain escape chars
  * \param str string to normalize
+ * \param out_len receives the length of the result, an escape may denote a zero byte
  * \return a newly allocated string
  */
-char* sanitize_string(char* str)
+char* sanitize_string(char* str, int* out_len)
 {
     const int len = static_cast<int>(strlen(str)) + 1;
 
@@ -137,5 +138,7 @@ char* sanitize_string(char* str)
         }
     }
 
+    if (out_len != nullptr)
+        *out_len = static_cast<int>(tmp_str - out_str);
     return out_str;
 }
diff --git a/CMakePasm/source/str.h b/CMakePasm/source/str.h
index 0fcec2b..6f8dfba 100644
--- a/CMakePasm/source/str.h
+++ b/CMakePasm/source/str.h
@@ -1,3 +1,3 @@
 #pragma once
 
-extern char* sanitize_string(char* str);
+extern char* sanitize_string(char* str, int* out_len = nullptr);
-- 
2.43.0


From 9f772f94d4141edeece840c71d62f5147048384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:57 +0000
Subject: [PATCH 18/72] fix: number literals beyond 32 bits were truncated
 silently

---
 CMakePasm/source/pasm.l | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 2791320..fc64a02 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -6,6 +6,7 @@
 
 #include <stdbool.h>
 
+#include "error.h"
 #include "flex.h"
 #include "pasm.h"
 #include "str.h"
@@ -36,7 +37,10 @@ extern bool Debug_AddList;
 #define OP_65C02_REL(op)    { OP_REL(op); }
 #define INT(off, base)      { \
                                 P_TOK("INTEGER") \
-                                yylval.iValue = (int) strtol (yytext + off, NULL, base);\
+                                const long long int_value = strtoll(yytext + off, NULL, base);\
+                                if (int_value > 0xFFFFFFFFLL)\
+                                    error(error_value_out_of_range);\
+                                yylval.iValue = (int) int_value;\
                                 return INTEGER;\
                             }
 #define INT_1BYTE           {\
-- 
2.43.0


From 8480382530602a22a91caa0eb2a93b0aad86a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:19 +0000
Subject: [PATCH 19/72] fix: listing an out of range value read freed memory

---
 CMakePasm/source/node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 5849679..7de51e4 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1684,9 +1684,9 @@ int generate_list_node(const parse_node_ptr p)
         // check for overflow
         if (hi != 0 && data_size < 2)
         {
-            FREE(current_buffer);
             // This error is reported in generate_output
             fprintf(console, "%s\n", current_buffer);
+            FREE(current_buffer);
             return 0;
         }
 
-- 
2.43.0


From adcc99a0066e6dbe077479e18c2f739f02d5dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 20/72] fix: range check of data overflowed for the smallest
 integer

---
 CMakePasm/source/genoutput.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 4243185..1c6276e 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -154,7 +154,7 @@ int write_data_node(FILE* file, const parse_node_ptr p)
     {
         if (data_size != 1)
         {
-            if (-(op) > 0xFFFE)
+            if (op < -0xFFFE)
             {
                 error(error_value_out_of_range);
                 return 0;
@@ -164,7 +164,7 @@ int write_data_node(FILE* file, const parse_node_ptr p)
         }
         else
         {
-            if (-(op) > 0xFE)
+            if (op < -0xFE)
             {
                 error(error_value_out_of_range);
                 return 0;
-- 
2.43.0


From 32da66f2c20116fec9486da2957546ef35d0c1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 21/72] fix: macro dictionary copied entries with the size of a
 pointer

---
 CMakePasm/source/expand.cc | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index c72f677..8aa08bb 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1339,19 +1339,13 @@ macro_dict_entry* create_macro_entry(const char* name)
 {
     // ReSharper disable once CppTooWideScope
     if (macro_dict == nullptr)
-        macro_dict = dict_create(sizeof(macro_dict_entry*), 0);
+        macro_dict = dict_create(sizeof(struct macro_dict_entry), 0);
 
     auto* macro_dict_entry = static_cast<struct macro_dict_entry*>(dict_search(macro_dict, name));
     if (macro_dict_entry == nullptr)
     {
-        macro_dict_entry = static_cast<struct macro_dict_entry*>(MALLOC(sizeof(struct macro_dict_entry)));
-        if (macro_dict_entry == nullptr)
-        {
-            error(error_out_of_memory);
-            exit(-1);
-        }
-        macro_dict_entry->times_executed = 0;
-        dict_insert(&macro_dict, const_cast<char*>(name), macro_dict_entry);
+        struct macro_dict_entry entry = { 0 };
+        macro_dict_entry = static_cast<struct macro_dict_entry*>(dict_insert(&macro_dict, const_cast<char*>(name), &entry));
     }
     return macro_dict_entry;
 }
@@ -1365,7 +1359,7 @@ void reset_macro_dict(void)
 
     if (macro_dict == nullptr)
     {
-        macro_dict = dict_create(sizeof(macro_dict_entry*), 0);
+        macro_dict = dict_create(sizeof(struct macro_dict_entry), 0);
     }
     for (int index = 0; index < macro_dict->size; index++)
     {
-- 
2.43.0


From 40c3b80b6899f82ce9ffd302fff6449f436a94e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:18 +0000
Subject: [PATCH 22/72] fix: variable initialized with a symbol reset both to
 zero

---
 CMakePasm/source/expand.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 8aa08bb..305132e 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1162,6 +1162,13 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             {
             case type_id:
             case type_label:
+                if (symbol_ptr != nullptr)
+                {
+                    // the value of the preceding variable
+                    set_symbol_value(symbol_ptr, expand_node(pp));
+                    symbol_ptr = nullptr;
+                    break;
+                }
                 symbol_ptr = pp->id.i;
                 if (symbol_ptr == nullptr)
                 {
-- 
2.43.0


From 02a309e2b72dbf03e81c42ac47f34c9363072c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:20 +0000
Subject: [PATCH 23/72] fix: undefined symbols in data and undefined local
 symbols were taken as zero

---
 CMakePasm/source/error.cc | 1 +
 CMakePasm/source/error.h  | 1 +
 CMakePasm/source/pass.cc  | 8 ++++++++
 CMakePasm/source/sym.cc   | 7 -------
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 86806d9..a20a946 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -67,6 +67,7 @@ const char* errors[] =
     "Error opening output file.",
     "Error creating list node.",
     "Error path name too long.",
+    "Undefined symbol.",
 };
 
 /**
diff --git a/CMakePasm/source/error.h b/CMakePasm/source/error.h
index b0c92f0..db1601f 100644
--- a/CMakePasm/source/error.h
+++ b/CMakePasm/source/error.h
@@ -59,5 +59,6 @@ enum
     error_opening_output_file,
     error_creating_list_node,
     error_path_name_too_long,
+    error_undefined_symbol,
     error_max
 };
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index a0ec9db..7e95444 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -262,6 +262,14 @@ int assemble(void)
     ignore_warnings = start_ignore_warnings;
     parse_pass();
 
+    // symbols referenced only by data are first seen in the final pass
+    if (error_count == 0 && unresolved_symbol_count() > 0)
+    {
+        fprintf(console_error, "Unresolved symbols:\n");
+        dump_unresolved_symbols(console_error);
+        error(error_undefined_symbol);
+    }
+
     // close output line_content
     if (output_file != nullptr)
     {
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 2e16c48..ef2420b 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -207,13 +207,6 @@ symbol_table_ptr add_symbol(char* name)
         }
     }
 
-    if (sym.name[0] == '@')
-    {
-        sym.is_local = true;
-        sym.is_initialized = true;
-        sym.value = 0;
-    }
-
     current_scope = temp_section;
     tmp_ptr = static_cast<symbol_table_ptr>(dict_insert(&symbol_dictionary, sym.fullname, &sym));
     sanitize_symbol(tmp_ptr);
-- 
2.43.0


From ac45cfba53f604a4b86abdeaa6838ff83f5f264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:36 +0000
Subject: [PATCH 24/72] fix: loading a missing file crashed

---
 CMakePasm/source/expand.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 305132e..4f2a973 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -419,6 +419,7 @@ int expand_operator_load_node(const parse_node_ptr p)
     if (fd == nullptr)
     {
         error(error_cant_open_include_file);
+        return 0;
     }
 
     fseek(fd, 0, SEEK_END);
-- 
2.43.0


From e03e8d2c697a33d5057e21b6e8002d0da204a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:39 +0000
Subject: [PATCH 25/72] fix: end of a skipped block inside another block
 skipped on, else without if crashed

---
 CMakePasm/source/pasm.l | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index fc64a02..b83d529 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -211,8 +211,9 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 <IF_DEF>".ENDIF"            {
                                 P_TOK("ENDIF")
                                 SV_TOK
-                                ifdef_stack->pop(ifdef_stack->instance); 
-                                if (ifdef_stack->instance->index < 0)
+                                // blocks nested in the skipped text leave a 1 on the stack
+                                int last_if = * (int*) ifdef_stack->pop(ifdef_stack->instance);
+                                if (last_if == 0)
                                 {
                                     if (final_pass)
                                     {
@@ -241,6 +242,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 ".ELSE"                     {
                                 P_TOK("ELSE")
                                 SV_TOK
+                                if (ifdef_stack->instance->index < 0) return ELSE;
+
                                 int last_if = * (int*) ifdef_stack->top(ifdef_stack->instance);
                                 if (last_if != 0)
                                 {
-- 
2.43.0


From 4534fe0d4973c3bf66f3023507c9aaa5fe737ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:14 +0000
Subject: [PATCH 26/72] fix: directives named in comments and strings of a
 skipped block took effect

---
 CMakePasm/source/pasm.l | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index b83d529..c6074cc 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -222,6 +222,12 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                     BEGIN(INITIAL); 
                                 }
                             }
+<IF_DEF>;[^\n]*             { /* directives in comments, strings and names do not count */ }
+<IF_DEF>[/][/][^\n]*        { }
+<IF_DEF>"/*"([^*]|[*]+[^*/])*[*]+"/" { }
+<IF_DEF>{STRVALUE}          { }
+<IF_DEF>[\'].[\']           { }
+<IF_DEF>[A-Za-z0-9_@][A-Za-z0-9_.]* { }
 <IF_DEF>.|[\n]              { /* ignore ifdef false */ }
 ".ENDIF"                    {  
                                 P_TOK("ENDIF")
-- 
2.43.0


From dcfbcde4c93d301f25de499c428de3b02412afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:18 +0000
Subject: [PATCH 27/72] fix: definition in a section equal to an outer value
 was lost, variables could not be changed in sections

---
 CMakePasm/source/expand.cc | 46 +++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4f2a973..8d5bcf3 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1695,6 +1695,25 @@ int expand_operator_end_node(parse_node_ptr p)
     return 0;
 }
 
+/// <summary>
+/// Determines if sym is defined directly in the section scope
+/// </summary>
+/// <param name="sym">The symbol.</param>
+/// <param name="scope">The full name of the section.</param>
+static bool is_symbol_of_scope(const symbol_table_ptr sym, const char* scope)
+{
+    const char* dot = strrchr(sym->fullname, '.');
+    if (dot == nullptr || strlen(scope) != (size_t)(dot - sym->fullname))
+        return false;
+
+    for (const char* name = sym->fullname; name != dot; name++, scope++)
+    {
+        if (tolower(*name) != tolower(*scope))
+            return false;
+    }
+    return true;
+}
+
 /// <summary>
 /// Operator Equate
 /// </summary>
@@ -1749,22 +1768,23 @@ int expand_operator_equ_node(const parse_node_ptr p)
         exit(-1);
     }
 
-    if (!sym->is_initialized || sym->value != op)
+    // inside a section a definition is the section's own, an assignment to a variable is not a definition
+    if (current_scope && !sym->is_var && strchr(p->op[0]->id.name, '.') == nullptr && !is_symbol_of_scope(sym, current_scope))
     {
-        if (!sym->scope && current_scope)
+        const int len = strlen(sym->name) + strlen(current_scope) + 2;
+        char* temp = static_cast<char*>(MALLOC(len));
+        if (temp == nullptr)
         {
-            const int len = strlen(sym->name) + strlen(current_scope) + 2;
-            char* temp = static_cast<char*>(MALLOC(len));
-            if (temp == nullptr)
-            {
-                error(error_out_of_memory);
-                exit(-1);
-            }
-
-            sprintf(temp, "%s.%s", current_scope, sym->name);
-            sym = add_symbol(temp);
-            FREE(temp);
+            error(error_out_of_memory);
+            exit(-1);
         }
+
+        sprintf(temp, "%s.%s", current_scope, sym->name);
+        sym = add_symbol(temp);
+        FREE(temp);
+    }
+    if (!sym->is_initialized || sym->value != op)
+    {
         set_symbol_value(sym, op);
         sym->is_initialized = true;
         if (p->op[0]->type == type_label)
-- 
2.43.0


From 9ccfd86acb25651bdcf9e7300038746abe34644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:16 +0000
Subject: [PATCH 28/72] fix: references from a section to global symbols
 defined later never resolved

---
 CMakePasm/source/sym.cc | 20 +++++++++++++++++++-
 CMakePasm/source/sym.h  |  1 +
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index ef2420b..b8eaedb 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -145,7 +145,9 @@ symbol_table_ptr add_symbol(char* name)
         }
     }
 
-    if (strstr(name, "."))
+    // named with its section, no other symbol can stand in for it
+    sym.is_qualified = strstr(name, ".") != NULL;
+    if (sym.is_qualified)
         current_scope = NULL;
 
     if (name[0] == '.')
@@ -166,6 +168,8 @@ symbol_table_ptr add_symbol(char* name)
     symbol_table_ptr tmp_ptr = look_up_symbol(name);
     if (tmp_ptr != NULL)
     {
+        if (sym.is_qualified)
+            tmp_ptr->is_qualified = true;
         current_scope = temp_section;
         return tmp_ptr;
     }
@@ -253,6 +257,13 @@ symbol_table_ptr look_up_symbol(const char* name)
         // ReSharper disable once CppLocalVariableMayBeConst
         auto tmp_ptr = static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, temp_name));
         FREE(temp_name);
+        if (tmp_ptr && !tmp_ptr->is_initialized)
+        {
+            // not defined in the section (so far), a global symbol takes precedence
+            const auto global_ptr = static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, name));
+            if (global_ptr && global_ptr->is_initialized)
+                tmp_ptr = global_ptr;
+        }
         if (tmp_ptr)
         {
             tmp_ptr->times_accessed++;
@@ -794,6 +805,13 @@ int unresolved_symbol_count(void)
             if (sym->is_initialized == false && sym->is_macro_name == false &&
                 sym->is_var == false && sym->is_plus_minus == false && sym->is_macro_param == false)
             {
+                // references from a section may have been to a global symbol
+                if (sym->scope && !sym->is_qualified)
+                {
+                    const auto global_ptr = static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, sym->name));
+                    if (global_ptr && global_ptr->is_initialized)
+                        continue;
+                }
                 count++;
             }
         }
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index 8636fb8..8c36bad 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -23,6 +23,7 @@ typedef struct symbol_table
     bool is_local;
     bool is_plus_minus;
     bool is_var;
+    bool is_qualified;
     char* scope;
     char* name;
     char* fullname;
-- 
2.43.0


From f9796f44606647a2320a37aa067588768db88312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 29/72] fix: the accumulator's name used as a value was taken
 as zero

---
 CMakePasm/source/expand.cc | 3 ++-
 CMakePasm/source/node.cc   | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 8d5bcf3..ab6de6a 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -520,7 +520,8 @@ int expand_id_node(const parse_node_ptr p)
         p->id.i = sym;
         if (sym == nullptr)
         {
-            // FatalError(error_out_of_memory);
+            // the accumulator is not a value
+            error(error_undefined_symbol);
             return 0;
         }
     }
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 7de51e4..2990d99 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -352,6 +352,9 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
         for (index = 0; index < number_of_ops; index++)
         {
             p->op[index] = va_arg(ap, parse_node_ptr);
+            // the operand of ASL A etc has no value
+            if (mode == a && p->op[index] && p->op[index]->type == type_id && stricmp(p->op[index]->id.name, "A") == 0)
+                continue;
             val = expand_node(p->op[index]);
         }
         va_end(ap);
@@ -424,7 +427,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
         }
     }
 
-    for (index = 0; index < number_of_ops; index++)
+    for (index = 0; index < p->number_of_ops; index++)
     {
         if (p->op[index])
             expand_node(p->op[index]);
-- 
2.43.0


From 8d91673a4285afa4b8646bbdc867b8e4efcca949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:01 +0000
Subject: [PATCH 30/72] fix: nothing was emitted, or the assembly failed,
 without an origin

---
 CMakePasm/source/expand.cc    | 2 --
 CMakePasm/source/genoutput.cc | 6 +++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index ab6de6a..2c45b19 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -683,8 +683,6 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
 //
 int expand_data_node(const parse_node_ptr p)
 {
-    origin_specified = true;
-
     expansion_type = data_bytes;
     data_size = p->data.size;
     if (p->data.size == data_string)
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 1c6276e..c00b163 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -88,8 +88,12 @@ int write_header(FILE* file)
     int bytes_written = 0;
     byte_delta = 0;
 
+    // without an origin the program starts here
     if (!origin_specified)
+    {
         origin = program_counter;
+        origin_specified = true;
+    }
 
     // write header if c64
     if (output_file_format == c64)
@@ -260,7 +264,7 @@ int generate_output(FILE* file, const parse_node_ptr p)
     const int start_bytes = total_bytes_written;
 
     // if there is no output file exit
-    if (file == NULL || !origin_specified)
+    if (file == NULL)
         return 0;
 
     // header
-- 
2.43.0


From 10fbb9c8168354756e4c2a1d6395899ff9bb274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:03 +0000
Subject: [PATCH 31/72] fix: origins outside the address space were accepted
 and truncated in the program header

---
 CMakePasm/source/expand.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 2c45b19..0e1d23b 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1104,6 +1104,11 @@ int expand_operator_program_counter_assign_node(const parse_node_ptr p)
 {
     program_counter_assigned++;
     const int op = expand_node(p->op[0]);
+    if (op < 0 || op > 0xFFFF)
+    {
+        error(error_value_out_of_range);
+        return 0;
+    }
     origin_specified = true;
 
     program_counter = op;
@@ -1126,6 +1131,11 @@ int expand_operator_org_node(const parse_node_ptr p)
         return 0;
     }
     const int op = expand_node(p->op[0]);
+    if (op < 0 || op > 0xFFFF)
+    {
+        error(error_value_out_of_range);
+        return 0;
+    }
     program_counter = op;
     origin = op;
     origin_specified = true;
-- 
2.43.0


From ff7b2193276808036eeda7a6d36c410527e71f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 32/72] fix: local labels of macros were bound to the label
 before the definition, calls left unresolved symbols

---
 CMakePasm/source/expand.cc | 4 ++++
 CMakePasm/source/node.cc   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 0e1d23b..1d29f78 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -511,6 +511,10 @@ int expand_id_node(const parse_node_ptr p)
     symbol_table_ptr sym = p->id.i;
     if (p->id.name[0] == '@')
     {
+        // local symbols of a macro belong to its calls
+        if (in_macro_definition > 0)
+            return 0;
+
         sym = add_symbol(p->id.name);
         p->id.i = sym;
     }
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 2990d99..a0a22be 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -194,6 +194,10 @@ parse_node_ptr id_node(const char* name)
 /// <returns>parseNodePtr.</returns>
 parse_node_ptr label_node(char* name)
 {
+    // labels of a macro are defined by its calls
+    if (in_macro_definition > 0)
+        return id_node_common(name, type_label);
+
     if (name[0] != '@' && name[0] != '-' && name[0] != '+')
         last_label = name;
     else if (last_label != nullptr && name[0] == '@')
-- 
2.43.0


From 4ebe13e316e3be756c64327611d0c62c0880151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:46 +0000
Subject: [PATCH 33/72] fix: references to local labels of macros were judged
 by those of the previous call

---
 CMakePasm/source/expand.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 1d29f78..70fe663 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -2059,6 +2059,10 @@ int is_uninitialized_symbol(const parse_node_ptr p)
 {
     if (p->type == type_label || p->type == type_id)
     {
+        // a local symbol in a macro is a different one for every call
+        if (p->type == type_id && p->id.name[0] == '@')
+            expand_node(p);
+
         if (p->id.i == nullptr)
             return true;
         const symbol_table_ptr sym = p->id.i;
-- 
2.43.0


From 6ae6da9e1f9135f89247456c35603f148f5af3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:07 +0000
Subject: [PATCH 34/72] fix: macros first called in a section lost their
 parameters

---
 CMakePasm/source/sym.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index b8eaedb..c0b43ad 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -155,6 +155,9 @@ symbol_table_ptr add_symbol(char* name)
         name++;
     }
     sym.is_macro_param = name[0] == '\\';
+    // macro parameters belong to no section
+    if (sym.is_macro_param)
+        current_scope = NULL;
     sym.is_local = name[0] == '@';
     if (sym.is_local && last_label != NULL)
     {
-- 
2.43.0


From 6bee2d4ff0e761db905ca18bfc647ca1104d534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:47 +0000
Subject: [PATCH 35/72] fix: macro arguments were assigned while still being
 evaluated, missing ones had values of earlier calls

---
 CMakePasm/source/expand.cc | 39 ++++++++++++++++++++++++++++++++++++++
 CMakePasm/source/sym.cc    | 14 ++++++++++++++
 CMakePasm/source/sym.h     |  1 +
 3 files changed, 54 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 70fe663..54f124e 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -40,6 +40,12 @@ enum
 static int program_counter_assigned = 0;
 static int code_generated = 0;
 int max_macro_param = 0;
+
+// number of arguments of the current macro call
+static int macro_argument_count = 0;
+
+// the arguments of a call are being evaluated, parameters in them are those of the calling macro
+static bool evaluating_macro_arguments = false;
 extern int origin;
 
 // for 6502 and 65C02
@@ -500,6 +506,30 @@ int expand_plus_minus_node(const parse_node_ptr p)
     return sym->value;
 }
 
+//
+// parameter of a macro
+//
+int expand_macro_parameter_node(const parse_node_ptr p)
+{
+    if (p->id.i == nullptr)
+        p->id.i = add_symbol(p->id.name);
+
+    // they have no value until the macro is called
+    if (in_macro_definition > 0)
+        return 0;
+
+    const int number = atoi(&p->id.name[1]);
+    if (number < 1 || number > macro_argument_count)
+    {
+        if (final_pass)
+            error(error_macro_parameter_not_found);
+        return 0;
+    }
+    if (evaluating_macro_arguments)
+        return get_pushed_macro_param(number);
+    return p->id.i->value;
+}
+
 //
 // symbol
 //
@@ -508,6 +538,9 @@ int expand_id_node(const parse_node_ptr p)
     if (p->id.name[0] == '-' || p->id.name[0] == '+')
         return expand_plus_minus_node(p);
 
+    if (p->id.name[0] == '\\')
+        return expand_macro_parameter_node(p);
+
     symbol_table_ptr sym = p->id.i;
     if (p->id.name[0] == '@')
     {
@@ -1433,8 +1466,13 @@ int expand_macro_expansion_node(const parse_node_ptr p)
     expansion_type = macro_parameter;
     macro_parameter_index = 0;
 
+    evaluating_macro_arguments = true;
     if (p->macro.macro_params != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro_params));
+    evaluating_macro_arguments = false;
+
+    const int caller_argument_count = macro_argument_count;
+    macro_argument_count = macro_parameter_index;
 
     char* temp = last_label;
     sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
@@ -1446,6 +1484,7 @@ int expand_macro_expansion_node(const parse_node_ptr p)
     macro_dict_entry->times_executed++;
 
     last_label = temp;
+    macro_argument_count = caller_argument_count;
     pop_macro_params();
 
     return 0;
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index c0b43ad..f5d112b 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -491,6 +491,20 @@ void push_macro_params(void)
     macro_params_stack->push(macro_params_stack->instance, &macro_stack_param_entry);
 }
 
+/// <summary>
+/// Gets the value a macro parameter had before the current call.
+/// </summary>
+/// <param name="param_number">The number of the parameter.</param>
+/// <returns>int.</returns>
+int get_pushed_macro_param(const int param_number)
+{
+    if (macro_params_stack == NULL || macro_params_stack->instance->index < 0)
+        return 0;
+
+    const auto* entry = static_cast<macro_stack_entry*>(macro_params_stack->top(macro_params_stack->instance));
+    return param_number < entry->num_nodes ? entry->values[param_number] : 0;
+}
+
 void pop_macro_params(void)
 {
     if (macro_params_stack == NULL || macro_params_stack->instance->index < 0)
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index 8c36bad..d820efe 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -46,6 +46,7 @@ extern int find_minus_symbol_definition(const char* file, int line);
 extern int find_plus_symbol_definition(const char* file, int line);
 extern void push_macro_params(void);
 extern void pop_macro_params(void);
+extern int get_pushed_macro_param(int param_number);
 extern int unresolved_symbol_count(void);
 extern void dump_symbols(FILE* file);
 extern void dump_unresolved_symbols(FILE* file);
-- 
2.43.0


From 453b5e19a079530c10ecc99ef4c3d43e8866a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:22 +0000
Subject: [PATCH 36/72] fix: references to anonymous labels that do not exist
 were taken as zero or as labels of other files

---
 CMakePasm/source/expand.cc | 2 ++
 CMakePasm/source/sym.cc    | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 54f124e..cfe82e8 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -501,6 +501,8 @@ int expand_plus_minus_node(const parse_node_ptr p)
         sym->is_initialized = true;
         sym->times_accessed++;
     }
+    else if (final_pass)
+        error(error_undefined_symbol);
     p->id.i = sym;
 
     return sym->value;
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index f5d112b..151a20f 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -352,7 +352,8 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     if (found_index >= 0)
     {
         found_index = found_index + 1 - depth;
-        if (found_index >= 0 || found_index < minus_symbol_table_index)
+        if (found_index >= 0 && found_index < minus_symbol_table_index &&
+            stricmp(file, minus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
@@ -376,7 +377,8 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     if (found_index >= 0)
     {
         found_index = found_index -1 + depth;
-        if (found_index >= 0 || found_index < plus_symbol_table_index)
+        if (found_index >= 0 && found_index < plus_symbol_table_index &&
+            stricmp(file, plus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
-- 
2.43.0


From 95c7ade7e9127bcdccc842d2cfba613ae5e234a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:24 +0000
Subject: [PATCH 37/72] fix: anonymous labels on the first line of a file or
 behind an include were not recognised

---
 CMakePasm/source/pasm.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index c6074cc..f8c4d1e 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -350,7 +350,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 return SYMBOL;
                             }
 [\+|\-]+                    {
-                                if (last_token != nullptr && *last_token == '\n')
+                                if (last_token == nullptr || *last_token == '\n')
                                 {
                                     SV_TOK
                                     P_TOK("LABEL")
-- 
2.43.0


From 9a2ded8fb07570796b5cbbd1ac51aa47693f0f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:38 +0000
Subject: [PATCH 38/72] fix: branches accepted operands of every form, without
 an operand they crashed

---
 CMakePasm/source/node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index a0a22be..51d57f2 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -340,7 +340,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
 
     // a branch will look like absolute addressing so we check to
     // see if it really relative
-    if (get_op_code(op, r) != -1)
+    if (mode == a && number_of_ops > 0 && get_op_code(op, r) != -1)
     {
         mode = r;
     }
-- 
2.43.0


From 9d467e1a09e9f71cc965755c2aa48fda1bbb13d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 39/72] fix: definitions by expressions of symbols defined
 later were refused when negative without them

---
 CMakePasm/source/expand.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index cfe82e8..36d5bac 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1837,6 +1837,11 @@ int expand_operator_equ_node(const parse_node_ptr p)
         sym = add_symbol(temp);
         FREE(temp);
     }
+    // the value is not known before those of the symbols it depends on
+    if (!sym->is_initialized && !sym->is_var &&
+        (has_uninitialized_symbol(p->op[1]) || is_uninitialized_symbol(p->op[1])))
+        return op;
+
     if (!sym->is_initialized || sym->value != op)
     {
         set_symbol_value(sym, op);
-- 
2.43.0


From ab8ed5dfb34d61e233a6a714bd0059d70db41cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:44 +0000
Subject: [PATCH 40/72] fix: macro arguments with symbols defined later were
 refused when negative without them

---
 CMakePasm/source/expand.cc | 15 ++++++++++++---
 CMakePasm/source/sym.cc    | 23 ++++++++++++++++++++++-
 CMakePasm/source/sym.h     |  1 +
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 36d5bac..044d482 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1273,8 +1273,13 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             symbol_ptr = add_symbol(sym_name);
             if (symbol_ptr != nullptr)
             {
-                set_symbol_value(symbol_ptr, expand_node(pp));
-                symbol_ptr->is_initialized = true;
+                int value = expand_node(pp);
+                symbol_ptr->is_initialized = !has_uninitialized_symbol(pp) && !is_uninitialized_symbol(pp);
+
+                // the value is not known yet
+                if (!symbol_ptr->is_initialized)
+                    value &= 0xFFFF;
+                set_symbol_value(symbol_ptr, value);
             }
             else
             {
@@ -2112,9 +2117,13 @@ int is_uninitialized_symbol(const parse_node_ptr p)
         if (p->id.i == nullptr)
             return true;
         const symbol_table_ptr sym = p->id.i;
-        if (sym->is_macro_param || sym->is_macro_name)
+        if (sym->is_macro_name || (sym->is_macro_param && in_macro_definition > 0))
             return false;
 
+        // an argument being evaluated refers to the parameters of the caller
+        if (sym->is_macro_param && evaluating_macro_arguments)
+            return !is_pushed_macro_param_initialized(atoi(&p->id.name[1]));
+
         return !sym->is_initialized;
     }
     return false;
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 151a20f..4a47532 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -31,6 +31,7 @@ typedef struct  macro_stack_entry
 {
     int num_nodes;
     int* values;
+    bool* initialized;
 } macro_stack_entry;
 
 static void sanitize_symbol(symbol_table_ptr symbol);
@@ -462,7 +463,7 @@ void push_macro_params(void)
     }
     const int max_macro = get_max_macro_parameter();
 
-    macro_stack_entry macro_stack_param_entry = { 0, NULL };
+    macro_stack_entry macro_stack_param_entry = { 0, NULL, NULL };
     
     if (max_macro < 0)
     {
@@ -472,8 +473,10 @@ void push_macro_params(void)
     {
         macro_stack_param_entry.num_nodes = max_macro + 1;
         macro_stack_param_entry.values = static_cast<int*>(MALLOC(((unsigned long long)max_macro + 1) * sizeof(long)));
+        macro_stack_param_entry.initialized = static_cast<bool*>(MALLOC(((unsigned long long)max_macro + 1) * sizeof(bool)));
 
         macro_stack_param_entry.values[0] = 0;
+        macro_stack_param_entry.initialized[0] = true;
         for (int index = 1; index <= max_macro; index++)
         {
             // ReSharper disable once CppLocalVariableMayBeConst
@@ -481,6 +484,7 @@ void push_macro_params(void)
             if (tmp_ptr != NULL)
             {
                 macro_stack_param_entry.values[index] = tmp_ptr->value;
+                macro_stack_param_entry.initialized[index] = tmp_ptr->is_initialized;
             }
             else
             {
@@ -507,6 +511,20 @@ int get_pushed_macro_param(const int param_number)
     return param_number < entry->num_nodes ? entry->values[param_number] : 0;
 }
 
+/// <summary>
+/// Determines if a macro parameter had a known value before the current call.
+/// </summary>
+/// <param name="param_number">The number of the parameter.</param>
+/// <returns>bool.</returns>
+bool is_pushed_macro_param_initialized(const int param_number)
+{
+    if (macro_params_stack == NULL || macro_params_stack->instance->index < 0)
+        return true;
+
+    const auto* entry = static_cast<macro_stack_entry*>(macro_params_stack->top(macro_params_stack->instance));
+    return param_number < entry->num_nodes ? entry->initialized[param_number] : true;
+}
+
 void pop_macro_params(void)
 {
     if (macro_params_stack == NULL || macro_params_stack->instance->index < 0)
@@ -523,6 +541,7 @@ void pop_macro_params(void)
         if (tmp_ptr != NULL)
         {
             set_symbol_value(tmp_ptr, macro_stack_param_entry_ptr->values[index]);
+            tmp_ptr->is_initialized = macro_stack_param_entry_ptr->initialized[index];
         }
         else
         {
@@ -534,6 +553,8 @@ void pop_macro_params(void)
     {
         FREE(macro_stack_param_entry_ptr->values);
         macro_stack_param_entry_ptr->values = NULL;
+        FREE(macro_stack_param_entry_ptr->initialized);
+        macro_stack_param_entry_ptr->initialized = NULL;
     }
     macro_stack_param_entry_ptr->num_nodes = 0;
 
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index d820efe..fbed716 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -47,6 +47,7 @@ extern int find_plus_symbol_definition(const char* file, int line);
 extern void push_macro_params(void);
 extern void pop_macro_params(void);
 extern int get_pushed_macro_param(int param_number);
+extern bool is_pushed_macro_param_initialized(int param_number);
 extern int unresolved_symbol_count(void);
 extern void dump_symbols(FILE* file);
 extern void dump_unresolved_symbols(FILE* file);
-- 
2.43.0


From 8e25c4d91788820da1cbd265a1e75e92ceeef81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 41/72] fix: macros calling macros of their section were not
 found when called from outside

---
 CMakePasm/source/node.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 51d57f2..be18911 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -246,6 +246,10 @@ parse_node_ptr macro_expand_node(const char* name, const parse_node_ptr macro_pa
         exit(-1);  // NOLINT(concurrency-mt-unsafe)
     }
 
+    // a macro called by another one is that of the section of the definition, not that of the call
+    if (in_macro_definition > 0)
+        macro_node_ptr->id.i = look_up_symbol(name);
+
     /* copy information */
     p->type = type_macro_ex;
     p->macro.macro = macro_node_ptr;
-- 
2.43.0


From 5278f36fe2055b551f2ab760fc1720534c3df30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:57 +0000
Subject: [PATCH 42/72] fix: references to local symbols on the line of their
 label were bound to the label before

---
 CMakePasm/source/pasm.y | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/pasm.y b/CMakePasm/source/pasm.y
index 2933f41..cb17824 100644
--- a/CMakePasm/source/pasm.y
+++ b/CMakePasm/source/pasm.y
@@ -68,11 +68,15 @@ bool Debug_Bison = false;
 
 program
     : program stmt                      { E_TOK("program stmt") expand_node($2);                                          }
-    | program LABEL stmt                { 
+    | program LABEL                     {
+                                            // local symbols of the statement belong to this label
+                                            $<nPtr>$ = label_node($2);
+                                        }
+      stmt                              { 
     
                                             E_TOK("program LABEL stmt")
-                                            expand_node(operator_node('=', 2, label_node($2), constant_node(program_counter, true))); 
-                                            expand_node($3);                
+                                            expand_node(operator_node('=', 2, $<nPtr>3, constant_node(program_counter, true))); 
+                                            expand_node($4);                
                                         }
     | /* NULL */
     ;
-- 
2.43.0


From aa21ae402242aaac30c6d90de368bfd4d90103f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:23 +0000
Subject: [PATCH 43/72] fix: .ifdef and .ifndef took symbols defined later for
 defined

---
 CMakePasm/source/expand.cc    |  6 ++++++
 CMakePasm/source/parseargs.cc |  1 +
 CMakePasm/source/pasm.l       |  6 ++----
 CMakePasm/source/pasm.y       |  8 ++++----
 CMakePasm/source/sym.cc       | 26 ++++++++++++++++++++++++++
 CMakePasm/source/sym.h        |  5 +++++
 6 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 044d482..bb57ba4 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1230,6 +1230,8 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
                     }
                     symbol_ptr->is_var = true;
                 }
+                if (symbol_ptr->defined_in_pass != DEFINED_IN_ALL_PASSES)
+                    symbol_ptr->defined_in_pass = pass;
                 symbol_ptr->value = pp->type == type_label ? program_counter : 0;
                 symbol_ptr->is_initialized = true;
                 break;
@@ -1518,6 +1520,7 @@ int expand_operator_macro_definition_node(const parse_node_ptr p)
     p->id.i = sym;
     sym->is_macro_name = true;
     sym->is_initialized = true;
+    sym->defined_in_pass = pass;
     sym->macro_node = p->op[1];
     sym->value = program_counter;
     return 0;
@@ -1842,6 +1845,9 @@ int expand_operator_equ_node(const parse_node_ptr p)
         sym = add_symbol(temp);
         FREE(temp);
     }
+    if (sym->defined_in_pass != DEFINED_IN_ALL_PASSES)
+        sym->defined_in_pass = pass;
+
     // the value is not known before those of the symbols it depends on
     if (!sym->is_initialized && !sym->is_var &&
         (has_uninitialized_symbol(p->op[1]) || is_uninitialized_symbol(p->op[1])))
diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index f18b837..f48e396 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -333,6 +333,7 @@ int parse_arguments(const int argc, char* argv[])
             {
                 set_symbol_value(sym, sym_val);
                 sym->is_initialized = true;
+                sym->defined_in_pass = DEFINED_IN_ALL_PASSES;
                 sym->times_accessed = 1000;
             }
             arg_index++;
diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index f8c4d1e..a815241 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -168,8 +168,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 char* p = yytext;
                                 SKIP_WHITE(p)
 
-                                symbol_table_ptr sym = look_up_symbol(p); 
-                                if (sym == NULL)
+                                if (!is_symbol_defined(p))
                                 {
                                     BEGIN(IF_DEF);
                                 }
@@ -183,8 +182,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 char* p = yytext;
                                 SKIP_WHITE(p)
 
-                                symbol_table_ptr sym = look_up_symbol(p); 
-                                if (sym != NULL)
+                                if (is_symbol_defined(p))
                                 {
                                     BEGIN(IF_DEF);
                                 }
diff --git a/CMakePasm/source/pasm.y b/CMakePasm/source/pasm.y
index cb17824..8e7e3a2 100644
--- a/CMakePasm/source/pasm.y
+++ b/CMakePasm/source/pasm.y
@@ -154,10 +154,10 @@ var_def
     ;
 
 symbol_assign
-    : LABEL '=' subexpr                 { B_TOK("symbol_assign LABEL =")    $$ = operator_node('=', 2, id_node($1), $3);    }
-    | LABEL EQU subexpr                 { B_TOK("symbol_assign LABEL EQU")  $$ = operator_node(EQU, 2, id_node($1), $3);    }
-    | SYMBOL '=' subexpr                { B_TOK("symbol_assign SYMBOL =")   $$ = operator_node(EQU, 2, id_node($1), $3);    }
-    | SYMBOL EQU subexpr                { B_TOK("symbol_assign SYMBOL EQU") $$ = operator_node(EQU, 2, id_node($1), $3);    }
+    : LABEL '=' subexpr                 { B_TOK("symbol_assign LABEL =")    note_definition($1); $$ = operator_node('=', 2, id_node($1), $3);    }
+    | LABEL EQU subexpr                 { B_TOK("symbol_assign LABEL EQU")  note_definition($1); $$ = operator_node(EQU, 2, id_node($1), $3);    }
+    | SYMBOL '=' subexpr                { B_TOK("symbol_assign SYMBOL =")   note_definition($1); $$ = operator_node(EQU, 2, id_node($1), $3);    }
+    | SYMBOL EQU subexpr                { B_TOK("symbol_assign SYMBOL EQU") note_definition($1); $$ = operator_node(EQU, 2, id_node($1), $3);    }
     ;
 
 pc_assign
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 4a47532..28611b1 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -282,6 +282,32 @@ symbol_table_ptr look_up_symbol(const char* name)
     return tmp_ptr;
 } 
 
+/// <summary>
+/// Determines if a symbol is defined in front of the current line
+/// </summary>
+/// <param name="name">The name.</param>
+/// <returns>bool.</returns>
+bool is_symbol_defined(const char* name)
+{
+    // definitions of earlier passes may be behind the current line
+    const symbol_table_ptr sym = look_up_symbol(name);
+    return sym != NULL && (sym->defined_in_pass == pass || sym->defined_in_pass == DEFINED_IN_ALL_PASSES);
+}
+
+/// <summary>
+/// Note the definition of a symbol when it is parsed, in a block it is assembled with the end of the block
+/// </summary>
+/// <param name="name">The name.</param>
+void note_definition(const char* name)
+{
+    if (in_macro_definition > 0)
+        return;
+
+    const symbol_table_ptr sym = look_up_symbol(name);
+    if (sym != NULL && sym->is_initialized && sym->defined_in_pass != DEFINED_IN_ALL_PASSES)
+        sym->defined_in_pass = pass;
+}
+
 symbol_table_ptr set_symbol_value(const symbol_table_ptr sym, const int value)
 {
     if ((sym != NULL) && (sym->value != value))
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index fbed716..61cb5c1 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -24,6 +24,7 @@ typedef struct symbol_table
     bool is_plus_minus;
     bool is_var;
     bool is_qualified;
+    int defined_in_pass;
     char* scope;
     char* name;
     char* fullname;
@@ -36,6 +37,10 @@ extern int print_symbol(symbol_table_ptr sym, FILE* file);
 extern int find_minus_symbol(int depth, const char* file, int line);
 extern int find_plus_symbol(int depth, const char* file, int line);
 extern symbol_table_ptr look_up_symbol(const char*);
+extern bool is_symbol_defined(const char* name);
+extern void note_definition(const char* name);
+// symbols of the command line are defined in every pass
+#define DEFINED_IN_ALL_PASSES (-1)
 extern char* format_local_sym(char* name, const char* label);
 extern char* format_local_plus_minus_sym(char* name, char* label);
 extern symbol_table_ptr add_symbol(char* name);
-- 
2.43.0


From 8002dce5fd1b6351318312b2f3793d536f7125e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:25 +0000
Subject: [PATCH 44/72] fix: symbols referenced only in blocks that are not
 assembled had to be defined

---
 CMakePasm/source/expand.cc | 6 ++++++
 CMakePasm/source/expand.h  | 2 ++
 CMakePasm/source/node.cc   | 8 ++++++++
 CMakePasm/source/sym.cc    | 4 ++--
 CMakePasm/source/sym.h     | 1 +
 5 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index bb57ba4..2a6c82a 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -532,6 +532,8 @@ int expand_macro_parameter_node(const parse_node_ptr p)
     return p->id.i->value;
 }
 
+int parsing_operand = 0;
+
 //
 // symbol
 //
@@ -564,6 +566,8 @@ int expand_id_node(const parse_node_ptr p)
             return 0;
         }
     }
+    if (parsing_operand == 0)
+        sym->referenced_in_pass = pass;
     return sym->is_initialized ? sym->value : 0;
 }
 
@@ -2130,6 +2134,8 @@ int is_uninitialized_symbol(const parse_node_ptr p)
         if (sym->is_macro_param && evaluating_macro_arguments)
             return !is_pushed_macro_param_initialized(atoi(&p->id.name[1]));
 
+        if (parsing_operand == 0)
+            sym->referenced_in_pass = pass;
         return !sym->is_initialized;
     }
     return false;
diff --git a/CMakePasm/source/expand.h b/CMakePasm/source/expand.h
index de008c0..c04d2cc 100644
--- a/CMakePasm/source/expand.h
+++ b/CMakePasm/source/expand.h
@@ -4,6 +4,8 @@
 
 extern void init_expander(void);
 extern void destroy_expander(void);
+// nonzero while operands are evaluated to choose their addressing mode, instructions that are not assembled refer to nothing
+extern int parsing_operand;
 extern int expand_node(parse_node_ptr p);
 extern void reset_macro_dict(void);
 extern char* last_label;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index be18911..a254a90 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -363,11 +363,15 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
             // the operand of ASL A etc has no value
             if (mode == a && p->op[index] && p->op[index]->type == type_id && stricmp(p->op[index]->id.name, "A") == 0)
                 continue;
+            parsing_operand++;
             val = expand_node(p->op[index]);
+            parsing_operand--;
         }
         va_end(ap);
     }
+    parsing_operand++;
     const bool has_uninitialized = has_uninitialized_symbol(p);
+    parsing_operand--;
 
 
     /* Take care of ASL A   etc */
@@ -438,7 +442,11 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
     for (index = 0; index < p->number_of_ops; index++)
     {
         if (p->op[index])
+        {
+            parsing_operand++;
             expand_node(p->op[index]);
+            parsing_operand--;
+        }
     }
 
     p->opcode.opcode = code;
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 28611b1..59ec263 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -819,7 +819,7 @@ void dump_unresolved_symbols(FILE* file)
         for (element_ptr element = symbol_dictionary->table[index]; element != 0; element = element->next)
         {
             const auto sym = static_cast<symbol_table_ptr>(element->value);
-            if (sym->is_var == false  && sym->is_initialized == false && sym->is_plus_minus == false)
+            if (sym->is_var == false  && sym->is_initialized == false && sym->is_plus_minus == false && sym->referenced_in_pass == pass)
             {
                 current_entry->name = static_cast<char*>(element->key);
                 current_entry->value = sym->value;
@@ -868,7 +868,7 @@ int unresolved_symbol_count(void)
         {
             const auto sym = static_cast<symbol_table_ptr>(elem->value);
 
-            if (sym->is_initialized == false && sym->is_macro_name == false &&
+            if (sym->is_initialized == false && sym->is_macro_name == false && sym->referenced_in_pass == pass &&
                 sym->is_var == false && sym->is_plus_minus == false && sym->is_macro_param == false)
             {
                 // references from a section may have been to a global symbol
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index 61cb5c1..a146103 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -25,6 +25,7 @@ typedef struct symbol_table
     bool is_var;
     bool is_qualified;
     int defined_in_pass;
+    int referenced_in_pass;
     char* scope;
     char* name;
     char* fullname;
-- 
2.43.0


From c0a1714a084ea153d1614c6498dc95920ff53a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:38 +0000
Subject: [PATCH 45/72] fix: loops with counts or conditions of symbols defined
 later were refused as infinite, a step of zero hung

---
 CMakePasm/source/expand.cc | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 2a6c82a..76a4a8a 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1530,6 +1530,25 @@ int expand_operator_macro_definition_node(const parse_node_ptr p)
     return 0;
 }
 
+/// <summary>
+/// Determines if the value of p depends on a symbol without a value (so far)
+/// </summary>
+/// <param name="p">The parse_node_ptr p.</param>
+/// <returns>bool.</returns>
+static bool is_unknown_value(const parse_node_ptr p)
+{
+    // symbols not evaluated do not matter
+    if ((p->type == type_label || p->type == type_id) && p->id.i != nullptr && !p->id.i->is_initialized)
+        return true;
+
+    for (int index = 0; index < p->number_of_ops; index++)
+    {
+        if (is_unknown_value(p->op[index]))
+            return true;
+    }
+    return false;
+}
+
 /// <summary>
 /// Operator While
 /// </summary>
@@ -1539,6 +1558,10 @@ int expand_operator_while_node(const parse_node_ptr p)
 {
     while (expand_node(p->op[0]))
     {
+        // the condition is not known yet
+        if (is_unknown_value(p->op[0]))
+            return 0;
+
         expand_node(p->op[1]);
 
         if (program_counter > max_address)
@@ -1566,7 +1589,7 @@ int expand_operator_repeat_node(const parse_node_ptr p)
             error(error_infinite_loop_detected);
             return 0;
         }
-    } while (expand_node(p->op[1]) == 0);
+    } while (expand_node(p->op[1]) == 0 && !is_unknown_value(p->op[1]));
     return 0;
 }
 
@@ -1585,7 +1608,7 @@ int expand_operator_do_node(const parse_node_ptr p)
             error(error_infinite_loop_detected);
             return 0;
         }
-    } while (expand_node(p->op[1]));
+    } while (expand_node(p->op[1]) && !is_unknown_value(p->op[1]));
     return 0;
 }
 
@@ -1633,6 +1656,17 @@ int expand_operator_for_node(const parse_node_ptr p)
         return 0;
     }
 
+    // the values are not known yet
+    if (is_unknown_value(p->op[0]->op[1]) || is_unknown_value(p->op[1]) ||
+        (p->number_of_ops == 5 && is_unknown_value(p->op[4])))
+        return 0;
+
+    if (step_val == 0)
+    {
+        error(error_infinite_loop_detected);
+        return 0;
+    }
+
     if (unroll_loop)
     {
         do
-- 
2.43.0


From 48774142b00434e1d79fe03c406c86c81ce6f4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:20 +0000
Subject: [PATCH 46/72] fix: register loops up to 255 did not execute their
 body for 255

---
 CMakePasm/source/expand.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 76a4a8a..dfd59ef 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -679,11 +679,11 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
     const parse_node_ptr loop_next = opcode_node(increment_flag > 0 ? inc_op : dec_op, i, 0);
     expand_node(loop_next);
 
-    // check to see if we need a compare
-    if (end != 0)
+    // check to see if we need a compare, a register incremented past 255 is 0
+    if (end != 0 && !(increment_flag > 0 && end == 255))
     {
         parse_node_ptr cmp_node;
-        if (increment_flag > 0 && end < 255)
+        if (increment_flag > 0)
         {
             cmp_node = opcode_node(cmp_op, I, 1, constant_node(end + 1, false));
         }
-- 
2.43.0


From 08fd960b07c007bfebf49099fdd7a97f8557d0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:08 +0000
Subject: [PATCH 47/72] fix: growing the symbol table detached symbols in use
 from their values

---
 CMakePasm/source/dictionary.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/source/dictionary.cc b/CMakePasm/source/dictionary.cc
index a49689e..e78602f 100644
--- a/CMakePasm/source/dictionary.cc
+++ b/CMakePasm/source/dictionary.cc
@@ -122,12 +122,25 @@ static dictionary_ptr grow(const dictionary_ptr d)
     d2->collisions = 0;
     for (int index = 0; index < d->size; index++)
     {
-        for (element_ptr element = d->table[index]; element != 0; element = element->next)
+        element_ptr next;
+        for (element_ptr element = d->table[index]; element != 0; element = next)
         {
-            /* note: this recopies everything */
-            /* a more efficient implementation would
-             * to avoid this problem */
-            dict_insert(&d2, element->key, element->value);
+            next = element->next;
+            element->next = NULL;
+
+            /* note: the elements move, so that values that were handed out stay valid */
+            /* the most recently inserted of equal keys stays the first */
+            const unsigned long h = (d->key_type == 0
+                ? hash_function(static_cast<const char*>(element->key))
+                : hash_pointer_function(element->key)) % d2->size;
+            element_ptr* link = &d2->table[h];
+            if (*link)
+                d2->collisions++;
+            while (*link)
+                link = &(*link)->next;
+
+            *link = element;
+            d2->number_elements++;
         }
     }
 
-- 
2.43.0


From 4519f1b9994f25210d2e881797bebbd93f5701f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:10 +0000
Subject: [PATCH 48/72] fix: the top of an empty stack was memory outside the
 stack

---
 CMakePasm/source/stacks.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CMakePasm/source/stacks.cc b/CMakePasm/source/stacks.cc
index 629960d..6d42ab1 100644
--- a/CMakePasm/source/stacks.cc
+++ b/CMakePasm/source/stacks.cc
@@ -110,6 +110,10 @@ void* top(const instance_data_ptr stack_instance)
     assert(stack_instance != NULL);
     assert(stack_instance->item_size >= 0);
 
+    // an empty stack has no top
+    if (stack_instance->index < 0)
+        return NULL;
+
     return item_at(stack_instance, stack_instance->index);
 }
 
-- 
2.43.0


From 567e7046825eae51395d6de18043ebfee389b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:13 +0000
Subject: [PATCH 49/72] fix: listing of odd strings in .word and of numbers in
 .str did not show the bytes

---
 CMakePasm/source/node.cc | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index a254a90..03c4801 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1581,8 +1581,10 @@ int generate_list_node(const parse_node_ptr p)
     {
         const char* string_start = nullptr;
         char* str = p->str.value;
+        // if using a string with WORD then pad to a word boundary
         int output_length = p->str.len;
-        int pad = 0;
+        if (data_size == 2 && p->str.len % 2)
+            output_length++;
         while (output_length--)
         {
             // output the PC on column zero
@@ -1639,15 +1641,6 @@ int generate_list_node(const parse_node_ptr p)
             }
         }
 
-        // if using a string with WORD then pad to a word boundary
-        if (data_size == 2 && p->str.len % 2)
-        {
-            col++;
-            sprintf(current_ptr, " $%02X", *str & 0xFF);
-            current_ptr += strlen(current_ptr);
-            pad = 1;
-        }
-
         // output final node
         if (col != 0)
         {
@@ -1665,13 +1658,13 @@ int generate_list_node(const parse_node_ptr p)
                     sprintf(current_ptr, ", ");
                     current_ptr += strlen(current_ptr);
                 }
-                if (len == col - 1 && pad)
+                if (isprint(string_start[len]))
                 {
-                    sprintf(current_ptr, "$%02X", string_start[len]);
+                    sprintf(current_ptr, "'%c'", string_start[len]);
                 }
                 else
                 {
-                    sprintf(current_ptr, "'%c'", string_start[len]);
+                    sprintf(current_ptr, "$%02X", string_start[len] & 0xFF);
                 }
                 current_ptr += strlen(current_ptr);
             }
@@ -1701,7 +1694,7 @@ int generate_list_node(const parse_node_ptr p)
             hi = 0;
         }
         // check for overflow
-        if (hi != 0 && data_size < 2)
+        if (hi != 0 && data_size == 1)
         {
             // This error is reported in generate_output
             fprintf(console, "%s\n", current_buffer);
@@ -1724,7 +1717,7 @@ int generate_list_node(const parse_node_ptr p)
         current_ptr += strlen(current_ptr);
 
         // output hi byte
-        if (data_size > 1)
+        if (data_size > 1 || (data_size == 0 && hi != 0))
         {
             sprintf(current_ptr, " $%02X", hi);
             current_ptr += strlen(current_ptr);
-- 
2.43.0


From 0d353a3b22829b49991d2add04d34e6c953e2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:22 +0000
Subject: [PATCH 50/72] fix: symbol file left out symbols that are referenced

---
 CMakePasm/source/sym.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 59ec263..1437a1b 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -739,7 +739,8 @@ void dump_symbols(FILE* file)
             const auto sym = static_cast<symbol_table_ptr>(element->value);
             if (sym->is_var == false && sym->is_macro_param == false && 
                 sym->is_macro_name == false && sym->is_plus_minus == false && sym->is_local == false &&
-                pass * 2 <= sym->times_accessed && is_local_sym(sym->name) == false)
+                (sym->referenced_in_pass == pass || sym->defined_in_pass == DEFINED_IN_ALL_PASSES) &&
+                sym->is_initialized && is_local_sym(sym->name) == false)
             {
                 current_entry->name = static_cast<char*>(element->key);
                 current_entry->value = sym->value;
-- 
2.43.0


From c8b48ba696350f47f3b0295acd2a78dace643104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:10 +0000
Subject: [PATCH 51/72] fix: -d took decimal numbers of three digits and more,
 and 0X and 0B, as 0

---
 CMakePasm/source/parseargs.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index f48e396..a5a4c40 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -311,16 +311,13 @@ int parse_arguments(const int argc, char* argv[])
             {
                 sym_val = (int)strtol(val + 1, NULL, 2);
             }
-            else if (strlen(val) > 2)
+            else if (val[0] == '0' && (val[1] == 'x' || val[1] == 'X'))
             {
-                if (val[0] == '0' && val[1] == 'x')
-                {
-                    sym_val = (int)strtol(val + 2, NULL, 16);
-                }
-                else if (val[0] == '0' && val[1] == 'b')
-                {
-                    sym_val = (int)strtol(val + 2, NULL, 2);
-                }
+                sym_val = (int)strtol(val + 2, NULL, 16);
+            }
+            else if (val[0] == '0' && (val[1] == 'b' || val[1] == 'B'))
+            {
+                sym_val = (int)strtol(val + 2, NULL, 2);
             }
             else
             {
-- 
2.43.0


From 853f28b6f90a86a677c217d4ac4c2cd17c394aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:12 +0000
Subject: [PATCH 52/72] fix: -nowarn and .warn off did not turn off warnings

---
 CMakePasm/source/error.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index a20a946..28deef3 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -87,6 +87,8 @@ void error(const int err_num)
 void warn(const int err_num)
 {
     assert(err_num > error_start && err_num < error_max);
+    if (ignore_warnings)
+        return;
     yymessage(errors[err_num]);
     warning_count++;
 }
-- 
2.43.0


From 8d7c98d9d2bc3c32d70faf610a2a245535af86c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:14 +0000
Subject: [PATCH 53/72] fix: listing of a long line wrote behind the buffer

---
 CMakePasm/source/genlist.cc | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index 0e7f002..74f6205 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -88,7 +88,6 @@ void generate_list_file(FILE* list_file)
     fprintf(list_file, "; Processing %s\n", current_file_name);
     for (int line = 1; line < list_head->line; ++line)
     {
-        internal_buffer[0] = 0;
         file_line_node* source_list = get_file_line(list_node->filename, line);
 
         if (list_node->list_directive)
@@ -98,8 +97,7 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, "", source_list->line_content);
-                fputs(internal_buffer, list_file);
+                fprintf(list_file, source_indent_format, "", source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -142,12 +140,11 @@ void generate_list_file(FILE* list_file)
         if (source_list == nullptr)
             continue;
 
-        internal_buffer[0] = 0;
         if (source_list->displayed == 0)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, source_list->line_content);
+                fprintf(list_file, source_indent_format, list_node->output, source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -155,16 +152,13 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, "\n");
+                fprintf(list_file, source_indent_format, list_node->output, "\n");
             }
         }
-        fputs(internal_buffer, list_file);
 
         for (source_list = source_list->next; source_list && source_list->line_number <= end_line; source_list = source_list->next)
         {
-            internal_buffer[0] = 0;
-            sprintf(internal_buffer, source_indent_format, "","");
-            fputs(internal_buffer, list_file);
+            fprintf(list_file, source_indent_format, "","");
             if (source_list->displayed == 0)
             {
                 if (state)
-- 
2.43.0


From b48bcc35a665b225b524459af87dddccf580cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:15 +0000
Subject: [PATCH 54/72] fix: error with a long file name printed a buffer that
 was not set

---
 CMakePasm/source/error.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 28deef3..5fec70e 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -105,12 +105,12 @@ void error2(const int err_num, const char* parameter)
     if (strlen(errors[err_num]) + strlen(parameter) + 2 < max_line_len)
     {
         sprintf(internal_buffer, "%s %s", errors[err_num], parameter);  // NOLINT(cert-err33-c)
+        yyerror(internal_buffer);
     }
     else
     {
         error(err_num);
     }
-    yyerror(internal_buffer);
 }
 
 /// <summary>
-- 
2.43.0


From 0ef76dad7d17d975f98ed2d98cc2389639048e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:17 +0000
Subject: [PATCH 55/72] fix: call of a macro with a long name wrote behind the
 buffer

---
 CMakePasm/source/expand.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index dfd59ef..c6fbf87 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1443,13 +1443,25 @@ void reset_macro_dict(void)
 /// </summary>
 /// <param name="p">The parse_node_ptr p.</param>
 /// <returns>int.</returns>
+static char* make_macro_label(const char* name, const char* format, const int times_executed)
+{
+    // room for the name, the separator and the count
+    char* label = static_cast<char*>(MALLOC(strlen(name) + 16));
+    if (label == nullptr)
+    {
+        error(error_out_of_memory);
+        exit(-1);
+    }
+    sprintf(label, format, name, times_executed);
+    return label;
+}
+
 int expand_macro_id_node(const parse_node_ptr p)
 {
     const macro_dict_entry* macro_dict_entry = create_macro_entry(p->id.name);
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%8.8X", p->id.name, macro_dict_entry->times_executed);
-    last_label = const_cast<char*>(STRDUP(internal_buffer));
+    last_label = make_macro_label(p->id.name, "%s::%8.8X", macro_dict_entry->times_executed);
 
     expand_id_node(p);
 
@@ -1488,8 +1500,7 @@ int expand_macro_expansion_node(const parse_node_ptr p)
     macro_argument_count = macro_parameter_index;
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
-    last_label = (char*) STRDUP(internal_buffer);
+    last_label = make_macro_label(p->macro.name, "%s::%.4X", macro_dict_entry->times_executed);
 
     if (p->macro.macro != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro));
-- 
2.43.0


From 6e4d91c512660b90bc762b5010486b79c7284419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:04 +0000
Subject: [PATCH 56/72] fix: loops that generate no code and do not end, and
 errors in loops, kept the assembler running

---
 CMakePasm/source/expand.cc | 49 +++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index c6fbf87..bf70eab 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -51,6 +51,10 @@ extern int origin;
 // for 6502 and 65C02
 int max_address = 0xFFFF;
 
+//
+// loops that generate no code end at this number of iterations
+static const int max_iterations = 0x100000;
+
 // number of symbols whose values changed
 int sym_value_changed = 0;
 
@@ -1560,6 +1564,25 @@ static bool is_unknown_value(const parse_node_ptr p)
     return false;
 }
 
+/// <summary>
+/// Checks if a loop has to be given up after an iteration
+/// </summary>
+/// <param name="iterations">The number of iterations so far.</param>
+/// <returns>bool.</returns>
+static bool give_up_loop(int& iterations)
+{
+    // errors end the assembly, they may keep the loop from ending
+    if (error_count > 0)
+        return true;
+
+    if (program_counter > max_address || ++iterations > max_iterations)
+    {
+        error(error_infinite_loop_detected);
+        return true;
+    }
+    return false;
+}
+
 /// <summary>
 /// Operator While
 /// </summary>
@@ -1567,6 +1590,7 @@ static bool is_unknown_value(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_while_node(const parse_node_ptr p)
 {
+    int iterations = 0;
     while (expand_node(p->op[0]))
     {
         // the condition is not known yet
@@ -1575,11 +1599,8 @@ int expand_operator_while_node(const parse_node_ptr p)
 
         expand_node(p->op[1]);
 
-        if (program_counter > max_address)
-        {
-            error(error_infinite_loop_detected);
+        if (give_up_loop(iterations))
             return 0;
-        }
     }
     return 0;
 }
@@ -1591,15 +1612,13 @@ int expand_operator_while_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_repeat_node(const parse_node_ptr p)
 {
+    int iterations = 0;
     do
     {
         expand_node(p->op[0]);
 
-        if (program_counter > max_address)
-        {
-            error(error_infinite_loop_detected);
+        if (give_up_loop(iterations))
             return 0;
-        }
     } while (expand_node(p->op[1]) == 0 && !is_unknown_value(p->op[1]));
     return 0;
 }
@@ -1611,14 +1630,13 @@ int expand_operator_repeat_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_do_node(const parse_node_ptr p)
 {
+    int iterations = 0;
     do
     {
         expand_node(p->op[0]);
-        if (program_counter > max_address)
-        {
-            error(error_infinite_loop_detected);
+
+        if (give_up_loop(iterations))
             return 0;
-        }
     } while (expand_node(p->op[1]) && !is_unknown_value(p->op[1]));
     return 0;
 }
@@ -1680,6 +1698,7 @@ int expand_operator_for_node(const parse_node_ptr p)
 
     if (unroll_loop)
     {
+        int iterations = 0;
         do
         {
             if (step_val > 0 && sym->value > end_value)
@@ -1689,11 +1708,9 @@ int expand_operator_for_node(const parse_node_ptr p)
 
             expand_node(p->op[2]);
 
-            if (program_counter > max_address)
-            {
-                error(error_infinite_loop_detected);
+            if (give_up_loop(iterations))
                 return 0;
-            }
+
             set_symbol_value(sym, sym->value + step_val);
         } while (true);
     }
-- 
2.43.0


From be81bc2f9a3a383a749d516cbfee1b24acb3d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:23 +0000
Subject: [PATCH 57/72] fix: a last line without line end was a syntax error
 and ran into the line behind .inc

---
 CMakePasm/source/file.cc | 6 ++++++
 CMakePasm/source/pasm.l  | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 30d7f33..41a2705 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -152,6 +152,12 @@ file_line_node* read_file_lines(const char* file_name)
                 return NULL;
             }
             memset(file_node, 0, sizeof(file_line_node));
+
+            // the last line may come without its end
+            const size_t len = strlen(internal_buffer);
+            if (len > 0 && len < max_line_len - 1 && internal_buffer[len - 1] != '\n')
+                strcat(internal_buffer, "\n");
+
             // ReSharper disable once CppDeprecatedEntity
             file_node->line_content = (char*)STRDUP(internal_buffer);
             file_node->line_number = line++;
diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index a815241..6885baf 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -438,6 +438,14 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
 [-<>=+*/#,();=\n]           { P_C_TOK(*yytext) SV_TOK return *yytext; }
 [ \t]+                      { /* ignore white space */ }
 <<EOF>>                     {
+                                // the last line may come without its end
+                                if (last_token != nullptr && *last_token != '\n')
+                                {
+                                    FREE(last_token);
+                                    last_token = (char*)STRDUP("\n");
+                                    yylineno++;
+                                    return EOL;
+                                }
                                 if (last_token != nullptr) FREE(last_token); last_token = nullptr;
                                 
                                 yylineno++;
-- 
2.43.0


From 7f802ffc13da14c7a52fb57191506f87a6c2fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:25 +0000
Subject: [PATCH 58/72] fix: -dir did not find files in directories given
 without a slash at the end

---
 CMakePasm/source/file.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 41a2705..1eba4d6 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -46,6 +46,12 @@ void open_file_stream(std::ofstream& file, const char* filename, const std::ios:
             *p++ = *directory++;
         }
         *p = 0;
+        if (len > 0 && len < path_max - 1 && p[-1] != '/' && p[-1] != '\\')
+        {
+            *p++ = '/';
+            *p = 0;
+            len++;
+        }
         if (len + strlen(filename) + 2 >= path_max)
         {
             error2(error_path_name_too_long, path);
@@ -92,6 +98,12 @@ FILE* open_file(const char* file, const char* mode)
             *p++ = *dir++;
         }
         *p = 0;
+        if (len > 0 && len < path_max - 1 && p[-1] != '/' && p[-1] != '\\')
+        {
+            *p++ = '/';
+            *p = 0;
+            len++;
+        }
         if (len + strlen(file) + 2 >= path_max)
         {
             error2(error_path_name_too_long, path);
-- 
2.43.0


From 5bdc4e668b02031a5d17502b61bb299e40845ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:59 +0000
Subject: [PATCH 59/72] fix: eolconvert used a directory name that was no
 longer there

---
 CMakePasm/eolconvert/eolconvert.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index 39b7408..c360426 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -23,7 +23,7 @@ int process_directories(const set<fs::path>& directories, const fs::path& source
 int process_directory(const fs::path& directory, const fs::path& source_root, const fs::path& install_path);
 int process_files(const set<fs::path>& files, const fs::path& source_root, const fs::path& install_path);
 int process_file(const fs::path& path, const fs::path& source_root, const fs::path& install_path);
-char* extract_directory(int n, string path);
+string extract_directory(int n, string path);
 
 bool is_eol(uint8_t ch);
 int replace_eol(const fs::path& path, const fs::path& out_path);
@@ -84,7 +84,7 @@ int main(const int argc, char** argv)
     return 0;
 }
 
-char* extract_directory(int n, string path)
+string extract_directory(int n, string path)
 {
     char buffer[1024] = { 0 };
     int count = 0;
@@ -106,12 +106,12 @@ char* extract_directory(int n, string path)
                     index++;
                 }
                 buffer[i] = ch;
-                return (char*)string(buffer).c_str();
+                return string(buffer);
             }
         }
         index--;
     }
-    return NULL;
+    return string();
 } 
 
 //--------------------------------------------------------------------------//
-- 
2.43.0


From 13fb5bfe5517737490149f6f71095ad235c7342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:02 +0000
Subject: [PATCH 60/72] fix: eolconvert added or lost line ends in texts with
 mixed line ends

---
 CMakePasm/eolconvert/eolconvert.cc | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index c360426..2953806 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -233,30 +233,24 @@ int replace_eol(const fs::path& path, const fs::path& out_path)
         stringstream ss;
         size_t index = 0;
         auto sz = in_buf.size();
-        uint8_t last_eol = 0;
-        auto count = 0;
+        uint8_t last_eol = 0;   // line end character written just before
         while (index < sz)
         {
 
             if (auto ch = in_buf[index++]; !is_eol(ch))
             {
                 ss << ch;
-                count = 0;
+                last_eol = 0;
+            }
+            else if (last_eol != 0 && ch != last_eol)
+            {
+                // second half of a line end of two characters
+                last_eol = 0;
             }
             else
             {
-                if (ch != last_eol)
-                {
-                    count++;
-                    last_eol = ch;
-                    if (count == 1)
-                        ss << '\n';
-                    else if (count == 2)
-                        count = 0;
-                    continue;
-                }
                 ss << '\n';
-                count = 0;
+                last_eol = ch;
             }
         }
 
-- 
2.43.0


From a0db21026662dd5e46e79d183c60a1f030680ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:05 +0000
Subject: [PATCH 61/72] fix: a label behind a block comment was not recognised

---
 CMakePasm/source/pasm.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 6885baf..ff98f2e 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -427,8 +427,8 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
                                 P_TOK("SYMBOL")
                                 return SYMBOL;
                             }
-"/*"                        { SV_TOK BEGIN(C_COMMENT); }
-<C_COMMENT>"*/"             { SV_TOK BEGIN(INITIAL); }
+"/*"                        { BEGIN(C_COMMENT); }
+<C_COMMENT>"*/"             { BEGIN(INITIAL); }
 <C_COMMENT>.|[\n]           { /* ignore comments */ }
 ;[^\n]*                     { /* ignore comments */ }
 [/][/][^\n]*                { /* ignore comments */ }
-- 
2.43.0


From 9b0b269b6d13e7ca54f0e4afd66b23514111a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:08 +0000
Subject: [PATCH 62/72] fix: a line end of two characters counted as two, +
 labels were not found

---
 CMakePasm/source/pasm.l | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index ff98f2e..6cd9f4d 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -30,6 +30,8 @@ extern bool Debug_AddList;
 
 #define SV_TOK              { if (last_token != nullptr) FREE(last_token); last_token = (char*)STRDUP(yytext); }
 
+#define SV_EOL              { if (last_token != nullptr) FREE(last_token); last_token = (char*)STRDUP("\n"); }
+
 #define OP(op)              { P_TOK("OPCODE") SV_TOK yylval.iValue = _ ## op; return OPCODE; }
 #define OP_REL(op)          { P_TOK("OPCODE") SV_TOK yylval.iValue = _ ## op ## 0 + yytext[3] - '0'; return OPCODE; }
 #define OP_ILLEGAL(op)      { OP(op); }
@@ -158,7 +160,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 "RMB"[0-7]                  { OP_65C02_REL(rmb) }
 "SMB"[0-7]                  { OP_65C02_REL(smb) }
 
-[\xD\xA]|[\xA]|[\xD]        { P_TOK("EOL") SV_TOK return EOL; }
+[\xD]?[\xA]|[\xD]           { P_TOK("EOL") SV_EOL return EOL; }
 ".IFDEF"[ \t]+{SYMB}        {
                                 P_TOK("IF_DEF")
                                 SV_TOK
-- 
2.43.0


From ffb8c74cd29568669799a651be4d2d9a018c26cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:11 +0000
Subject: [PATCH 63/72] fix: .print on and off allow any white space between
 the words

---
 CMakePasm/source/pasm.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 6cd9f4d..b847181 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -329,8 +329,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 ".WARN"[ \t]*"ON"           {                       SV_TOK ignore_warnings = false;                 }
 ".WARN"[ \t]*"OFF"          {                       SV_TOK ignore_warnings = true;                  }
 ".C64"                      {                       SV_TOK output_file_format = c64;                }
-".PRINT"[ \t]"ON"           {                       P_TOK("PRINTON") SV_TOK return PRINTON;         }
-".PRINT"[ \t]"OFF"          {                       P_TOK("PRINTOFF") SV_TOK return PRINTOFF;       }
+".PRINT"[ \t]+"ON"          {                       P_TOK("PRINTON") SV_TOK return PRINTON;         }
+".PRINT"[ \t]+"OFF"         {                       P_TOK("PRINTOFF") SV_TOK return PRINTOFF;       }
 
 ".DEBUG_TOKEN"[ \t]"ON"     { P_TOK("DEBUGTOKEN ON")       SV_TOK Debug_Token = true;               }
 ".DEBUG_TOKEN"[ \t]"OFF"    { P_TOK("DEBUGTOKEN OFF")      SV_TOK Debug_Token = false;              }
-- 
2.43.0


From 95a912023722433fcc2e047a7ff16f96bfef80d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:23 +0000
Subject: [PATCH 64/72] fix: a -d value that is no 16-bit number was reported,
 and then ignored

---
 CMakePasm/source/parseargs.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index a5a4c40..444f680 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -301,34 +301,41 @@ int parse_arguments(const int argc, char* argv[])
             }
             const char* val = argv[arg_index];
 
-            int sym_val = 0;
+            long sym_val = 0;
 
             if (val[0] == '$')
             {
-                sym_val = (int)strtol(val + 1, NULL, 16);
+                sym_val = strtol(val + 1, NULL, 16);
             }
             else if (val[0] == '%')
             {
-                sym_val = (int)strtol(val + 1, NULL, 2);
+                sym_val = strtol(val + 1, NULL, 2);
             }
             else if (val[0] == '0' && (val[1] == 'x' || val[1] == 'X'))
             {
-                sym_val = (int)strtol(val + 2, NULL, 16);
+                sym_val = strtol(val + 2, NULL, 16);
             }
             else if (val[0] == '0' && (val[1] == 'b' || val[1] == 'B'))
             {
-                sym_val = (int)strtol(val + 2, NULL, 2);
+                sym_val = strtol(val + 2, NULL, 2);
             }
             else
             {
-                sym_val = (int)strtol(val, NULL, 10);
+                sym_val = strtol(val, NULL, 10);
+            }
+
+            if (sym_val < 0 || sym_val > 0xFFFF)
+            {
+                error(error_value_out_of_range);
+                usage();
+                exit(-1);
             }
 
             // ReSharper disable once CppLocalVariableMayBeConst
             symbol_table_ptr sym = add_symbol(sym_name);
             if (sym != NULL)
             {
-                set_symbol_value(sym, sym_val);
+                set_symbol_value(sym, (int)sym_val);
                 sym->is_initialized = true;
                 sym->defined_in_pass = DEFINED_IN_ALL_PASSES;
                 sym->times_accessed = 1000;
-- 
2.43.0


From fce3f599951c9eedca381a21dd6533178928a58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:41 +0000
Subject: [PATCH 65/72] fix: a far branch to an anonymous or local label at
 address 0 was refused

---
 CMakePasm/source/expand.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index bf70eab..4461f16 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -912,13 +912,7 @@ int expand_op_code_node(const parse_node_ptr p)
         for (int index = 0; index < p->number_of_ops; index++)
         {
             const parse_node_ptr pp = p->op[index];
-            int op_value = expand_node(pp);
-
-            // fix for local labels
-            const char ch = (pp->type == type_id) ? pp->id.name[0] : 0;
-            if (op_value == 0 && p->opcode.mode == r && p->number_of_ops == 1 && pp->type == type_id 
-                && (ch == '@' || ch == '-' || ch =='+') )
-                op_value = program_counter;
+            const int op_value = expand_node(pp);
 
             // ReSharper disable once CppRedundantParentheses
             large_op = large_op | ((op_value & ~0xFF) != 0);
-- 
2.43.0


From b38bd99edb4f7e82c04cd5940ce30a9986a0761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:44 +0000
Subject: [PATCH 66/72] fix: references in front of an anonymous plus label did
 not see its final value

---
 CMakePasm/source/expand.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4461f16..a338f52 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1866,7 +1866,12 @@ int expand_operator_equ_node(const parse_node_ptr p)
     if (stricmp(p->op[0]->id.name, "+") == 0)
     {
         int index = find_plus_symbol_definition(current_file_name, yylineno);
-        if (index < 0) add_plus_symbol(current_file_name, yylineno, op);
+        if (index < 0)
+        {
+            // the references in front of it have not seen this value
+            add_plus_symbol(current_file_name, yylineno, op);
+            sym_value_changed++;
+        }
 
         index = find_plus_symbol(strlen(p->op[0]->id.name), current_file_name, yylineno - 1);
 
-- 
2.43.0


From 9c91015b8eb6fbfcd745b23e101cb35427726380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:41 +0000
Subject: [PATCH 67/72] fix: a bar directly in front of a minus sign was taken
 for the name of an anonymous label

---
 CMakePasm/source/pasm.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index b847181..8899357 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -349,7 +349,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 yylval.strValue = (char*)STRDUP(yytext); 
                                 return SYMBOL;
                             }
-[\+|\-]+                    {
+[+-]+                       {
                                 if (last_token == nullptr || *last_token == '\n')
                                 {
                                     SV_TOK
-- 
2.43.0


From 6b1fb6569afa0ab893dff4b4750f97dac8755dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:14 +0000
Subject: [PATCH 68/72] fix: the address counter compared with == was taken for
 an assignment to it

---
 CMakePasm/source/pasm.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 8899357..fe4bfc7 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -382,6 +382,7 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
 [\'][\\][0-7]{3}[\']        { SV_TOK INT(2, 8) }
 
 {STRVALUE}                  { P_TOK("STRING_LITERAL") SV_TOK yylval.strValue = (char*)STRDUP(yytext); return STRING_LITERAL; }
+"*"[ \t]*"=="               { yyless(1); P_C_TOK('*') SV_TOK return '*'; }
 "*"[ \t]*[=]                { P_TOK("PCASSIGN") SV_TOK unput('='); return PCASSIGN; }
 "*"[ \t]*".EQU"             { P_TOK("PCASSIGN") SV_TOK unput('='); return PCASSIGN; }
 "X"                         { P_TOK("X") SV_TOK return 'X'; }
-- 
2.43.0


From 4157a3b613a8a935397b600529377e01c8c20088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:55 +0000
Subject: [PATCH 69/72] fix: list absolute indexed indirect operands in
 parentheses

---
 CMakePasm/source/node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 03c4801..ac278e5 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1843,7 +1843,7 @@ int generate_list_node(const parse_node_ptr p)
             break;
 
         case aix:    /* absolute indirect x  */  // NOLINT(bugprone-branch-clone)
-            sprintf(current_ptr, "$%04X,x ", op);
+            sprintf(current_ptr, "($%04X,x) ", op);
             break;
 
         case ax:     /* absolute x           */
-- 
2.43.0


From 0a1178353f18117bf938031a83f661d5f23ab7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:20 +0000
Subject: [PATCH 70/72] fix: list negative operands as the value that is
 emitted

---
 CMakePasm/source/node.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index ac278e5..0f1e2ba 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1803,6 +1803,8 @@ int generate_list_node(const parse_node_ptr p)
         {
             expand_node(p->op[1]);
         }
+        // show the value that is emitted, the operand can be negative
+        op &= bytes > 1 || p->opcode.mode == r ? 0xFFFF : 0xFF;
         // ReSharper disable once CppDefaultCaseNotHandledInSwitchStatement
         switch (p->opcode.mode)
         {
-- 
2.43.0


From cf10fd030b6c7a6bf474fbeba240fb7ba75ec10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:21 +0000
Subject: [PATCH 71/72] fix: source lines longer than the buffer shifted the
 line numbers of the listing

---
 CMakePasm/source/file.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 1eba4d6..dc88704 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -165,10 +165,19 @@ file_line_node* read_file_lines(const char* file_name)
             }
             memset(file_node, 0, sizeof(file_line_node));
 
-            // the last line may come without its end
+            // the last line may come without its end, of a longer line only the start is kept
             const size_t len = strlen(internal_buffer);
-            if (len > 0 && len < max_line_len - 1 && internal_buffer[len - 1] != '\n')
+            if (len > 0 && internal_buffer[len - 1] != '\n')
+            {
+                if (len == max_line_len - 1)
+                {
+                    internal_buffer[len - 1] = 0;
+                    int ch = fgetc(file);
+                    while (ch != EOF && ch != '\n')
+                        ch = fgetc(file);
+                }
                 strcat(internal_buffer, "\n");
+            }
 
             // ReSharper disable once CppDeprecatedEntity
             file_node->line_content = (char*)STRDUP(internal_buffer);
-- 
2.43.0


From 1ce22a00d4edd697eb246cbdfc24420ebbe039c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:04:11 +0000
Subject: [PATCH 72/72] fix: accept comments, strings and white space longer
 than the scanner's buffer

---
 CMakePasm/source/pasm.l | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index fe4bfc7..953fc7d 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -345,7 +345,12 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 P_TOK("SYMBOL")
                                 SV_TOK
                                 if (in_macro_definition == 0)
-                                    REJECT;
+                                {
+                                    // not by trying the next rule: a scanner that can go back never enlarges its buffer
+                                    yyless(1);
+                                    yyerror("Parse: syntax error");
+                                    break;
+                                }
                                 yylval.strValue = (char*)STRDUP(yytext); 
                                 return SYMBOL;
                             }
-- 
2.43.0

