From 325825629397705f511f8c9f967677dd7831c9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:30 +0000
Subject: [PATCH 01/17] fix: integer_to_x1() must reject INT_MIN

---
 simulator/x1_arch.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index a5d6037..1db18a5 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -109,15 +109,15 @@ long double x1_to_ieee(Real input)
 //
 Word integer_to_x1(int input)
 {
+    if (input < -(int)BITS(26) || input > (int)BITS(26)) {
+        throw std::runtime_error("Overflow in integer arithmetic");
+    }
+
     const bool negate_flag = input < 0;
     if (negate_flag) {
         input = -input;
     }
 
-    if (input > (int)BITS(26)) {
-        throw std::runtime_error("Overflow in integer arithmetic");
-    }
-
     Word result = input;
     if (negate_flag) {
         result ^= BITS(27);
-- 
2.43.0


From 87e46ff13134956bf1039db8690e57fb7b0f1af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:30 +0000
Subject: [PATCH 02/17] fix: report overflow of integer exponentiation instead
 of wrapping

---
 simulator/virtual_stack.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 68a6440..c9f8483 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -276,13 +276,20 @@ void Stack_Cell::subtract(const Stack_Cell &another)
 //
 static int power(int x, unsigned n)
 {
-    int result = 1;
+    int64_t const limit = BITS(26);
+    int64_t result      = 1;
+    int64_t square      = x;
     while (n) {
         if (n & 1) {
-            result *= x;
+            result *= square;
         }
         n = n >> 1;
-        x *= x;
+        if (result < -limit || result > limit || (n != 0 && square * square > limit)) {
+            throw std::runtime_error("Overflow in integer arithmetic");
+        }
+        if (n != 0) {
+            square *= square;
+        }
     }
     return result;
 }
-- 
2.43.0


From c44a3b3ff18e6d656d37da1375d6032b700ae970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:30 +0000
Subject: [PATCH 03/17] fix: ieee_to_x1() must report overflow for infinity and
 NaN

---
 simulator/x1_arch.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index 1db18a5..9e67f5d 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -31,6 +31,9 @@ Real x1_words_to_real(Word hi, Word lo)
 //
 Real ieee_to_x1(long double input)
 {
+    if (!std::isfinite(input)) {
+        throw std::runtime_error("Overflow in real arithmetic");
+    }
     const bool negate_flag = std::signbit(input);
     if (negate_flag) {
         input = -input;
-- 
2.43.0


From 3ecbfe1fbd8c2c55a5935cc5693fa645c8ca6ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:52 +0000
Subject: [PATCH 04/17] fix: report overflow when rounding a real out of the
 integer range

---
 simulator/opcodes.cpp   |  5 +++--
 simulator/processor.cpp |  2 +-
 simulator/x1_arch.cpp   | 12 ++++++++++++
 simulator/x1_arch.h     |  1 +
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 8435906..20da22e 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -535,7 +535,7 @@ bool Processor::call_opc(unsigned opc)
         for (unsigned i = 0; i < ndim; ++i) {
             int dimsize = x1_to_integer(load_word(addr + 2 + i));
             int idx     = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
-                                                 : (int)roundl(x1_to_ieee(idxs[i].get_real()));
+                                                 : round_to_integer(x1_to_ieee(idxs[i].get_real()));
             if (i == 0)
                 idx0 = idx;
             elt_addr += idx * dimsize;
@@ -976,7 +976,8 @@ bool Processor::call_opc(unsigned opc)
                 stack.push_real_value(load_real(actual + i));
                 break;
             case 21: // real to integer
-                stack.push_int_value(integer_to_x1(roundl(x1_to_ieee(load_real(actual + 2 * i)))));
+                stack.push_int_value(
+                    integer_to_x1(round_to_integer(x1_to_ieee(load_real(actual + 2 * i)))));
                 break;
             case 12: // integer to real
                 stack.push_real_value(
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index a8f9459..656b0bc 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -531,7 +531,7 @@ void Processor::store_value(const Stack_Cell &dest, const Stack_Cell &src)
         if (src.is_int_value()) {
             result = src.get_int();
         } else if (src.is_real_value()) {
-            result = integer_to_x1((int)roundl(x1_to_ieee(src.get_real())));
+            result = integer_to_x1(round_to_integer(x1_to_ieee(src.get_real())));
         } else {
             throw std::runtime_error("Cannot store address");
         }
diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index 9e67f5d..2b5819c 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -128,6 +128,18 @@ Word integer_to_x1(int input)
     return result;
 }
 
+//
+// Round real value to the nearest integer of X1 range.
+//
+int round_to_integer(long double input)
+{
+    input = roundl(input);
+    if (!(input >= -(int)BITS(26) && input <= (int)BITS(26))) {
+        throw std::runtime_error("Overflow in integer arithmetic");
+    }
+    return (int)input;
+}
+
 int x1_to_integer(Word input)
 {
     if (input & ONEBIT(26)) {
diff --git a/simulator/x1_arch.h b/simulator/x1_arch.h
index f7e0b8a..1eff05a 100644
--- a/simulator/x1_arch.h
+++ b/simulator/x1_arch.h
@@ -56,6 +56,7 @@ long double x1_to_ieee(Real word);
 // Convert integer value between native and X1 formats.
 //
 Word integer_to_x1(int d);
+int round_to_integer(long double input);
 int x1_to_integer(Word word);
 
 //
-- 
2.43.0


From 52437b583357b4fdc6e1b06f09f7ef5dd3e0834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:52 +0000
Subject: [PATCH 05/17] fix: enforce the stack size limit on every push

---
 simulator/virtual_stack.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index c9f8483..e71b77e 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -550,11 +550,7 @@ void Virtual_Stack::push(const Stack_Cell &item)
 
 void Virtual_Stack::push(Cell_Type type, uint64_t value)
 {
-    storage.push_back({});
-    auto &item = storage.back();
-    item.type  = type;
-    item.value = value;
-    Machine::trace_stack(storage.size() - 1, item.to_string(), "Push");
+    push(Stack_Cell{ type, value });
 }
 
 //
-- 
2.43.0


From 17b61accda0069f925eb40d8b4807b9b0bb5d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:52 +0000
Subject: [PATCH 06/17] fix: report access beyond the ends of the stack

---
 simulator/virtual_stack.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/simulator/virtual_stack.h b/simulator/virtual_stack.h
index 03c2cc6..f2e53f7 100644
--- a/simulator/virtual_stack.h
+++ b/simulator/virtual_stack.h
@@ -1,6 +1,8 @@
 #ifndef X1_VIRTUAL_STACK_H
 #define X1_VIRTUAL_STACK_H
 
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 #include "x1_arch.h"
@@ -77,10 +79,22 @@ public:
     unsigned count() const { return storage.size(); }
 
     // Get the top of the stack.
-    Stack_Cell &top() { return storage.back(); }
+    Stack_Cell &top()
+    {
+        if (storage.empty()) {
+            throw std::runtime_error("Cannot access empty stack");
+        }
+        return storage.back();
+    }
 
     // Remove all items (but don't deallocate).
-    void erase(unsigned ptr) { storage.erase(storage.begin() + ptr, storage.end()); }
+    void erase(unsigned ptr)
+    {
+        if (ptr > storage.size()) {
+            throw std::runtime_error("No item #" + std::to_string(ptr) + " in stack");
+        }
+        storage.erase(storage.begin() + ptr, storage.end());
+    }
 
     // Remove one item from stack, and return it as cell.
     Stack_Cell pop();
-- 
2.43.0


From 8e67c7b811a5f8e20f52e196c629fbde2ffcee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:52 +0000
Subject: [PATCH 07/17] fix: round shift must not fall through into clear shift

---
 simulator/processor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 656b0bc..78d6d82 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -257,7 +257,7 @@ bool Processor::step()
 
     case 067'14: {
         // Round shift to the right, 1P amount rr E
-        unsigned amount = addr & 037;
+        unsigned amount = (addr & 037) % 27;
         switch (addr >> 5) {
         case 0: // AA
             core.A = (core.A >> amount | core.A << (27 - amount)) & BITS(27);
@@ -278,11 +278,12 @@ bool Processor::step()
             core.L = core.S & ONEBIT(26);
             break;
         }
+        break;
     }
 
     case 077'00: {
         // Clear shift to the right, 3P amount rr
-        unsigned amount = addr & 037;
+        unsigned amount = std::min(addr & 037, 27u);
         switch (addr >> 5) {
         case 0: // AA
             core.A = (core.A >> amount | -(core.A >> 26) << (27 - amount)) & BITS(27);
-- 
2.43.0


From 3ddd110ac144670f6414b39ce53f5a0f3751e45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:52 +0000
Subject: [PATCH 08/17] fix: GTA must reject a bad block level

---
 simulator/opcodes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 20da22e..8003039 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -227,7 +227,7 @@ bool Processor::call_opc(unsigned opc)
         // goto adjustment
         // Exit to block level given in register B.
         frame_ptr = last_frame_ptr;
-        roll_back(display[core.B]);
+        roll_back(get_display(core.B));
         break;
 
     case OPC_SSI: {
-- 
2.43.0


From edf7e538d2a45677e30e340feb429d4b758fcf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:26 +0000
Subject: [PATCH 09/17] fix: array index far beyond limits must not wrap around
 into the array

---
 simulator/opcodes.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 8003039..7758178 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -530,7 +530,7 @@ bool Processor::call_opc(unsigned opc)
         if (limit >= 0 || -limit > 0xfffff) {
             throw std::runtime_error("A wrong number of indexes for an array");
         }
-        int elt_addr = base;
+        int elt_addr = base; // taken modulo 2^26 to catch indexes far beyond limits
         int idx0     = 0; // for the error message
         for (unsigned i = 0; i < ndim; ++i) {
             int dimsize = x1_to_integer(load_word(addr + 2 + i));
@@ -538,9 +538,8 @@ bool Processor::call_opc(unsigned opc)
                                                  : round_to_integer(x1_to_ieee(idxs[i].get_real()));
             if (i == 0)
                 idx0 = idx;
-            elt_addr += idx * dimsize;
+            elt_addr = (elt_addr + (int64_t)idx * dimsize) & BITS(26);
         }
-        elt_addr &= BITS(20); // 16 rather than 15 is to catch "negative" addresses
         if (elt_addr < location || elt_addr + limit >= location) {
             std::ostringstream ostr;
             int elsize = x1_to_integer(load_word(addr + 2));
-- 
2.43.0


From 6d2b43e8ce5cc67fa3198e972e96910a213e9e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:26 +0000
Subject: [PATCH 10/17] fix: no division by zero when reporting a bad array
 index

---
 simulator/opcodes.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 7758178..7a6af30 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -543,6 +543,9 @@ bool Processor::call_opc(unsigned opc)
         if (elt_addr < location || elt_addr + limit >= location) {
             std::ostringstream ostr;
             int elsize = x1_to_integer(load_word(addr + 2));
+            if (elsize == 0) {
+                throw std::runtime_error("Bad array storage function");
+            }
             if (ndim == 1) {
                 ostr << "Index " << idx0 << " is ";
             } else {
-- 
2.43.0


From 8ef2cac774ce499104b828c333d36ed816cc2027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:10 +0000
Subject: [PATCH 11/17] fix: object program without an entry address must be
 reported

---
 simulator/machine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.h b/simulator/machine.h
index 82bedcf..f37d8cd 100644
--- a/simulator/machine.h
+++ b/simulator/machine.h
@@ -114,7 +114,7 @@ public:
     unsigned get_symbol(const std::string &name) { return symbol_table.at(name); }
 
     // Get entry address by index.
-    unsigned get_entry(unsigned index) { return entry_table[index]; }
+    unsigned get_entry(unsigned index) { return entry_table.at(index); }
 
     // Get status of simulation: either EXIT_SUCCESS (0) or
     // EXIT_FAILURE in case of errors.
-- 
2.43.0


From ed431fc697870aed0e3b839745cafdce2b44d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:10 +0000
Subject: [PATCH 12/17] fix: compiler killed by a signal must not count as
 success

---
 simulator/machine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 68047a3..5290665 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -309,6 +309,9 @@ void Machine::run_program(const std::string &prog_path, const std::vector<std::s
         throw std::runtime_error("Lost child process #" + std::to_string(pid));
     }
 
+    if (!WIFEXITED(wait_status)) {
+        throw std::runtime_error("Compiler terminated abnormally");
+    }
     int exit_code = WEXITSTATUS(wait_status);
     switch (exit_code) {
     case STATUS_OK:
-- 
2.43.0


From e1ffcf389c171f9ad8665f9c5e1cd8534a45437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:10 +0000
Subject: [PATCH 13/17] fix: FLOT must use the requested form exactly when the
 exponent fits in m digits

---
 simulator/machine.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 5290665..3841ef0 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -538,7 +538,7 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
         }
         break;
     case 2:
-        if (exponent > 9 || exponent < -99) {
+        if (exponent > 99 || exponent < -99) {
             goto again;
         }
         break;
@@ -557,6 +557,9 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
     if (x >= 1) {
         x /= 10;
         exponent++;
+        if ((m == 1 && exponent > 9) || (m == 2 && exponent > 99)) {
+            goto again;
+        }
     }
 
     // Print mantissa.
-- 
2.43.0


From 03b224001f1ecd5c7315f214b88495f2adbac60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:10 +0000
Subject: [PATCH 14/17] fix: FIXT must not blank zeros of the fraction, nor
 print a units zero before it

---
 simulator/machine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 3841ef0..7730b4b 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -479,7 +479,7 @@ void Machine::print_fixed_point(std::ostream &out, int n, int m, long double x0,
         assert(digit >= 0 && digit <= 9);
         x -= digit;
 
-        if (count + 1 == n) {
+        if (count >= n || (count + 1 == n && m == 0)) {
             suppress_zeroes = false;
         }
         if (count == n && m > 0) {
-- 
2.43.0


From 074ca50a10aedc26b2c3e076bf2d104f982ededc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:16 +0000
Subject: [PATCH 15/17] fix: value array must keep its bounds when the zero
 element lies below address 0

---
 simulator/opcodes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 7a6af30..9d866f3 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -929,8 +929,7 @@ bool Processor::call_opc(unsigned opc)
         // value array positioning
         unsigned storage_fn = address_in_stack(core.S);
         unsigned actual     = stack.get(storage_fn).get_addr();
-        unsigned zero_base =
-            stack.get(storage_fn + 1).get_addr() & 0xFFFF; // remove stray high bits
+        unsigned zero_base  = stack.get(storage_fn + 1).get_addr();
         unsigned elt_size = stack.get(storage_fn + 2).get_int();
         Cell_Type ct = elt_size % 2 == 1 ? Cell_Type::INTEGER_ADDRESS : Cell_Type::REAL_ADDRESS;
         // Element size correctors for type conversion.
@@ -966,7 +965,8 @@ bool Processor::call_opc(unsigned opc)
         }
         unsigned words = -x1_to_integer(stack.get(storage_fn + pos).get_int());
         stack.set(storage_fn, Stack_Cell{ ct, stack_base + STACK_BASE });
-        int offset = actual - zero_base;
+        // The base address is known modulo 2^26: remove stray high bits.
+        int offset = (int)((actual - zero_base) << 6) >> 6;
         offset     = offset * mul / div;
         stack.set(storage_fn + 1, Stack_Cell{ ct, stack_base - offset + STACK_BASE });
         for (unsigned i = 0; i < words; ++i) {
-- 
2.43.0


From 0b062dc835ceb2246edabb8682825565d603502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:16 +0000
Subject: [PATCH 16/17] fix: report overflow of array size instead of wrapping

---
 simulator/processor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 78d6d82..eb5d7c8 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -895,12 +895,15 @@ void Processor::make_storage_function_frame(int elt_size)
         stack.push_real_addr(0);
     stack.push_null(); // future "0 element" address
     unsigned zero_base = stack.count() - 1;
-    int offset         = 0;
-    int stride         = elt_size;
+    int64_t offset     = 0;
+    int64_t stride     = elt_size;
     for (int i = 0; i < ndim; ++i) {
         stack.push_int_value(stride);
         offset += stride * dims[i].first;
         stride *= (dims[i].second - dims[i].first + 1);
+        if (std::abs(offset) > (int)BITS(26) || std::abs(stride) > (int)BITS(26)) {
+            throw std::runtime_error("Overflow in array size");
+        }
     }
     stack.set_int_value(zero_base, integer_to_x1(offset));
     stack.push_int_value(integer_to_x1(-stride));
-- 
2.43.0


From 802df99f353ba80b5b2f2c29c7b3ca1ea038a94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 17/17] fix: XEEN must collate with the ones' complement bits
 of its argument

---
 simulator/opcodes.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 9d866f3..dbb2c5a 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -1075,7 +1075,9 @@ bool Processor::call_opc(unsigned opc)
 
     case OPC_XEEN: {
         // Read console switches.
-        auto bitmask = stack.pop_integer();
+        // Argument 0 stands for a row of 27 ones.
+        auto arg           = stack.pop_integer();
+        Word const bitmask = (arg == 0) ? BITS(27) : integer_to_x1(arg);
         stack.push_int_value(machine.read_console_switches(std::cin, bitmask));
         break;
     }
-- 
2.43.0

