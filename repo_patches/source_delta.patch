From a138d1d9e33ed9aa5b5dcfd58f859f1ccca7431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:38 +0000
Subject: [PATCH 01/42] fix: keep last character of an unterminated last line
 of input

---
 src/engine/transformation/rule_parsing.c | 2 +-
 src/util/console_util.c                  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index a1bcc73..220a2c5 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -197,7 +197,7 @@ ssize_t parse_rulesets_from_file(FILE *file,
         line_index++;
         char *line = line_start;
 
-        line[strlen(line) - 1] = '\0'; // Overwrite newline char
+        line[strcspn(line, "\n")] = '\0'; // Overwrite newline char
         char *comment_start = strstr(line, COMMENT_PREFIX);
         if (comment_start != NULL) *comment_start = '\0'; // Prune comments from the right
         while (*line == ' ') line++; // Strip leading spaces
diff --git a/src/util/console_util.c b/src/util/console_util.c
index 7234999..af9c190 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -74,8 +74,8 @@ bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_
         return false;
     }
 
-    // Overwrite newline char
-    (*out_input)[strlen(*out_input) - 1] = '\0';
+    // Overwrite newline char (not present if the last line of the file is unterminated)
+    (*out_input)[strcspn(*out_input, "\n")] = '\0';
     return true;
 }
 
-- 
2.43.0


From e52cb7ede59539df9a6b3499b024e86db68cfc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:38 +0000
Subject: [PATCH 02/42] fix: add negative results to history when
 simplification is loaded

---
 src/client/commands/cmd_evaluation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_evaluation.c b/src/client/commands/cmd_evaluation.c
index ade09af..86d5f62 100644
--- a/src/client/commands/cmd_evaluation.c
+++ b/src/client/commands/cmd_evaluation.c
@@ -26,9 +26,10 @@ bool cmd_evaluation_exec(char *input, __attribute__((unused)) int code)
     whisper("= ");
     print_tree(node, false);
     printf("\n");
-    if (get_type(node) == NTYPE_CONSTANT)
+    // Simplification represents negative results as negated constants
+    if (count_all_variable_nodes(node) == 0)
     {
-        history_add(get_const_value(node));
+        history_add(arith_evaluate(node));
     }
     free_tree(node);
     return true;
-- 
2.43.0


From ee3dd500e7d851723836d6be8bc43fefeeab8602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:38 +0000
Subject: [PATCH 03/42] fix: do not dereference missing operator when delimiter
 occurs in nested parentheses

---
 src/engine/parsing/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index faf3a6c..16b416b 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -277,7 +277,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             if (vec_count(&state.vec_ops) > 1)
             {
                 struct OpData *op_data = ((struct OpData*)vec_get(&state.vec_ops, vec_count(&state.vec_ops) - 2));
-                if (op_data->op->placement == OP_PLACE_FUNCTION)
+                if (op_data->op != NULL && op_data->op->placement == OP_PLACE_FUNCTION)
                 {
                     op_data->arity++;
                 }
-- 
2.43.0


From 8ffa6d68305184e1b608afed159671d10c343463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:38 +0000
Subject: [PATCH 04/42] fix: reject closing parenthesis directly after an infix
 or prefix operator

---
 src/engine/parsing/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index 16b416b..5ddfa99 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -209,6 +209,12 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
         // III. Is token closing parenthesis or argument delimiter?
         if (is_closing_parenthesis(token))
         {
+            // An operator on top of the op-stack still awaits its operand, e.g. 'sum(2+)'
+            if (!await_infix && op_peek(&state) != NULL && op_peek(&state)->op != NULL)
+            {
+                ERROR(PERR_UNEXPECTED_CLOSING_PAREN);
+            }
+
             // Pop ops until opening parenthesis on op-stack
             while (op_peek(&state) != NULL && op_peek(&state)->op != NULL)
             {
-- 
2.43.0


From 335331c8b03c487104aaaa375e486075483280a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:38 +0000
Subject: [PATCH 05/42] fix: reject definition whose right hand side can not be
 evaluated

---
 src/client/commands/cmd_definition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index af466aa..f78014e 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -145,7 +145,7 @@ static bool add_function(char *name, char *left, char *right, bool is_constant)
 
     // Since right expression was parsed raw to detect recursive definitions, do post processing
     right_tree = arith_simplify(&right_result, (size_t)(right - left));
-    if (left_tree == NULL)
+    if (right_tree == NULL)
     {
         goto error;
     }
-- 
2.43.0


From 15a0b0895895360a057ea4009dc3c58b2c228c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 06/42] fix: do not reuse ids of operators that are still in
 context after a deletion

---
 src/engine/parsing/context.c | 3 ++-
 src/engine/parsing/context.h | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 85309ea..f19b6df 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -12,6 +12,7 @@ ParsingContext ctx_create()
 {
     ParsingContext res = {
         .op_list       = list_create(sizeof(Operator)),
+        .next_op_id    = 0,
         .keywords_trie = trie_create(0),
         .glue_op       = NULL
     };
@@ -94,7 +95,7 @@ const Operator *ctx_add_op(ParsingContext *ctx, Operator op)
     }
     
     // Successfully passed the checks
-    op.id = list_count(&ctx->op_list);
+    op.id = ctx->next_op_id++;
     ListNode *list_node = list_append(&ctx->op_list, &op);
     TRIE_ADD_ELEM(&ctx->op_tries[op.placement], op.name, ListNode*, list_node);
     trie_add_str(&ctx->keywords_trie, op.name);
diff --git a/src/engine/parsing/context.h b/src/engine/parsing/context.h
index 372fb4b..709421c 100644
--- a/src/engine/parsing/context.h
+++ b/src/engine/parsing/context.h
@@ -8,6 +8,7 @@ typedef struct
 {
     const Operator *glue_op;          // Points to a payload of a listnode of op_list
     LinkedList op_list;               // List of operators (payload: Operator)
+    size_t next_op_id;                // Id of next added operator, ids of deleted operators are not reused
     Trie op_tries[OP_NUM_PLACEMENTS]; // Tries for fast operator lookup (payload: *ListNode)
     Trie keywords_trie;               // Contains all names for keyword lookup in tokenizer (no payload)
 } ParsingContext;
-- 
2.43.0


From 5da11b37d653a81197d080bbc2361166ede60ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 07/42] fix: reject list-variables as function parameters

---
 src/client/commands/cmd_definition.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index f78014e..f5ac860 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -41,7 +41,9 @@ static bool do_left_checks(Node *left_n, int strlen)
     {
         for (size_t i = 0; i < num_children; i++)
         {
-            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
+            // List-variables are a concept of rewrite rules, they would bind any number of arguments
+            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE
+                || get_var_name(get_child(left_n, i))[0] == MATCHING_LIST_PREFIX)
             {
                 report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
                 return false;
-- 
2.43.0


From 5e29cad4d59d36c2b384718c186d1c4555b82788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 08/42] fix: load simplification independently of user-defined
 functions

---
 src/client/simplification/simplification.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 79acbb8..b61e63c 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -17,7 +17,8 @@
 #include "propositional_context.h"
 #include "propositional_evaluation.h"
 
-#define P(x) (parse_easy(g_ctx, x))
+// Don't use g_ctx since user-defined functions and constants must not be applied
+#define P(x) (parse_easy(g_propositional_ctx, x))
 #define NUM_RULESETS 7
 
 /*
-- 
2.43.0


From aebaf2fb4f715fa103c9f53d9e927985a619829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 09/42] fix: keep remaining factors when multiplying a power
 into a sum

---
 simplification.ruleset | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index e2732be..babc076 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -130,7 +130,7 @@ RULESET
     prod([xs], x^y, [ys], x, [zs])   -> prod([xs], x^sum(y,1), [ys], [zs])
     prod([xs], x^z, [ys], x^y, [zs]) -> prod([xs], x^sum(y,z), [ys], [zs])
 
-    prod([xs], sum([xxs], x^y, [yys]), [ys], x^z, [zs]) -> sum(prod([xs], sum([xxs], [yys]), [ys], x^z, [zs]), x^sum(y,z))
+    prod([xs], sum([xxs], x^y, [yys]), [ys], x^z, [zs]) -> sum(prod([xs], sum([xxs], [yys]), [ys], x^z, [zs]), prod([xs], [ys], x^sum(y,z), [zs]))
 
     # Trigonometrics
     sum([xs], cos(x)^2, [ys], sin(x)^2, [zs])   -> sum(1, [xs], [ys], [zs])
-- 
2.43.0


From 5f38dbec81ecd3274224cc884a88f91995dbe247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 10/42] fix: let gcd and lcm terminate in reasonable time for
 big operands and infinity

---
 src/client/core/arith_evaluation.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 5210760..147ef58 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -39,18 +39,14 @@ static double euclid(double a, double b)
     }
     else
     {
-        while (b != 0)
+        // Also terminates for NaN and infinity
+        while (b > 0)
         {
-            if (a > b)
-            {
-                a = a - b;
-            }
-            else
-            {
-                b = b - a;
-            }
+            double temp = fmod(a, b);
+            a = b;
+            b = temp;
         }
-        return a;
+        return isnan(b) ? b : a;
     }
 }
 
-- 
2.43.0


From 1b05c78750a30f6b65df41d28f2e88d3f8733834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 11/42] fix: let binomial coefficient be zero when k > n and
 terminate for big operands

---
 src/client/core/arith_evaluation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 147ef58..e8fbd47 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -56,10 +56,11 @@ static double binomial(double n, double k)
     k = fabs(trunc(k));
 
     if (k == 0) return 1;
+    if (k > n) return 0;
     if ((2 * k) > n) k = n - k;
     
     double res = 1;
-    for (double i = 1; i <= k; i++)
+    for (double i = 1; i <= k && isfinite(res); i++)
     {
         res = (res * (n - k + i)) / i;
     }
-- 
2.43.0


From f94c7a1b1f112d8eadde88779f490861670b4bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 12/42] fix: let factorial terminate for big operands

---
 src/client/core/arith_evaluation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index e8fbd47..d6582dd 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -175,7 +175,7 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             else
             {
                 double res = 1;
-                for (double i = trunc(args[0]); i > 1; i--)
+                for (double i = trunc(args[0]); i > 1 && isfinite(res); i--)
                 {
                     res *= i;
                 }
-- 
2.43.0


From 2c317e783a0399f5c75e74f2c12c53f0bba12bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 13/42] fix: compute fibonacci numbers iteratively to support
 any operand

---
 src/client/core/arith_evaluation.c | 31 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index d6582dd..25c7064 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -68,31 +68,30 @@ static double binomial(double n, double k)
     return res;
 }
 
-static long fib(long n)
+static double fib(double n)
 {
-    if (n == 0) return 0;
-    if (n == 1) return 1;
-    if (n == -1) return 1;
-    return fib(n - 1) + fib(n - 2); 
+    double curr = 0;
+    double next = 1;
+    for (double i = 0; i < n && isfinite(curr); i++)
+    {
+        double temp = curr + next;
+        curr = next;
+        next = temp;
+    }
+    return curr;
 }
 
 static double fibonacci(double n)
 {
-    long l = (long)n;
-    if (l < 0) // Generalization to negative numbers
+    n = trunc(n);
+    if (isnan(n)) return n;
+    if (n < 0 && fmod(n, 2) == 0) // Generalization to negative numbers
     {
-        if (l % 2 == 0)
-        {
-            return -fib(labs(l));
-        }
-        else
-        {
-            return fib(labs(l));
-        }
+        return -fib(-n);
     }
     else
     {
-        return fib(l);
+        return fib(fabs(n));
     }
 }
 
-- 
2.43.0


From 84ac3ce4a2277a6765bcde3aad65fd4d65a126f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 14/42] fix: avoid undefined conversions to integers in rand
 and history operator

---
 src/client/core/arith_evaluation.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 25c7064..4302afe 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include <time.h>
 #include <float.h>
+#include <limits.h>
 #include <math.h>
 
 #include "../../engine/tree/tree_util.h"
@@ -102,9 +103,9 @@ static double random_between(double min, double max)
 {
     min = trunc(min);
     max = trunc(max);
-    long diff = (long)(max - min);
-    if (diff < 1) return -1;
-    return rand() % diff + min;
+    double diff = max - min;
+    if (!(diff >= 1)) return -1;
+    return fmod(rand(), diff) + min;
 }
 
 ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const double *args, double *out)
@@ -116,7 +117,8 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             return LISTENERERR_SUCCESS;
         case 1: // @x
         {
-            bool res = history_get((int)args[0], out);
+            // Check range first since conversion to an integer is undefined for NaN and too big values
+            bool res = args[0] > -1 && args[0] < INT_MAX && history_get((size_t)args[0], out);
             if (res)
             {
                 return LISTENERERR_SUCCESS;
-- 
2.43.0


From 80217577305d9b6423ecdd702161c6bd7d1d9c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 15/42] fix: powers of negative numbers are complex if and only
 if exponent is not an integer

---
 src/client/core/arith_evaluation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 4302afe..8b9b4cf 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -152,7 +152,7 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             }
         case 8: // x^y
             if (args[0] == 0 && args[1] <= 0) return LISTENERERR_DIVISION_BY_ZERO;
-            if (args[0] < 0 && args[1] < 1) return LISTENERERR_COMPLEX_SOLUTION;
+            if (args[0] < 0 && args[1] != trunc(args[1])) return LISTENERERR_COMPLEX_SOLUTION;
             *out = pow(args[0], args[1]);
             return LISTENERERR_SUCCESS;
         case 9: // x C y
-- 
2.43.0


From 43de1bb21ab5144f2aea606c8b7a20585f251fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:17 +0000
Subject: [PATCH 16/42] fix: report malformed simplification ruleset as error
 and free its partially loaded rules

---
 src/client/commands/cmd_load.c             |  5 +++++
 src/client/simplification/simplification.c | 15 +++++++++------
 src/engine/transformation/rule_parsing.c   |  4 +++-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index 6098053..6d64c88 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -32,6 +32,11 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
             report_error("File not found or readable\n");
             return false;
         }
+        else if (count < 0)
+        {
+            report_error("Error in simplification ruleset\n");
+            return false;
+        }
         else
         {
             whisper("Successfully loaded simplification (%ld rules)\n", count);
diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index b61e63c..a52e455 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -83,16 +83,19 @@ ssize_t init_simplification(const char *ruleset_path)
         rulesets[i] = get_empty_ruleset();
     }
     ssize_t num_rulesets = parse_rulesets_from_file(ruleset_file, g_propositional_ctx, NUM_RULESETS, rulesets);
-    if (num_rulesets == -1)
-    {
-        return -2;
-    }
+    fclose(ruleset_file);
     if (num_rulesets != NUM_RULESETS)
     {
-        report_error("Too few simplification rulesets defined in %s.\n", ruleset_path);
+        if (num_rulesets != -1)
+        {
+            report_error("Too few simplification rulesets defined in %s.\n", ruleset_path);
+        }
+        for (size_t i = 0; i < NUM_RULESETS; i++)
+        {
+            free_ruleset(&rulesets[i]);
+        }
         return -2;
     }
-    fclose(ruleset_file);
 
     get_pattern(P("x'"), 0, NULL, &deriv_before);
     deriv_after = P("deriv(x, z)");
diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 220a2c5..71ea808 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -218,11 +218,13 @@ ssize_t parse_rulesets_from_file(FILE *file,
 
         if (curr_ruleset != -1)
         {
-            if (!parse_rule(line, ctx, vec_push_empty(&out_rulesets[curr_ruleset])))
+            RewriteRule rule;
+            if (!parse_rule(line, ctx, &rule))
             {
                 report_error("Error occurred in line %zu: %s.\n", line_index, line);
                 goto error;
             }
+            add_to_ruleset(&out_rulesets[curr_ruleset], rule);
         }
         else
         {
-- 
2.43.0


From b8eb120f111b79fcacd21f39425df41b0f897b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:17 +0000
Subject: [PATCH 17/42] fix: do not match bound list-variable with more
 operands than available

---
 src/engine/transformation/matching.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index 5f7d6b2..d55e90f 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -131,6 +131,11 @@ static void match_parameter_lists(
                 if (list->nodes != NULL && new_sum + 1 <= num_tree_children)
                 {
                     // List is already bound, thus also its length is bound
+                    if (list->size > num_tree_children - new_sum)
+                    {
+                        curr_index++;
+                        continue;
+                    }
                     VEC_PUSH_ELEM(&vec_suffixes, SuffixNode, ((SuffixNode){
                         .first_match_index = SIZE_MAX,
                         .num_matchings     = 0,
-- 
2.43.0


From a6ad82c4223fd994e9bddd666e9c985b6fba5dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:40 +0000
Subject: [PATCH 18/42] fix: keep loaded simplification when loading another
 one fails

---
 src/client/commands/cmd_load.c             |  1 -
 src/client/simplification/simplification.c | 11 ++++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index 6d64c88..a22e947 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -25,7 +25,6 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
     if (begins_with(LOAD_SIMPLIFICATION, input))
     {
         input += strlen(LOAD_SIMPLIFICATION);
-        unload_simplification();
         ssize_t count = init_simplification(input);
         if (count == -1)
         {
diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index a52e455..a7360b8 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -78,11 +78,12 @@ ssize_t init_simplification(const char *ruleset_path)
 
     if (ruleset_file == NULL) return -1;
 
+    Vector new_rulesets[NUM_RULESETS];
     for (size_t i = 0; i < NUM_RULESETS; i++)
     {
-        rulesets[i] = get_empty_ruleset();
+        new_rulesets[i] = get_empty_ruleset();
     }
-    ssize_t num_rulesets = parse_rulesets_from_file(ruleset_file, g_propositional_ctx, NUM_RULESETS, rulesets);
+    ssize_t num_rulesets = parse_rulesets_from_file(ruleset_file, g_propositional_ctx, NUM_RULESETS, new_rulesets);
     fclose(ruleset_file);
     if (num_rulesets != NUM_RULESETS)
     {
@@ -92,11 +93,15 @@ ssize_t init_simplification(const char *ruleset_path)
         }
         for (size_t i = 0; i < NUM_RULESETS; i++)
         {
-            free_ruleset(&rulesets[i]);
+            free_ruleset(&new_rulesets[i]);
         }
         return -2;
     }
 
+    // Discard previously loaded rulesets only if nothing went wrong
+    unload_simplification();
+    memcpy(rulesets, new_rulesets, sizeof(rulesets));
+
     get_pattern(P("x'"), 0, NULL, &deriv_before);
     deriv_after = P("deriv(x, z)");
     parse_pattern("deriv(x, y) WHERE type(y) != VAR", g_propositional_ctx, &malformed_deriv);
-- 
2.43.0


From 910a778a1bd0aed2cccc2a11c1b8f5b574d0e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:40 +0000
Subject: [PATCH 19/42] fix: reject rules with too many constraints instead of
 ignoring surplus ones

---
 src/engine/transformation/rule_parsing.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 71ea808..9fa132e 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -63,11 +63,14 @@ bool parse_constraints(const char *string,
         out_constraints[*num_constraints] = parse_easy(ctx, str);
         if (out_constraints[*num_constraints] == NULL) goto error;
         (*num_constraints)++;
-        if (*num_constraints == buffer_size) goto success;
         str = next_and;
+        if (str != NULL && *num_constraints == buffer_size)
+        {
+            report_pattern_errcode(MATCHING_MAX_CONSTRAINTS_EXCEEDED);
+            goto error;
+        }
     }
 
-    success:
     free(str_cpy);
     return true;
     error:
-- 
2.43.0


From 6c53221ad704525a351dbe0c613c315b6c6d42ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:40 +0000
Subject: [PATCH 20/42] fix: consider correct borders when computing width of
 spanning cell

---
 src/table/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/table.c b/src/table/table.c
index 8c11ce9..c5f4b51 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -235,7 +235,7 @@ static size_t get_total_width(const Table *table, const size_t *col_widths, stru
     size_t sum = 0;
     for (size_t i = 0; i < cell->span_x; i++)
     {
-        if (i != 0 && table->border_left_counters[cell->x + i + 1] > 0) sum++;
+        if (i != 0 && table->border_left_counters[cell->x + i] > 0) sum++;
         sum += col_widths[cell->x + i];
     }
     return sum;
-- 
2.43.0


From 8fd1fbcb9a4eb1b2a6c3965d02bb4ac1b7fda4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:40 +0000
Subject: [PATCH 21/42] fix: do not skip empty first line of string

---
 src/util/string_util.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index 0636a00..93d1840 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -96,18 +96,13 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
     // Search for start of line
     if (line_index > 0)
     {
-        while (*string != '\0')
+        while (*string != '\0' && line_index > 0)
         {
-            string++;
             if (*string == '\n')
             {
                 line_index--;
-                if (line_index == 0)
-                {
-                    string++;
-                    break;
-                }
             }
+            string++;
         }
     }
 
-- 
2.43.0


From 41f481008525092f307cfebdd44405c3d33adfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:40 +0000
Subject: [PATCH 22/42] fix: skip consecutive escape sequences and do not read
 past unterminated ones

---
 src/util/string_util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index 93d1840..2119983 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -125,10 +125,11 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
 
 char *skip_ansi(const char *str)
 {
-    if (*str == ESC_START)
+    while (*str == ESC_START)
     {
         while (*str != ESC_END)
         {
+            if (*str == '\0') return (char*)str;
             str++;
         }
         str++;
-- 
2.43.0


From 04bb53ef42e4d511fa2856cd773c0c82b905121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:08 +0000
Subject: [PATCH 23/42] fix: treat quit, comments and empty commands supplied
 by --commands as if typed in

---
 src/client/commands/commands.c | 20 ++++++++++++--------
 src/client/commands/commands.h |  1 +
 src/client/main.c              |  4 ++++
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/client/commands/commands.c b/src/client/commands/commands.c
index 2721442..c026519 100644
--- a/src/client/commands/commands.c
+++ b/src/client/commands/commands.c
@@ -85,7 +85,7 @@ void init_commands()
 }
 
 /*
-Summary: Loop to ask user or file for command, ignores comments
+Summary: Loop to ask user or file for command
     You may want to call set_interactive before.
 Returns: True when no command exited with an error, false otherwise
 */
@@ -95,17 +95,14 @@ bool process_input(FILE *file)
     char *input = NULL;
     while (ask_input(file, &input, NULL))
     {
-        if (strcmp(input, QUIT_COMMAND) == 0)
+        if (is_quit_command(input))
         {
             free(input);
             exit(res ? EXIT_SUCCESS : EXIT_FAILURE);
         }
-        if (input[0] != '\0' && input[0] != COMMENT_PREFIX)
+        if (!exec_command(input))
         {
-            if (!exec_command(input))
-            {
-                res = false;
-            }
+            res = false;
         }
         free(input);
     }
@@ -114,12 +111,19 @@ bool process_input(FILE *file)
     return res;
 }
 
+bool is_quit_command(const char *input)
+{
+    return strcmp(input, QUIT_COMMAND) == 0;
+}
+
 /*
-Summary: Tries to apply a command to input.
+Summary: Tries to apply a command to input, ignores comments and empty input.
     First command whose check-function does not return 0 is executed.
 */
 bool exec_command(char *input)
 {
+    if (input[0] == '\0' || input[0] == COMMENT_PREFIX) return true;
+
     for (size_t i = 0; i < NUM_COMMANDS; i++)
     {
         int check_code = commands[i].check_handler(input);
diff --git a/src/client/commands/commands.h b/src/client/commands/commands.h
index 72e4b2d..9e530f7 100644
--- a/src/client/commands/commands.h
+++ b/src/client/commands/commands.h
@@ -5,4 +5,5 @@
 void init_commands();
 void unload_commands();
 bool process_input(FILE *file);
+bool is_quit_command(const char *input);
 bool exec_command(char *input);
diff --git a/src/client/main.c b/src/client/main.c
index 7fbbe5f..a4ab611 100644
--- a/src/client/main.c
+++ b/src/client/main.c
@@ -114,6 +114,10 @@ int main(int argc, char **argv)
     {
         for (int i = commands_index + 1; i < argc; i++)
         {
+            if (is_quit_command(argv[i]))
+            {
+                return EXIT_SUCCESS;
+            }
             if (!exec_command(argv[i]))
             {
                 report_error("Error occurred in command %d\n", i - commands_index);
-- 
2.43.0


From 3a6cdf5bc000835ad51e56a788d1beace506bdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:08 +0000
Subject: [PATCH 24/42] fix: let load command fail when a command in the loaded
 file fails

---
 src/client/commands/cmd_load.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index a22e947..6cec457 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -55,9 +55,9 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
         
         // Set g_interactive to false to read with getline from file
         bool interactive = set_interactive(false);
-        process_input(file);
+        bool res = process_input(file);
         set_interactive(interactive);
         fclose(file);
-        return true;
+        return res;
     }
 }
-- 
2.43.0


From 690bd06113a15e8a4a2c3c52c6103acfc679b764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:08 +0000
Subject: [PATCH 25/42] fix: do not treat expressions starting with 'clear' as
 clear command

---
 src/client/commands/cmd_clear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/commands/cmd_clear.c b/src/client/commands/cmd_clear.c
index aed56c2..793c7a6 100644
--- a/src/client/commands/cmd_clear.c
+++ b/src/client/commands/cmd_clear.c
@@ -13,7 +13,7 @@
 int cmd_clear_check(const char *input)
 {
     if (strcmp(CLEAR_COMMAND, input) == 0) return CLEAR_CODE;
-    if (begins_with(CLEAR_COMMAND, input)) return UNDEF_CODE;
+    if (begins_with(CLEAR_COMMAND " ", input)) return UNDEF_CODE;
     return false;
 }
 
-- 
2.43.0


From f011ace35637af83dae3350d1fe1fff46591ac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:23 +0000
Subject: [PATCH 26/42] fix: consider all failed commands in exit code when
 quitting within a loaded file

---
 src/client/commands/commands.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/commands/commands.c b/src/client/commands/commands.c
index c026519..0d93dcc 100644
--- a/src/client/commands/commands.c
+++ b/src/client/commands/commands.c
@@ -38,6 +38,9 @@ struct Command
     bool (*exec_handler)(char *input, int check_code);
 };
 
+// Affects exit code when quitting within a loaded file
+static bool any_command_failed = false;
+
 static const size_t NUM_COMMANDS = 6;
 static const struct Command commands[] = {
     { cmd_help_check,       cmd_help_exec },
@@ -98,11 +101,12 @@ bool process_input(FILE *file)
         if (is_quit_command(input))
         {
             free(input);
-            exit(res ? EXIT_SUCCESS : EXIT_FAILURE);
+            exit(any_command_failed ? EXIT_FAILURE : EXIT_SUCCESS);
         }
         if (!exec_command(input))
         {
             res = false;
+            any_command_failed = true;
         }
         free(input);
     }
-- 
2.43.0


From ea195e39a0ae74b06a91de0c4840a443730f597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:55 +0000
Subject: [PATCH 27/42] fix: report wrong arity of nested function call at
 function

---
 src/engine/parsing/parser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index 5ddfa99..6e5e398 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -220,8 +220,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             {
                 if (!op_pop_and_insert(&state))
                 {
-                    state.curr_tok = i;
-                    ERROR(PERR_UNEXPECTED_CLOSING_PAREN);
+                    goto exit;
                 }
             }
             
-- 
2.43.0


From f69c8b9d2b136b54806d2c3ffafad275a80cd944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:15 +0000
Subject: [PATCH 28/42] fix: do not let simplification eliminate constant parts
 that can not be evaluated

---
 src/client/simplification/simplification.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index a7360b8..f4f3a9b 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -213,6 +213,9 @@ ListenerError simplify(Node **tree, const Node **errnode)
     // It's okay if simplification module is not initialized, just return without doing much
     if (!initialized) return res;
 
+    // Simplification must not eliminate constant parts that can not be evaluated, except derivatives
+    if (res != LISTENERERR_SUCCESS && res != LISTENERERR_IMPOSSIBLE_DERIV) return res;
+
     // Apply elimination rules
     simplify_without_derivative(tree);
     res = apply_derivatives(tree, errnode);
-- 
2.43.0


From 0a6e726d9e6cd644d2d03698448e39f8e6ba75f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:02 +0000
Subject: [PATCH 29/42] fix: negate both summands when pulling minus into sum

---
 simplification.ruleset | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index babc076..2bcd924 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -176,7 +176,7 @@ RULESET
     x^(-y)        -> 1/(x^y)
     x^0.5         -> sqrt(x)
     x^1           -> x
-    -(x+y)        -> x-y
+    -(x+y)        -> -x-y
     (-1)*x        -> -x
 
     x*(y/z)       -> (y*x)/z       WHERE type(y) == CONST
-- 
2.43.0


From ea12ed65396399f375442c866aa29f5c5ad7ef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:28 +0000
Subject: [PATCH 30/42] fix: reduce constant subtrees next to or below ones
 that can not be reduced

---
 src/engine/tree/tree_util.c | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/engine/tree/tree_util.c b/src/engine/tree/tree_util.c
index 23d2484..461910b 100644
--- a/src/engine/tree/tree_util.c
+++ b/src/engine/tree/tree_util.c
@@ -418,29 +418,28 @@ Summary: Replaces reducible subtrees by a ConstantNode
 Params:
     tree:            Tree that will be changed
     listener:        Compositional evaluation function
+Returns: First error that occurred, in which case all other subtrees are still reduced
 */
 ListenerError tree_reduce_constant_subtrees(Node **tree, TreeListener listener, const Node **out_errnode)
 {
-    if (count_all_variable_nodes(*tree) == 0)
-    {
-        double res;
-        ListenerError err = tree_reduce(*tree, listener, &res, out_errnode);
-        if (err != LISTENERERR_SUCCESS) return err;
-        Node *replacement = malloc_constant_node(res, get_token_index(*tree));
-        tree_replace(tree, replacement);
-    }
-    else
+    if (get_type(*tree) != NTYPE_OPERATOR) return LISTENERERR_SUCCESS;
+
+    // Reduce all children, even if one of them can not be reduced
+    ListenerError err = LISTENERERR_SUCCESS;
+    bool reducible = true;
+    for (size_t i = 0; i < get_num_children(*tree); i++)
     {
-        if (get_type(*tree) == NTYPE_OPERATOR)
-        {
-            for (size_t i = 0; i < get_num_children(*tree); i++)
-            {
-                ListenerError err = tree_reduce_constant_subtrees(get_child_addr(*tree, i), listener, out_errnode);
-                if (err != LISTENERERR_SUCCESS) return err;
-            }
-        }
+        ListenerError child_err = tree_reduce_constant_subtrees(get_child_addr(*tree, i), listener,
+            err == LISTENERERR_SUCCESS ? out_errnode : NULL);
+        if (err == LISTENERERR_SUCCESS) err = child_err;
+        if (get_type(get_child(*tree, i)) != NTYPE_CONSTANT) reducible = false;
     }
+    if (!reducible) return err;
 
+    double res;
+    err = tree_reduce(*tree, listener, &res, out_errnode);
+    if (err != LISTENERERR_SUCCESS) return err;
+    tree_replace(tree, malloc_constant_node(res, get_token_index(*tree)));
     return LISTENERERR_SUCCESS;
 }
 
-- 
2.43.0


From 580ad0477f34bec7b3367bda88d75180960e41d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:08 +0000
Subject: [PATCH 31/42] fix: differentiate quotients and roots, which remain
 after simplification

---
 simplification.ruleset | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simplification.ruleset b/simplification.ruleset
index 2bcd924..d48d824 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -35,6 +35,9 @@ RULESET
     deriv(x + y, z)     -> deriv(x, z) + deriv(y, z)
     deriv(x - y, z)     -> deriv(x, z) - deriv(y, z)
     deriv(x*y, z)       -> deriv(x, z)*y + x*deriv(y, z)
+    deriv(x/y, z)       -> deriv(x*y^(-1), z)
+    deriv(sqrt(x), z)   -> deriv(x^0.5, z)
+    deriv(root(x, y), z) -> deriv(x^(1/y), z)
     deriv(sin(x), z)    -> cos(x) * deriv(x, z)
     deriv(cos(x), z)    -> -sin(x) * deriv(x, z)
     deriv(tan(x), z)    -> deriv(x, z) * cos(x)^-2
-- 
2.43.0


From a20fc1cfe1cd343b1b7e729ec12a40fc0dfd0ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:23 +0000
Subject: [PATCH 32/42] fix: do not read uninitialized variable name in tables
 of constant expressions

---
 src/client/commands/cmd_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index ec0375a..0e20c56 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -79,7 +79,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
         goto exit;
     }
 
-    const char *var;
+    const char *var = NULL;
     bool sufficient = false;
     size_t num_vars = list_variables(expr, 1, &var, &sufficient);
     if (!sufficient)
-- 
2.43.0


From 2641a9856b1ad9ebdd6fc4029ed03acf052bd2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:06 +0000
Subject: [PATCH 33/42] fix: do not write past buffer when ruleset file
 contains surplus ruleset headers

---
 src/engine/transformation/rule_parsing.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 9fa132e..7c9cc48 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -207,16 +207,11 @@ ssize_t parse_rulesets_from_file(FILE *file,
 
         if (begins_with(RULESET, line))
         {
+            if (curr_ruleset + 1 == (ssize_t)buffer_size) break; // Buffer is full
             curr_ruleset++;
             continue;
         }
 
-        if (curr_ruleset == (ssize_t)buffer_size)
-        {
-            curr_ruleset--; // Adjusted for right return value
-            break;          // Buffer is full
-        }
-
         if (line[0] == '\0') continue;
 
         if (curr_ruleset != -1)
-- 
2.43.0


From c54dbf00b92bf18b976b81c84fca5826cb7df21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:31 +0000
Subject: [PATCH 34/42] fix: reject rules whose constraints contain variables
 unknown to the pattern

---
 src/engine/transformation/matching.c     | 11 ++++++++++-
 src/engine/transformation/matching.h     |  1 +
 src/engine/transformation/rule_parsing.c |  3 +++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index d55e90f..40ef5b9 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -376,6 +376,7 @@ Summary: - Sets ids of variable nodes for faster lookup while matching
 Returns:  0 if success
          -1 if MAX_MAPPED_VARS exceeded
          -2 if MATCHING_MAX_CONSTRAINTS exceeded
+         -3 if constraint contains variable that does not occur in tree
 */
 int get_pattern(Node *tree, size_t num_constraints, Node **constrs, Pattern *out_pattern)
 {
@@ -400,14 +401,22 @@ int get_pattern(Node *tree, size_t num_constraints, Node **constrs, Pattern *out
         tree_copy_IDs(constrs[i], num_free_vars, free_vars);
 
         size_t max_id = 0;
+        size_t num_bound_nodes = 0;
         for (size_t j = 0; j < num_free_vars; j++)
         {
-            if (get_variable_nodes((const Node**)&constrs[i], free_vars[j], 0, NULL) != 0)
+            size_t num_nodes = get_variable_nodes((const Node**)&constrs[i], free_vars[j], 0, NULL);
+            if (num_nodes != 0)
             {
                 max_id = j;
+                num_bound_nodes += num_nodes;
             }
         }
 
+        if (num_bound_nodes != count_all_variable_nodes(constrs[i]))
+        {
+            return MATCHING_UNBOUNDED_CONSTRAINT;
+        }
+
         if ((*out_pattern).num_constraints[max_id] == MATCHING_MAX_CONSTRAINTS)
         {
             return MATCHING_MAX_CONSTRAINTS_EXCEEDED;
diff --git a/src/engine/transformation/matching.h b/src/engine/transformation/matching.h
index 308f5d8..14f455e 100644
--- a/src/engine/transformation/matching.h
+++ b/src/engine/transformation/matching.h
@@ -8,6 +8,7 @@
 
 #define MAX_MAPPED_VARS_EXCEEDED          -1
 #define MATCHING_MAX_CONSTRAINTS_EXCEEDED -2
+#define MATCHING_UNBOUNDED_CONSTRAINT     -3
 
 typedef struct
 {
diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 7c9cc48..2fd5b87 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -30,6 +30,9 @@ void report_pattern_errcode(int err_code)
             return;
         case MATCHING_MAX_CONSTRAINTS_EXCEEDED:
             report_error("Trying to preprocess a pattern with too many constraints. Increase MATCHING_MAX_CONSTRAINTS.\n");
+            return;
+        case MATCHING_UNBOUNDED_CONSTRAINT:
+            report_error("Unbounded variable in constraint.\n");
     }
 }
 
-- 
2.43.0


From 374e1322a866901b504ac4773ffbcae8186294eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:17 +0000
Subject: [PATCH 35/42] fix: check constraints of patterns without variables

---
 src/engine/transformation/matching.c | 35 +++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index 40ef5b9..43aaee3 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -211,6 +211,20 @@ static bool nodelists_equal(const NodeList *a, const NodeList *b)
     return true;
 }
 
+// Checks constraints that are triggered by binding variable with passed id
+static bool check_constraints(MatchingContext *ctx, const Matching *matching, size_t id)
+{
+    for (size_t i = 0; i < ctx->pattern->num_constraints[id]; i++)
+    {
+        Node *constr_cpy = tree_copy(ctx->pattern->constraints[id][i]);
+        transform_by_matching(matching, &constr_cpy);
+        bool res = ctx->checker(&constr_cpy);
+        free_tree(constr_cpy);
+        if (!res) return false;
+    }
+    return true;
+}
+
 static void extend_matching(
     MatchingContext *ctx,
     Matching matching,
@@ -239,14 +253,7 @@ static void extend_matching(
                 matching.mapped_nodes[id] = tree_list;
 
                 // Check constraints if its okay to bind
-                for (size_t i = 0; i < ctx->pattern->num_constraints[id]; i++)
-                {
-                    Node *constr_cpy = tree_copy(ctx->pattern->constraints[id][i]);
-                    transform_by_matching(&matching, &constr_cpy);
-                    bool res = ctx->checker(&constr_cpy);
-                    free_tree(constr_cpy);
-                    if (!res) return;
-                }
+                if (!check_constraints(ctx, &matching, id)) return;
 
                 vec_push(out_matchings, &matching);
                 return;
@@ -309,7 +316,17 @@ size_t get_all_matchings(const Node **tree, const Pattern *pattern, ConstraintCh
         pattern->pattern,
         (NodeList){ .size = 1, .nodes = tree },
         &result);
-    
+
+    // If pattern does not contain any variables, constraints have not been triggered yet
+    if (vec_count(&result) > 0)
+    {
+        const Matching *first = (const Matching*)vec_get(&result, 0);
+        if (first->mapped_nodes[0].nodes == NULL && !check_constraints(&ctx, first, 0))
+        {
+            vec_clear(&result);
+        }
+    }
+
     if (out_matchings != NULL)
     {
         *out_matchings = (Matching*)result.buffer;
-- 
2.43.0


From b4692dd8dd7fb0615d9b8ad3a459b04d24de2280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:48:09 +0000
Subject: [PATCH 36/42] fix: reject rules that would replace a list-variable
 within an operator of fixed arity

---
 src/engine/transformation/rule_parsing.c | 28 ++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 2fd5b87..d98d11f 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -36,6 +36,24 @@ void report_pattern_errcode(int err_code)
     }
 }
 
+// A list of any length can only replace a parameter of an operator that takes any number of parameters
+static bool lists_are_replaceable(const Node *tree, bool is_in_dynamic_op)
+{
+    switch (get_type(tree))
+    {
+        case NTYPE_VARIABLE:
+            return is_in_dynamic_op || get_var_name(tree)[0] != MATCHING_LIST_PREFIX;
+        case NTYPE_OPERATOR:
+            for (size_t i = 0; i < get_num_children(tree); i++)
+            {
+                if (!lists_are_replaceable(get_child(tree, i), get_op(tree)->arity == OP_DYNAMIC_ARITY)) return false;
+            }
+            return true;
+        default:
+            return true;
+    }
+}
+
 // string: without "WHERE"
 bool parse_constraints(const char *string,
     const ParsingContext *ctx,
@@ -66,6 +84,11 @@ bool parse_constraints(const char *string,
         out_constraints[*num_constraints] = parse_easy(ctx, str);
         if (out_constraints[*num_constraints] == NULL) goto error;
         (*num_constraints)++;
+        if (!lists_are_replaceable(out_constraints[*num_constraints - 1], false))
+        {
+            report_error("List-variable in constraint as parameter of operator with fixed arity.\n");
+            goto error;
+        }
         str = next_and;
         if (str != NULL && *num_constraints == buffer_size)
         {
@@ -163,6 +186,11 @@ bool parse_rule(const char *string, const ParsingContext *ctx, RewriteRule *out_
     {
         goto error;
     }
+    if (!lists_are_replaceable(right_n, false))
+    {
+        report_error("List-variable in righthand side of rule as parameter of operator with fixed arity.\n");
+        goto error;
+    }
 
     Pattern pattern;
     int err_code = get_pattern(left_n, num_constrs, constrs, &pattern);
-- 
2.43.0


From 94b8833663034c26817d3f60e61378a6921cc0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:17:44 +0000
Subject: [PATCH 37/42] fix: count characters instead of bytes when laying out
 table cells

---
 src/table/table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/table/table.c b/src/table/table.c
index c5f4b51..ef8521a 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -117,8 +117,9 @@ size_t console_strlen(const char *str)
     str = skip_ansi(str);
     while (*str != '\0' && *str != '\n')
     {
+        // Continuation bytes of UTF-8 sequences do not occupy a column of their own
+        if ((*str & 0xC0) != 0x80) res++;
         str = skip_ansi(str + 1);
-        res++;
     }
     return res;
 }
-- 
2.43.0


From e8ef11268ec8e8fef8c79f5ff3fbb45f8ad17bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:18:17 +0000
Subject: [PATCH 38/42] fix: truncate clashing spans of table cells to the
 rectangle left of or above the clash

---
 src/table/table.c | 50 ++++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/table/table.c b/src/table/table.c
index ef8521a..201e788 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -951,12 +951,32 @@ void set_span(Table *table, size_t span_x, size_t span_y)
     assert(cell->span_x == 1);
     assert(cell->span_y == 1);
 
+    // If span clashes with already set cells, truncate it
+    struct Row *row = table->curr_row;
+    for (size_t i = 0; i < span_y && row != NULL; i++)
+    {
+        for (size_t j = 0; j < span_x; j++)
+        {
+            if ((i == 0 && j == 0) || !row->cells[cell->x + j].is_set) continue;
+            if (i == 0)
+            {
+                span_x = j;
+            }
+            else
+            {
+                span_y = i;
+            }
+            break;
+        }
+        row = row->next_row;
+    }
+
     cell->span_x = span_x;
     cell->span_y = span_y;
     table->num_cols = MAX(table->curr_col + span_x, table->num_cols);
 
     // Inserts rows and sets child cells
-    struct Row *row = table->curr_row;
+    row = table->curr_row;
     for (size_t i = 0; i < span_y; i++)
     {
         for (size_t j = 0; j < span_x; j++)
@@ -964,28 +984,18 @@ void set_span(Table *table, size_t span_x, size_t span_y)
             if (i == 0 && j == 0) continue;
             struct Cell *child = &row->cells[cell->x + j];
 
-            if (!child->is_set)
+            child->is_set = true;
+            child->parent = cell;
+
+            if (j != 0)
             {
-                child->is_set = true;
-                child->parent = cell;
-                
-                if (j != 0)
-                {
-                    child->border_left = BORDER_NONE;
-                    child->override_border_left = true;
-                }
-                if (i != 0)
-                {
-                    child->border_above = BORDER_NONE;
-                    child->override_border_above = true;
-                }
+                child->border_left = BORDER_NONE;
+                child->override_border_left = true;
             }
-            else
+            if (i != 0)
             {
-                // Span clashes with already set cell, truncate it and finalize method
-                cell->span_y = i;
-                cell->span_x = j;
-                return;
+                child->border_above = BORDER_NONE;
+                child->override_border_above = true;
             }
         }
 
-- 
2.43.0


From fe69e4697419cd74c9889b988823ae555e97b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:26:20 +0000
Subject: [PATCH 39/42] fix: let load command fail if file can be opened but
 not read

---
 src/client/commands/cmd_load.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index 6cec457..6a7d17c 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -57,6 +57,11 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
         bool interactive = set_interactive(false);
         bool res = process_input(file);
         set_interactive(interactive);
+        if (ferror(file)) // E.g. file is a directory
+        {
+            report_error("Error loading file: %s\n", strerror(errno));
+            res = false;
+        }
         fclose(file);
         return res;
     }
-- 
2.43.0


From 6ebe94ce1b88c9adb7f824bf35b3773ffa6cd60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:46:43 +0000
Subject: [PATCH 40/42] fix: keep message and marker of table errors on one
 line

report_error_at appends the line break itself. With a second one in the
message, a marker placed right of its message ended up on the next line,
at a column unrelated to the argument.
---
 src/client/commands/cmd_table.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index 0e20c56..f324231 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -84,7 +84,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
     size_t num_vars = list_variables(expr, 1, &var, &sufficient);
     if (!sufficient)
     {
-        report_error_at(args[0] - input, strlen(args[0]), "Error: More than one variable\n");
+        report_error_at(args[0] - input, strlen(args[0]), "Error: More than one variable");
         goto exit;
     }
 
@@ -108,7 +108,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
 
     if (step_val == 0)
     {
-        report_error_at(args[3] - input, strlen(args[3]), "Error: 'step' must not be zero\n");
+        report_error_at(args[3] - input, strlen(args[3]), "Error: 'step' must not be zero");
         goto exit;
     }
 
@@ -128,7 +128,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
             - get_variable_nodes((const Node**)&fold_expr, FOLD_VAR_2, 0, NULL) != 0)
         {
             report_error_at(args[4] - input, strlen(args[4]),
-                "Error: Fold expression must not contain any variables except '" FOLD_VAR_1 "' and '" FOLD_VAR_2 "'\n");
+                "Error: Fold expression must not contain any variables except '" FOLD_VAR_1 "' and '" FOLD_VAR_2 "'");
             goto exit;
         }
 
-- 
2.43.0


From cd8309602d2867fe9ca0cc572481f3e4358595ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 41/42] fix: calculate binomial coefficients exactly while the
 result is representable

---
 src/client/core/arith_evaluation.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 8b9b4cf..bd7f1a5 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -63,7 +63,9 @@ static double binomial(double n, double k)
     double res = 1;
     for (double i = 1; i <= k && isfinite(res); i++)
     {
-        res = (res * (n - k + i)) / i;
+        // Cancel common factor first: The product could exceed the range of exact integers although the result does not
+        double gcd = euclid(res, i);
+        res = (res / gcd) * ((n - k + i) / (i / gcd));
     }
     
     return res;
-- 
2.43.0


From 795880e0b7f924024b53f017a7340a8d3e70cff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 42/42] fix: calculate least common multiples exactly while the
 result is representable

---
 src/client/core/arith_evaluation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index bd7f1a5..9e17c2c 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -333,7 +333,8 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             *out = euclid(args[0], args[1]);
             return LISTENERERR_SUCCESS;
         case 47: // lcm(x, y)
-            *out = fabs(trunc(args[0]) * trunc(args[1])) / euclid(args[0], args[1]);
+            // Divide first: The product could exceed the range of exact integers although the result does not
+            *out = fabs((trunc(args[0]) / euclid(args[0], args[1])) * trunc(args[1]));
             return LISTENERERR_SUCCESS;
         case 48: // rand(x, y)
             *out = random_between(args[0], args[1]);
-- 
2.43.0

