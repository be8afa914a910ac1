From 3faf1a6544f1ab8ee903e1e9bdeb47be75048f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:10 +0000
Subject: [PATCH 01/53] fix: delimiter within nested parentheses dereferenced a
 NULL operator

'((1,2' crashed: the operator below the innermost parenthesis can be
another parenthesis, for which op is NULL.
---
 src/engine/parsing/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index faf3a6c..16b416b 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -277,7 +277,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             if (vec_count(&state.vec_ops) > 1)
             {
                 struct OpData *op_data = ((struct OpData*)vec_get(&state.vec_ops, vec_count(&state.vec_ops) - 2));
-                if (op_data->op->placement == OP_PLACE_FUNCTION)
+                if (op_data->op != NULL && op_data->op->placement == OP_PLACE_FUNCTION)
                 {
                     op_data->arity++;
                 }
-- 
2.43.0


From 98843e4f996e4a33a4c9627a5984cacbc828c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:10 +0000
Subject: [PATCH 02/53] fix: operator without right operand was accepted before
 a closing parenthesis

'2*sum(3*)' was parsed as '(2*3)*sum()': the dangling operator took its
operand from outside of the parameter list.
---
 src/engine/parsing/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index 16b416b..72c7db8 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -209,6 +209,12 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
         // III. Is token closing parenthesis or argument delimiter?
         if (is_closing_parenthesis(token))
         {
+            // An operator directly before the parenthesis still lacks its right operand, e.g. 'x*sum(-)'
+            if (!await_infix && op_peek(&state) != NULL && op_peek(&state)->op != NULL)
+            {
+                ERROR(PERR_UNEXPECTED_CLOSING_PAREN);
+            }
+
             // Pop ops until opening parenthesis on op-stack
             while (op_peek(&state) != NULL && op_peek(&state)->op != NULL)
             {
-- 
2.43.0


From 36ee2ed853fa34ffb42700017439c086fc747543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:11 +0000
Subject: [PATCH 03/53] fix: get_line_of_string missed a newline at the start
 of the string

---
 src/util/string_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index 0636a00..f2587ca 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -98,7 +98,6 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
     {
         while (*string != '\0')
         {
-            string++;
             if (*string == '\n')
             {
                 line_index--;
@@ -108,6 +107,7 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
                     break;
                 }
             }
+            string++;
         }
     }
 
-- 
2.43.0


From abb7f7319aa330c0c27c98d542b35473672dadfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:11 +0000
Subject: [PATCH 04/53] fix: skip_ansi skipped only one of several color codes
 and ran past the end of the string

---
 src/util/string_util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index f2587ca..fc70bf3 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -130,13 +130,13 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
 
 char *skip_ansi(const char *str)
 {
-    if (*str == ESC_START)
+    while (*str == ESC_START)
     {
-        while (*str != ESC_END)
+        while (*str != ESC_END && *str != '\0')
         {
             str++;
         }
-        str++;
+        if (*str == ESC_END) str++;
     }
     return (char*)str;
 }
-- 
2.43.0


From 572994338672ef7dafbdeebd85cac2a1b648b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:50 +0000
Subject: [PATCH 05/53] fix: strip wrote before the start of a string of spaces

---
 src/util/string_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index fc70bf3..342f4ca 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -149,7 +149,7 @@ char *strip(char *str)
     char *res = str;
     while (*res == ' ') res++;
     str = &str[len - 1];
-    while (*str == ' ')
+    while (str > res && *str == ' ')
     {
         *str = '\0';
         str--;
-- 
2.43.0


From 9eeea02b6f96e21988a63fe88ec18e1c7ab983ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:43 +0000
Subject: [PATCH 06/53] fix: tokenizer lost digits in front of a keyword that
 starts with a digit

---
 src/engine/parsing/tokenizer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/tokenizer.c b/src/engine/parsing/tokenizer.c
index 1701bbe..824b4fa 100644
--- a/src/engine/parsing/tokenizer.c
+++ b/src/engine/parsing/tokenizer.c
@@ -72,8 +72,9 @@ Vector tokenize(const char *input, const Trie *keywords_trie)
             size_t keyword_len = trie_longest_prefix(keywords_trie, input + i, NULL);
             if (keyword_len > 0)
             {
+                push_token(input + next_token_start, i - next_token_start, &res);
                 push_token(input + i, keyword_len, &res);
-                next_token_start += keyword_len;
+                next_token_start = i + keyword_len;
                 i += keyword_len - 1;
                 next_state = TOKSTATE_NEW;
             }
-- 
2.43.0


From c759120e6dcaee2f0477846c40ecc5735c8deb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:43 +0000
Subject: [PATCH 07/53] fix: operators added after a deletion could get the id
 of an existing operator

---
 src/engine/parsing/context.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 85309ea..7182a69 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -94,7 +94,8 @@ const Operator *ctx_add_op(ParsingContext *ctx, Operator op)
     }
     
     // Successfully passed the checks
-    op.id = list_count(&ctx->op_list);
+    // Not the number of operators since ids of deleted operators would be given twice
+    op.id = ctx->op_list.last != NULL ? ((Operator*)listnode_get_data(ctx->op_list.last))->id + 1 : 0;
     ListNode *list_node = list_append(&ctx->op_list, &op);
     TRIE_ADD_ELEM(&ctx->op_tries[op.placement], op.name, ListNode*, list_node);
     trie_add_str(&ctx->keywords_trie, op.name);
-- 
2.43.0


From bcc848fcbe0f51cd5306593cbeede7942385a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:43 +0000
Subject: [PATCH 08/53] fix: deleting an operator removed the keyword of
 operators with the same name

---
 src/engine/parsing/context.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 7182a69..0ec48b1 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -112,8 +112,13 @@ bool ctx_delete_op(ParsingContext *ctx, const char *name, OpPlacement placement)
     if (trie_contains(&ctx->op_tries[placement], name, (void**)&node))
     {
         list_delete_node(&ctx->op_list, *node);
-        trie_remove_str(&ctx->keywords_trie, name);
         trie_remove_str(&ctx->op_tries[placement], name);
+        // Name is still a keyword when there is an operator of other placement
+        for (size_t i = 0; i < OP_NUM_PLACEMENTS; i++)
+        {
+            if (trie_contains(&ctx->op_tries[i], name, NULL)) return true;
+        }
+        trie_remove_str(&ctx->keywords_trie, name);
         return true;
     }
     else
-- 
2.43.0


From d6d3a9ef5e6e66f502a14b17e55ffee2b36c6f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:43 +0000
Subject: [PATCH 09/53] fix: deleting the glue operator left a dangling pointer

---
 src/engine/parsing/context.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 0ec48b1..170d41c 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -111,6 +111,7 @@ bool ctx_delete_op(ParsingContext *ctx, const char *name, OpPlacement placement)
     ListNode **node = NULL;
     if (trie_contains(&ctx->op_tries[placement], name, (void**)&node))
     {
+        if (ctx->glue_op == listnode_get_data(*node)) ctx->glue_op = NULL;
         list_delete_node(&ctx->op_list, *node);
         trie_remove_str(&ctx->op_tries[placement], name);
         // Name is still a keyword when there is an operator of other placement
-- 
2.43.0


From 0da1c72f554441b82cebf245d3b88af0801085b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:53 +0000
Subject: [PATCH 10/53] fix: definition whose right-hand side cannot be
 evaluated dereferenced NULL

---
 src/client/commands/cmd_definition.c | 496 +++++++++++++--------------
 1 file changed, 248 insertions(+), 248 deletions(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index af466aa..7622e80 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -1,248 +1,248 @@
-#include <stdio.h>
-#include <string.h>
-
-#include "../../util/string_util.h"
-#include "../../util/console_util.h"
-#include "../../engine/tree/node.h"
-#include "../../engine/tree/tree_util.h"
-#include "../../engine/parsing/tokenizer.h"
-#include "../../engine/parsing/parser.h"
-#include "../../engine/transformation/rewrite_rule.h"
-
-#include "cmd_definition.h"
-#include "../core/arith_context.h"
-
-#define DEFINITION_OP   "="
-
-#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
-#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
-#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
-#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
-#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
-#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
-#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
-
-int cmd_definition_check(const char *input)
-{
-    return strstr(input, DEFINITION_OP) != NULL;
-}
-
-static bool do_left_checks(Node *left_n, int strlen)
-{
-    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
-    {
-        report_error_at(0, strlen, ERR_NOT_A_FUNC);
-        return false;
-    }
-
-    size_t num_children = get_num_children(left_n);
-
-    if (num_children > 0)
-    {
-        for (size_t i = 0; i < num_children; i++)
-        {
-            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
-            {
-                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
-                return false;
-            }
-        }
-
-        const char *vars[MAX_MAPPED_VARS];
-        bool sufficient_buff = false;
-        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
-        if (!sufficient_buff)
-        {
-            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
-            return false;
-        }
-        if (num_vars != num_children)
-        {
-            report_error_at(0, strlen, ERR_NOT_DISTINCT);
-            return false;
-        }
-    }
-
-    return true;
-}
-
-static bool add_function(char *name, char *left, char *right, bool is_constant)
-{
-    // First check if function already exists
-    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
-    if (op != NULL)
-    {
-        if (op->id < NUM_ARITH_OPS)
-        {
-            report_error(ERR_BUILTIN_REDEFINITION);
-        }
-        else
-        {
-            report_error(ERR_REDEFINITION);
-        }
-        
-        // Don't goto error since no new operator has been added to context
-        free(name);
-        return false;
-    }
-
-    // Add function operator to parse left input
-    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
-    ParsingResult left_result = { .error = PERR_NULL };
-    ParsingResult right_result = { .error = PERR_NULL };
-    Node *left_tree = NULL;
-    Node *right_tree = NULL;
-    const Operator *new_op = NULL;
-
-    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
-    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
-    if (!is_constant)
-    {
-        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
-    }
-    else
-    {
-        new_op = ctx_add_op(g_ctx, op_get_constant(name));
-    }
-
-    if (!arith_parse_raw(left, 0, &left_result))
-    {
-        goto error;
-    }
-
-    left_tree = left_result.tree;
-    free_result(&left_result, false);
-
-    // Check if left side is "function(var_1, ..., var_n)"
-    if (!do_left_checks(left_tree, strlen(left)))
-    {
-        goto error;
-    }
-
-    // Assign correct arity:
-    // Since operators are const, we can't change the arity directly
-    // A new operator with correct arity has to be created
-    if (!is_constant)
-    {
-        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
-        set_op(left_tree, new_op);
-    }
-
-    // Parse right expression raw to detect a recursive definition
-    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
-    {
-        goto error;
-    }
-
-    // Check if function is used in its definition
-    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
-    {
-        report_error(ERR_RECURSIVE_DEFINITION);
-        free_result(&right_result, true);
-        goto error;
-    }
-
-    // Since right expression was parsed raw to detect recursive definitions, do post processing
-    right_tree = arith_simplify(&right_result, (size_t)(right - left));
-    if (left_tree == NULL)
-    {
-        goto error;
-    }
-
-    // Add rule to eliminate operator before evaluation
-    RewriteRule rule;
-    Pattern pattern;
-    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
-    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
-    {
-        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
-        goto error;
-    }
-
-    add_composite_function(rule);
-
-    if (get_op(left_tree)->arity == 0)
-    {
-        if (!is_constant)
-        {
-            whisper("Added constant. Note: constants don't require a parameter list.\n");
-        }
-        else
-        {
-            whisper("Added constant.\n");
-        }
-    }
-    else
-    {
-        whisper("Added function.\n");
-    }
-    
-    return true;
-
-    error:
-    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-    free_tree(left_tree);
-    free_tree(right_tree);
-    free(name);
-    return false;
-}
-
-/*
-Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
-*/
-bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
-{   
-    // Overwrite first char of operator to make function definition a proper string
-    char *right_input = strstr(input, DEFINITION_OP);
-    *right_input = '\0';
-    right_input += strlen(DEFINITION_OP);
-    
-    // Tokenize function definition to get its name. Name is first token.
-    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
-    
-    // Function name is first token that is not a space
-    char *name = NULL;
-    size_t non_space_tokens = 0;
-    for (size_t i = 0; i < vec_count(&tokens); i++)
-    {
-        char *token = *(char**)vec_get(&tokens, i);
-        if (is_space(token[0]))
-        {
-            free(token);
-        }
-        else
-        {
-            non_space_tokens++;
-            if (name == NULL)
-            {
-                name = token;
-            }
-            else
-            {
-                free(token);
-            }
-        }
-    }
-
-    vec_destroy(&tokens);
-
-    if (name == NULL)
-    {
-        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-        return false;
-    }
-    else
-    {
-        if (!is_letter(name[0]))
-        {
-            free(name);
-            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-            return false;
-        }
-        else
-        {
-            return add_function(name, input, right_input, non_space_tokens == 1);
-        }
-    }
-}
+#include <stdio.h>
+#include <string.h>
+
+#include "../../util/string_util.h"
+#include "../../util/console_util.h"
+#include "../../engine/tree/node.h"
+#include "../../engine/tree/tree_util.h"
+#include "../../engine/parsing/tokenizer.h"
+#include "../../engine/parsing/parser.h"
+#include "../../engine/transformation/rewrite_rule.h"
+
+#include "cmd_definition.h"
+#include "../core/arith_context.h"
+
+#define DEFINITION_OP   "="
+
+#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
+#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
+#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
+#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
+#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
+#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
+#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
+
+int cmd_definition_check(const char *input)
+{
+    return strstr(input, DEFINITION_OP) != NULL;
+}
+
+static bool do_left_checks(Node *left_n, int strlen)
+{
+    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
+    {
+        report_error_at(0, strlen, ERR_NOT_A_FUNC);
+        return false;
+    }
+
+    size_t num_children = get_num_children(left_n);
+
+    if (num_children > 0)
+    {
+        for (size_t i = 0; i < num_children; i++)
+        {
+            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
+            {
+                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
+                return false;
+            }
+        }
+
+        const char *vars[MAX_MAPPED_VARS];
+        bool sufficient_buff = false;
+        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
+        if (!sufficient_buff)
+        {
+            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
+            return false;
+        }
+        if (num_vars != num_children)
+        {
+            report_error_at(0, strlen, ERR_NOT_DISTINCT);
+            return false;
+        }
+    }
+
+    return true;
+}
+
+static bool add_function(char *name, char *left, char *right, bool is_constant)
+{
+    // First check if function already exists
+    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
+    if (op != NULL)
+    {
+        if (op->id < NUM_ARITH_OPS)
+        {
+            report_error(ERR_BUILTIN_REDEFINITION);
+        }
+        else
+        {
+            report_error(ERR_REDEFINITION);
+        }
+        
+        // Don't goto error since no new operator has been added to context
+        free(name);
+        return false;
+    }
+
+    // Add function operator to parse left input
+    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
+    ParsingResult left_result = { .error = PERR_NULL };
+    ParsingResult right_result = { .error = PERR_NULL };
+    Node *left_tree = NULL;
+    Node *right_tree = NULL;
+    const Operator *new_op = NULL;
+
+    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
+    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
+    if (!is_constant)
+    {
+        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
+    }
+    else
+    {
+        new_op = ctx_add_op(g_ctx, op_get_constant(name));
+    }
+
+    if (!arith_parse_raw(left, 0, &left_result))
+    {
+        goto error;
+    }
+
+    left_tree = left_result.tree;
+    free_result(&left_result, false);
+
+    // Check if left side is "function(var_1, ..., var_n)"
+    if (!do_left_checks(left_tree, strlen(left)))
+    {
+        goto error;
+    }
+
+    // Assign correct arity:
+    // Since operators are const, we can't change the arity directly
+    // A new operator with correct arity has to be created
+    if (!is_constant)
+    {
+        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
+        set_op(left_tree, new_op);
+    }
+
+    // Parse right expression raw to detect a recursive definition
+    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
+    {
+        goto error;
+    }
+
+    // Check if function is used in its definition
+    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
+    {
+        report_error(ERR_RECURSIVE_DEFINITION);
+        free_result(&right_result, true);
+        goto error;
+    }
+
+    // Since right expression was parsed raw to detect recursive definitions, do post processing
+    right_tree = arith_simplify(&right_result, (size_t)(right - left));
+    if (right_tree == NULL)
+    {
+        goto error;
+    }
+
+    // Add rule to eliminate operator before evaluation
+    RewriteRule rule;
+    Pattern pattern;
+    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
+    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
+    {
+        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
+        goto error;
+    }
+
+    add_composite_function(rule);
+
+    if (get_op(left_tree)->arity == 0)
+    {
+        if (!is_constant)
+        {
+            whisper("Added constant. Note: constants don't require a parameter list.\n");
+        }
+        else
+        {
+            whisper("Added constant.\n");
+        }
+    }
+    else
+    {
+        whisper("Added function.\n");
+    }
+    
+    return true;
+
+    error:
+    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+    free_tree(left_tree);
+    free_tree(right_tree);
+    free(name);
+    return false;
+}
+
+/*
+Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
+*/
+bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
+{   
+    // Overwrite first char of operator to make function definition a proper string
+    char *right_input = strstr(input, DEFINITION_OP);
+    *right_input = '\0';
+    right_input += strlen(DEFINITION_OP);
+    
+    // Tokenize function definition to get its name. Name is first token.
+    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
+    
+    // Function name is first token that is not a space
+    char *name = NULL;
+    size_t non_space_tokens = 0;
+    for (size_t i = 0; i < vec_count(&tokens); i++)
+    {
+        char *token = *(char**)vec_get(&tokens, i);
+        if (is_space(token[0]))
+        {
+            free(token);
+        }
+        else
+        {
+            non_space_tokens++;
+            if (name == NULL)
+            {
+                name = token;
+            }
+            else
+            {
+                free(token);
+            }
+        }
+    }
+
+    vec_destroy(&tokens);
+
+    if (name == NULL)
+    {
+        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+        return false;
+    }
+    else
+    {
+        if (!is_letter(name[0]))
+        {
+            free(name);
+            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+            return false;
+        }
+        else
+        {
+            return add_function(name, input, right_input, non_space_tokens == 1);
+        }
+    }
+}
-- 
2.43.0


From 36ccd22bce9534e40f23a2c492035f5e9b56935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:53 +0000
Subject: [PATCH 11/53] fix: negative results were not added to the history
 when simplification is loaded

---
 src/client/commands/cmd_evaluation.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_evaluation.c b/src/client/commands/cmd_evaluation.c
index ade09af..86c1e49 100644
--- a/src/client/commands/cmd_evaluation.c
+++ b/src/client/commands/cmd_evaluation.c
@@ -26,9 +26,11 @@ bool cmd_evaluation_exec(char *input, __attribute__((unused)) int code)
     whisper("= ");
     print_tree(node, false);
     printf("\n");
-    if (get_type(node) == NTYPE_CONSTANT)
+    // Negative results are represented by the negation of a constant
+    double value;
+    if (tree_reduce(node, arith_op_evaluate, &value, NULL) == LISTENERERR_SUCCESS)
     {
-        history_add(get_const_value(node));
+        history_add(value);
     }
     free_tree(node);
     return true;
-- 
2.43.0


From 3ef1d0b39a8dbb3e9c073b59f9bfc00709845667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:53 +0000
Subject: [PATCH 12/53] fix: last input line without newline lost its last
 character

---
 src/util/console_util.c | 408 ++++++++++++++++++++--------------------
 1 file changed, 204 insertions(+), 204 deletions(-)

diff --git a/src/util/console_util.c b/src/util/console_util.c
index 7234999..72605ae 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -1,204 +1,204 @@
-#define _GNU_SOURCE
-#include <stdarg.h>
-#include <stdio.h>
-#include <string.h>
-#ifdef USE_READLINE
-#include <readline/readline.h>
-#include <readline/history.h>
-#endif
-
-#include "console_util.h"
-#include "string_builder.h"
-
-bool interactive;
-
-void unload_console_util()
-{
-#ifdef USE_READLINE
-    rl_clear_history();
-#endif
-}
-
-void init_console_util()
-{
-    interactive = false;
-#ifdef USE_READLINE
-    // Disable tab completion
-    rl_bind_key('\t', rl_insert);
-#endif
-}
-
-/*
-Summary: Sets interactive mode
-    When true, whispered messages are displayed and readline instead of getline is used to read input
-*/
-bool set_interactive(bool value)
-{
-    bool res = interactive;
-    interactive = value;
-    return res;
-}
-
-bool is_interactive()
-{
-    return interactive;
-}
-
-/*
-Summary: printf-wrapper that filters unimportant prints in non-interactive mode
-*/
-void whisper(const char *format, ...)
-{
-    if (interactive)
-    {
-        va_list args;
-        va_start(args, format);
-        vprintf(format, args);
-        va_end(args);
-    }
-}
-
-bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (interactive && prompt_fmt != NULL)
-    {
-        vprintf(prompt_fmt, args);
-    }
-    
-    size_t size;
-    *out_input = NULL;
-    if (getline(out_input, &size, file) == EOF)
-    {
-        free(*out_input);
-        *out_input = NULL;
-        return false;
-    }
-
-    // Overwrite newline char
-    (*out_input)[strlen(*out_input) - 1] = '\0';
-    return true;
-}
-
-
-/*
-Summary: Used whenever input is requested. Prompt is only printed when interactive.
-Params
-    prompt: Prompt to display when interactive
-    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
-    out_input: Pointer to string that will be read. String must be free'd after use.
-*/
-#ifdef USE_READLINE
-
-// File is stdin, interactive is true
-bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (prompt_fmt != NULL)
-    {
-        Vector strbuilder = strbuilder_create(3);
-        vstrbuilder_append(&strbuilder, prompt_fmt, args);
-        *out_input = readline(strbuilder.buffer);
-        vec_destroy(&strbuilder);
-    }
-    else
-    {
-        *out_input = readline(NULL);
-    }
-
-    if (*out_input == NULL)
-    {
-        return false;
-    }
-    add_history(*out_input);
-    return true;
-}
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    // Use readline when interactive
-    if (interactive)
-    {
-        return ask_input_readline(out_input, prompt_fmt, args);
-    }
-    else
-    {
-        return ask_input_getline(file, out_input, prompt_fmt, args);
-    }
-}
-
-#else
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    return ask_input_getline(file, out_input, prompt_fmt, args);
-}
-
-#endif
-
-bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
-{
-    va_list args;
-    va_start(args, prompt_fmt);
-    bool res;
-    res = vask_input(file, out_input, prompt_fmt, args);
-    va_end(args);
-    return res;
-}
-
-void report_error(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-}
-
-void software_defect(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    fprintf(stderr, "Software defect: ");
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-    exit(EXIT_FAILURE);
-}
-
-void report_error_at(int pos, int length, const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-
-    if (is_interactive())
-    {
-        int msg_len = vsnprintf(NULL, 0, fmt, args);
-        va_end(args);
-        va_start(args, fmt);
-        if (pos - msg_len > 0) // Left of error token
-        {
-            report_error("%*s", pos - msg_len - 1, "");
-            vfprintf(stderr, fmt, args);
-            report_error(" ");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error("^");
-        }
-        else // Right of error token
-        {
-            report_error("%*s^", pos, "");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error(" ");
-            vfprintf(stderr, fmt, args);
-        }
-    }
-    else
-    {
-        vfprintf(stderr, fmt, args);
-    }
-
-    report_error("\n");
-    va_end(args);
-}
+#define _GNU_SOURCE
+#include <stdarg.h>
+#include <stdio.h>
+#include <string.h>
+#ifdef USE_READLINE
+#include <readline/readline.h>
+#include <readline/history.h>
+#endif
+
+#include "console_util.h"
+#include "string_builder.h"
+
+bool interactive;
+
+void unload_console_util()
+{
+#ifdef USE_READLINE
+    rl_clear_history();
+#endif
+}
+
+void init_console_util()
+{
+    interactive = false;
+#ifdef USE_READLINE
+    // Disable tab completion
+    rl_bind_key('\t', rl_insert);
+#endif
+}
+
+/*
+Summary: Sets interactive mode
+    When true, whispered messages are displayed and readline instead of getline is used to read input
+*/
+bool set_interactive(bool value)
+{
+    bool res = interactive;
+    interactive = value;
+    return res;
+}
+
+bool is_interactive()
+{
+    return interactive;
+}
+
+/*
+Summary: printf-wrapper that filters unimportant prints in non-interactive mode
+*/
+void whisper(const char *format, ...)
+{
+    if (interactive)
+    {
+        va_list args;
+        va_start(args, format);
+        vprintf(format, args);
+        va_end(args);
+    }
+}
+
+bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (interactive && prompt_fmt != NULL)
+    {
+        vprintf(prompt_fmt, args);
+    }
+    
+    size_t size = 0;
+    *out_input = NULL;
+    if (getline(out_input, &size, file) == EOF)
+    {
+        free(*out_input);
+        *out_input = NULL;
+        return false;
+    }
+
+    // Overwrite newline char (last line may not be terminated by one)
+    (*out_input)[strcspn(*out_input, "\n")] = '\0';
+    return true;
+}
+
+
+/*
+Summary: Used whenever input is requested. Prompt is only printed when interactive.
+Params
+    prompt: Prompt to display when interactive
+    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
+    out_input: Pointer to string that will be read. String must be free'd after use.
+*/
+#ifdef USE_READLINE
+
+// File is stdin, interactive is true
+bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (prompt_fmt != NULL)
+    {
+        Vector strbuilder = strbuilder_create(3);
+        vstrbuilder_append(&strbuilder, prompt_fmt, args);
+        *out_input = readline(strbuilder.buffer);
+        vec_destroy(&strbuilder);
+    }
+    else
+    {
+        *out_input = readline(NULL);
+    }
+
+    if (*out_input == NULL)
+    {
+        return false;
+    }
+    add_history(*out_input);
+    return true;
+}
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    // Use readline when interactive
+    if (interactive)
+    {
+        return ask_input_readline(out_input, prompt_fmt, args);
+    }
+    else
+    {
+        return ask_input_getline(file, out_input, prompt_fmt, args);
+    }
+}
+
+#else
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    return ask_input_getline(file, out_input, prompt_fmt, args);
+}
+
+#endif
+
+bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
+{
+    va_list args;
+    va_start(args, prompt_fmt);
+    bool res;
+    res = vask_input(file, out_input, prompt_fmt, args);
+    va_end(args);
+    return res;
+}
+
+void report_error(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+}
+
+void software_defect(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    fprintf(stderr, "Software defect: ");
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+    exit(EXIT_FAILURE);
+}
+
+void report_error_at(int pos, int length, const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+
+    if (is_interactive())
+    {
+        int msg_len = vsnprintf(NULL, 0, fmt, args);
+        va_end(args);
+        va_start(args, fmt);
+        if (pos - msg_len > 0) // Left of error token
+        {
+            report_error("%*s", pos - msg_len - 1, "");
+            vfprintf(stderr, fmt, args);
+            report_error(" ");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error("^");
+        }
+        else // Right of error token
+        {
+            report_error("%*s^", pos, "");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error(" ");
+            vfprintf(stderr, fmt, args);
+        }
+    }
+    else
+    {
+        vfprintf(stderr, fmt, args);
+    }
+
+    report_error("\n");
+    va_end(args);
+}
-- 
2.43.0


From 8e18e7de2ead169a40f6a7a9a961a14dd789dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:53 +0000
Subject: [PATCH 13/53] fix: last line of ruleset without newline lost its last
 character

---
 src/engine/transformation/rule_parsing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index a1bcc73..230662c 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -197,7 +197,7 @@ ssize_t parse_rulesets_from_file(FILE *file,
         line_index++;
         char *line = line_start;
 
-        line[strlen(line) - 1] = '\0'; // Overwrite newline char
+        line[strcspn(line, "\n")] = '\0'; // Overwrite newline char (last line may not be terminated by one)
         char *comment_start = strstr(line, COMMENT_PREFIX);
         if (comment_start != NULL) *comment_start = '\0'; // Prune comments from the right
         while (*line == ' ') line++; // Strip leading spaces
-- 
2.43.0


From 141a6cf7262a2c41ab0b1328c23d264c60ff268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:53 +0000
Subject: [PATCH 14/53] fix: simplification rule negated only the first operand
 of a sum

---
 simplification.ruleset | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index e2732be..b1d0893 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -176,7 +176,7 @@ RULESET
     x^(-y)        -> 1/(x^y)
     x^0.5         -> sqrt(x)
     x^1           -> x
-    -(x+y)        -> x-y
+    -(x+y)        -> -x-y
     (-1)*x        -> -x
 
     x*(y/z)       -> (y*x)/z       WHERE type(y) == CONST
-- 
2.43.0


From 12cab73ec6af53a93fce3ee184a2d223a2f7a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:34 +0000
Subject: [PATCH 15/53] fix: binomial coefficient was 1 for k > n and hung for
 large operands

---
 src/client/core/arith_evaluation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 5210760..c634b93 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -60,10 +60,11 @@ static double binomial(double n, double k)
     k = fabs(trunc(k));
 
     if (k == 0) return 1;
+    if (k > n) return 0;
     if ((2 * k) > n) k = n - k;
     
     double res = 1;
-    for (double i = 1; i <= k; i++)
+    for (double i = 1; i <= k && !isinf(res); i++)
     {
         res = (res * (n - k + i)) / i;
     }
-- 
2.43.0


From 7f39eaf6bb62198667b9dd8406d3a8a0af0c8a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:34 +0000
Subject: [PATCH 16/53] fix: integer powers of negative numbers were refused,
 fractional ones above 1 were not

---
 src/client/core/arith_evaluation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index c634b93..efafa32 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -155,7 +155,7 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             }
         case 8: // x^y
             if (args[0] == 0 && args[1] <= 0) return LISTENERERR_DIVISION_BY_ZERO;
-            if (args[0] < 0 && args[1] < 1) return LISTENERERR_COMPLEX_SOLUTION;
+            if (args[0] < 0 && args[1] != trunc(args[1])) return LISTENERERR_COMPLEX_SOLUTION;
             *out = pow(args[0], args[1]);
             return LISTENERERR_SUCCESS;
         case 9: // x C y
-- 
2.43.0


From 548894cc67e25ffa12764b8de5dc999c8704fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:34 +0000
Subject: [PATCH 17/53] fix: gcd and lcm hung for infinite operands and
 operands of different magnitude

---
 src/client/core/arith_evaluation.c | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index efafa32..af94412 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -33,25 +33,15 @@ static double euclid(double a, double b)
     a = fabs(trunc(a));
     b = fabs(trunc(b));
 
-    if (a == 0)
-    {
-        return b;
-    }
-    else
+    if (!isfinite(a) || !isfinite(b)) return NAN;
+
+    while (b != 0)
     {
-        while (b != 0)
-        {
-            if (a > b)
-            {
-                a = a - b;
-            }
-            else
-            {
-                b = b - a;
-            }
-        }
-        return a;
+        double remainder = fmod(a, b);
+        a = b;
+        b = remainder;
     }
+    return a;
 }
 
 static double binomial(double n, double k)
-- 
2.43.0


From ca6d4de6cc70871a5a5130312626c86e69dddd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:34 +0000
Subject: [PATCH 18/53] fix: factorial hung for large operands

---
 src/client/core/arith_evaluation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index af94412..d4f0f22 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -169,7 +169,7 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             else
             {
                 double res = 1;
-                for (double i = trunc(args[0]); i > 1; i--)
+                for (double i = trunc(args[0]); i > 1 && !isinf(res); i--)
                 {
                     res *= i;
                 }
-- 
2.43.0


From 46d7004f38007b1865ecf6fac5a162c7c7b16319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:34 +0000
Subject: [PATCH 19/53] fix: fib exhausted the stack for large operands and
 took exponential time

---
 src/client/core/arith_evaluation.c | 34 +++++++++++-------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index d4f0f22..5a32f88 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -62,32 +62,22 @@ static double binomial(double n, double k)
     return res;
 }
 
-static long fib(long n)
-{
-    if (n == 0) return 0;
-    if (n == 1) return 1;
-    if (n == -1) return 1;
-    return fib(n - 1) + fib(n - 2); 
-}
-
 static double fibonacci(double n)
 {
-    long l = (long)n;
-    if (l < 0) // Generalization to negative numbers
-    {
-        if (l % 2 == 0)
-        {
-            return -fib(labs(l));
-        }
-        else
-        {
-            return fib(labs(l));
-        }
-    }
-    else
+    n = trunc(n);
+    if (isnan(n)) return n;
+
+    double res = 0;
+    double next = 1;
+    for (double i = 0; i < fabs(n) && !isinf(res); i++)
     {
-        return fib(l);
+        double sum = res + next;
+        res = next;
+        next = sum;
     }
+
+    // Generalization to negative numbers
+    return (n < 0 && fmod(n, 2) == 0) ? -res : res;
 }
 
 /*
-- 
2.43.0


From e91d3ff14357e2594df553c445bc10a6d5b492b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:19 +0000
Subject: [PATCH 20/53] fix: rand of an empty range was -1 instead of NaN

---
 src/client/core/arith_evaluation.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 5a32f88..110a5a3 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -87,9 +87,9 @@ static double random_between(double min, double max)
 {
     min = trunc(min);
     max = trunc(max);
-    long diff = (long)(max - min);
-    if (diff < 1) return -1;
-    return rand() % diff + min;
+    double diff = max - min;
+    if (!(diff >= 1)) return NAN; // Empty range
+    return fmod(rand(), diff) + min;
 }
 
 ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const double *args, double *out)
-- 
2.43.0


From e5d051d6eb3e67ed813d714e1f12759df4c3cb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:20 +0000
Subject: [PATCH 21/53] fix: undefined constant subexpressions like 0/0 were
 simplified to zero

---
 src/client/simplification/simplification.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 79acbb8..69078c3 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -190,6 +190,18 @@ void simplify_without_derivative(Node **tree)
     apply_simplification(tree, rulesets + 6);
 }
 
+// Evaluates constant subtrees before any rule is applied: A derivative without variables is zero
+static ListenerError reduce_listener(const Operator *op, size_t num_args, const double *args, double *out)
+{
+    if (op == get_op(deriv_after)) return LISTENERERR_MALFORMED_DERIV_B;
+    if (op == get_op(deriv_before.pattern))
+    {
+        *out = 0;
+        return LISTENERERR_SUCCESS;
+    }
+    return arith_op_evaluate(op, num_args, args, out);
+}
+
 /*
 Summary: Applies all pre-defined rewrite rules to tree
 Params
@@ -199,10 +211,9 @@ Returns: True when transformations could be applied, False otherwise
 */
 ListenerError simplify(Node **tree, const Node **errnode)
 {
-    ListenerError res = tree_reduce_constant_subtrees(tree, arith_op_evaluate, errnode);
-
     // It's okay if simplification module is not initialized, just return without doing much
-    if (!initialized) return res;
+    ListenerError res = tree_reduce_constant_subtrees(tree, initialized ? reduce_listener : arith_op_evaluate, errnode);
+    if (!initialized || res != LISTENERERR_SUCCESS) return res;
 
     // Apply elimination rules
     simplify_without_derivative(tree);
-- 
2.43.0


From 868bbb58090b4dda96fac61d029602cc91460045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:20 +0000
Subject: [PATCH 22/53] fix: malformed ruleset was reported as loaded, leaked
 and discarded the previous ruleset

---
 src/client/commands/cmd_load.c             |  6 +++++-
 src/client/simplification/simplification.c | 24 ++++++++++++++--------
 src/engine/transformation/rule_parsing.c   |  1 +
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index 6098053..b98a8a8 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -25,13 +25,17 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
     if (begins_with(LOAD_SIMPLIFICATION, input))
     {
         input += strlen(LOAD_SIMPLIFICATION);
-        unload_simplification();
         ssize_t count = init_simplification(input);
         if (count == -1)
         {
             report_error("File not found or readable\n");
             return false;
         }
+        else if (count < 0)
+        {
+            // Error message is given by init_simplification
+            return false;
+        }
         else
         {
             whisper("Successfully loaded simplification (%ld rules)\n", count);
diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 69078c3..edb4509 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -77,21 +77,29 @@ ssize_t init_simplification(const char *ruleset_path)
 
     if (ruleset_file == NULL) return -1;
 
+    Vector new_rulesets[NUM_RULESETS];
     for (size_t i = 0; i < NUM_RULESETS; i++)
     {
-        rulesets[i] = get_empty_ruleset();
-    }
-    ssize_t num_rulesets = parse_rulesets_from_file(ruleset_file, g_propositional_ctx, NUM_RULESETS, rulesets);
-    if (num_rulesets == -1)
-    {
-        return -2;
+        new_rulesets[i] = get_empty_ruleset();
     }
+    ssize_t num_rulesets = parse_rulesets_from_file(ruleset_file, g_propositional_ctx, NUM_RULESETS, new_rulesets);
+    fclose(ruleset_file);
     if (num_rulesets != NUM_RULESETS)
     {
-        report_error("Too few simplification rulesets defined in %s.\n", ruleset_path);
+        if (num_rulesets != -1)
+        {
+            report_error("Too few simplification rulesets defined in %s.\n", ruleset_path);
+        }
+        for (size_t i = 0; i < NUM_RULESETS; i++)
+        {
+            free_ruleset(&new_rulesets[i]);
+        }
         return -2;
     }
-    fclose(ruleset_file);
+
+    // Replace previously loaded rulesets
+    unload_simplification();
+    memcpy(rulesets, new_rulesets, sizeof(rulesets));
 
     get_pattern(P("x'"), 0, NULL, &deriv_before);
     deriv_after = P("deriv(x, z)");
diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 230662c..1acc2b6 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -221,6 +221,7 @@ ssize_t parse_rulesets_from_file(FILE *file,
             if (!parse_rule(line, ctx, vec_push_empty(&out_rulesets[curr_ruleset])))
             {
                 report_error("Error occurred in line %zu: %s.\n", line_index, line);
+                vec_pop(&out_rulesets[curr_ruleset]); // Rule has not been initialized
                 goto error;
             }
         }
-- 
2.43.0


From 548a2a82263bfe6f26071c419367b5ae74345522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:20 +0000
Subject: [PATCH 23/53] fix: constraints beyond the maximum were silently
 dropped

---
 src/engine/transformation/rule_parsing.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 1acc2b6..a4b6f92 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -63,11 +63,14 @@ bool parse_constraints(const char *string,
         out_constraints[*num_constraints] = parse_easy(ctx, str);
         if (out_constraints[*num_constraints] == NULL) goto error;
         (*num_constraints)++;
-        if (*num_constraints == buffer_size) goto success;
+        if (*num_constraints == buffer_size && next_and != NULL)
+        {
+            report_error("Too many constraints.\n");
+            goto error;
+        }
         str = next_and;
     }
 
-    success:
     free(str_cpy);
     return true;
     error:
-- 
2.43.0


From cc501821f793db0cdc831e64766ca4f80e6a0ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:20 +0000
Subject: [PATCH 24/53] fix: matching read past the operands when a bound list
 did not fit

---
 src/engine/transformation/matching.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index 5f7d6b2..43d4f48 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -128,17 +128,20 @@ static void match_parameter_lists(
             {
                 // Current pattern-child is list-variable
                 NodeList *list = &matching.mapped_nodes[get_id(pattern_children[curr.distance])];
-                if (list->nodes != NULL && new_sum + 1 <= num_tree_children)
+                if (list->nodes != NULL)
                 {
                     // List is already bound, thus also its length is bound
-                    VEC_PUSH_ELEM(&vec_suffixes, SuffixNode, ((SuffixNode){
-                        .first_match_index = SIZE_MAX,
-                        .num_matchings     = 0,
-                        .label             = list->size,
-                        .sum               = new_sum,
-                        .distance          = curr.distance + 1,
-                        .parent_index      = curr_index
-                    }));
+                    if (new_sum + list->size <= num_tree_children)
+                    {
+                        VEC_PUSH_ELEM(&vec_suffixes, SuffixNode, ((SuffixNode){
+                            .first_match_index = SIZE_MAX,
+                            .num_matchings     = 0,
+                            .label             = list->size,
+                            .sum               = new_sum,
+                            .distance          = curr.distance + 1,
+                            .parent_index      = curr_index
+                        }));
+                    }
                 }
                 else
                 {
-- 
2.43.0


From 126b0c75668cc9ee81536ed80bbfc075023cd990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:46 +0000
Subject: [PATCH 25/53] fix: parse_pattern leaked trees of malformed patterns

---
 src/engine/transformation/rule_parsing.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index a4b6f92..42bb73f 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -88,6 +88,7 @@ bool parse_pattern(const char *string, const ParsingContext *ctx, Pattern *out_p
     char *where_pos = strstr(str, WHERE); // Optional
     size_t num_constrs = MATCHING_MAX_CONSTRAINTS;
     Node *constrs[MATCHING_MAX_CONSTRAINTS];
+    Node *pattern = NULL;
     if (where_pos != NULL)
     {
         *where_pos = '\0';
@@ -98,7 +99,7 @@ bool parse_pattern(const char *string, const ParsingContext *ctx, Pattern *out_p
         goto error;
     }
 
-    Node *pattern = parse_easy(ctx, str); // Gives error message
+    pattern = parse_easy(ctx, str); // Gives error message
     if (pattern == NULL)
     {
         goto error;
@@ -115,6 +116,8 @@ bool parse_pattern(const char *string, const ParsingContext *ctx, Pattern *out_p
 
     error:
     free(str_cpy);
+    free_tree(pattern);
+    for (size_t i = 0; i < num_constrs; i++) free_tree(constrs[i]);
     return false;
 }
 
-- 
2.43.0


From d075690f0c00a2054b4dd77aac82dc7fcba81fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:46 +0000
Subject: [PATCH 26/53] fix: constraints of patterns without variables were
 never checked

---
 src/engine/transformation/matching.c | 32 ++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index 43d4f48..57717cd 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -209,6 +209,19 @@ static bool nodelists_equal(const NodeList *a, const NodeList *b)
     return true;
 }
 
+static bool check_constraints(MatchingContext *ctx, const Matching *matching, size_t trigger_id)
+{
+    for (size_t i = 0; i < ctx->pattern->num_constraints[trigger_id]; i++)
+    {
+        Node *constr_cpy = tree_copy(ctx->pattern->constraints[trigger_id][i]);
+        transform_by_matching(matching, &constr_cpy);
+        bool res = ctx->checker(&constr_cpy);
+        free_tree(constr_cpy);
+        if (!res) return false;
+    }
+    return true;
+}
+
 static void extend_matching(
     MatchingContext *ctx,
     Matching matching,
@@ -237,16 +250,10 @@ static void extend_matching(
                 matching.mapped_nodes[id] = tree_list;
 
                 // Check constraints if its okay to bind
-                for (size_t i = 0; i < ctx->pattern->num_constraints[id]; i++)
+                if (check_constraints(ctx, &matching, id))
                 {
-                    Node *constr_cpy = tree_copy(ctx->pattern->constraints[id][i]);
-                    transform_by_matching(&matching, &constr_cpy);
-                    bool res = ctx->checker(&constr_cpy);
-                    free_tree(constr_cpy);
-                    if (!res) return;
+                    vec_push(out_matchings, &matching);
                 }
-
-                vec_push(out_matchings, &matching);
                 return;
             }
         }
@@ -307,7 +314,14 @@ size_t get_all_matchings(const Node **tree, const Pattern *pattern, ConstraintCh
         pattern->pattern,
         (NodeList){ .size = 1, .nodes = tree },
         &result);
-    
+
+    // Constraints of patterns without variables are not triggered by any binding
+    if (vec_count(&result) != 0 && count_all_variable_nodes(pattern->pattern) == 0
+        && !check_constraints(&ctx, (Matching*)vec_get(&result, 0), 0))
+    {
+        vec_clear(&result);
+    }
+
     if (out_matchings != NULL)
     {
         *out_matchings = (Matching*)result.buffer;
-- 
2.43.0


From 6ada378d00e97d2dc7e67388e4547d88b35c8e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:46 +0000
Subject: [PATCH 27/53] fix: width of spanning cells considered the wrong
 vertical lines and read past the last column

---
 src/table/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/table.c b/src/table/table.c
index 8c11ce9..c5f4b51 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -235,7 +235,7 @@ static size_t get_total_width(const Table *table, const size_t *col_widths, stru
     size_t sum = 0;
     for (size_t i = 0; i < cell->span_x; i++)
     {
-        if (i != 0 && table->border_left_counters[cell->x + i + 1] > 0) sum++;
+        if (i != 0 && table->border_left_counters[cell->x + i] > 0) sum++;
         sum += col_widths[cell->x + i];
     }
     return sum;
-- 
2.43.0


From cf7f6c2225246de696996885b067f1cd7d9819fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:03 +0000
Subject: [PATCH 28/53] fix: span clashing with a set cell could become zero,
 which hung printing

---
 src/table/table.c | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/table/table.c b/src/table/table.c
index c5f4b51..50d1752 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -950,12 +950,27 @@ void set_span(Table *table, size_t span_x, size_t span_y)
     assert(cell->span_x == 1);
     assert(cell->span_y == 1);
 
+    // Truncate span to the cells that are not set yet
+    for (size_t j = 1; j < span_x; j++)
+    {
+        if (table->curr_row->cells[cell->x + j].is_set) span_x = j;
+    }
+    struct Row *row = table->curr_row->next_row;
+    for (size_t i = 1; i < span_y && row != NULL; i++)
+    {
+        for (size_t j = 0; j < span_x; j++)
+        {
+            if (row->cells[cell->x + j].is_set) span_y = i;
+        }
+        row = row->next_row;
+    }
+
     cell->span_x = span_x;
     cell->span_y = span_y;
     table->num_cols = MAX(table->curr_col + span_x, table->num_cols);
 
     // Inserts rows and sets child cells
-    struct Row *row = table->curr_row;
+    row = table->curr_row;
     for (size_t i = 0; i < span_y; i++)
     {
         for (size_t j = 0; j < span_x; j++)
@@ -963,28 +978,18 @@ void set_span(Table *table, size_t span_x, size_t span_y)
             if (i == 0 && j == 0) continue;
             struct Cell *child = &row->cells[cell->x + j];
 
-            if (!child->is_set)
+            child->is_set = true;
+            child->parent = cell;
+
+            if (j != 0)
             {
-                child->is_set = true;
-                child->parent = cell;
-                
-                if (j != 0)
-                {
-                    child->border_left = BORDER_NONE;
-                    child->override_border_left = true;
-                }
-                if (i != 0)
-                {
-                    child->border_above = BORDER_NONE;
-                    child->override_border_above = true;
-                }
+                child->border_left = BORDER_NONE;
+                child->override_border_left = true;
             }
-            else
+            if (i != 0)
             {
-                // Span clashes with already set cell, truncate it and finalize method
-                cell->span_y = i;
-                cell->span_x = j;
-                return;
+                child->border_above = BORDER_NONE;
+                child->override_border_above = true;
             }
         }
 
-- 
2.43.0


From 95ccc774387acd8b9344d73feee2edf2c1beceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:03 +0000
Subject: [PATCH 29/53] fix: printing a table moved the position of the next
 insertion

---
 src/table/table.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/table/table.c b/src/table/table.c
index 50d1752..016c039 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -1053,7 +1053,11 @@ void fprint_table(Table *table, FILE *stream)
     size_t col_widths[TABLE_MAX_COLS];
     size_t *row_heights = malloc_wrapper(table->num_rows * sizeof(size_t));
     get_dimensions(table, col_widths, row_heights);
+    struct Row *insertion_row = table->curr_row;
+    size_t insertion_col = table->curr_col;
     override_superfluous_lines(table, col_widths[table->num_cols - 1], row_heights[table->num_rows - 1]);
+    table->curr_row = insertion_row;
+    table->curr_col = insertion_col;
     
     #ifdef DEBUG
     print_debug(table);
-- 
2.43.0


From 4fcd39ea1a2d9798405e84719ab592d25e02df91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:21 +0000
Subject: [PATCH 30/53] fix: load succeeded although commands in the loaded
 file failed

---
 src/client/commands/cmd_load.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index b98a8a8..c2b6eba 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -55,9 +55,9 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
         
         // Set g_interactive to false to read with getline from file
         bool interactive = set_interactive(false);
-        process_input(file);
+        bool res = process_input(file);
         set_interactive(interactive);
         fclose(file);
-        return true;
+        return res;
     }
 }
-- 
2.43.0


From 34589ffe3791e378be6a084183966e7ed92a9d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:21 +0000
Subject: [PATCH 31/53] fix: quit in a loaded file ignored failures of lines
 before the load command

---
 src/client/commands/commands.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/commands/commands.c b/src/client/commands/commands.c
index 2721442..59d400c 100644
--- a/src/client/commands/commands.c
+++ b/src/client/commands/commands.c
@@ -91,6 +91,7 @@ Returns: True when no command exited with an error, false otherwise
 */
 bool process_input(FILE *file)
 {
+    static bool all_succeeded = true; // Including lines outside of file when it is loaded by a command
     bool res = true;
     char *input = NULL;
     while (ask_input(file, &input, NULL))
@@ -98,13 +99,14 @@ bool process_input(FILE *file)
         if (strcmp(input, QUIT_COMMAND) == 0)
         {
             free(input);
-            exit(res ? EXIT_SUCCESS : EXIT_FAILURE);
+            exit(all_succeeded ? EXIT_SUCCESS : EXIT_FAILURE);
         }
         if (input[0] != '\0' && input[0] != COMMENT_PREFIX)
         {
             if (!exec_command(input))
             {
                 res = false;
+                all_succeeded = false;
             }
         }
         free(input);
-- 
2.43.0


From cd031fc24126724fb0902f9b01b363d8b1254a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:21 +0000
Subject: [PATCH 32/53] fix: table command did not terminate for infinite
 bounds or too small steps

---
 src/client/commands/cmd_table.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index ec0375a..964b281 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -1,3 +1,4 @@
+#include <math.h>
 #include <string.h>
 
 #include "../../util/console_util.h"
@@ -138,6 +139,14 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
     }
     // - - - End of parsing of fold-construct
 
+    // Neither infinite bounds nor steps that are lost by rounding end the loop
+    if (isinf(start_val) || isinf(end_val) || isinf(step_val)
+        || start_val + step_val == start_val || end_val + step_val == end_val)
+    {
+        report_error("Error: Infinite number of values\n");
+        goto exit;
+    }
+
     // Adjust step direction to not have an endless loop
     if ((start_val < end_val && step_val < 0)
         || (start_val > end_val && step_val > 0))
-- 
2.43.0


From 055434921b18ed5489ee6be51e3bde3f078b979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:44 +0000
Subject: [PATCH 33/53] fix: fold restarted with zero when its expression could
 not be evaluated

---
 src/client/commands/cmd_table.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index 964b281..58ea720 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -115,6 +115,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
 
     // Optionally: Parse part of command after "fold"
     double fold_val = 0;
+    ListenerError fold_err = LISTENERERR_SUCCESS;
     if (num_args == 6)
     {
         // Parse initial fold-value
@@ -190,14 +191,14 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
         {
             add_cell_fmt(table, " " DOUBLE_FMT " ", result);
 
-            if (num_args == 6)
+            if (num_args == 6 && fold_err == LISTENERERR_SUCCESS)
             {
                 Node *current_fold = tree_copy(fold_expr);
                 Node *current_fold_x = malloc_constant_node(fold_val, 0);
                 Node *current_fold_y = malloc_constant_node(result, 0);
                 replace_variable_nodes(&current_fold, current_fold_x, FOLD_VAR_1);
                 replace_variable_nodes(&current_fold, current_fold_y, FOLD_VAR_2);
-                fold_val = arith_evaluate(current_fold);
+                fold_err = tree_reduce(current_fold, arith_op_evaluate, &fold_val, NULL);
                 free_tree(current_fold);
                 free_tree(current_fold_x);
                 free_tree(current_fold_y);
@@ -218,6 +219,12 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
     print_table(table);
     free_table(table);
 
+    if (fold_err != LISTENERERR_SUCCESS)
+    {
+        report_error("Error: Fold expression could not be evaluated\n");
+        goto exit;
+    }
+
     if (num_args == 6) // Contains fold expression
     {
         printf("Fold result: " CONSTANT_TYPE_FMT "\n", fold_val);
-- 
2.43.0


From 10e3d42ed7666f2fe0c74a6911487da51086385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:32 +0000
Subject: [PATCH 34/53] fix: surplus sections of a ruleset file were written
 past the buffer

---
 src/engine/transformation/rule_parsing.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 42bb73f..80e4ee4 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -210,16 +210,11 @@ ssize_t parse_rulesets_from_file(FILE *file,
 
         if (begins_with(RULESET, line))
         {
+            if (curr_ruleset + 1 == (ssize_t)buffer_size) break; // Buffer is full
             curr_ruleset++;
             continue;
         }
 
-        if (curr_ruleset == (ssize_t)buffer_size)
-        {
-            curr_ruleset--; // Adjusted for right return value
-            break;          // Buffer is full
-        }
-
         if (line[0] == '\0') continue;
 
         if (curr_ruleset != -1)
-- 
2.43.0


From d493353dcfc45e0f0dd6468b3ce67e848f1133cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:29 +0000
Subject: [PATCH 35/53] fix: derivative shorthand stopped working when rules
 were loaded after defining x or z

---
 src/client/simplification/simplification.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index edb4509..8287993 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -17,7 +17,7 @@
 #include "propositional_context.h"
 #include "propositional_evaluation.h"
 
-#define P(x) (parse_easy(g_ctx, x))
+#define P(x) (parse_easy(g_propositional_ctx, x)) // Names defined by the user must not interfere
 #define NUM_RULESETS 7
 
 /*
@@ -201,8 +201,8 @@ void simplify_without_derivative(Node **tree)
 // Evaluates constant subtrees before any rule is applied: A derivative without variables is zero
 static ListenerError reduce_listener(const Operator *op, size_t num_args, const double *args, double *out)
 {
-    if (op == get_op(deriv_after)) return LISTENERERR_MALFORMED_DERIV_B;
-    if (op == get_op(deriv_before.pattern))
+    if (op->id == get_op(deriv_after)->id) return LISTENERERR_MALFORMED_DERIV_B;
+    if (op->id == get_op(deriv_before.pattern)->id)
     {
         *out = 0;
         return LISTENERERR_SUCCESS;
-- 
2.43.0


From d8a621865e36728dfd6383e58c7777ced616434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:35 +0000
Subject: [PATCH 36/53] fix: text of an overwritten table cell was leaked

---
 src/table/table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/table/table.c b/src/table/table.c
index 016c039..09ebf26 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -455,6 +455,7 @@ static void override_superfluous_lines(Table *table, size_t last_col_width, size
 static void add_text_cell(Table *table, char *text, bool needs_free)
 {
     struct Cell *cell = &table->curr_row->cells[table->curr_col];
+    if (cell->text_needs_free) free(cell->text); // Cell is overwritten
     cell->is_set = true;
     cell->text_needs_free = needs_free;
     cell->text = text;
-- 
2.43.0


From ccddf3ba1e0fda6ab3f9273b27036ad109fd8308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:36 +0000
Subject: [PATCH 37/53] fix: removed borders of table cells that became part of
 a span were still counted

---
 src/table/table.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/table/table.c b/src/table/table.c
index 09ebf26..2c2f2d7 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -984,11 +984,19 @@ void set_span(Table *table, size_t span_x, size_t span_y)
 
             if (j != 0)
             {
+                if (child->override_border_left && child->border_left != BORDER_NONE)
+                {
+                    table->border_left_counters[child->x]--;
+                }
                 child->border_left = BORDER_NONE;
                 child->override_border_left = true;
             }
             if (i != 0)
             {
+                if (child->override_border_above && child->border_above != BORDER_NONE)
+                {
+                    row->border_above_counter--;
+                }
                 child->border_above = BORDER_NONE;
                 child->override_border_above = true;
             }
-- 
2.43.0


From 4e392525a3863a80a80f6e37d386cfd186bef15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:37 +0000
Subject: [PATCH 38/53] fix: superfluous lines of a table were removed after
 the widths had been computed

---
 src/table/table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/table/table.c b/src/table/table.c
index 2c2f2d7..6188e94 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -1067,6 +1067,7 @@ void fprint_table(Table *table, FILE *stream)
     override_superfluous_lines(table, col_widths[table->num_cols - 1], row_heights[table->num_rows - 1]);
     table->curr_row = insertion_row;
     table->curr_col = insertion_col;
+    get_dimensions(table, col_widths, row_heights); // Lines that have been removed don't weaken constraints
     
     #ifdef DEBUG
     print_debug(table);
-- 
2.43.0


From 50c4797045ed5e8b27696ea4d1e372ab5f1087e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:40 +0000
Subject: [PATCH 39/53] fix: simplification runs forever when a constant
 subtree can not be evaluated

---
 src/engine/tree/tree_util.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/engine/tree/tree_util.c b/src/engine/tree/tree_util.c
index 23d2484..e4a70ca 100644
--- a/src/engine/tree/tree_util.c
+++ b/src/engine/tree/tree_util.c
@@ -415,33 +415,39 @@ ListenerError tree_reduce(const Node *tree, TreeListener listener, double *out,
 
 /*
 Summary: Replaces reducible subtrees by a ConstantNode
+         A subtree that can not be evaluated does not prevent others from being replaced
+Returns: First error that occurred
 Params:
     tree:            Tree that will be changed
     listener:        Compositional evaluation function
 */
 ListenerError tree_reduce_constant_subtrees(Node **tree, TreeListener listener, const Node **out_errnode)
 {
+    ListenerError res = LISTENERERR_SUCCESS;
+
     if (count_all_variable_nodes(*tree) == 0)
     {
-        double res;
-        ListenerError err = tree_reduce(*tree, listener, &res, out_errnode);
-        if (err != LISTENERERR_SUCCESS) return err;
-        Node *replacement = malloc_constant_node(res, get_token_index(*tree));
-        tree_replace(tree, replacement);
+        double value;
+        res = tree_reduce(*tree, listener, &value, out_errnode);
+        if (res == LISTENERERR_SUCCESS)
+        {
+            tree_replace(tree, malloc_constant_node(value, get_token_index(*tree)));
+            return LISTENERERR_SUCCESS;
+        }
     }
-    else
+
+    if (get_type(*tree) == NTYPE_OPERATOR)
     {
-        if (get_type(*tree) == NTYPE_OPERATOR)
+        for (size_t i = 0; i < get_num_children(*tree); i++)
         {
-            for (size_t i = 0; i < get_num_children(*tree); i++)
-            {
-                ListenerError err = tree_reduce_constant_subtrees(get_child_addr(*tree, i), listener, out_errnode);
-                if (err != LISTENERERR_SUCCESS) return err;
-            }
+            ListenerError err = tree_reduce_constant_subtrees(get_child_addr(*tree, i),
+                listener,
+                (res == LISTENERERR_SUCCESS) ? out_errnode : NULL);
+            if (res == LISTENERERR_SUCCESS) res = err;
         }
     }
 
-    return LISTENERERR_SUCCESS;
+    return res;
 }
 
 /*
-- 
2.43.0


From 71b055e86eec2a497f8956b9e999644246ae4ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:41 +0000
Subject: [PATCH 40/53] fix: other factors lost when a power is multiplied into
 a sum

---
 simplification.ruleset | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index b1d0893..2bcd924 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -130,7 +130,7 @@ RULESET
     prod([xs], x^y, [ys], x, [zs])   -> prod([xs], x^sum(y,1), [ys], [zs])
     prod([xs], x^z, [ys], x^y, [zs]) -> prod([xs], x^sum(y,z), [ys], [zs])
 
-    prod([xs], sum([xxs], x^y, [yys]), [ys], x^z, [zs]) -> sum(prod([xs], sum([xxs], [yys]), [ys], x^z, [zs]), x^sum(y,z))
+    prod([xs], sum([xxs], x^y, [yys]), [ys], x^z, [zs]) -> sum(prod([xs], sum([xxs], [yys]), [ys], x^z, [zs]), prod([xs], [ys], x^sum(y,z), [zs]))
 
     # Trigonometrics
     sum([xs], cos(x)^2, [ys], sin(x)^2, [zs])   -> sum(1, [xs], [ys], [zs])
-- 
2.43.0


From 56ae0f954a71e1c9a795dbe771060472eb667a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:41 +0000
Subject: [PATCH 41/53] fix: powers of negative bases are merged

---
 simplification.ruleset | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index 2bcd924..1408e2e 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -120,13 +120,20 @@ RULESET
     # Powers
     x^0                              -> 1
     x^1                              -> x
-    (x^y)^z                          -> x^prod(y, z)
+    # Variables are assumed to be positive, but any other base can be negative: sqrt((x-1)^2) is not x-1
+    (x^y)^z                          -> x^prod(y, z)  WHERE type(x) == VAR
+    (x^y)^z                          -> x^prod(y, z)  WHERE x >= 0
+    (x^y)^z                          -> x^prod(y, z)  WHERE (z mod 1) == 0
+    (x^y)^z                          -> x^prod(y, z)  WHERE (y mod 2) != 0
 
     prod([xs], x^cy, [ys], x^cz, [zs]) -> prod([xs], x^sum(cy,cz), [ys], [zs]) WHERE type(cy)==CONST ; type(cz)==CONST
     prod([xs], cy^x, [ys], cz^x, [zs]) -> prod([xs], (cy*cz)^x, [ys], [zs]) WHERE type(cy)==CONST ; type(cz)==CONST
     prod([xs], x, [ys], x, [zs])     -> prod([xs], x^2, [ys], [zs])
     prod([xs], x, [ys], x^y, [zs])   -> prod([xs], x^sum(y,1), [ys], [zs])
-    prod(x, y)^z                     -> prod(x^z, y^z)
+    prod(x, y)^z                     -> prod(x^z, y^z)  WHERE type(x) == VAR || type(y) == VAR
+    prod(x, y)^z                     -> prod(x^z, y^z)  WHERE x >= 0
+    prod(x, y)^z                     -> prod(x^z, y^z)  WHERE (z mod 1) == 0
+    prod(x^w, y)^z                   -> prod(x^prod(w, z), y^z)  WHERE type(x) == VAR
     prod([xs], x^y, [ys], x, [zs])   -> prod([xs], x^sum(y,1), [ys], [zs])
     prod([xs], x^z, [ys], x^y, [zs]) -> prod([xs], x^sum(y,z), [ys], [zs])
 
@@ -189,7 +196,8 @@ RULESET
     (-x)+y        -> y-x
     -(x*y)        -> (-x)*y
     root(x, 2)    -> sqrt(x)
-    x^(1/y)       -> root(x, y)
+    x^(1/y)       -> root(x, y)    WHERE type(x) == VAR
+    x^(1/y)       -> root(x, y)    WHERE x >= 0
 
     x+(y+z)       -> x+y+z
     x*(y*z)       -> x*y*z
-- 
2.43.0


From 79d322e9d944ef650d22a5b941ae8688c64d64ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:35 +0000
Subject: [PATCH 42/53] fix: table command lists the last value despite
 rounding

---
 src/client/commands/cmd_table.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index 58ea720..a0ae47b 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -19,6 +19,7 @@
 
 #define STRBUILDER_STARTSIZE 10
 #define DOUBLE_FMT "%-.10f"
+#define ROUNDING_TOLERANCE 1e-9
 
 int cmd_table_check(const char *input)
 {
@@ -141,7 +142,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
     // - - - End of parsing of fold-construct
 
     // Neither infinite bounds nor steps that are lost by rounding end the loop
-    if (isinf(start_val) || isinf(end_val) || isinf(step_val)
+    if (!isfinite(end_val - start_val) || !isfinite(step_val)
         || start_val + step_val == start_val || end_val + step_val == end_val)
     {
         report_error("Error: Infinite number of values\n");
@@ -175,17 +176,20 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
     }
 
     // Loop through all values and add them to table
-    for (size_t i = 1; step_val > 0 ? start_val <= end_val : start_val >= end_val; i++)
+    // Values are not accumulated to not miss the last one due to rounding
+    size_t num_steps = (end_val - start_val) / step_val + ROUNDING_TOLERANCE;
+    for (size_t i = 1; i <= num_steps + 1; i++)
     {
+        double arg_val = start_val + (i - 1) * step_val;
         Node *current_expr = tree_copy(expr);
-        Node *current_val = malloc_constant_node(start_val, 0);
+        Node *current_val = malloc_constant_node(arg_val, 0);
         replace_variable_nodes(&current_expr, current_val, var);
 
         double result = 0;
         ListenerError err = tree_reduce(current_expr, arith_op_evaluate, &result, NULL);
 
         if (is_interactive()) add_cell_fmt(table, " %zu ", i);
-        add_cell_fmt(table, " " DOUBLE_FMT " ", start_val);
+        add_cell_fmt(table, " " DOUBLE_FMT " ", arg_val);
 
         if (err == LISTENERERR_SUCCESS)
         {
@@ -212,7 +216,6 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
         free_tree(current_expr);
         free_tree(current_val);
         next_row(table);
-        start_val += step_val;
     }
 
     set_default_alignments(table, 3, (TableHAlign[]){ H_ALIGN_RIGHT, H_ALIGN_RIGHT, H_ALIGN_RIGHT }, NULL);
-- 
2.43.0


From 8156fe20cc3c3598be2763370f22af7737864be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:07:31 +0000
Subject: [PATCH 43/53] fix: comments, empty lines and quit given by the
 commands switch are executed as if typed in

---
 src/client/commands/commands.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/client/commands/commands.c b/src/client/commands/commands.c
index 59d400c..b19c95f 100644
--- a/src/client/commands/commands.c
+++ b/src/client/commands/commands.c
@@ -49,6 +49,8 @@ static const struct Command commands[] = {
     { cmd_evaluation_check, cmd_evaluation_exec }
 };
 
+static bool all_succeeded = true; // Whether no line has failed yet, no matter where it was read from
+
 /*
 Summary: Frees all resources so that heap is empty after exit,
     except data malloced by readline and input of quit-command
@@ -85,29 +87,20 @@ void init_commands()
 }
 
 /*
-Summary: Loop to ask user or file for command, ignores comments
+Summary: Loop to ask user or file for command
     You may want to call set_interactive before.
 Returns: True when no command exited with an error, false otherwise
 */
 bool process_input(FILE *file)
 {
-    static bool all_succeeded = true; // Including lines outside of file when it is loaded by a command
     bool res = true;
     char *input = NULL;
     while (ask_input(file, &input, NULL))
     {
-        if (strcmp(input, QUIT_COMMAND) == 0)
-        {
-            free(input);
-            exit(all_succeeded ? EXIT_SUCCESS : EXIT_FAILURE);
-        }
-        if (input[0] != '\0' && input[0] != COMMENT_PREFIX)
+        if (!exec_command(input))
         {
-            if (!exec_command(input))
-            {
-                res = false;
-                all_succeeded = false;
-            }
+            res = false;
+            all_succeeded = false;
         }
         free(input);
     }
@@ -117,11 +110,21 @@ bool process_input(FILE *file)
 }
 
 /*
-Summary: Tries to apply a command to input.
+Summary: Tries to apply a command to input, ignores comments.
     First command whose check-function does not return 0 is executed.
 */
 bool exec_command(char *input)
 {
+    if (input[0] == '\0' || input[0] == COMMENT_PREFIX)
+    {
+        return true;
+    }
+
+    if (strcmp(input, QUIT_COMMAND) == 0)
+    {
+        exit(all_succeeded ? EXIT_SUCCESS : EXIT_FAILURE);
+    }
+
     for (size_t i = 0; i < NUM_COMMANDS; i++)
     {
         int check_code = commands[i].check_handler(input);
-- 
2.43.0


From 96591cf966aeb486b58acd20dd82886365ebe84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:23:39 +0000
Subject: [PATCH 44/53] fix: end with the out-of-memory message when reading a
 line fails to allocate

---
 src/engine/transformation/rule_parsing.c |  2 +-
 src/util/alloc_wrappers.c                | 14 ++++++++++++++
 src/util/alloc_wrappers.h                |  3 +++
 src/util/console_util.c                  |  3 ++-
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 80e4ee4..042a4f0 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -198,7 +198,7 @@ ssize_t parse_rulesets_from_file(FILE *file,
     char *line_start = NULL;
     size_t line_length = 0;
 
-    while (getline(&line_start, &line_length, file) != EOF)
+    while (getline_wrapper(&line_start, &line_length, file) != EOF)
     {
         line_index++;
         char *line = line_start;
diff --git a/src/util/alloc_wrappers.c b/src/util/alloc_wrappers.c
index 9b81147..4ccb9c7 100644
--- a/src/util/alloc_wrappers.c
+++ b/src/util/alloc_wrappers.c
@@ -1,3 +1,5 @@
+#define _GNU_SOURCE
+#include <errno.h>
 #include <stdio.h>
 #include "console_util.h"
 #include "alloc_wrappers.h"
@@ -33,3 +35,15 @@ void *calloc_wrapper(size_t n, size_t elem_size)
     }
     return res;
 }
+
+ssize_t getline_wrapper(char **lineptr, size_t *n, FILE *file)
+{
+    errno = 0;
+    ssize_t res = getline(lineptr, n, file);
+    // End of file and failed allocation both return -1
+    if (res == -1 && errno == ENOMEM)
+    {
+        software_defect(ERROR_MESSAGE);
+    }
+    return res;
+}
diff --git a/src/util/alloc_wrappers.h b/src/util/alloc_wrappers.h
index ad34018..4e22c73 100644
--- a/src/util/alloc_wrappers.h
+++ b/src/util/alloc_wrappers.h
@@ -1,6 +1,9 @@
 #pragma once
+#include <stdio.h>
 #include <stdlib.h>
+#include <sys/types.h>
 
 void *malloc_wrapper(size_t size);
 void *realloc_wrapper(void *ptr, size_t size);
 void *calloc_wrapper(size_t n, size_t elem_size);
+ssize_t getline_wrapper(char **lineptr, size_t *n, FILE *file);
diff --git a/src/util/console_util.c b/src/util/console_util.c
index 72605ae..94212de 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -7,6 +7,7 @@
 #include <readline/history.h>
 #endif
 
+#include "alloc_wrappers.h"
 #include "console_util.h"
 #include "string_builder.h"
 
@@ -67,7 +68,7 @@ bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_
     
     size_t size = 0;
     *out_input = NULL;
-    if (getline(out_input, &size, file) == EOF)
+    if (getline_wrapper(out_input, &size, file) == EOF)
     {
         free(*out_input);
         *out_input = NULL;
-- 
2.43.0


From 589ee06a2e21cc4ab05b7326f25350ed3ae72ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:29:15 +0000
Subject: [PATCH 45/53] fix: print table errors with their marker in one line

---
 src/client/commands/cmd_table.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index a0ae47b..91aa47c 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -86,7 +86,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
     size_t num_vars = list_variables(expr, 1, &var, &sufficient);
     if (!sufficient)
     {
-        report_error_at(args[0] - input, strlen(args[0]), "Error: More than one variable\n");
+        report_error_at(args[0] - input, strlen(args[0]), "Error: More than one variable");
         goto exit;
     }
 
@@ -110,7 +110,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
 
     if (step_val == 0)
     {
-        report_error_at(args[3] - input, strlen(args[3]), "Error: 'step' must not be zero\n");
+        report_error_at(args[3] - input, strlen(args[3]), "Error: 'step' must not be zero");
         goto exit;
     }
 
@@ -131,7 +131,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
             - get_variable_nodes((const Node**)&fold_expr, FOLD_VAR_2, 0, NULL) != 0)
         {
             report_error_at(args[4] - input, strlen(args[4]),
-                "Error: Fold expression must not contain any variables except '" FOLD_VAR_1 "' and '" FOLD_VAR_2 "'\n");
+                "Error: Fold expression must not contain any variables except '" FOLD_VAR_1 "' and '" FOLD_VAR_2 "'");
             goto exit;
         }
 
-- 
2.43.0


From 93e2c55e446834e3249e95bf039f69043a4dff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:58 +0000
Subject: [PATCH 46/53] fix: report the wrong number of operands of a call in
 parentheses

---
 src/engine/parsing/parser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index 72c7db8..0a88e0f 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -220,8 +220,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             {
                 if (!op_pop_and_insert(&state))
                 {
-                    state.curr_tok = i;
-                    ERROR(PERR_UNEXPECTED_CLOSING_PAREN);
+                    goto exit;
                 }
             }
             
-- 
2.43.0


From 3bb6afdbb7c67b25f9e1ff88f76f162135ef9bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:27 +0000
Subject: [PATCH 47/53] fix: keep the CRLF line endings of cmd_definition.c and
 console_util.c, which earlier fixes had converted

---
 src/client/commands/cmd_definition.c | 496 +++++++++++++--------------
 src/util/console_util.c              | 410 +++++++++++-----------
 2 files changed, 453 insertions(+), 453 deletions(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index 7622e80..f78014e 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -1,248 +1,248 @@
-#include <stdio.h>
-#include <string.h>
-
-#include "../../util/string_util.h"
-#include "../../util/console_util.h"
-#include "../../engine/tree/node.h"
-#include "../../engine/tree/tree_util.h"
-#include "../../engine/parsing/tokenizer.h"
-#include "../../engine/parsing/parser.h"
-#include "../../engine/transformation/rewrite_rule.h"
-
-#include "cmd_definition.h"
-#include "../core/arith_context.h"
-
-#define DEFINITION_OP   "="
-
-#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
-#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
-#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
-#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
-#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
-#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
-#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
-
-int cmd_definition_check(const char *input)
-{
-    return strstr(input, DEFINITION_OP) != NULL;
-}
-
-static bool do_left_checks(Node *left_n, int strlen)
-{
-    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
-    {
-        report_error_at(0, strlen, ERR_NOT_A_FUNC);
-        return false;
-    }
-
-    size_t num_children = get_num_children(left_n);
-
-    if (num_children > 0)
-    {
-        for (size_t i = 0; i < num_children; i++)
-        {
-            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
-            {
-                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
-                return false;
-            }
-        }
-
-        const char *vars[MAX_MAPPED_VARS];
-        bool sufficient_buff = false;
-        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
-        if (!sufficient_buff)
-        {
-            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
-            return false;
-        }
-        if (num_vars != num_children)
-        {
-            report_error_at(0, strlen, ERR_NOT_DISTINCT);
-            return false;
-        }
-    }
-
-    return true;
-}
-
-static bool add_function(char *name, char *left, char *right, bool is_constant)
-{
-    // First check if function already exists
-    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
-    if (op != NULL)
-    {
-        if (op->id < NUM_ARITH_OPS)
-        {
-            report_error(ERR_BUILTIN_REDEFINITION);
-        }
-        else
-        {
-            report_error(ERR_REDEFINITION);
-        }
-        
-        // Don't goto error since no new operator has been added to context
-        free(name);
-        return false;
-    }
-
-    // Add function operator to parse left input
-    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
-    ParsingResult left_result = { .error = PERR_NULL };
-    ParsingResult right_result = { .error = PERR_NULL };
-    Node *left_tree = NULL;
-    Node *right_tree = NULL;
-    const Operator *new_op = NULL;
-
-    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
-    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
-    if (!is_constant)
-    {
-        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
-    }
-    else
-    {
-        new_op = ctx_add_op(g_ctx, op_get_constant(name));
-    }
-
-    if (!arith_parse_raw(left, 0, &left_result))
-    {
-        goto error;
-    }
-
-    left_tree = left_result.tree;
-    free_result(&left_result, false);
-
-    // Check if left side is "function(var_1, ..., var_n)"
-    if (!do_left_checks(left_tree, strlen(left)))
-    {
-        goto error;
-    }
-
-    // Assign correct arity:
-    // Since operators are const, we can't change the arity directly
-    // A new operator with correct arity has to be created
-    if (!is_constant)
-    {
-        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
-        set_op(left_tree, new_op);
-    }
-
-    // Parse right expression raw to detect a recursive definition
-    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
-    {
-        goto error;
-    }
-
-    // Check if function is used in its definition
-    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
-    {
-        report_error(ERR_RECURSIVE_DEFINITION);
-        free_result(&right_result, true);
-        goto error;
-    }
-
-    // Since right expression was parsed raw to detect recursive definitions, do post processing
-    right_tree = arith_simplify(&right_result, (size_t)(right - left));
-    if (right_tree == NULL)
-    {
-        goto error;
-    }
-
-    // Add rule to eliminate operator before evaluation
-    RewriteRule rule;
-    Pattern pattern;
-    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
-    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
-    {
-        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
-        goto error;
-    }
-
-    add_composite_function(rule);
-
-    if (get_op(left_tree)->arity == 0)
-    {
-        if (!is_constant)
-        {
-            whisper("Added constant. Note: constants don't require a parameter list.\n");
-        }
-        else
-        {
-            whisper("Added constant.\n");
-        }
-    }
-    else
-    {
-        whisper("Added function.\n");
-    }
-    
-    return true;
-
-    error:
-    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-    free_tree(left_tree);
-    free_tree(right_tree);
-    free(name);
-    return false;
-}
-
-/*
-Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
-*/
-bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
-{   
-    // Overwrite first char of operator to make function definition a proper string
-    char *right_input = strstr(input, DEFINITION_OP);
-    *right_input = '\0';
-    right_input += strlen(DEFINITION_OP);
-    
-    // Tokenize function definition to get its name. Name is first token.
-    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
-    
-    // Function name is first token that is not a space
-    char *name = NULL;
-    size_t non_space_tokens = 0;
-    for (size_t i = 0; i < vec_count(&tokens); i++)
-    {
-        char *token = *(char**)vec_get(&tokens, i);
-        if (is_space(token[0]))
-        {
-            free(token);
-        }
-        else
-        {
-            non_space_tokens++;
-            if (name == NULL)
-            {
-                name = token;
-            }
-            else
-            {
-                free(token);
-            }
-        }
-    }
-
-    vec_destroy(&tokens);
-
-    if (name == NULL)
-    {
-        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-        return false;
-    }
-    else
-    {
-        if (!is_letter(name[0]))
-        {
-            free(name);
-            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-            return false;
-        }
-        else
-        {
-            return add_function(name, input, right_input, non_space_tokens == 1);
-        }
-    }
-}
+#include <stdio.h>
+#include <string.h>
+
+#include "../../util/string_util.h"
+#include "../../util/console_util.h"
+#include "../../engine/tree/node.h"
+#include "../../engine/tree/tree_util.h"
+#include "../../engine/parsing/tokenizer.h"
+#include "../../engine/parsing/parser.h"
+#include "../../engine/transformation/rewrite_rule.h"
+
+#include "cmd_definition.h"
+#include "../core/arith_context.h"
+
+#define DEFINITION_OP   "="
+
+#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
+#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
+#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
+#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
+#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
+#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
+#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
+
+int cmd_definition_check(const char *input)
+{
+    return strstr(input, DEFINITION_OP) != NULL;
+}
+
+static bool do_left_checks(Node *left_n, int strlen)
+{
+    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
+    {
+        report_error_at(0, strlen, ERR_NOT_A_FUNC);
+        return false;
+    }
+
+    size_t num_children = get_num_children(left_n);
+
+    if (num_children > 0)
+    {
+        for (size_t i = 0; i < num_children; i++)
+        {
+            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
+            {
+                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
+                return false;
+            }
+        }
+
+        const char *vars[MAX_MAPPED_VARS];
+        bool sufficient_buff = false;
+        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
+        if (!sufficient_buff)
+        {
+            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
+            return false;
+        }
+        if (num_vars != num_children)
+        {
+            report_error_at(0, strlen, ERR_NOT_DISTINCT);
+            return false;
+        }
+    }
+
+    return true;
+}
+
+static bool add_function(char *name, char *left, char *right, bool is_constant)
+{
+    // First check if function already exists
+    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
+    if (op != NULL)
+    {
+        if (op->id < NUM_ARITH_OPS)
+        {
+            report_error(ERR_BUILTIN_REDEFINITION);
+        }
+        else
+        {
+            report_error(ERR_REDEFINITION);
+        }
+        
+        // Don't goto error since no new operator has been added to context
+        free(name);
+        return false;
+    }
+
+    // Add function operator to parse left input
+    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
+    ParsingResult left_result = { .error = PERR_NULL };
+    ParsingResult right_result = { .error = PERR_NULL };
+    Node *left_tree = NULL;
+    Node *right_tree = NULL;
+    const Operator *new_op = NULL;
+
+    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
+    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
+    if (!is_constant)
+    {
+        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
+    }
+    else
+    {
+        new_op = ctx_add_op(g_ctx, op_get_constant(name));
+    }
+
+    if (!arith_parse_raw(left, 0, &left_result))
+    {
+        goto error;
+    }
+
+    left_tree = left_result.tree;
+    free_result(&left_result, false);
+
+    // Check if left side is "function(var_1, ..., var_n)"
+    if (!do_left_checks(left_tree, strlen(left)))
+    {
+        goto error;
+    }
+
+    // Assign correct arity:
+    // Since operators are const, we can't change the arity directly
+    // A new operator with correct arity has to be created
+    if (!is_constant)
+    {
+        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
+        set_op(left_tree, new_op);
+    }
+
+    // Parse right expression raw to detect a recursive definition
+    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
+    {
+        goto error;
+    }
+
+    // Check if function is used in its definition
+    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
+    {
+        report_error(ERR_RECURSIVE_DEFINITION);
+        free_result(&right_result, true);
+        goto error;
+    }
+
+    // Since right expression was parsed raw to detect recursive definitions, do post processing
+    right_tree = arith_simplify(&right_result, (size_t)(right - left));
+    if (right_tree == NULL)
+    {
+        goto error;
+    }
+
+    // Add rule to eliminate operator before evaluation
+    RewriteRule rule;
+    Pattern pattern;
+    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
+    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
+    {
+        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
+        goto error;
+    }
+
+    add_composite_function(rule);
+
+    if (get_op(left_tree)->arity == 0)
+    {
+        if (!is_constant)
+        {
+            whisper("Added constant. Note: constants don't require a parameter list.\n");
+        }
+        else
+        {
+            whisper("Added constant.\n");
+        }
+    }
+    else
+    {
+        whisper("Added function.\n");
+    }
+    
+    return true;
+
+    error:
+    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+    free_tree(left_tree);
+    free_tree(right_tree);
+    free(name);
+    return false;
+}
+
+/*
+Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
+*/
+bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
+{   
+    // Overwrite first char of operator to make function definition a proper string
+    char *right_input = strstr(input, DEFINITION_OP);
+    *right_input = '\0';
+    right_input += strlen(DEFINITION_OP);
+    
+    // Tokenize function definition to get its name. Name is first token.
+    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
+    
+    // Function name is first token that is not a space
+    char *name = NULL;
+    size_t non_space_tokens = 0;
+    for (size_t i = 0; i < vec_count(&tokens); i++)
+    {
+        char *token = *(char**)vec_get(&tokens, i);
+        if (is_space(token[0]))
+        {
+            free(token);
+        }
+        else
+        {
+            non_space_tokens++;
+            if (name == NULL)
+            {
+                name = token;
+            }
+            else
+            {
+                free(token);
+            }
+        }
+    }
+
+    vec_destroy(&tokens);
+
+    if (name == NULL)
+    {
+        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+        return false;
+    }
+    else
+    {
+        if (!is_letter(name[0]))
+        {
+            free(name);
+            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+            return false;
+        }
+        else
+        {
+            return add_function(name, input, right_input, non_space_tokens == 1);
+        }
+    }
+}
diff --git a/src/util/console_util.c b/src/util/console_util.c
index 94212de..390c2e7 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -1,205 +1,205 @@
-#define _GNU_SOURCE
-#include <stdarg.h>
-#include <stdio.h>
-#include <string.h>
-#ifdef USE_READLINE
-#include <readline/readline.h>
-#include <readline/history.h>
-#endif
-
-#include "alloc_wrappers.h"
-#include "console_util.h"
-#include "string_builder.h"
-
-bool interactive;
-
-void unload_console_util()
-{
-#ifdef USE_READLINE
-    rl_clear_history();
-#endif
-}
-
-void init_console_util()
-{
-    interactive = false;
-#ifdef USE_READLINE
-    // Disable tab completion
-    rl_bind_key('\t', rl_insert);
-#endif
-}
-
-/*
-Summary: Sets interactive mode
-    When true, whispered messages are displayed and readline instead of getline is used to read input
-*/
-bool set_interactive(bool value)
-{
-    bool res = interactive;
-    interactive = value;
-    return res;
-}
-
-bool is_interactive()
-{
-    return interactive;
-}
-
-/*
-Summary: printf-wrapper that filters unimportant prints in non-interactive mode
-*/
-void whisper(const char *format, ...)
-{
-    if (interactive)
-    {
-        va_list args;
-        va_start(args, format);
-        vprintf(format, args);
-        va_end(args);
-    }
-}
-
-bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (interactive && prompt_fmt != NULL)
-    {
-        vprintf(prompt_fmt, args);
-    }
-    
-    size_t size = 0;
-    *out_input = NULL;
-    if (getline_wrapper(out_input, &size, file) == EOF)
-    {
-        free(*out_input);
-        *out_input = NULL;
-        return false;
-    }
-
-    // Overwrite newline char (last line may not be terminated by one)
-    (*out_input)[strcspn(*out_input, "\n")] = '\0';
-    return true;
-}
-
-
-/*
-Summary: Used whenever input is requested. Prompt is only printed when interactive.
-Params
-    prompt: Prompt to display when interactive
-    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
-    out_input: Pointer to string that will be read. String must be free'd after use.
-*/
-#ifdef USE_READLINE
-
-// File is stdin, interactive is true
-bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (prompt_fmt != NULL)
-    {
-        Vector strbuilder = strbuilder_create(3);
-        vstrbuilder_append(&strbuilder, prompt_fmt, args);
-        *out_input = readline(strbuilder.buffer);
-        vec_destroy(&strbuilder);
-    }
-    else
-    {
-        *out_input = readline(NULL);
-    }
-
-    if (*out_input == NULL)
-    {
-        return false;
-    }
-    add_history(*out_input);
-    return true;
-}
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    // Use readline when interactive
-    if (interactive)
-    {
-        return ask_input_readline(out_input, prompt_fmt, args);
-    }
-    else
-    {
-        return ask_input_getline(file, out_input, prompt_fmt, args);
-    }
-}
-
-#else
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    return ask_input_getline(file, out_input, prompt_fmt, args);
-}
-
-#endif
-
-bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
-{
-    va_list args;
-    va_start(args, prompt_fmt);
-    bool res;
-    res = vask_input(file, out_input, prompt_fmt, args);
-    va_end(args);
-    return res;
-}
-
-void report_error(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-}
-
-void software_defect(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    fprintf(stderr, "Software defect: ");
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-    exit(EXIT_FAILURE);
-}
-
-void report_error_at(int pos, int length, const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-
-    if (is_interactive())
-    {
-        int msg_len = vsnprintf(NULL, 0, fmt, args);
-        va_end(args);
-        va_start(args, fmt);
-        if (pos - msg_len > 0) // Left of error token
-        {
-            report_error("%*s", pos - msg_len - 1, "");
-            vfprintf(stderr, fmt, args);
-            report_error(" ");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error("^");
-        }
-        else // Right of error token
-        {
-            report_error("%*s^", pos, "");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error(" ");
-            vfprintf(stderr, fmt, args);
-        }
-    }
-    else
-    {
-        vfprintf(stderr, fmt, args);
-    }
-
-    report_error("\n");
-    va_end(args);
-}
+#define _GNU_SOURCE
+#include <stdarg.h>
+#include <stdio.h>
+#include <string.h>
+#ifdef USE_READLINE
+#include <readline/readline.h>
+#include <readline/history.h>
+#endif
+
+#include "alloc_wrappers.h"
+#include "console_util.h"
+#include "string_builder.h"
+
+bool interactive;
+
+void unload_console_util()
+{
+#ifdef USE_READLINE
+    rl_clear_history();
+#endif
+}
+
+void init_console_util()
+{
+    interactive = false;
+#ifdef USE_READLINE
+    // Disable tab completion
+    rl_bind_key('\t', rl_insert);
+#endif
+}
+
+/*
+Summary: Sets interactive mode
+    When true, whispered messages are displayed and readline instead of getline is used to read input
+*/
+bool set_interactive(bool value)
+{
+    bool res = interactive;
+    interactive = value;
+    return res;
+}
+
+bool is_interactive()
+{
+    return interactive;
+}
+
+/*
+Summary: printf-wrapper that filters unimportant prints in non-interactive mode
+*/
+void whisper(const char *format, ...)
+{
+    if (interactive)
+    {
+        va_list args;
+        va_start(args, format);
+        vprintf(format, args);
+        va_end(args);
+    }
+}
+
+bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (interactive && prompt_fmt != NULL)
+    {
+        vprintf(prompt_fmt, args);
+    }
+    
+    size_t size = 0;
+    *out_input = NULL;
+    if (getline_wrapper(out_input, &size, file) == EOF)
+    {
+        free(*out_input);
+        *out_input = NULL;
+        return false;
+    }
+
+    // Overwrite newline char (last line may not be terminated by one)
+    (*out_input)[strcspn(*out_input, "\n")] = '\0';
+    return true;
+}
+
+
+/*
+Summary: Used whenever input is requested. Prompt is only printed when interactive.
+Params
+    prompt: Prompt to display when interactive
+    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
+    out_input: Pointer to string that will be read. String must be free'd after use.
+*/
+#ifdef USE_READLINE
+
+// File is stdin, interactive is true
+bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (prompt_fmt != NULL)
+    {
+        Vector strbuilder = strbuilder_create(3);
+        vstrbuilder_append(&strbuilder, prompt_fmt, args);
+        *out_input = readline(strbuilder.buffer);
+        vec_destroy(&strbuilder);
+    }
+    else
+    {
+        *out_input = readline(NULL);
+    }
+
+    if (*out_input == NULL)
+    {
+        return false;
+    }
+    add_history(*out_input);
+    return true;
+}
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    // Use readline when interactive
+    if (interactive)
+    {
+        return ask_input_readline(out_input, prompt_fmt, args);
+    }
+    else
+    {
+        return ask_input_getline(file, out_input, prompt_fmt, args);
+    }
+}
+
+#else
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    return ask_input_getline(file, out_input, prompt_fmt, args);
+}
+
+#endif
+
+bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
+{
+    va_list args;
+    va_start(args, prompt_fmt);
+    bool res;
+    res = vask_input(file, out_input, prompt_fmt, args);
+    va_end(args);
+    return res;
+}
+
+void report_error(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+}
+
+void software_defect(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    fprintf(stderr, "Software defect: ");
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+    exit(EXIT_FAILURE);
+}
+
+void report_error_at(int pos, int length, const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+
+    if (is_interactive())
+    {
+        int msg_len = vsnprintf(NULL, 0, fmt, args);
+        va_end(args);
+        va_start(args, fmt);
+        if (pos - msg_len > 0) // Left of error token
+        {
+            report_error("%*s", pos - msg_len - 1, "");
+            vfprintf(stderr, fmt, args);
+            report_error(" ");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error("^");
+        }
+        else // Right of error token
+        {
+            report_error("%*s^", pos, "");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error(" ");
+            vfprintf(stderr, fmt, args);
+        }
+    }
+    else
+    {
+        vfprintf(stderr, fmt, args);
+    }
+
+    report_error("\n");
+    va_end(args);
+}
-- 
2.43.0


From d2e9f4b77cdf895d4f0fec25ae6973402dc5857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:13:31 +0000
Subject: [PATCH 48/53] fix: draw trees deeper than 32 levels correctly

---
 src/engine/tree/tree_to_string.c | 33 ++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index 1284fc6..6b8cfb2 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -193,16 +193,29 @@ void print_tree(const Node *node, bool color)
 #define BRANCH_TAB "├── "
 #define END_TAB    "└── "
 
-static void print_tree_visually_internal(const Node *node, unsigned char layer, unsigned int vert_lines)
+struct Indent
 {
-    if (layer != 0)
+    const struct Indent *outer; // NULL for children of the root
+    bool is_last;               // Last child of its parent
+};
+
+static void print_indent(const struct Indent *indent, bool innermost)
+{
+    if (indent == NULL) return;
+    print_indent(indent->outer, false);
+    if (innermost)
     {
-        for (unsigned char i = 0; i < layer - 1; i++)
-        {
-            printf((vert_lines & ((unsigned int)1 << i)) ? LINE_TAB : EMPTY_TAB);
-        }
-        printf((vert_lines & ((unsigned int)1 << (layer - 1))) ? BRANCH_TAB : END_TAB);
+        printf(indent->is_last ? END_TAB : BRANCH_TAB);
+    }
+    else
+    {
+        printf(indent->is_last ? EMPTY_TAB : LINE_TAB);
     }
+}
+
+static void print_tree_visually_internal(const Node *node, const struct Indent *indent)
+{
+    print_indent(indent, true);
 
     switch (get_type(node))
     {
@@ -210,8 +223,8 @@ static void print_tree_visually_internal(const Node *node, unsigned char layer,
             printf(OP_COLOR "%s" COL_RESET "\n", get_op(node)->name);
             for (size_t i = 0; i < get_num_children(node); i++)
             {
-                print_tree_visually_internal(get_child(node, i), layer + 1,
-                    (i == get_num_children(node) - 1) ? vert_lines : (vert_lines | ((unsigned int)1 << layer)));
+                struct Indent child_indent = { .outer = indent, .is_last = (i == get_num_children(node) - 1) };
+                print_tree_visually_internal(get_child(node, i), &child_indent);
             }
             break;
             
@@ -230,5 +243,5 @@ Summary: Draws colored tree to stdout
 */
 void print_tree_visually(const Node *node)
 {
-    print_tree_visually_internal(node, 0, 0);
+    print_tree_visually_internal(node, NULL);
 }
-- 
2.43.0


From a44f3b6041e6a667ecddc7f0b357b3948a4acd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:34:30 +0000
Subject: [PATCH 49/53] fix: refuse rules that put a list where one operand
 belongs

---
 src/engine/transformation/rule_parsing.c | 31 ++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 042a4f0..226d1c0 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -33,6 +33,26 @@ void report_pattern_errcode(int err_code)
     }
 }
 
+// Lists can be of any length, so they need to be operands of a function with an arbitrary number of operands
+static bool check_lists(const Node *tree, bool list_allowed)
+{
+    switch (get_type(tree))
+    {
+        case NTYPE_OPERATOR:
+            for (size_t i = 0; i < get_num_children(tree); i++)
+            {
+                if (!check_lists(get_child(tree, i), get_op(tree)->arity == OP_DYNAMIC_ARITY)) return false;
+            }
+            return true;
+
+        case NTYPE_VARIABLE:
+            return list_allowed || get_var_name(tree)[0] != MATCHING_LIST_PREFIX;
+
+        default:
+            return true;
+    }
+}
+
 // string: without "WHERE"
 bool parse_constraints(const char *string,
     const ParsingContext *ctx,
@@ -63,6 +83,11 @@ bool parse_constraints(const char *string,
         out_constraints[*num_constraints] = parse_easy(ctx, str);
         if (out_constraints[*num_constraints] == NULL) goto error;
         (*num_constraints)++;
+        if (!check_lists(out_constraints[*num_constraints - 1], false))
+        {
+            report_error("List in constraint is not an operand of a function with any number of operands.\n");
+            goto error;
+        }
         if (*num_constraints == buffer_size && next_and != NULL)
         {
             report_error("Too many constraints.\n");
@@ -164,6 +189,12 @@ bool parse_rule(const char *string, const ParsingContext *ctx, RewriteRule *out_
         goto error;
     }
 
+    if (!check_lists(right_n, false))
+    {
+        report_error("List in righthand side of rule is not an operand of a function with any number of operands.\n");
+        goto error;
+    }
+
     Pattern pattern;
     int err_code = get_pattern(left_n, num_constrs, constrs, &pattern);
     if (err_code != 0)
-- 
2.43.0


From f9d2d0832d5dd55b22db47ab4f68039a1b108ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:37:56 +0000
Subject: [PATCH 50/53] fix: evaluate count in conditions of rules

---
 src/client/simplification/propositional_evaluation.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/client/simplification/propositional_evaluation.c b/src/client/simplification/propositional_evaluation.c
index 3a69afb..87c65ba 100644
--- a/src/client/simplification/propositional_evaluation.c
+++ b/src/client/simplification/propositional_evaluation.c
@@ -84,13 +84,20 @@ double type_eval(__attribute__((unused)) size_t num_children, Node **children)
     return 0; // To make compiler happy
 }
 
+double count_eval(size_t num_children, __attribute__((unused)) Node **children)
+{
+    return (double)num_children;
+}
+
 bool propositional_checker(Node **tree)
 {
     // Step 1: Reduce type(x)
     tree_reduce_ops(tree, ctx_lookup_op(g_propositional_ctx, "type", OP_PLACE_FUNCTION), type_eval);
     // Step 2: Reduce equal(x,y)
     tree_reduce_ops(tree, ctx_lookup_op(g_propositional_ctx, "equal", OP_PLACE_FUNCTION), equal_eval);
-    // Step 3: Reduce everything else
+    // Step 3: Reduce count(x,...)
+    tree_reduce_ops(tree, ctx_lookup_op(g_propositional_ctx, "count", OP_PLACE_FUNCTION), count_eval);
+    // Step 4: Reduce everything else
     double reduced = 0;
     if (tree_reduce(*tree, prop_op_evaluate, &reduced, NULL) != LISTENERERR_SUCCESS)
     {
-- 
2.43.0


From 5888e05a3a43cb01a4a8ec86e8159bb9b92ed221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:32 +0000
Subject: [PATCH 51/53] fix: name of a prefix operator was used as format
 string

---
 src/engine/tree/tree_to_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index 6b8cfb2..f09a848 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -23,7 +23,7 @@ static void to_str(StringBuilder *builder, bool color, const Node *node, bool l,
 static void prefix_to_str(StringBuilder *builder, bool color, const Node *node, bool l, bool r)
 {
     if (l) p_open(builder);
-    strbuilder_append(builder, get_op(node)->name);
+    strbuilder_append(builder, "%s", get_op(node)->name);
     
     if (get_type(get_child(node, 0)) == NTYPE_OPERATOR
         && get_op(get_child(node, 0))->precedence <= get_op(node)->precedence)
-- 
2.43.0


From b35746060ecc82bb85f182acaa1dfa4212ee567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:33 +0000
Subject: [PATCH 52/53] fix: postfix operator as right operand of a
 right-associative operator of the same precedence was printed without
 parentheses

---
 src/engine/tree/tree_to_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index f09a848..cdf7ffc 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -112,7 +112,7 @@ static void infix_to_str(StringBuilder *builder, bool color, const Node *node, b
     if (get_type(childR) == NTYPE_OPERATOR
         && (get_op(childR)->precedence < get_op(node)->precedence
             || (get_op(childR)->precedence == get_op(node)->precedence
-                && get_op(node)->assoc == OP_ASSOC_LEFT)))
+                && (get_op(node)->assoc == OP_ASSOC_LEFT || get_op(childR)->placement == OP_PLACE_POSTFIX))))
     {
         p_open(builder);
         to_str(builder, color, childR, false, false);
-- 
2.43.0


From 0f87467b48bc1504b828a1c5351777b417067aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:34 +0000
Subject: [PATCH 53/53] fix: prefix and postfix operators that are words were
 printed without a space

---
 src/engine/tree/tree_to_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index cdf7ffc..076a5f4 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -23,7 +23,7 @@ static void to_str(StringBuilder *builder, bool color, const Node *node, bool l,
 static void prefix_to_str(StringBuilder *builder, bool color, const Node *node, bool l, bool r)
 {
     if (l) p_open(builder);
-    strbuilder_append(builder, "%s", get_op(node)->name);
+    strbuilder_append(builder, is_letter(get_op(node)->name[0]) ? "%s " : "%s", get_op(node)->name);
     
     if (get_type(get_child(node, 0)) == NTYPE_OPERATOR
         && get_op(get_child(node, 0))->precedence <= get_op(node)->precedence)
@@ -60,7 +60,7 @@ static void postfix_to_str(StringBuilder *builder, bool color, const Node *node,
         to_str(builder, color, get_child(node, 0), l && !r, true);
     }
     
-    strbuilder_append(builder, "%s", get_op(node)->name);
+    strbuilder_append(builder, is_letter(get_op(node)->name[0]) ? " %s" : "%s", get_op(node)->name);
     if (r) p_close(builder);
 }
 
-- 
2.43.0

