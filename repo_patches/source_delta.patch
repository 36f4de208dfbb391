From 056cd8af07e92f614d3df5ddfebf1fad0ec3ab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 01/42] fix: assign unique operator IDs after an operator has
 been deleted

IDs were derived from the number of operators, so a function defined after
clearing an older one shared its ID with a live function: calls were expanded
with the wrong body or rejected as recursive.
---
 src/engine/parsing/context.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 85309ea..1b6d4a3 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -94,7 +94,9 @@ const Operator *ctx_add_op(ParsingContext *ctx, Operator op)
     }
     
     // Successfully passed the checks
-    op.id = list_count(&ctx->op_list);
+    // Count is not a unique ID after deletions, thus continue from the last operator's ID
+    ListNode *last = ctx->op_list.last;
+    op.id = (last != NULL) ? ((Operator*)listnode_get_data(last))->id + 1 : 0;
     ListNode *list_node = list_append(&ctx->op_list, &op);
     TRIE_ADD_ELEM(&ctx->op_tries[op.placement], op.name, ListNode*, list_node);
     trie_add_str(&ctx->keywords_trie, op.name);
-- 
2.43.0


From 3b4936d9b7f72a916185473c72421b928c695e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 02/42] fix: reject definition whose right hand side cannot be
 evaluated

'c = 1/0' dereferenced a NULL pointer since the wrong variable was checked.
---
 src/client/commands/cmd_definition.c | 496 +++++++++++++--------------
 1 file changed, 248 insertions(+), 248 deletions(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index af466aa..7622e80 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -1,248 +1,248 @@
-#include <stdio.h>
-#include <string.h>
-
-#include "../../util/string_util.h"
-#include "../../util/console_util.h"
-#include "../../engine/tree/node.h"
-#include "../../engine/tree/tree_util.h"
-#include "../../engine/parsing/tokenizer.h"
-#include "../../engine/parsing/parser.h"
-#include "../../engine/transformation/rewrite_rule.h"
-
-#include "cmd_definition.h"
-#include "../core/arith_context.h"
-
-#define DEFINITION_OP   "="
-
-#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
-#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
-#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
-#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
-#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
-#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
-#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
-
-int cmd_definition_check(const char *input)
-{
-    return strstr(input, DEFINITION_OP) != NULL;
-}
-
-static bool do_left_checks(Node *left_n, int strlen)
-{
-    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
-    {
-        report_error_at(0, strlen, ERR_NOT_A_FUNC);
-        return false;
-    }
-
-    size_t num_children = get_num_children(left_n);
-
-    if (num_children > 0)
-    {
-        for (size_t i = 0; i < num_children; i++)
-        {
-            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
-            {
-                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
-                return false;
-            }
-        }
-
-        const char *vars[MAX_MAPPED_VARS];
-        bool sufficient_buff = false;
-        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
-        if (!sufficient_buff)
-        {
-            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
-            return false;
-        }
-        if (num_vars != num_children)
-        {
-            report_error_at(0, strlen, ERR_NOT_DISTINCT);
-            return false;
-        }
-    }
-
-    return true;
-}
-
-static bool add_function(char *name, char *left, char *right, bool is_constant)
-{
-    // First check if function already exists
-    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
-    if (op != NULL)
-    {
-        if (op->id < NUM_ARITH_OPS)
-        {
-            report_error(ERR_BUILTIN_REDEFINITION);
-        }
-        else
-        {
-            report_error(ERR_REDEFINITION);
-        }
-        
-        // Don't goto error since no new operator has been added to context
-        free(name);
-        return false;
-    }
-
-    // Add function operator to parse left input
-    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
-    ParsingResult left_result = { .error = PERR_NULL };
-    ParsingResult right_result = { .error = PERR_NULL };
-    Node *left_tree = NULL;
-    Node *right_tree = NULL;
-    const Operator *new_op = NULL;
-
-    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
-    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
-    if (!is_constant)
-    {
-        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
-    }
-    else
-    {
-        new_op = ctx_add_op(g_ctx, op_get_constant(name));
-    }
-
-    if (!arith_parse_raw(left, 0, &left_result))
-    {
-        goto error;
-    }
-
-    left_tree = left_result.tree;
-    free_result(&left_result, false);
-
-    // Check if left side is "function(var_1, ..., var_n)"
-    if (!do_left_checks(left_tree, strlen(left)))
-    {
-        goto error;
-    }
-
-    // Assign correct arity:
-    // Since operators are const, we can't change the arity directly
-    // A new operator with correct arity has to be created
-    if (!is_constant)
-    {
-        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
-        set_op(left_tree, new_op);
-    }
-
-    // Parse right expression raw to detect a recursive definition
-    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
-    {
-        goto error;
-    }
-
-    // Check if function is used in its definition
-    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
-    {
-        report_error(ERR_RECURSIVE_DEFINITION);
-        free_result(&right_result, true);
-        goto error;
-    }
-
-    // Since right expression was parsed raw to detect recursive definitions, do post processing
-    right_tree = arith_simplify(&right_result, (size_t)(right - left));
-    if (left_tree == NULL)
-    {
-        goto error;
-    }
-
-    // Add rule to eliminate operator before evaluation
-    RewriteRule rule;
-    Pattern pattern;
-    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
-    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
-    {
-        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
-        goto error;
-    }
-
-    add_composite_function(rule);
-
-    if (get_op(left_tree)->arity == 0)
-    {
-        if (!is_constant)
-        {
-            whisper("Added constant. Note: constants don't require a parameter list.\n");
-        }
-        else
-        {
-            whisper("Added constant.\n");
-        }
-    }
-    else
-    {
-        whisper("Added function.\n");
-    }
-    
-    return true;
-
-    error:
-    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-    free_tree(left_tree);
-    free_tree(right_tree);
-    free(name);
-    return false;
-}
-
-/*
-Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
-*/
-bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
-{   
-    // Overwrite first char of operator to make function definition a proper string
-    char *right_input = strstr(input, DEFINITION_OP);
-    *right_input = '\0';
-    right_input += strlen(DEFINITION_OP);
-    
-    // Tokenize function definition to get its name. Name is first token.
-    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
-    
-    // Function name is first token that is not a space
-    char *name = NULL;
-    size_t non_space_tokens = 0;
-    for (size_t i = 0; i < vec_count(&tokens); i++)
-    {
-        char *token = *(char**)vec_get(&tokens, i);
-        if (is_space(token[0]))
-        {
-            free(token);
-        }
-        else
-        {
-            non_space_tokens++;
-            if (name == NULL)
-            {
-                name = token;
-            }
-            else
-            {
-                free(token);
-            }
-        }
-    }
-
-    vec_destroy(&tokens);
-
-    if (name == NULL)
-    {
-        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-        return false;
-    }
-    else
-    {
-        if (!is_letter(name[0]))
-        {
-            free(name);
-            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-            return false;
-        }
-        else
-        {
-            return add_function(name, input, right_input, non_space_tokens == 1);
-        }
-    }
-}
+#include <stdio.h>
+#include <string.h>
+
+#include "../../util/string_util.h"
+#include "../../util/console_util.h"
+#include "../../engine/tree/node.h"
+#include "../../engine/tree/tree_util.h"
+#include "../../engine/parsing/tokenizer.h"
+#include "../../engine/parsing/parser.h"
+#include "../../engine/transformation/rewrite_rule.h"
+
+#include "cmd_definition.h"
+#include "../core/arith_context.h"
+
+#define DEFINITION_OP   "="
+
+#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
+#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
+#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
+#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
+#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
+#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
+#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
+
+int cmd_definition_check(const char *input)
+{
+    return strstr(input, DEFINITION_OP) != NULL;
+}
+
+static bool do_left_checks(Node *left_n, int strlen)
+{
+    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
+    {
+        report_error_at(0, strlen, ERR_NOT_A_FUNC);
+        return false;
+    }
+
+    size_t num_children = get_num_children(left_n);
+
+    if (num_children > 0)
+    {
+        for (size_t i = 0; i < num_children; i++)
+        {
+            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
+            {
+                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
+                return false;
+            }
+        }
+
+        const char *vars[MAX_MAPPED_VARS];
+        bool sufficient_buff = false;
+        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
+        if (!sufficient_buff)
+        {
+            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
+            return false;
+        }
+        if (num_vars != num_children)
+        {
+            report_error_at(0, strlen, ERR_NOT_DISTINCT);
+            return false;
+        }
+    }
+
+    return true;
+}
+
+static bool add_function(char *name, char *left, char *right, bool is_constant)
+{
+    // First check if function already exists
+    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
+    if (op != NULL)
+    {
+        if (op->id < NUM_ARITH_OPS)
+        {
+            report_error(ERR_BUILTIN_REDEFINITION);
+        }
+        else
+        {
+            report_error(ERR_REDEFINITION);
+        }
+        
+        // Don't goto error since no new operator has been added to context
+        free(name);
+        return false;
+    }
+
+    // Add function operator to parse left input
+    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
+    ParsingResult left_result = { .error = PERR_NULL };
+    ParsingResult right_result = { .error = PERR_NULL };
+    Node *left_tree = NULL;
+    Node *right_tree = NULL;
+    const Operator *new_op = NULL;
+
+    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
+    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
+    if (!is_constant)
+    {
+        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
+    }
+    else
+    {
+        new_op = ctx_add_op(g_ctx, op_get_constant(name));
+    }
+
+    if (!arith_parse_raw(left, 0, &left_result))
+    {
+        goto error;
+    }
+
+    left_tree = left_result.tree;
+    free_result(&left_result, false);
+
+    // Check if left side is "function(var_1, ..., var_n)"
+    if (!do_left_checks(left_tree, strlen(left)))
+    {
+        goto error;
+    }
+
+    // Assign correct arity:
+    // Since operators are const, we can't change the arity directly
+    // A new operator with correct arity has to be created
+    if (!is_constant)
+    {
+        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
+        set_op(left_tree, new_op);
+    }
+
+    // Parse right expression raw to detect a recursive definition
+    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
+    {
+        goto error;
+    }
+
+    // Check if function is used in its definition
+    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
+    {
+        report_error(ERR_RECURSIVE_DEFINITION);
+        free_result(&right_result, true);
+        goto error;
+    }
+
+    // Since right expression was parsed raw to detect recursive definitions, do post processing
+    right_tree = arith_simplify(&right_result, (size_t)(right - left));
+    if (right_tree == NULL)
+    {
+        goto error;
+    }
+
+    // Add rule to eliminate operator before evaluation
+    RewriteRule rule;
+    Pattern pattern;
+    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
+    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
+    {
+        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
+        goto error;
+    }
+
+    add_composite_function(rule);
+
+    if (get_op(left_tree)->arity == 0)
+    {
+        if (!is_constant)
+        {
+            whisper("Added constant. Note: constants don't require a parameter list.\n");
+        }
+        else
+        {
+            whisper("Added constant.\n");
+        }
+    }
+    else
+    {
+        whisper("Added function.\n");
+    }
+    
+    return true;
+
+    error:
+    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+    free_tree(left_tree);
+    free_tree(right_tree);
+    free(name);
+    return false;
+}
+
+/*
+Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
+*/
+bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
+{   
+    // Overwrite first char of operator to make function definition a proper string
+    char *right_input = strstr(input, DEFINITION_OP);
+    *right_input = '\0';
+    right_input += strlen(DEFINITION_OP);
+    
+    // Tokenize function definition to get its name. Name is first token.
+    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
+    
+    // Function name is first token that is not a space
+    char *name = NULL;
+    size_t non_space_tokens = 0;
+    for (size_t i = 0; i < vec_count(&tokens); i++)
+    {
+        char *token = *(char**)vec_get(&tokens, i);
+        if (is_space(token[0]))
+        {
+            free(token);
+        }
+        else
+        {
+            non_space_tokens++;
+            if (name == NULL)
+            {
+                name = token;
+            }
+            else
+            {
+                free(token);
+            }
+        }
+    }
+
+    vec_destroy(&tokens);
+
+    if (name == NULL)
+    {
+        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+        return false;
+    }
+    else
+    {
+        if (!is_letter(name[0]))
+        {
+            free(name);
+            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+            return false;
+        }
+        else
+        {
+            return add_function(name, input, right_input, non_space_tokens == 1);
+        }
+    }
+}
-- 
2.43.0


From f801d1e105b7aee857059330c16ce351431f810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 03/42] fix: crash on delimiter within nested parentheses

'((1,2))' dereferenced a NULL pointer.
---
 src/engine/parsing/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index faf3a6c..16b416b 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -277,7 +277,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             if (vec_count(&state.vec_ops) > 1)
             {
                 struct OpData *op_data = ((struct OpData*)vec_get(&state.vec_ops, vec_count(&state.vec_ops) - 2));
-                if (op_data->op->placement == OP_PLACE_FUNCTION)
+                if (op_data->op != NULL && op_data->op->placement == OP_PLACE_FUNCTION)
                 {
                     op_data->arity++;
                 }
-- 
2.43.0


From d72fc147f4e767667b56fa92c58ba129b088fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 04/42] fix: reject closing parenthesis after operator without
 operand

'5+prod(-)' was accepted and evaluated because the operator took an operand
from outside the parentheses. Also keep the error of op_pop_and_insert, such that
'(sin(1,2))' is reported as wrong number of operands.
---
 src/engine/parsing/parser.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index 16b416b..7faf267 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -209,14 +209,16 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
         // III. Is token closing parenthesis or argument delimiter?
         if (is_closing_parenthesis(token))
         {
+            // An operator still waits for its operand
+            if (!await_infix && op_peek(&state) != NULL && op_peek(&state)->op != NULL)
+            {
+                ERROR(PERR_UNEXPECTED_CLOSING_PAREN);
+            }
+
             // Pop ops until opening parenthesis on op-stack
             while (op_peek(&state) != NULL && op_peek(&state)->op != NULL)
             {
-                if (!op_pop_and_insert(&state))
-                {
-                    state.curr_tok = i;
-                    ERROR(PERR_UNEXPECTED_CLOSING_PAREN);
-                }
+                if (!op_pop_and_insert(&state)) goto exit;
             }
             
             if (op_peek(&state) != NULL)
-- 
2.43.0


From 21ee8a70cd1a89531849bc76a40aa3337a4d5dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 05/42] fix: last character of unterminated last line was
 dropped

Reading '1+23' from a file without a trailing newline evaluated '1+2'.
---
 src/engine/transformation/rule_parsing.c |   3 +-
 src/util/console_util.c                  | 409 ++++++++++++-----------
 2 files changed, 207 insertions(+), 205 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index a1bcc73..f9d6100 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -197,7 +197,8 @@ ssize_t parse_rulesets_from_file(FILE *file,
         line_index++;
         char *line = line_start;
 
-        line[strlen(line) - 1] = '\0'; // Overwrite newline char
+        size_t length = strlen(line);
+        if (length > 0 && line[length - 1] == '\n') line[length - 1] = '\0'; // Overwrite newline char
         char *comment_start = strstr(line, COMMENT_PREFIX);
         if (comment_start != NULL) *comment_start = '\0'; // Prune comments from the right
         while (*line == ' ') line++; // Strip leading spaces
diff --git a/src/util/console_util.c b/src/util/console_util.c
index 7234999..5278ac7 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -1,204 +1,205 @@
-#define _GNU_SOURCE
-#include <stdarg.h>
-#include <stdio.h>
-#include <string.h>
-#ifdef USE_READLINE
-#include <readline/readline.h>
-#include <readline/history.h>
-#endif
-
-#include "console_util.h"
-#include "string_builder.h"
-
-bool interactive;
-
-void unload_console_util()
-{
-#ifdef USE_READLINE
-    rl_clear_history();
-#endif
-}
-
-void init_console_util()
-{
-    interactive = false;
-#ifdef USE_READLINE
-    // Disable tab completion
-    rl_bind_key('\t', rl_insert);
-#endif
-}
-
-/*
-Summary: Sets interactive mode
-    When true, whispered messages are displayed and readline instead of getline is used to read input
-*/
-bool set_interactive(bool value)
-{
-    bool res = interactive;
-    interactive = value;
-    return res;
-}
-
-bool is_interactive()
-{
-    return interactive;
-}
-
-/*
-Summary: printf-wrapper that filters unimportant prints in non-interactive mode
-*/
-void whisper(const char *format, ...)
-{
-    if (interactive)
-    {
-        va_list args;
-        va_start(args, format);
-        vprintf(format, args);
-        va_end(args);
-    }
-}
-
-bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (interactive && prompt_fmt != NULL)
-    {
-        vprintf(prompt_fmt, args);
-    }
-    
-    size_t size;
-    *out_input = NULL;
-    if (getline(out_input, &size, file) == EOF)
-    {
-        free(*out_input);
-        *out_input = NULL;
-        return false;
-    }
-
-    // Overwrite newline char
-    (*out_input)[strlen(*out_input) - 1] = '\0';
-    return true;
-}
-
-
-/*
-Summary: Used whenever input is requested. Prompt is only printed when interactive.
-Params
-    prompt: Prompt to display when interactive
-    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
-    out_input: Pointer to string that will be read. String must be free'd after use.
-*/
-#ifdef USE_READLINE
-
-// File is stdin, interactive is true
-bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (prompt_fmt != NULL)
-    {
-        Vector strbuilder = strbuilder_create(3);
-        vstrbuilder_append(&strbuilder, prompt_fmt, args);
-        *out_input = readline(strbuilder.buffer);
-        vec_destroy(&strbuilder);
-    }
-    else
-    {
-        *out_input = readline(NULL);
-    }
-
-    if (*out_input == NULL)
-    {
-        return false;
-    }
-    add_history(*out_input);
-    return true;
-}
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    // Use readline when interactive
-    if (interactive)
-    {
-        return ask_input_readline(out_input, prompt_fmt, args);
-    }
-    else
-    {
-        return ask_input_getline(file, out_input, prompt_fmt, args);
-    }
-}
-
-#else
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    return ask_input_getline(file, out_input, prompt_fmt, args);
-}
-
-#endif
-
-bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
-{
-    va_list args;
-    va_start(args, prompt_fmt);
-    bool res;
-    res = vask_input(file, out_input, prompt_fmt, args);
-    va_end(args);
-    return res;
-}
-
-void report_error(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-}
-
-void software_defect(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    fprintf(stderr, "Software defect: ");
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-    exit(EXIT_FAILURE);
-}
-
-void report_error_at(int pos, int length, const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-
-    if (is_interactive())
-    {
-        int msg_len = vsnprintf(NULL, 0, fmt, args);
-        va_end(args);
-        va_start(args, fmt);
-        if (pos - msg_len > 0) // Left of error token
-        {
-            report_error("%*s", pos - msg_len - 1, "");
-            vfprintf(stderr, fmt, args);
-            report_error(" ");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error("^");
-        }
-        else // Right of error token
-        {
-            report_error("%*s^", pos, "");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error(" ");
-            vfprintf(stderr, fmt, args);
-        }
-    }
-    else
-    {
-        vfprintf(stderr, fmt, args);
-    }
-
-    report_error("\n");
-    va_end(args);
-}
+#define _GNU_SOURCE
+#include <stdarg.h>
+#include <stdio.h>
+#include <string.h>
+#ifdef USE_READLINE
+#include <readline/readline.h>
+#include <readline/history.h>
+#endif
+
+#include "console_util.h"
+#include "string_builder.h"
+
+bool interactive;
+
+void unload_console_util()
+{
+#ifdef USE_READLINE
+    rl_clear_history();
+#endif
+}
+
+void init_console_util()
+{
+    interactive = false;
+#ifdef USE_READLINE
+    // Disable tab completion
+    rl_bind_key('\t', rl_insert);
+#endif
+}
+
+/*
+Summary: Sets interactive mode
+    When true, whispered messages are displayed and readline instead of getline is used to read input
+*/
+bool set_interactive(bool value)
+{
+    bool res = interactive;
+    interactive = value;
+    return res;
+}
+
+bool is_interactive()
+{
+    return interactive;
+}
+
+/*
+Summary: printf-wrapper that filters unimportant prints in non-interactive mode
+*/
+void whisper(const char *format, ...)
+{
+    if (interactive)
+    {
+        va_list args;
+        va_start(args, format);
+        vprintf(format, args);
+        va_end(args);
+    }
+}
+
+bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (interactive && prompt_fmt != NULL)
+    {
+        vprintf(prompt_fmt, args);
+    }
+    
+    size_t size;
+    *out_input = NULL;
+    if (getline(out_input, &size, file) == EOF)
+    {
+        free(*out_input);
+        *out_input = NULL;
+        return false;
+    }
+
+    // Overwrite newline char (absent when last line is not terminated)
+    size_t length = strlen(*out_input);
+    if (length > 0 && (*out_input)[length - 1] == '\n') (*out_input)[length - 1] = '\0';
+    return true;
+}
+
+
+/*
+Summary: Used whenever input is requested. Prompt is only printed when interactive.
+Params
+    prompt: Prompt to display when interactive
+    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
+    out_input: Pointer to string that will be read. String must be free'd after use.
+*/
+#ifdef USE_READLINE
+
+// File is stdin, interactive is true
+bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (prompt_fmt != NULL)
+    {
+        Vector strbuilder = strbuilder_create(3);
+        vstrbuilder_append(&strbuilder, prompt_fmt, args);
+        *out_input = readline(strbuilder.buffer);
+        vec_destroy(&strbuilder);
+    }
+    else
+    {
+        *out_input = readline(NULL);
+    }
+
+    if (*out_input == NULL)
+    {
+        return false;
+    }
+    add_history(*out_input);
+    return true;
+}
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    // Use readline when interactive
+    if (interactive)
+    {
+        return ask_input_readline(out_input, prompt_fmt, args);
+    }
+    else
+    {
+        return ask_input_getline(file, out_input, prompt_fmt, args);
+    }
+}
+
+#else
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    return ask_input_getline(file, out_input, prompt_fmt, args);
+}
+
+#endif
+
+bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
+{
+    va_list args;
+    va_start(args, prompt_fmt);
+    bool res;
+    res = vask_input(file, out_input, prompt_fmt, args);
+    va_end(args);
+    return res;
+}
+
+void report_error(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+}
+
+void software_defect(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    fprintf(stderr, "Software defect: ");
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+    exit(EXIT_FAILURE);
+}
+
+void report_error_at(int pos, int length, const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+
+    if (is_interactive())
+    {
+        int msg_len = vsnprintf(NULL, 0, fmt, args);
+        va_end(args);
+        va_start(args, fmt);
+        if (pos - msg_len > 0) // Left of error token
+        {
+            report_error("%*s", pos - msg_len - 1, "");
+            vfprintf(stderr, fmt, args);
+            report_error(" ");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error("^");
+        }
+        else // Right of error token
+        {
+            report_error("%*s^", pos, "");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error(" ");
+            vfprintf(stderr, fmt, args);
+        }
+    }
+    else
+    {
+        vfprintf(stderr, fmt, args);
+    }
+
+    report_error("\n");
+    va_end(args);
+}
-- 
2.43.0


From 9d980e9584e8ab1337dcd907ffd2f86ad6cc9abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 06/42] fix: powers of negative numbers with integral exponents
 are real

(-2)^(-1) and (-2)^0 were reported as complex, (-8)^1.5 resulted in nan.
---
 src/client/core/arith_evaluation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 5210760..80b5a2c 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -154,7 +154,7 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             }
         case 8: // x^y
             if (args[0] == 0 && args[1] <= 0) return LISTENERERR_DIVISION_BY_ZERO;
-            if (args[0] < 0 && args[1] < 1) return LISTENERERR_COMPLEX_SOLUTION;
+            if (args[0] < 0 && args[1] != trunc(args[1])) return LISTENERERR_COMPLEX_SOLUTION;
             *out = pow(args[0], args[1]);
             return LISTENERERR_SUCCESS;
         case 9: // x C y
-- 
2.43.0


From 697ca0864bf7eb6384e27489c2a2a229d0bd0ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 07/42] fix: binomial coefficient is zero when k exceeds n

'2 C 3' resulted in 1.
---
 src/client/core/arith_evaluation.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 80b5a2c..2dce1a2 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -60,6 +60,7 @@ static double binomial(double n, double k)
     k = fabs(trunc(k));
 
     if (k == 0) return 1;
+    if (k > n) return 0;
     if ((2 * k) > n) k = n - k;
     
     double res = 1;
-- 
2.43.0


From 52592f86094bd12c54ef22002fd0668269b44d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 08/42] fix: gcd and lcm did not terminate

Subtraction has no effect on large or infinite operands, e.g. gcd(10^17, 1).
---
 src/client/core/arith_evaluation.c | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 2dce1a2..cf153c9 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -30,28 +30,18 @@ static double variance(const double *args, size_t num_args)
 
 static double euclid(double a, double b)
 {
+    if (!isfinite(a) || !isfinite(b)) return NAN;
+
     a = fabs(trunc(a));
     b = fabs(trunc(b));
 
-    if (a == 0)
-    {
-        return b;
-    }
-    else
+    while (b != 0)
     {
-        while (b != 0)
-        {
-            if (a > b)
-            {
-                a = a - b;
-            }
-            else
-            {
-                b = b - a;
-            }
-        }
-        return a;
+        double remainder = fmod(a, b);
+        a = b;
+        b = remainder;
     }
+    return a;
 }
 
 static double binomial(double n, double k)
-- 
2.43.0


From e3185e454915d62e11b1e8e6ec147cdde15534db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 09/42] fix: expressions beginning with 'clear' are no clear
 command

'clearXf' removed function f.
---
 src/client/commands/cmd_clear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/commands/cmd_clear.c b/src/client/commands/cmd_clear.c
index aed56c2..793c7a6 100644
--- a/src/client/commands/cmd_clear.c
+++ b/src/client/commands/cmd_clear.c
@@ -13,7 +13,7 @@
 int cmd_clear_check(const char *input)
 {
     if (strcmp(CLEAR_COMMAND, input) == 0) return CLEAR_CODE;
-    if (begins_with(CLEAR_COMMAND, input)) return UNDEF_CODE;
+    if (begins_with(CLEAR_COMMAND " ", input)) return UNDEF_CODE;
     return false;
 }
 
-- 
2.43.0


From 918215b40308269ff0aa97ac22ecbf74b0859f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 10/42] fix: loading a malformed ruleset is a failure

It was reported as 'Successfully loaded simplification (-2 rules)'.
---
 src/client/commands/cmd_load.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index 6098053..2a8e442 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -32,6 +32,11 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
             report_error("File not found or readable\n");
             return false;
         }
+        else if (count < 0)
+        {
+            // Error message is given by init_simplification
+            return false;
+        }
         else
         {
             whisper("Successfully loaded simplification (%ld rules)\n", count);
-- 
2.43.0


From d3df97b9a4d720b2bf5efcfae09a79624387e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 11/42] fix: load command fails when a command of the file
 fails

Errors within loaded files did not affect the exit status.
---
 src/client/commands/cmd_load.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index 2a8e442..94e77f0 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -56,9 +56,9 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
         
         // Set g_interactive to false to read with getline from file
         bool interactive = set_interactive(false);
-        process_input(file);
+        bool success = process_input(file);
         set_interactive(interactive);
         fclose(file);
-        return true;
+        return success;
     }
 }
-- 
2.43.0


From 550142749caa06a752c6d72b1412aaa14296b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 12/42] fix: table cells beginning with a newline

The first character was skipped when counting lines, which lead to an
uninitialized line pointer.
---
 src/util/string_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index 0636a00..f2587ca 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -98,7 +98,6 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
     {
         while (*string != '\0')
         {
-            string++;
             if (*string == '\n')
             {
                 line_index--;
@@ -108,6 +107,7 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
                     break;
                 }
             }
+            string++;
         }
     }
 
-- 
2.43.0


From 1d24f4519fe29ef22492aa80961353b323fde41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 13/42] fix: name of prefix operator was used as format string

---
 src/engine/tree/tree_to_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index 1284fc6..80b61d8 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -23,7 +23,7 @@ static void to_str(StringBuilder *builder, bool color, const Node *node, bool l,
 static void prefix_to_str(StringBuilder *builder, bool color, const Node *node, bool l, bool r)
 {
     if (l) p_open(builder);
-    strbuilder_append(builder, get_op(node)->name);
+    strbuilder_append(builder, "%s", get_op(node)->name);
     
     if (get_type(get_child(node, 0)) == NTYPE_OPERATOR
         && get_op(get_child(node, 0))->precedence <= get_op(node)->precedence)
-- 
2.43.0


From eed2e07448ebbae78384b753e0ad862f7c35acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 14/42] fix: negative results were not added to history

With simplification rules loaded, 'ans' referred to an older result after '2-7'.
---
 src/client/commands/cmd_evaluation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_evaluation.c b/src/client/commands/cmd_evaluation.c
index ade09af..145b603 100644
--- a/src/client/commands/cmd_evaluation.c
+++ b/src/client/commands/cmd_evaluation.c
@@ -26,9 +26,10 @@ bool cmd_evaluation_exec(char *input, __attribute__((unused)) int code)
     whisper("= ");
     print_tree(node, false);
     printf("\n");
-    if (get_type(node) == NTYPE_CONSTANT)
+    // Simplification turns negative constants into operator nodes
+    if (count_all_variable_nodes(node) == 0)
     {
-        history_add(get_const_value(node));
+        history_add(arith_evaluate(node));
     }
     free_tree(node);
     return true;
-- 
2.43.0


From b68e1878bfc61ff959639ef29a27e4919de58ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 15/42] fix: matching a bound list variable that is longer than
 the parameter list

The remaining length underflowed, e.g. when matching prod([xs])+sum([xs],[ys])
against prod(1,2)+sum(1).
---
 src/engine/transformation/matching.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index 5f7d6b2..43d4f48 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -128,17 +128,20 @@ static void match_parameter_lists(
             {
                 // Current pattern-child is list-variable
                 NodeList *list = &matching.mapped_nodes[get_id(pattern_children[curr.distance])];
-                if (list->nodes != NULL && new_sum + 1 <= num_tree_children)
+                if (list->nodes != NULL)
                 {
                     // List is already bound, thus also its length is bound
-                    VEC_PUSH_ELEM(&vec_suffixes, SuffixNode, ((SuffixNode){
-                        .first_match_index = SIZE_MAX,
-                        .num_matchings     = 0,
-                        .label             = list->size,
-                        .sum               = new_sum,
-                        .distance          = curr.distance + 1,
-                        .parent_index      = curr_index
-                    }));
+                    if (new_sum + list->size <= num_tree_children)
+                    {
+                        VEC_PUSH_ELEM(&vec_suffixes, SuffixNode, ((SuffixNode){
+                            .first_match_index = SIZE_MAX,
+                            .num_matchings     = 0,
+                            .label             = list->size,
+                            .sum               = new_sum,
+                            .distance          = curr.distance + 1,
+                            .parent_index      = curr_index
+                        }));
+                    }
                 }
                 else
                 {
-- 
2.43.0


From 16fd7fac22186dbeb46c9116047e9c018d6ab447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 16/42] fix: derivatives depended on user-defined constants

After defining x or z, loading simplification rules crashed or disabled
derivatives.
---
 src/client/simplification/simplification.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 79acbb8..d9abfb3 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -17,7 +17,8 @@
 #include "propositional_context.h"
 #include "propositional_evaluation.h"
 
-#define P(x) (parse_easy(g_ctx, x))
+// Must not depend on user-defined functions
+#define P(x) (parse_easy(g_propositional_ctx, x))
 #define NUM_RULESETS 7
 
 /*
-- 
2.43.0


From f800a5f297e6f65ba3b84c85e847f48e3ab3209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 17/42] fix: handle quit, comments and empty commands given by
 -c

Arguments of -c are documented to be executed as if typed in.
---
 src/client/commands/commands.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/commands/commands.c b/src/client/commands/commands.c
index 2721442..8eacc5b 100644
--- a/src/client/commands/commands.c
+++ b/src/client/commands/commands.c
@@ -120,6 +120,10 @@ Summary: Tries to apply a command to input.
 */
 bool exec_command(char *input)
 {
+    // Already handled by process_input, but not for commands from arguments
+    if (strcmp(input, QUIT_COMMAND) == 0) exit(EXIT_SUCCESS);
+    if (input[0] == '\0' || input[0] == COMMENT_PREFIX) return true;
+
     for (size_t i = 0; i < NUM_COMMANDS; i++)
     {
         int check_code = commands[i].check_handler(input);
-- 
2.43.0


From 9177dfb19d9bc2316163f4c82ac0f2ca446e4b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:39 +0000
Subject: [PATCH 18/42] fix: simplification dropped factors when expanding
 powers within products

a*(b+x^2)*x^3 was simplified to a*b*x^3+x^5.
---
 simplification.ruleset | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index e2732be..babc076 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -130,7 +130,7 @@ RULESET
     prod([xs], x^y, [ys], x, [zs])   -> prod([xs], x^sum(y,1), [ys], [zs])
     prod([xs], x^z, [ys], x^y, [zs]) -> prod([xs], x^sum(y,z), [ys], [zs])
 
-    prod([xs], sum([xxs], x^y, [yys]), [ys], x^z, [zs]) -> sum(prod([xs], sum([xxs], [yys]), [ys], x^z, [zs]), x^sum(y,z))
+    prod([xs], sum([xxs], x^y, [yys]), [ys], x^z, [zs]) -> sum(prod([xs], sum([xxs], [yys]), [ys], x^z, [zs]), prod([xs], [ys], x^sum(y,z), [zs]))
 
     # Trigonometrics
     sum([xs], cos(x)^2, [ys], sin(x)^2, [zs])   -> sum(1, [xs], [ys], [zs])
-- 
2.43.0


From ec195e8d40abb32218c021936a3ad9e7a2f59c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:39 +0000
Subject: [PATCH 19/42] fix: simplification of negated sums lost a sign

-(x+y)*2 was simplified to 2*x-2*y.
---
 simplification.ruleset | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index babc076..2bcd924 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -176,7 +176,7 @@ RULESET
     x^(-y)        -> 1/(x^y)
     x^0.5         -> sqrt(x)
     x^1           -> x
-    -(x+y)        -> x-y
+    -(x+y)        -> -x-y
     (-1)*x        -> -x
 
     x*(y/z)       -> (y*x)/z       WHERE type(y) == CONST
-- 
2.43.0


From cc4eafa72b0aba9c5fd5da2602ac22f50c2bbaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:10 +0000
Subject: [PATCH 20/42] fix: a failing load of simplification rules dropped the
 ones in use

---
 src/client/commands/cmd_load.c             |  1 -
 src/client/simplification/simplification.c | 24 ++++++++++++++--------
 src/engine/transformation/rule_parsing.c   |  1 +
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index 94e77f0..ccfdada 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -25,7 +25,6 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
     if (begins_with(LOAD_SIMPLIFICATION, input))
     {
         input += strlen(LOAD_SIMPLIFICATION);
-        unload_simplification();
         ssize_t count = init_simplification(input);
         if (count == -1)
         {
diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index d9abfb3..c70650c 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -78,21 +78,29 @@ ssize_t init_simplification(const char *ruleset_path)
 
     if (ruleset_file == NULL) return -1;
 
+    // Rulesets in use are only replaced on success
+    Vector new_rulesets[NUM_RULESETS];
     for (size_t i = 0; i < NUM_RULESETS; i++)
     {
-        rulesets[i] = get_empty_ruleset();
-    }
-    ssize_t num_rulesets = parse_rulesets_from_file(ruleset_file, g_propositional_ctx, NUM_RULESETS, rulesets);
-    if (num_rulesets == -1)
-    {
-        return -2;
+        new_rulesets[i] = get_empty_ruleset();
     }
+    ssize_t num_rulesets = parse_rulesets_from_file(ruleset_file, g_propositional_ctx, NUM_RULESETS, new_rulesets);
+    fclose(ruleset_file);
     if (num_rulesets != NUM_RULESETS)
     {
-        report_error("Too few simplification rulesets defined in %s.\n", ruleset_path);
+        // Error message of a malformed file is given by parse_rulesets_from_file
+        if (num_rulesets != -1)
+        {
+            report_error("Too few simplification rulesets defined in %s.\n", ruleset_path);
+        }
+        for (size_t i = 0; i < NUM_RULESETS; i++)
+        {
+            free_ruleset(&new_rulesets[i]);
+        }
         return -2;
     }
-    fclose(ruleset_file);
+    unload_simplification();
+    memcpy(rulesets, new_rulesets, sizeof(rulesets));
 
     get_pattern(P("x'"), 0, NULL, &deriv_before);
     deriv_after = P("deriv(x, z)");
diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index f9d6100..dfbb0f8 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -222,6 +222,7 @@ ssize_t parse_rulesets_from_file(FILE *file,
             if (!parse_rule(line, ctx, vec_push_empty(&out_rulesets[curr_ruleset])))
             {
                 report_error("Error occurred in line %zu: %s.\n", line_index, line);
+                vec_pop(&out_rulesets[curr_ruleset]); // Is uninitialized
                 goto error;
             }
         }
-- 
2.43.0


From 6b81f552e9583a3c15e85fb56e12ec6ec68569f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:11 +0000
Subject: [PATCH 21/42] fix: constraints beyond the third of a rule were
 ignored

---
 src/engine/transformation/rule_parsing.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index dfbb0f8..d651f00 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -63,11 +63,14 @@ bool parse_constraints(const char *string,
         out_constraints[*num_constraints] = parse_easy(ctx, str);
         if (out_constraints[*num_constraints] == NULL) goto error;
         (*num_constraints)++;
-        if (*num_constraints == buffer_size) goto success;
+        if (*num_constraints == buffer_size && next_and != NULL)
+        {
+            report_pattern_errcode(MATCHING_MAX_CONSTRAINTS_EXCEEDED);
+            goto error;
+        }
         str = next_and;
     }
 
-    success:
     free(str_cpy);
     return true;
     error:
-- 
2.43.0


From b3004a19432fbe94f9bbdff59808b8d3ad1a7b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:48 +0000
Subject: [PATCH 22/42] fix: deleting an operator affected ones of same name
 and the glue operator

---
 src/engine/parsing/context.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 1b6d4a3..cb56ffc 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -112,9 +112,16 @@ bool ctx_delete_op(ParsingContext *ctx, const char *name, OpPlacement placement)
     ListNode **node = NULL;
     if (trie_contains(&ctx->op_tries[placement], name, (void**)&node))
     {
+        if (ctx->glue_op == (const Operator*)listnode_get_data(*node)) ctx->glue_op = NULL;
         list_delete_node(&ctx->op_list, *node);
-        trie_remove_str(&ctx->keywords_trie, name);
         trie_remove_str(&ctx->op_tries[placement], name);
+
+        // Name stays a keyword as long as there is an operator of other placement
+        for (size_t i = 0; i < OP_NUM_PLACEMENTS; i++)
+        {
+            if (trie_contains(&ctx->op_tries[i], name, NULL)) return true;
+        }
+        trie_remove_str(&ctx->keywords_trie, name);
         return true;
     }
     else
-- 
2.43.0


From fda410a556b80e61406064ac41eaed959f28f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:31 +0000
Subject: [PATCH 23/42] fix: factorial, binomial coefficient and fib did not
 terminate for large operands

---
 src/client/core/arith_evaluation.c | 34 ++++++++++++++++++------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index cf153c9..3a78af4 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -54,7 +54,7 @@ static double binomial(double n, double k)
     if ((2 * k) > n) k = n - k;
     
     double res = 1;
-    for (double i = 1; i <= k; i++)
+    for (double i = 1; i <= k && isfinite(res); i++)
     {
         res = (res * (n - k + i)) / i;
     }
@@ -62,31 +62,39 @@ static double binomial(double n, double k)
     return res;
 }
 
-static long fib(long n)
+// n must be non-negative and integral
+static double fib(double n)
 {
-    if (n == 0) return 0;
-    if (n == 1) return 1;
-    if (n == -1) return 1;
-    return fib(n - 1) + fib(n - 2); 
+    double res = 0;
+    double next = 1;
+    for (double i = 0; i < n && isfinite(res); i++)
+    {
+        double sum = res + next;
+        res = next;
+        next = sum;
+    }
+    return res;
 }
 
 static double fibonacci(double n)
 {
-    long l = (long)n;
-    if (l < 0) // Generalization to negative numbers
+    if (isnan(n)) return NAN;
+
+    n = trunc(n);
+    if (n < 0) // Generalization to negative numbers
     {
-        if (l % 2 == 0)
+        if (fmod(n, 2) == 0)
         {
-            return -fib(labs(l));
+            return -fib(-n);
         }
         else
         {
-            return fib(labs(l));
+            return fib(-n);
         }
     }
     else
     {
-        return fib(l);
+        return fib(n);
     }
 }
 
@@ -169,7 +177,7 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             else
             {
                 double res = 1;
-                for (double i = trunc(args[0]); i > 1; i--)
+                for (double i = trunc(args[0]); i > 1 && isfinite(res); i--)
                 {
                     res *= i;
                 }
-- 
2.43.0


From 5a7fa0e4c452642dc31070421d7da9c2716c474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:32 +0000
Subject: [PATCH 24/42] fix: digits before an operator name that begins with a
 digit were dropped

---
 src/engine/parsing/tokenizer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/tokenizer.c b/src/engine/parsing/tokenizer.c
index 1701bbe..824b4fa 100644
--- a/src/engine/parsing/tokenizer.c
+++ b/src/engine/parsing/tokenizer.c
@@ -72,8 +72,9 @@ Vector tokenize(const char *input, const Trie *keywords_trie)
             size_t keyword_len = trie_longest_prefix(keywords_trie, input + i, NULL);
             if (keyword_len > 0)
             {
+                push_token(input + next_token_start, i - next_token_start, &res);
                 push_token(input + i, keyword_len, &res);
-                next_token_start += keyword_len;
+                next_token_start = i + keyword_len;
                 i += keyword_len - 1;
                 next_state = TOKSTATE_NEW;
             }
-- 
2.43.0


From 6fce0c24644c315fca66af6ef19a952a3bf84905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:33 +0000
Subject: [PATCH 25/42] fix: postfix operators of same precedence as an infix
 operator were printed without parentheses

---
 src/engine/tree/tree_to_string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index 80b61d8..7dfc28d 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -109,10 +109,12 @@ static void infix_to_str(StringBuilder *builder, bool color, const Node *node, b
     strbuilder_append(builder, is_letter(get_op(node)->name[0]) ? " %s " : "%s", get_op(node)->name);
     
     // Checks if right operand of infix operator needs to be wrapped in parentheses (see analog case for left operand)
+    // A postfix operator of same precedence would apply to the whole expression
     if (get_type(childR) == NTYPE_OPERATOR
         && (get_op(childR)->precedence < get_op(node)->precedence
             || (get_op(childR)->precedence == get_op(node)->precedence
-                && get_op(node)->assoc == OP_ASSOC_LEFT)))
+                && (get_op(node)->assoc == OP_ASSOC_LEFT
+                    || get_op(childR)->placement == OP_PLACE_POSTFIX))))
     {
         p_open(builder);
         to_str(builder, color, childR, false, false);
-- 
2.43.0


From e061e2c9d4d17ef02ca2dbc1b0c6d783461ba37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:41 +0000
Subject: [PATCH 26/42] fix: line break within messages of the table command
 separated them from their marker

---
 src/client/commands/cmd_table.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index ec0375a..f6a211f 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -84,7 +84,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
     size_t num_vars = list_variables(expr, 1, &var, &sufficient);
     if (!sufficient)
     {
-        report_error_at(args[0] - input, strlen(args[0]), "Error: More than one variable\n");
+        report_error_at(args[0] - input, strlen(args[0]), "Error: More than one variable");
         goto exit;
     }
 
@@ -108,7 +108,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
 
     if (step_val == 0)
     {
-        report_error_at(args[3] - input, strlen(args[3]), "Error: 'step' must not be zero\n");
+        report_error_at(args[3] - input, strlen(args[3]), "Error: 'step' must not be zero");
         goto exit;
     }
 
@@ -128,7 +128,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
             - get_variable_nodes((const Node**)&fold_expr, FOLD_VAR_2, 0, NULL) != 0)
         {
             report_error_at(args[4] - input, strlen(args[4]),
-                "Error: Fold expression must not contain any variables except '" FOLD_VAR_1 "' and '" FOLD_VAR_2 "'\n");
+                "Error: Fold expression must not contain any variables except '" FOLD_VAR_1 "' and '" FOLD_VAR_2 "'");
             goto exit;
         }
 
-- 
2.43.0


From ca28087c3e48d8d820cfcd158a97de41966f8243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:33 +0000
Subject: [PATCH 27/42] fix: endless table when bounds are infinite or the step
 is lost in rounding

---
 src/client/commands/cmd_table.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index f6a211f..7e9dd8e 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -1,4 +1,5 @@
 #include <string.h>
+#include <math.h>
 
 #include "../../util/console_util.h"
 #include "../../util/string_util.h"
@@ -112,6 +113,20 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
         goto exit;
     }
 
+    // Ranges that can not be traversed would cause an endless loop
+    if (isinf(start_val) || isinf(end_val))
+    {
+        char *arg = isinf(start_val) ? args[1] : args[2];
+        report_error_at(arg - input, strlen(arg), "Error: Not finite");
+        goto exit;
+    }
+
+    if (start_val + step_val == start_val || end_val + step_val == end_val)
+    {
+        report_error_at(args[3] - input, strlen(args[3]), "Error: 'step' is too small");
+        goto exit;
+    }
+
     // Optionally: Parse part of command after "fold"
     double fold_val = 0;
     if (num_args == 6)
-- 
2.43.0


From 5060024a00c8ca8a07af22e7ffbaad3e290f1f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:09 +0000
Subject: [PATCH 28/42] fix: exit status of quit in a loaded file ignored
 failures before the load

---
 src/client/commands/commands.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/commands/commands.c b/src/client/commands/commands.c
index 8eacc5b..7bb3b69 100644
--- a/src/client/commands/commands.c
+++ b/src/client/commands/commands.c
@@ -91,6 +91,8 @@ Returns: True when no command exited with an error, false otherwise
 */
 bool process_input(FILE *file)
 {
+    // Quit may be encountered in a loaded file, also consider failures of enclosing files
+    static bool all_succeeded = true;
     bool res = true;
     char *input = NULL;
     while (ask_input(file, &input, NULL))
@@ -98,13 +100,14 @@ bool process_input(FILE *file)
         if (strcmp(input, QUIT_COMMAND) == 0)
         {
             free(input);
-            exit(res ? EXIT_SUCCESS : EXIT_FAILURE);
+            exit(all_succeeded ? EXIT_SUCCESS : EXIT_FAILURE);
         }
         if (input[0] != '\0' && input[0] != COMMENT_PREFIX)
         {
             if (!exec_command(input))
             {
                 res = false;
+                all_succeeded = false;
             }
         }
         free(input);
-- 
2.43.0


From 0478b7af93de5007137262f632481cdf9a318364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:26 +0000
Subject: [PATCH 29/42] fix: rulesets beyond the supported number were written
 out of bounds

---
 src/engine/transformation/rule_parsing.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index d651f00..d1dddcd 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -208,16 +208,11 @@ ssize_t parse_rulesets_from_file(FILE *file,
 
         if (begins_with(RULESET, line))
         {
+            if (curr_ruleset + 1 == (ssize_t)buffer_size) break; // Buffer is full
             curr_ruleset++;
             continue;
         }
 
-        if (curr_ruleset == (ssize_t)buffer_size)
-        {
-            curr_ruleset--; // Adjusted for right return value
-            break;          // Buffer is full
-        }
-
         if (line[0] == '\0') continue;
 
         if (curr_ruleset != -1)
-- 
2.43.0


From 3c445e31d83b0336638ab6d3b5cc5a150153234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:26 +0000
Subject: [PATCH 30/42] fix: count within the constraint of a rule terminated
 the program

---
 src/client/simplification/propositional_evaluation.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/client/simplification/propositional_evaluation.c b/src/client/simplification/propositional_evaluation.c
index 3a69afb..87c65ba 100644
--- a/src/client/simplification/propositional_evaluation.c
+++ b/src/client/simplification/propositional_evaluation.c
@@ -84,13 +84,20 @@ double type_eval(__attribute__((unused)) size_t num_children, Node **children)
     return 0; // To make compiler happy
 }
 
+double count_eval(size_t num_children, __attribute__((unused)) Node **children)
+{
+    return (double)num_children;
+}
+
 bool propositional_checker(Node **tree)
 {
     // Step 1: Reduce type(x)
     tree_reduce_ops(tree, ctx_lookup_op(g_propositional_ctx, "type", OP_PLACE_FUNCTION), type_eval);
     // Step 2: Reduce equal(x,y)
     tree_reduce_ops(tree, ctx_lookup_op(g_propositional_ctx, "equal", OP_PLACE_FUNCTION), equal_eval);
-    // Step 3: Reduce everything else
+    // Step 3: Reduce count(x,...)
+    tree_reduce_ops(tree, ctx_lookup_op(g_propositional_ctx, "count", OP_PLACE_FUNCTION), count_eval);
+    // Step 4: Reduce everything else
     double reduced = 0;
     if (tree_reduce(*tree, prop_op_evaluate, &reduced, NULL) != LISTENERERR_SUCCESS)
     {
-- 
2.43.0


From f050655432b192d6160a19671415c47248d1a07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:27 +0000
Subject: [PATCH 31/42] fix: unknown variables in constraints of a rule stood
 for its first variable

---
 src/engine/transformation/matching.c     | 11 ++++++++++-
 src/engine/transformation/matching.h     |  1 +
 src/engine/transformation/rule_parsing.c |  3 +++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index 43d4f48..586d288 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -374,6 +374,7 @@ Summary: - Sets ids of variable nodes for faster lookup while matching
 Returns:  0 if success
          -1 if MAX_MAPPED_VARS exceeded
          -2 if MATCHING_MAX_CONSTRAINTS exceeded
+         -3 if a constraint contains a variable that does not occur in the pattern
 */
 int get_pattern(Node *tree, size_t num_constraints, Node **constrs, Pattern *out_pattern)
 {
@@ -398,14 +399,22 @@ int get_pattern(Node *tree, size_t num_constraints, Node **constrs, Pattern *out
         tree_copy_IDs(constrs[i], num_free_vars, free_vars);
 
         size_t max_id = 0;
+        size_t num_bound = 0;
         for (size_t j = 0; j < num_free_vars; j++)
         {
-            if (get_variable_nodes((const Node**)&constrs[i], free_vars[j], 0, NULL) != 0)
+            size_t num_nodes = get_variable_nodes((const Node**)&constrs[i], free_vars[j], 0, NULL);
+            if (num_nodes != 0)
             {
                 max_id = j;
+                num_bound += num_nodes;
             }
         }
 
+        if (num_bound != count_all_variable_nodes(constrs[i]))
+        {
+            return MATCHING_UNBOUND_VAR;
+        }
+
         if ((*out_pattern).num_constraints[max_id] == MATCHING_MAX_CONSTRAINTS)
         {
             return MATCHING_MAX_CONSTRAINTS_EXCEEDED;
diff --git a/src/engine/transformation/matching.h b/src/engine/transformation/matching.h
index 308f5d8..e4aa55a 100644
--- a/src/engine/transformation/matching.h
+++ b/src/engine/transformation/matching.h
@@ -8,6 +8,7 @@
 
 #define MAX_MAPPED_VARS_EXCEEDED          -1
 #define MATCHING_MAX_CONSTRAINTS_EXCEEDED -2
+#define MATCHING_UNBOUND_VAR              -3
 
 typedef struct
 {
diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index d1dddcd..617ff9b 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -30,6 +30,9 @@ void report_pattern_errcode(int err_code)
             return;
         case MATCHING_MAX_CONSTRAINTS_EXCEEDED:
             report_error("Trying to preprocess a pattern with too many constraints. Increase MATCHING_MAX_CONSTRAINTS.\n");
+            return;
+        case MATCHING_UNBOUND_VAR:
+            report_error("Unbounded variable in constraint.\n");
     }
 }
 
-- 
2.43.0


From 15dddd94778d8de4cb65c9f521ab353a26c906ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:28 +0000
Subject: [PATCH 32/42] fix: constraints of patterns without variables were
 ignored

---
 src/engine/transformation/matching.c | 36 ++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index 586d288..5ca4fb2 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -209,6 +209,20 @@ static bool nodelists_equal(const NodeList *a, const NodeList *b)
     return true;
 }
 
+// Checks all constraints that are triggered by variable of given id
+static bool check_constraints(MatchingContext *ctx, size_t id, const Matching *matching)
+{
+    for (size_t i = 0; i < ctx->pattern->num_constraints[id]; i++)
+    {
+        Node *constr_cpy = tree_copy(ctx->pattern->constraints[id][i]);
+        transform_by_matching(matching, &constr_cpy);
+        bool res = ctx->checker(&constr_cpy);
+        free_tree(constr_cpy);
+        if (!res) return false;
+    }
+    return true;
+}
+
 static void extend_matching(
     MatchingContext *ctx,
     Matching matching,
@@ -237,14 +251,7 @@ static void extend_matching(
                 matching.mapped_nodes[id] = tree_list;
 
                 // Check constraints if its okay to bind
-                for (size_t i = 0; i < ctx->pattern->num_constraints[id]; i++)
-                {
-                    Node *constr_cpy = tree_copy(ctx->pattern->constraints[id][i]);
-                    transform_by_matching(&matching, &constr_cpy);
-                    bool res = ctx->checker(&constr_cpy);
-                    free_tree(constr_cpy);
-                    if (!res) return;
-                }
+                if (!check_constraints(ctx, id, &matching)) return;
 
                 vec_push(out_matchings, &matching);
                 return;
@@ -301,9 +308,18 @@ size_t get_all_matchings(const Node **tree, const Pattern *pattern, ConstraintCh
     // Due to exponentially many partitions of parameter lists, a lot of partial matchings can occur. Use heap.
     Vector result = vec_create(sizeof(Matching), VECTOR_STARTSIZE);
 
-    extend_matching(
+    Matching empty = (Matching){ .mapped_nodes = { { .size = 0, .nodes = NULL } } };
+
+    // Constraints are checked when variables are bound. If there are none, they need to be checked here.
+    bool possible = true;
+    if (pattern->num_constraints[0] > 0 && count_all_variable_nodes(pattern->pattern) == 0)
+    {
+        possible = check_constraints(&ctx, 0, &empty);
+    }
+
+    if (possible) extend_matching(
         &ctx,
-        (Matching){ .mapped_nodes = { { .size = 0, .nodes = NULL } } },
+        empty,
         pattern->pattern,
         (NodeList){ .size = 1, .nodes = tree },
         &result);
-- 
2.43.0


From 2479c6a0c52f8a6c99f8d641c1d51cd4ba4570b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:37 +0000
Subject: [PATCH 33/42] fix: simplification of powers of powers changed the
 value for negative bases

(x^y)^z is x^(y*z) only if z is an integer or y is not even: sqrt(x^2)
was simplified to x.
---
 simplification.ruleset | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index 2bcd924..e26be12 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -120,7 +120,8 @@ RULESET
     # Powers
     x^0                              -> 1
     x^1                              -> x
-    (x^y)^z                          -> x^prod(y, z)
+    (x^y)^z                          -> x^prod(y, z)  WHERE type(z) == CONST ; (z mod 1) == 0
+    (x^y)^z                          -> x^prod(y, z)  WHERE type(y) == CONST ; (y mod 2) != 0
 
     prod([xs], x^cy, [ys], x^cz, [zs]) -> prod([xs], x^sum(cy,cz), [ys], [zs]) WHERE type(cy)==CONST ; type(cz)==CONST
     prod([xs], cy^x, [ys], cz^x, [zs]) -> prod([xs], (cy*cz)^x, [ys], [zs]) WHERE type(cy)==CONST ; type(cz)==CONST
-- 
2.43.0


From 27e08e8d4c5926295fe27f869edc4baa8f85241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:31 +0000
Subject: [PATCH 34/42] fix: simplification of terms with several constants did
 not terminate after an evaluation error

Constant subtrees were no longer folded once one of them could not be
evaluated, so the rules that move constants ran forever: (-(2*3))^1.5.
---
 src/engine/tree/tree_util.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/engine/tree/tree_util.c b/src/engine/tree/tree_util.c
index 23d2484..553c8a0 100644
--- a/src/engine/tree/tree_util.c
+++ b/src/engine/tree/tree_util.c
@@ -415,33 +415,42 @@ ListenerError tree_reduce(const Node *tree, TreeListener listener, double *out,
 
 /*
 Summary: Replaces reducible subtrees by a ConstantNode
+    When a subtree can not be evaluated, the other ones are still reduced
 Params:
     tree:            Tree that will be changed
     listener:        Compositional evaluation function
+Returns: First error that occurred
 */
 ListenerError tree_reduce_constant_subtrees(Node **tree, TreeListener listener, const Node **out_errnode)
 {
+    ListenerError res = LISTENERERR_SUCCESS;
+
     if (count_all_variable_nodes(*tree) == 0)
     {
-        double res;
-        ListenerError err = tree_reduce(*tree, listener, &res, out_errnode);
-        if (err != LISTENERERR_SUCCESS) return err;
-        Node *replacement = malloc_constant_node(res, get_token_index(*tree));
-        tree_replace(tree, replacement);
+        double value;
+        res = tree_reduce(*tree, listener, &value, out_errnode);
+        if (res == LISTENERERR_SUCCESS)
+        {
+            Node *replacement = malloc_constant_node(value, get_token_index(*tree));
+            tree_replace(tree, replacement);
+            return res;
+        }
     }
-    else
+
+    if (get_type(*tree) == NTYPE_OPERATOR)
     {
-        if (get_type(*tree) == NTYPE_OPERATOR)
+        for (size_t i = 0; i < get_num_children(*tree); i++)
         {
-            for (size_t i = 0; i < get_num_children(*tree); i++)
-            {
-                ListenerError err = tree_reduce_constant_subtrees(get_child_addr(*tree, i), listener, out_errnode);
-                if (err != LISTENERERR_SUCCESS) return err;
-            }
+            // Only the first error is reported
+            ListenerError err = tree_reduce_constant_subtrees(
+                get_child_addr(*tree, i),
+                listener,
+                res == LISTENERERR_SUCCESS ? out_errnode : NULL);
+            if (res == LISTENERERR_SUCCESS) res = err;
         }
     }
 
-    return LISTENERERR_SUCCESS;
+    return res;
 }
 
 /*
-- 
2.43.0


From ee390786f0d579d952d38903035c291c8be6b95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:10 +0000
Subject: [PATCH 35/42] fix: derivative of powers of zero was not a number

---
 simplification.ruleset | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simplification.ruleset b/simplification.ruleset
index e26be12..975754d 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -42,6 +42,7 @@ RULESET
     deriv(acos(x), z)   -> -deriv(x, z) / sqrt(1 - x^2)
     deriv(atan(x), z)   -> deriv(x, z) / (x^2 + 1)
     deriv(e^y, z)       -> deriv(y, z)*e^y
+    deriv(0^y, z)       -> 0
     deriv(x^y, z)       -> (y * deriv(x, z) * x^-1 + deriv(y, z) * ln(x)) * x^y
     deriv(ln(x), z)     -> deriv(x, z)*x^(-1)
 
-- 
2.43.0


From 288c04a77503a2812c31ce4c74b031a40aa7334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:06:41 +0000
Subject: [PATCH 36/42] fix: width of spanning table cells looked at the border
 right of the one it covers

---
 src/table/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/table.c b/src/table/table.c
index 8c11ce9..c5f4b51 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -235,7 +235,7 @@ static size_t get_total_width(const Table *table, const size_t *col_widths, stru
     size_t sum = 0;
     for (size_t i = 0; i < cell->span_x; i++)
     {
-        if (i != 0 && table->border_left_counters[cell->x + i + 1] > 0) sum++;
+        if (i != 0 && table->border_left_counters[cell->x + i] > 0) sum++;
         sum += col_widths[cell->x + i];
     }
     return sum;
-- 
2.43.0


From 5a784742bb2bce4002d15063addc99cb9577e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:06:42 +0000
Subject: [PATCH 37/42] fix: adjacent color sequences counted as text of table
 cells

---
 src/util/string_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index f2587ca..26913c5 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -130,7 +130,7 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
 
 char *skip_ansi(const char *str)
 {
-    if (*str == ESC_START)
+    while (*str == ESC_START)
     {
         while (*str != ESC_END)
         {
-- 
2.43.0


From bc67eee4928d80518ba213d07064908f606061c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:06:59 +0000
Subject: [PATCH 38/42] fix: spans clashing with set cells lost text or printed
 endlessly

---
 src/table/table.c | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/table/table.c b/src/table/table.c
index c5f4b51..22efa65 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -950,12 +950,27 @@ void set_span(Table *table, size_t span_x, size_t span_y)
     assert(cell->span_x == 1);
     assert(cell->span_y == 1);
 
+    // When span clashes with already set cells, truncate it (first in width, then in height)
+    for (size_t j = 1; j < span_x; j++)
+    {
+        if (table->curr_row->cells[cell->x + j].is_set) span_x = j;
+    }
+    struct Row *row = table->curr_row->next_row;
+    for (size_t i = 1; i < span_y && row != NULL; i++)
+    {
+        for (size_t j = 0; j < span_x; j++)
+        {
+            if (row->cells[cell->x + j].is_set) span_y = i;
+        }
+        row = row->next_row;
+    }
+
     cell->span_x = span_x;
     cell->span_y = span_y;
     table->num_cols = MAX(table->curr_col + span_x, table->num_cols);
 
     // Inserts rows and sets child cells
-    struct Row *row = table->curr_row;
+    row = table->curr_row;
     for (size_t i = 0; i < span_y; i++)
     {
         for (size_t j = 0; j < span_x; j++)
@@ -963,28 +978,18 @@ void set_span(Table *table, size_t span_x, size_t span_y)
             if (i == 0 && j == 0) continue;
             struct Cell *child = &row->cells[cell->x + j];
 
-            if (!child->is_set)
+            child->is_set = true;
+            child->parent = cell;
+
+            if (j != 0)
             {
-                child->is_set = true;
-                child->parent = cell;
-                
-                if (j != 0)
-                {
-                    child->border_left = BORDER_NONE;
-                    child->override_border_left = true;
-                }
-                if (i != 0)
-                {
-                    child->border_above = BORDER_NONE;
-                    child->override_border_above = true;
-                }
+                child->border_left = BORDER_NONE;
+                child->override_border_left = true;
             }
-            else
+            if (i != 0)
             {
-                // Span clashes with already set cell, truncate it and finalize method
-                cell->span_y = i;
-                cell->span_x = j;
-                return;
+                child->border_above = BORDER_NONE;
+                child->override_border_above = true;
             }
         }
 
-- 
2.43.0


From bc51f82979c996a65db8477af2537980b46f6f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:43:05 +0000
Subject: [PATCH 39/42] fix: functions as glue operator took preceding calls
 and parentheses for their parameters

---
 src/engine/parsing/parser.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index 7faf267..56ed2dd 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -20,6 +20,7 @@ struct OpData
     const Operator *op; // Pointer to operator in context, NULL denotes opening parenthesis
     size_t arity;       // Records number of operands to pop
     size_t token;
+    bool is_glue;       // Implied function, which does not have a parameter list
 };
 
 // Encapsulates current state of shunting-yard algo. to be communicated to auxiliary functions
@@ -46,6 +47,15 @@ struct OpData *op_peek(struct ParserState *state)
     return vec_peek(&state->vec_ops);
 }
 
+// Returns whether op_data is a function whose parameter list is explicitly given
+bool has_param_list(const struct OpData *op_data)
+{
+    return op_data != NULL
+        && op_data->op != NULL
+        && op_data->op->placement == OP_PLACE_FUNCTION
+        && !op_data->is_glue;
+}
+
 void node_push(struct ParserState *state, Node *node)
 {
     VEC_PUSH_ELEM(&state->vec_nodes, Node*, node);
@@ -125,11 +135,11 @@ bool push_operator(struct ParserState *state, const Operator *op)
 
     if (op->placement == OP_PLACE_FUNCTION)
     {
-        opData = (struct OpData){ op, 0, state->curr_tok };
+        opData = (struct OpData){ op, 0, state->curr_tok, false };
     }
     else
     {
-        opData = (struct OpData){ op, op->arity, state->curr_tok };
+        opData = (struct OpData){ op, op->arity, state->curr_tok, false };
     }
 
     return op_push(state, opData);
@@ -138,7 +148,7 @@ bool push_operator(struct ParserState *state, const Operator *op)
 // Pushes opening parenthesis on op_stack
 bool push_opening_parenthesis(struct ParserState *state)
 {
-    return op_push(state, (struct OpData){ NULL, OP_DYNAMIC_ARITY, state->curr_tok });
+    return op_push(state, (struct OpData){ NULL, OP_DYNAMIC_ARITY, state->curr_tok, false });
 }
 
 // out_res can be NULL if you only want to check if an error occurred
@@ -177,9 +187,15 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
                 && ctx_lookup_op(state.ctx, token, OP_PLACE_INFIX) == NULL
                 && ctx_lookup_op(state.ctx, token, OP_PLACE_POSTFIX) == NULL)
             {
+                // A preceding function call is operand of the glue-op, even if the latter is a function
+                while (has_param_list(op_peek(&state)))
+                {
+                    if (!op_pop_and_insert(&state)) goto exit;
+                }
                 if (!push_operator(&state, state.ctx->glue_op)) goto exit;
                 // Arity of 2 needed for DYNAMIC_ARITY functions set as glue-op
                 op_peek(&state)->arity = 2;
+                op_peek(&state)->is_glue = true;
                 await_infix = false;
             }
         }
@@ -236,9 +252,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             // Increment operand count one last time if it was not the empty parameter list.
             if (await_infix)
             {
-                if (op_peek(&state) != NULL
-                    && op_peek(&state)->op != NULL
-                    && op_peek(&state)->op->placement == OP_PLACE_FUNCTION)
+                if (has_param_list(op_peek(&state)))
                 {
                     op_peek(&state)->arity++;
                 }
@@ -279,7 +293,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             if (vec_count(&state.vec_ops) > 1)
             {
                 struct OpData *op_data = ((struct OpData*)vec_get(&state.vec_ops, vec_count(&state.vec_ops) - 2));
-                if (op_data->op != NULL && op_data->op->placement == OP_PLACE_FUNCTION)
+                if (has_param_list(op_data))
                 {
                     op_data->arity++;
                 }
-- 
2.43.0


From 15b5c9f00c23a3abce26d36ff0dc37aff483e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:40:14 +0000
Subject: [PATCH 40/42] fix: parse_pattern releases what it parsed when it
 fails

---
 src/engine/transformation/rule_parsing.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 617ff9b..72ce8ef 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -89,6 +89,7 @@ bool parse_pattern(const char *string, const ParsingContext *ctx, Pattern *out_p
     strcpy(str_cpy, string);
 
     char *where_pos = strstr(str, WHERE); // Optional
+    Node *pattern = NULL;
     size_t num_constrs = MATCHING_MAX_CONSTRAINTS;
     Node *constrs[MATCHING_MAX_CONSTRAINTS];
     if (where_pos != NULL)
@@ -101,7 +102,7 @@ bool parse_pattern(const char *string, const ParsingContext *ctx, Pattern *out_p
         goto error;
     }
 
-    Node *pattern = parse_easy(ctx, str); // Gives error message
+    pattern = parse_easy(ctx, str); // Gives error message
     if (pattern == NULL)
     {
         goto error;
@@ -118,6 +119,8 @@ bool parse_pattern(const char *string, const ParsingContext *ctx, Pattern *out_p
 
     error:
     free(str_cpy);
+    free_tree(pattern);
+    for (size_t i = 0; i < num_constrs; i++) free_tree(constrs[i]);
     return false;
 }
 
-- 
2.43.0


From e61b2b6f20f0144259869cbca0d23e251baf4974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:52:51 +0000
Subject: [PATCH 41/42] fix: restore the line endings of two files

The repairs of the definition command and of the last input line had
converted both files from CRLF to LF. No change of behaviour.
---
 src/client/commands/cmd_definition.c | 496 +++++++++++++--------------
 src/util/console_util.c              | 410 +++++++++++-----------
 2 files changed, 453 insertions(+), 453 deletions(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index 7622e80..f78014e 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -1,248 +1,248 @@
-#include <stdio.h>
-#include <string.h>
-
-#include "../../util/string_util.h"
-#include "../../util/console_util.h"
-#include "../../engine/tree/node.h"
-#include "../../engine/tree/tree_util.h"
-#include "../../engine/parsing/tokenizer.h"
-#include "../../engine/parsing/parser.h"
-#include "../../engine/transformation/rewrite_rule.h"
-
-#include "cmd_definition.h"
-#include "../core/arith_context.h"
-
-#define DEFINITION_OP   "="
-
-#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
-#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
-#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
-#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
-#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
-#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
-#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
-
-int cmd_definition_check(const char *input)
-{
-    return strstr(input, DEFINITION_OP) != NULL;
-}
-
-static bool do_left_checks(Node *left_n, int strlen)
-{
-    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
-    {
-        report_error_at(0, strlen, ERR_NOT_A_FUNC);
-        return false;
-    }
-
-    size_t num_children = get_num_children(left_n);
-
-    if (num_children > 0)
-    {
-        for (size_t i = 0; i < num_children; i++)
-        {
-            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
-            {
-                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
-                return false;
-            }
-        }
-
-        const char *vars[MAX_MAPPED_VARS];
-        bool sufficient_buff = false;
-        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
-        if (!sufficient_buff)
-        {
-            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
-            return false;
-        }
-        if (num_vars != num_children)
-        {
-            report_error_at(0, strlen, ERR_NOT_DISTINCT);
-            return false;
-        }
-    }
-
-    return true;
-}
-
-static bool add_function(char *name, char *left, char *right, bool is_constant)
-{
-    // First check if function already exists
-    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
-    if (op != NULL)
-    {
-        if (op->id < NUM_ARITH_OPS)
-        {
-            report_error(ERR_BUILTIN_REDEFINITION);
-        }
-        else
-        {
-            report_error(ERR_REDEFINITION);
-        }
-        
-        // Don't goto error since no new operator has been added to context
-        free(name);
-        return false;
-    }
-
-    // Add function operator to parse left input
-    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
-    ParsingResult left_result = { .error = PERR_NULL };
-    ParsingResult right_result = { .error = PERR_NULL };
-    Node *left_tree = NULL;
-    Node *right_tree = NULL;
-    const Operator *new_op = NULL;
-
-    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
-    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
-    if (!is_constant)
-    {
-        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
-    }
-    else
-    {
-        new_op = ctx_add_op(g_ctx, op_get_constant(name));
-    }
-
-    if (!arith_parse_raw(left, 0, &left_result))
-    {
-        goto error;
-    }
-
-    left_tree = left_result.tree;
-    free_result(&left_result, false);
-
-    // Check if left side is "function(var_1, ..., var_n)"
-    if (!do_left_checks(left_tree, strlen(left)))
-    {
-        goto error;
-    }
-
-    // Assign correct arity:
-    // Since operators are const, we can't change the arity directly
-    // A new operator with correct arity has to be created
-    if (!is_constant)
-    {
-        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
-        set_op(left_tree, new_op);
-    }
-
-    // Parse right expression raw to detect a recursive definition
-    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
-    {
-        goto error;
-    }
-
-    // Check if function is used in its definition
-    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
-    {
-        report_error(ERR_RECURSIVE_DEFINITION);
-        free_result(&right_result, true);
-        goto error;
-    }
-
-    // Since right expression was parsed raw to detect recursive definitions, do post processing
-    right_tree = arith_simplify(&right_result, (size_t)(right - left));
-    if (right_tree == NULL)
-    {
-        goto error;
-    }
-
-    // Add rule to eliminate operator before evaluation
-    RewriteRule rule;
-    Pattern pattern;
-    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
-    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
-    {
-        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
-        goto error;
-    }
-
-    add_composite_function(rule);
-
-    if (get_op(left_tree)->arity == 0)
-    {
-        if (!is_constant)
-        {
-            whisper("Added constant. Note: constants don't require a parameter list.\n");
-        }
-        else
-        {
-            whisper("Added constant.\n");
-        }
-    }
-    else
-    {
-        whisper("Added function.\n");
-    }
-    
-    return true;
-
-    error:
-    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-    free_tree(left_tree);
-    free_tree(right_tree);
-    free(name);
-    return false;
-}
-
-/*
-Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
-*/
-bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
-{   
-    // Overwrite first char of operator to make function definition a proper string
-    char *right_input = strstr(input, DEFINITION_OP);
-    *right_input = '\0';
-    right_input += strlen(DEFINITION_OP);
-    
-    // Tokenize function definition to get its name. Name is first token.
-    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
-    
-    // Function name is first token that is not a space
-    char *name = NULL;
-    size_t non_space_tokens = 0;
-    for (size_t i = 0; i < vec_count(&tokens); i++)
-    {
-        char *token = *(char**)vec_get(&tokens, i);
-        if (is_space(token[0]))
-        {
-            free(token);
-        }
-        else
-        {
-            non_space_tokens++;
-            if (name == NULL)
-            {
-                name = token;
-            }
-            else
-            {
-                free(token);
-            }
-        }
-    }
-
-    vec_destroy(&tokens);
-
-    if (name == NULL)
-    {
-        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-        return false;
-    }
-    else
-    {
-        if (!is_letter(name[0]))
-        {
-            free(name);
-            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-            return false;
-        }
-        else
-        {
-            return add_function(name, input, right_input, non_space_tokens == 1);
-        }
-    }
-}
+#include <stdio.h>
+#include <string.h>
+
+#include "../../util/string_util.h"
+#include "../../util/console_util.h"
+#include "../../engine/tree/node.h"
+#include "../../engine/tree/tree_util.h"
+#include "../../engine/parsing/tokenizer.h"
+#include "../../engine/parsing/parser.h"
+#include "../../engine/transformation/rewrite_rule.h"
+
+#include "cmd_definition.h"
+#include "../core/arith_context.h"
+
+#define DEFINITION_OP   "="
+
+#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
+#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
+#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
+#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
+#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
+#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
+#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
+
+int cmd_definition_check(const char *input)
+{
+    return strstr(input, DEFINITION_OP) != NULL;
+}
+
+static bool do_left_checks(Node *left_n, int strlen)
+{
+    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
+    {
+        report_error_at(0, strlen, ERR_NOT_A_FUNC);
+        return false;
+    }
+
+    size_t num_children = get_num_children(left_n);
+
+    if (num_children > 0)
+    {
+        for (size_t i = 0; i < num_children; i++)
+        {
+            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
+            {
+                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
+                return false;
+            }
+        }
+
+        const char *vars[MAX_MAPPED_VARS];
+        bool sufficient_buff = false;
+        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
+        if (!sufficient_buff)
+        {
+            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
+            return false;
+        }
+        if (num_vars != num_children)
+        {
+            report_error_at(0, strlen, ERR_NOT_DISTINCT);
+            return false;
+        }
+    }
+
+    return true;
+}
+
+static bool add_function(char *name, char *left, char *right, bool is_constant)
+{
+    // First check if function already exists
+    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
+    if (op != NULL)
+    {
+        if (op->id < NUM_ARITH_OPS)
+        {
+            report_error(ERR_BUILTIN_REDEFINITION);
+        }
+        else
+        {
+            report_error(ERR_REDEFINITION);
+        }
+        
+        // Don't goto error since no new operator has been added to context
+        free(name);
+        return false;
+    }
+
+    // Add function operator to parse left input
+    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
+    ParsingResult left_result = { .error = PERR_NULL };
+    ParsingResult right_result = { .error = PERR_NULL };
+    Node *left_tree = NULL;
+    Node *right_tree = NULL;
+    const Operator *new_op = NULL;
+
+    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
+    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
+    if (!is_constant)
+    {
+        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
+    }
+    else
+    {
+        new_op = ctx_add_op(g_ctx, op_get_constant(name));
+    }
+
+    if (!arith_parse_raw(left, 0, &left_result))
+    {
+        goto error;
+    }
+
+    left_tree = left_result.tree;
+    free_result(&left_result, false);
+
+    // Check if left side is "function(var_1, ..., var_n)"
+    if (!do_left_checks(left_tree, strlen(left)))
+    {
+        goto error;
+    }
+
+    // Assign correct arity:
+    // Since operators are const, we can't change the arity directly
+    // A new operator with correct arity has to be created
+    if (!is_constant)
+    {
+        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
+        set_op(left_tree, new_op);
+    }
+
+    // Parse right expression raw to detect a recursive definition
+    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
+    {
+        goto error;
+    }
+
+    // Check if function is used in its definition
+    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
+    {
+        report_error(ERR_RECURSIVE_DEFINITION);
+        free_result(&right_result, true);
+        goto error;
+    }
+
+    // Since right expression was parsed raw to detect recursive definitions, do post processing
+    right_tree = arith_simplify(&right_result, (size_t)(right - left));
+    if (right_tree == NULL)
+    {
+        goto error;
+    }
+
+    // Add rule to eliminate operator before evaluation
+    RewriteRule rule;
+    Pattern pattern;
+    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
+    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
+    {
+        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
+        goto error;
+    }
+
+    add_composite_function(rule);
+
+    if (get_op(left_tree)->arity == 0)
+    {
+        if (!is_constant)
+        {
+            whisper("Added constant. Note: constants don't require a parameter list.\n");
+        }
+        else
+        {
+            whisper("Added constant.\n");
+        }
+    }
+    else
+    {
+        whisper("Added function.\n");
+    }
+    
+    return true;
+
+    error:
+    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+    free_tree(left_tree);
+    free_tree(right_tree);
+    free(name);
+    return false;
+}
+
+/*
+Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
+*/
+bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
+{   
+    // Overwrite first char of operator to make function definition a proper string
+    char *right_input = strstr(input, DEFINITION_OP);
+    *right_input = '\0';
+    right_input += strlen(DEFINITION_OP);
+    
+    // Tokenize function definition to get its name. Name is first token.
+    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
+    
+    // Function name is first token that is not a space
+    char *name = NULL;
+    size_t non_space_tokens = 0;
+    for (size_t i = 0; i < vec_count(&tokens); i++)
+    {
+        char *token = *(char**)vec_get(&tokens, i);
+        if (is_space(token[0]))
+        {
+            free(token);
+        }
+        else
+        {
+            non_space_tokens++;
+            if (name == NULL)
+            {
+                name = token;
+            }
+            else
+            {
+                free(token);
+            }
+        }
+    }
+
+    vec_destroy(&tokens);
+
+    if (name == NULL)
+    {
+        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+        return false;
+    }
+    else
+    {
+        if (!is_letter(name[0]))
+        {
+            free(name);
+            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+            return false;
+        }
+        else
+        {
+            return add_function(name, input, right_input, non_space_tokens == 1);
+        }
+    }
+}
diff --git a/src/util/console_util.c b/src/util/console_util.c
index 5278ac7..2300ba9 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -1,205 +1,205 @@
-#define _GNU_SOURCE
-#include <stdarg.h>
-#include <stdio.h>
-#include <string.h>
-#ifdef USE_READLINE
-#include <readline/readline.h>
-#include <readline/history.h>
-#endif
-
-#include "console_util.h"
-#include "string_builder.h"
-
-bool interactive;
-
-void unload_console_util()
-{
-#ifdef USE_READLINE
-    rl_clear_history();
-#endif
-}
-
-void init_console_util()
-{
-    interactive = false;
-#ifdef USE_READLINE
-    // Disable tab completion
-    rl_bind_key('\t', rl_insert);
-#endif
-}
-
-/*
-Summary: Sets interactive mode
-    When true, whispered messages are displayed and readline instead of getline is used to read input
-*/
-bool set_interactive(bool value)
-{
-    bool res = interactive;
-    interactive = value;
-    return res;
-}
-
-bool is_interactive()
-{
-    return interactive;
-}
-
-/*
-Summary: printf-wrapper that filters unimportant prints in non-interactive mode
-*/
-void whisper(const char *format, ...)
-{
-    if (interactive)
-    {
-        va_list args;
-        va_start(args, format);
-        vprintf(format, args);
-        va_end(args);
-    }
-}
-
-bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (interactive && prompt_fmt != NULL)
-    {
-        vprintf(prompt_fmt, args);
-    }
-    
-    size_t size;
-    *out_input = NULL;
-    if (getline(out_input, &size, file) == EOF)
-    {
-        free(*out_input);
-        *out_input = NULL;
-        return false;
-    }
-
-    // Overwrite newline char (absent when last line is not terminated)
-    size_t length = strlen(*out_input);
-    if (length > 0 && (*out_input)[length - 1] == '\n') (*out_input)[length - 1] = '\0';
-    return true;
-}
-
-
-/*
-Summary: Used whenever input is requested. Prompt is only printed when interactive.
-Params
-    prompt: Prompt to display when interactive
-    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
-    out_input: Pointer to string that will be read. String must be free'd after use.
-*/
-#ifdef USE_READLINE
-
-// File is stdin, interactive is true
-bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (prompt_fmt != NULL)
-    {
-        Vector strbuilder = strbuilder_create(3);
-        vstrbuilder_append(&strbuilder, prompt_fmt, args);
-        *out_input = readline(strbuilder.buffer);
-        vec_destroy(&strbuilder);
-    }
-    else
-    {
-        *out_input = readline(NULL);
-    }
-
-    if (*out_input == NULL)
-    {
-        return false;
-    }
-    add_history(*out_input);
-    return true;
-}
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    // Use readline when interactive
-    if (interactive)
-    {
-        return ask_input_readline(out_input, prompt_fmt, args);
-    }
-    else
-    {
-        return ask_input_getline(file, out_input, prompt_fmt, args);
-    }
-}
-
-#else
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    return ask_input_getline(file, out_input, prompt_fmt, args);
-}
-
-#endif
-
-bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
-{
-    va_list args;
-    va_start(args, prompt_fmt);
-    bool res;
-    res = vask_input(file, out_input, prompt_fmt, args);
-    va_end(args);
-    return res;
-}
-
-void report_error(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-}
-
-void software_defect(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    fprintf(stderr, "Software defect: ");
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-    exit(EXIT_FAILURE);
-}
-
-void report_error_at(int pos, int length, const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-
-    if (is_interactive())
-    {
-        int msg_len = vsnprintf(NULL, 0, fmt, args);
-        va_end(args);
-        va_start(args, fmt);
-        if (pos - msg_len > 0) // Left of error token
-        {
-            report_error("%*s", pos - msg_len - 1, "");
-            vfprintf(stderr, fmt, args);
-            report_error(" ");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error("^");
-        }
-        else // Right of error token
-        {
-            report_error("%*s^", pos, "");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error(" ");
-            vfprintf(stderr, fmt, args);
-        }
-    }
-    else
-    {
-        vfprintf(stderr, fmt, args);
-    }
-
-    report_error("\n");
-    va_end(args);
-}
+#define _GNU_SOURCE
+#include <stdarg.h>
+#include <stdio.h>
+#include <string.h>
+#ifdef USE_READLINE
+#include <readline/readline.h>
+#include <readline/history.h>
+#endif
+
+#include "console_util.h"
+#include "string_builder.h"
+
+bool interactive;
+
+void unload_console_util()
+{
+#ifdef USE_READLINE
+    rl_clear_history();
+#endif
+}
+
+void init_console_util()
+{
+    interactive = false;
+#ifdef USE_READLINE
+    // Disable tab completion
+    rl_bind_key('\t', rl_insert);
+#endif
+}
+
+/*
+Summary: Sets interactive mode
+    When true, whispered messages are displayed and readline instead of getline is used to read input
+*/
+bool set_interactive(bool value)
+{
+    bool res = interactive;
+    interactive = value;
+    return res;
+}
+
+bool is_interactive()
+{
+    return interactive;
+}
+
+/*
+Summary: printf-wrapper that filters unimportant prints in non-interactive mode
+*/
+void whisper(const char *format, ...)
+{
+    if (interactive)
+    {
+        va_list args;
+        va_start(args, format);
+        vprintf(format, args);
+        va_end(args);
+    }
+}
+
+bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (interactive && prompt_fmt != NULL)
+    {
+        vprintf(prompt_fmt, args);
+    }
+    
+    size_t size;
+    *out_input = NULL;
+    if (getline(out_input, &size, file) == EOF)
+    {
+        free(*out_input);
+        *out_input = NULL;
+        return false;
+    }
+
+    // Overwrite newline char (absent when last line is not terminated)
+    size_t length = strlen(*out_input);
+    if (length > 0 && (*out_input)[length - 1] == '\n') (*out_input)[length - 1] = '\0';
+    return true;
+}
+
+
+/*
+Summary: Used whenever input is requested. Prompt is only printed when interactive.
+Params
+    prompt: Prompt to display when interactive
+    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
+    out_input: Pointer to string that will be read. String must be free'd after use.
+*/
+#ifdef USE_READLINE
+
+// File is stdin, interactive is true
+bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (prompt_fmt != NULL)
+    {
+        Vector strbuilder = strbuilder_create(3);
+        vstrbuilder_append(&strbuilder, prompt_fmt, args);
+        *out_input = readline(strbuilder.buffer);
+        vec_destroy(&strbuilder);
+    }
+    else
+    {
+        *out_input = readline(NULL);
+    }
+
+    if (*out_input == NULL)
+    {
+        return false;
+    }
+    add_history(*out_input);
+    return true;
+}
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    // Use readline when interactive
+    if (interactive)
+    {
+        return ask_input_readline(out_input, prompt_fmt, args);
+    }
+    else
+    {
+        return ask_input_getline(file, out_input, prompt_fmt, args);
+    }
+}
+
+#else
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    return ask_input_getline(file, out_input, prompt_fmt, args);
+}
+
+#endif
+
+bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
+{
+    va_list args;
+    va_start(args, prompt_fmt);
+    bool res;
+    res = vask_input(file, out_input, prompt_fmt, args);
+    va_end(args);
+    return res;
+}
+
+void report_error(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+}
+
+void software_defect(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    fprintf(stderr, "Software defect: ");
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+    exit(EXIT_FAILURE);
+}
+
+void report_error_at(int pos, int length, const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+
+    if (is_interactive())
+    {
+        int msg_len = vsnprintf(NULL, 0, fmt, args);
+        va_end(args);
+        va_start(args, fmt);
+        if (pos - msg_len > 0) // Left of error token
+        {
+            report_error("%*s", pos - msg_len - 1, "");
+            vfprintf(stderr, fmt, args);
+            report_error(" ");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error("^");
+        }
+        else // Right of error token
+        {
+            report_error("%*s^", pos, "");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error(" ");
+            vfprintf(stderr, fmt, args);
+        }
+    }
+    else
+    {
+        vfprintf(stderr, fmt, args);
+    }
+
+    report_error("\n");
+    va_end(args);
+}
-- 
2.43.0


From 87af9888d97e2dd09f89e803ecc3184d14a6b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 42/42] fix: loading a file that can be opened but not read
 failed silently

---
 src/client/commands/cmd_load.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index ccfdada..f74a05b 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -57,6 +57,12 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
         bool interactive = set_interactive(false);
         bool success = process_input(file);
         set_interactive(interactive);
+        if (ferror(file))
+        {
+            // E.g. a directory: Can be opened but not be read
+            report_error("Error loading file: Could not be read\n");
+            success = false;
+        }
         fclose(file);
         return success;
     }
-- 
2.43.0

