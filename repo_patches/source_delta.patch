From 090b0f6f4c0abf91622724b4f1d1da3fc379b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 01/74] fix: keep the space before the last word of a Solidity
 pragma

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 750846e..c6f16d4 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -369,7 +369,7 @@ impl NodePrinter<SolidityAST> for PragmaDirectivePrinter {
                             needs_space = false;
                         }
 
-                        if i < (v.len() - 1) && needs_space {
+                        if needs_space {
                             write_space(printer, stream);
                         }
                         write_token(printer, stream, s);
-- 
2.43.0


From d84db5eae5b714fdd8839f62ecde1d1be5a0cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 02/74] fix: separate override from the preceding word in state
 variables and modifiers

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index c6f16d4..b74d688 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -625,6 +625,7 @@ impl NodePrinter<SolidityAST> for VariableDeclarationPrinter {
         }
 
         if let Some(override_node) = node.get("overrides") {
+            write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, override_node);
         }
 
@@ -1504,6 +1505,7 @@ impl NodePrinter<SolidityAST> for ModifierDefinitionPrinter {
         }
 
         if let Some(override_node) = node.get("overrides") {
+            write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, override_node);
         }
 
-- 
2.43.0


From f4eb8de9863095aefeaac255aee169dff22095dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 03/74] fix: do not print a visibility on Solidity free
 functions

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index b74d688..5af25dd 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -723,7 +723,10 @@ impl NodePrinter<SolidityAST> for FunctionDefinitionPrinter {
             traverse_sub_node_and_print(printer, stream, factory, parameters);
         }
 
-        if let Some(visibility) = node.get_str_for_key("visibility") {
+        // The grammar does not allow a visibility on free functions.
+        let is_free_function = node.get_str_for_key("kind") == Some("freeFunction");
+
+        if let (Some(visibility), false) = (node.get_str_for_key("visibility"), is_free_function) {
             write_space(printer, stream);
             write_token(printer, stream, visibility);
             // if visibility != "internal" {
-- 
2.43.0


From c90df31886a709b7d5eab156d385dbe8bab9b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 04/74] fix: print returns of a try statement only when the
 success clause has parameters

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 5af25dd..b52a188 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1125,16 +1125,9 @@ impl NodePrinter<SolidityAST> for FunctionCallPrinter {
         printer: &mut PrettyPrinter,
         stream: &mut dyn Write,
         _factory: &dyn NodePrinterFactory<SolidityAST>,
-        node: &SolidityAST,
+        _node: &SolidityAST,
     ) {
         write_token(printer, stream, ")");
-
-        if let Some(try_call_bool) = node.get_bool_for_key("tryCall") {
-            if try_call_bool {
-                write_space(printer, stream);
-                write_token(printer, stream, "returns");
-            }
-        }
     }
 }
 
@@ -2292,6 +2285,9 @@ impl NodePrinter<SolidityAST> for TryStatementPrinter {
                 if i >= 1 {
                     write_token(printer, stream, "catch");
                     write_space(printer, stream);
+                } else if clause.get("parameters").map_or(false, |p| !p.is_null()) {
+                    write_token(printer, stream, "returns");
+                    write_space(printer, stream);
                 }
                 traverse_sub_node_and_print(printer, stream, factory, clause);
                 if i < (clauses_array.len()) {
-- 
2.43.0


From 525d2a52427abfe00d97c44af7f8f88170c77af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 05/74] fix: print the key and value names of Solidity mappings

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index b52a188..e7fb1c8 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -558,6 +558,13 @@ impl NodePrinter<SolidityAST> for MappingPrinter {
             traverse_sub_node_and_print(printer, stream, factory, key);
         }
 
+        if let Some(key_name) = node.get_str_for_key("keyName") {
+            if !key_name.is_empty() {
+                write_space(printer, stream);
+                write_token(printer, stream, key_name);
+            }
+        }
+
         write_space(printer, stream);
         write_token(printer, stream, "=>");
         write_space(printer, stream);
@@ -566,6 +573,13 @@ impl NodePrinter<SolidityAST> for MappingPrinter {
             traverse_sub_node_and_print(printer, stream, factory, value);
         }
 
+        if let Some(value_name) = node.get_str_for_key("valueName") {
+            if !value_name.is_empty() {
+                write_space(printer, stream);
+                write_token(printer, stream, value_name);
+            }
+        }
+
         write_token(printer, stream, ")");
     }
 }
-- 
2.43.0


From e4c5e57eeca48a34c5a9a7bd1923b11521305cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 06/74] fix: print both semicolons of a for header without
 initialization or condition

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index e7fb1c8..bf10a6a 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1770,14 +1770,17 @@ impl NodePrinter<SolidityAST> for ForStatementPrinter {
     ) {
         // Include the '(' in the token so it doesn't line break to the next line.
         write_token(printer, stream, "for(");
-        if let Some(initialization_node) = node.get("initializationExpression") {
-            traverse_sub_node_and_print(printer, stream, factory, initialization_node);
+        match node.get("initializationExpression") {
+            Some(initialization_node) if !initialization_node.is_null() => {
+                traverse_sub_node_and_print(printer, stream, factory, initialization_node);
+            }
+            _ => write_token(printer, stream, ";"),
         }
         if let Some(condition_node) = node.get("condition") {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, condition_node);
-            write_token(printer, stream, ";");
         }
+        write_token(printer, stream, ";");
         if let Some(loop_expression_node) = node.get("loopExpression") {
             let mut printer_settings = factory.get_settings().clone();
             printer_settings.set_value_for_key(
-- 
2.43.0


From 248f1e5a0f1579efdc09ddf00f0ba79d39992017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 07/74] fix: print the state mutability and return types of
 Solidity function types

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index bf10a6a..11fd08c 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -176,13 +176,15 @@ fn print_arguments_helper(
 /// * `stream` - The [`Write`] object that will received the formatted text.
 /// * `factory` - The [`SolidityNodePrinterFactory`] that generates printers for AST nodes.
 /// * `node` - The node in the Solidity AST.
+/// * `key` - The key of the parameter list in `node`.
 fn print_return_parameters_helper(
     printer: &mut PrettyPrinter,
     stream: &mut dyn Write,
     factory: &dyn NodePrinterFactory<SolidityAST>,
     node: &SolidityAST,
+    key: &str,
 ) {
-    if let Some(return_parameters_node) = node.get("returnParameters") {
+    if let Some(return_parameters_node) = node.get(key) {
         if let Some(parameters_array) = return_parameters_node.get_array_for_key("parameters") {
             if !parameters_array.is_empty() {
                 write_space(printer, stream);
@@ -776,7 +778,7 @@ impl NodePrinter<SolidityAST> for FunctionDefinitionPrinter {
             print_space_and_array_helper(printer, stream, factory, modifiers);
         }
 
-        print_return_parameters_helper(printer, stream, factory, node);
+        print_return_parameters_helper(printer, stream, factory, node, "returnParameters");
 
         if let Some(body) = node.get("body") {
             write_space(printer, stream);
@@ -2064,8 +2066,14 @@ impl NodePrinter<SolidityAST> for FunctionTypeNamePrinter {
                 write_token(printer, stream, visibility_str);
             }
         }
+        if let Some(state_mutability) = node.get_str_for_key("stateMutability") {
+            if state_mutability != "nonpayable" {
+                write_space(printer, stream);
+                write_token(printer, stream, state_mutability);
+            }
+        }
 
-        print_return_parameters_helper(printer, stream, factory, node);
+        print_return_parameters_helper(printer, stream, factory, node, "returnParameterTypes");
     }
 }
 
-- 
2.43.0


From dcfc954d3883b6f41b4e07f61cc21cbc00a6c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 08/74] fix: print Solidity array slices

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 31 ++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 11fd08c..c0fb964 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1228,6 +1228,36 @@ impl NodePrinter<SolidityAST> for IndexAccessPrinter {
     }
 }
 
+struct IndexRangeAccessPrinter {}
+
+impl NodePrinter<SolidityAST> for IndexRangeAccessPrinter {
+    fn print_node(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        stream: &mut dyn Write,
+        factory: &dyn NodePrinterFactory<SolidityAST>,
+        node: &SolidityAST,
+    ) {
+        if let Some(base_expression) = node.get("baseExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, base_expression);
+        }
+
+        write_token(printer, stream, "[");
+
+        if let Some(start_expression) = node.get("startExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, start_expression);
+        }
+
+        write_token(printer, stream, ":");
+
+        if let Some(end_expression) = node.get("endExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, end_expression);
+        }
+
+        write_token(printer, stream, "]");
+    }
+}
+
 struct IfStatementPrinter {}
 
 impl NodePrinter<SolidityAST> for IfStatementPrinter {
@@ -2677,6 +2707,7 @@ impl NodePrinterFactory<SolidityAST> for SolidityNodePrinterFactory {
                 "IfStatement" => Box::new(IfStatementPrinter {}),
                 "ImportDirective" => Box::new(ImportDirectivePrinter {}),
                 "IndexAccess" => Box::new(IndexAccessPrinter {}),
+                "IndexRangeAccess" => Box::new(IndexRangeAccessPrinter {}),
                 "InheritanceSpecifier" => Box::new(InheritanceSpecifierPrinter {}),
                 "InlineAssembly" => Box::new(InlineAssemblyPrinter {}),
                 "Literal" => Box::new(LiteralPrinter {}),
-- 
2.43.0


From 8a63740d171af19f95bf850495b67d29168376b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 09/74] fix: print inline arrays with brackets and empty tuples
 at all

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 27 ++++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index c0fb964..78b6dcc 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1716,23 +1716,22 @@ impl NodePrinter<SolidityAST> for TupleExpressionPrinter {
     ) {
         if let Some(components) = node.get("components") {
             if let Some(components_array) = components.as_array() {
-                if !components_array.is_empty() {
-                    write_token(printer, stream, "(");
-                    let mut i: usize = 0;
-                    while i < components_array.len() {
-                        let value = components_array.get(i).unwrap();
-                        traverse_sub_node_and_print(printer, stream, factory, value);
-                        if i < (components_array.len() - 1) {
-                            write_token(printer, stream, ",");
-                            let next_node = components_array.get(i + 1).unwrap();
-                            if !next_node.is_null() {
-                                write_space(printer, stream);
-                            }
+                let is_array = node.get_bool_for_key("isInlineArray") == Some(true);
+                write_token(printer, stream, if is_array { "[" } else { "(" });
+                let mut i: usize = 0;
+                while i < components_array.len() {
+                    let value = components_array.get(i).unwrap();
+                    traverse_sub_node_and_print(printer, stream, factory, value);
+                    if i < (components_array.len() - 1) {
+                        write_token(printer, stream, ",");
+                        let next_node = components_array.get(i + 1).unwrap();
+                        if !next_node.is_null() {
+                            write_space(printer, stream);
                         }
-                        i += 1;
                     }
-                    write_token(printer, stream, ")");
+                    i += 1;
                 }
+                write_token(printer, stream, if is_array { "]" } else { ")" });
             }
         }
     }
-- 
2.43.0


From f50992509988b23c40ea7e6fb2e9ef8c64a99c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 10/74] fix: print Yul variable declarations without a value

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 78b6dcc..7152047 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1934,13 +1934,15 @@ impl NodePrinter<SolidityAST> for YulVariableDeclarationPrinter {
         if let Some(variables_node) = node.get("variables") {
             if let Some(variables_array) = variables_node.as_array() {
                 print_array_helper(printer, stream, factory, variables_array);
-                write_space(printer, stream);
             }
         }
-        write_token(printer, stream, ":=");
-        write_space(printer, stream);
         if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
+            if !value_node.is_null() {
+                write_space(printer, stream);
+                write_token(printer, stream, ":=");
+                write_space(printer, stream);
+                traverse_sub_node_and_print(printer, stream, factory, value_node);
+            }
         }
     }
 }
-- 
2.43.0


From f1937e7dfe4eff722d38a1963323728bb2220585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 11/74] fix: print several Yul return variables without
 parentheses

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 7152047..a3a633c 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -2567,15 +2567,7 @@ impl NodePrinter<SolidityAST> for YulFunctionDefinitionPrinter {
             if !return_vars_array.is_empty() {
                 write_token(printer, stream, "->");
                 write_space(printer, stream);
-                if return_vars_array.len() > 1 {
-                    write_token(printer, stream, "(");
-                }
-
                 print_array_helper(printer, stream, factory, return_vars_array);
-
-                if return_vars_array.len() > 1 {
-                    write_token(printer, stream, ")");
-                }
                 write_space(printer, stream);
             }
         }
-- 
2.43.0


From 956387f4d8e6219828b17457b3652197262e3bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 12/74] fix: print the star of using-for-all directives

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index a3a633c..be320e8 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1498,8 +1498,11 @@ impl NodePrinter<SolidityAST> for UsingForDirectivePrinter {
         write_space(printer, stream);
         write_token(printer, stream, "for");
         write_space(printer, stream);
-        if let Some(type_name) = node.get("typeName") {
-            traverse_sub_node_and_print(printer, stream, factory, type_name);
+        match node.get("typeName") {
+            Some(type_name) if !type_name.is_null() => {
+                traverse_sub_node_and_print(printer, stream, factory, type_name);
+            }
+            _ => write_token(printer, stream, "*"),
         }
 
         if let Some(global_bool) = node.get_bool_for_key("global") {
-- 
2.43.0


From 48226c7c1274bd5d2f3e41b0545385d5b44c96c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 13/74] fix: print the plain functions of a using-for list

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index be320e8..e6979fa 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1470,7 +1470,8 @@ impl NodePrinter<SolidityAST> for UsingForDirectivePrinter {
                         factory,
                         function_list_array,
                         |p, s, _f, n| {
-                            if let Some(definition) = n.get("definition") {
+                            // Operators have a `definition`, plain functions a `function`.
+                            if let Some(definition) = n.get("definition").or(n.get("function")) {
                                 if let Some(name) = definition.get_str_for_key("name") {
                                     write_token(p, s, name);
                                 }
-- 
2.43.0


From ccfcca234215950061ac70ed57b23a8465c5a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 14/74] fix: terminate file-level constants with a semicolon

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index e6979fa..642feed 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -317,6 +317,9 @@ impl NodePrinter<SolidityAST> for SourceUnitPrinter {
                     if let Some(node) = node_array.get(i) {
                         write_indent(printer, stream);
                         traverse_sub_node_and_print(printer, stream, factory, node);
+                        if node.get_str_for_key("nodeType") == Some("VariableDeclaration") {
+                            write_token(printer, stream, ";");
+                        }
                         if i < (node_array.len() - 1) {
                             write_newline(printer, stream);
                             write_newline(printer, stream);
-- 
2.43.0


From 3377759e22d9ffb3c05069b40adca662739cfbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 15/74] fix: terminate modifiers without a body with a
 semicolon

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 642feed..4ab2af4 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1558,9 +1558,12 @@ impl NodePrinter<SolidityAST> for ModifierDefinitionPrinter {
             traverse_sub_node_and_print(printer, stream, factory, override_node);
         }
 
-        if let Some(body) = node.get("body") {
-            write_space(printer, stream);
-            traverse_sub_node_and_print(printer, stream, factory, body);
+        match node.get("body") {
+            Some(body) if !body.is_null() => {
+                write_space(printer, stream);
+                traverse_sub_node_and_print(printer, stream, factory, body);
+            }
+            _ => write_token(printer, stream, ";"),
         }
     }
 }
-- 
2.43.0


From d9a4c7439f2d014b183b2f983b565dad24b9f9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 16/74] fix: print the documentation of structs, errors, events
 and enums

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 4ab2af4..fdc20ae 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -483,6 +483,7 @@ impl NodePrinter<SolidityAST> for StructDefinitionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        print_documentation_helper(printer, stream, factory, node);
         write_token(printer, stream, "struct");
         write_space(printer, stream);
 
@@ -1787,6 +1788,7 @@ impl NodePrinter<SolidityAST> for ErrorDefinitionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        print_documentation_helper(printer, stream, factory, node);
         write_token(printer, stream, "error");
         write_space(printer, stream);
         if let Some(name_str) = node.get_str_for_key("name") {
@@ -2128,6 +2130,7 @@ impl NodePrinter<SolidityAST> for EventDefinitionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        print_documentation_helper(printer, stream, factory, node);
         write_token(printer, stream, "event");
         write_space(printer, stream);
         print_name_helper(printer, stream, node);
@@ -2173,6 +2176,7 @@ impl NodePrinter<SolidityAST> for EnumDefinitionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        print_documentation_helper(printer, stream, factory, node);
         write_token(printer, stream, "enum");
         write_space(printer, stream);
         print_name_helper(printer, stream, node);
-- 
2.43.0


From 6e63f72fff8cfe59b6e3dd954a15aa386fd3ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 17/74] fix: keep the lines of inline assembly documentation
 apart

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index fdc20ae..220c7a4 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1884,11 +1884,13 @@ impl NodePrinter<SolidityAST> for InlineAssemblyPrinter {
         node: &SolidityAST,
     ) {
         if let Some(documentation_str) = node.get_str_for_key("documentation") {
-            write_token(printer, stream, "///");
-            write_space(printer, stream);
-            write_flowable_text(printer, stream, documentation_str, "/// ");
-            write_newline(printer, stream);
-            write_indent(printer, stream);
+            for line in documentation_str.split('\n') {
+                write_token(printer, stream, "///");
+                write_space(printer, stream);
+                write_flowable_text(printer, stream, line, "/// ");
+                write_newline(printer, stream);
+                write_indent(printer, stream);
+            }
         }
     }
 
-- 
2.43.0


From 2327b975e72a0c79ae9e1ec4a26256628ef2fa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 18/74] fix: print the transient location of state variables

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 220c7a4..4a1f0f2 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -665,7 +665,7 @@ impl NodePrinter<SolidityAST> for VariableDeclarationPrinter {
         node: &SolidityAST,
     ) {
         if let Some(location) = node.get_str_for_key("storageLocation") {
-            if location == "memory" || location == "storage" || location == "calldata" {
+            if matches!(location, "memory" | "storage" | "calldata" | "transient") {
                 write_space(printer, stream);
                 write_token(printer, stream, location);
             }
-- 
2.43.0


From f019baf5f6808616b8e097efd4a8e5a6c0cc8b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 19/74] fix: print every Solidity string literal with valid and
 complete escapes

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 110 +++++++++----------
 1 file changed, 52 insertions(+), 58 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 4a1f0f2..bdddd38 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -196,7 +196,8 @@ fn print_return_parameters_helper(
     }
 }
 
-/// Change any non-ASCII characters into a Solidity escaped character form.
+/// Change any characters that cannot appear directly in a string literal into a Solidity escaped
+/// character form.
 ///
 /// # Arguments
 ///
@@ -205,56 +206,48 @@ fn unencode_string(s: &str) -> String {
     let mut unencoded_s = String::new();
 
     for c in s.chars() {
-        let c_code = c as u32;
-
-        if c_code < 32 {
-            match c_code {
-                8 => {
-                    // backspace
-                    unencoded_s.push('\\');
-                    unencoded_s.push('b');
-                }
-                9 => {
-                    // horizontal tab
-                    unencoded_s.push('\\');
-                    unencoded_s.push('t');
-                }
-                10 => {
-                    // new line/line feed
-                    unencoded_s.push('\\');
-                    unencoded_s.push('n');
-                }
-                11 => {
-                    // vertical tab
-                    unencoded_s.push('\\');
-                    unencoded_s.push('v');
-                }
-                12 => {
-                    // form feed
-                    unencoded_s.push('\\');
-                    unencoded_s.push('f');
-                }
-                13 => {
-                    // carriage return
-                    unencoded_s.push('\\');
-                    unencoded_s.push('r');
-                }
-                _ => {
-                    let converted_char = format!("\\x{:x}", c_code);
-                    unencoded_s += converted_char.as_str();
+        match c {
+            '\t' => unencoded_s += "\\t",
+            '\n' => unencoded_s += "\\n",
+            '\r' => unencoded_s += "\\r",
+            '"' | '\\' => {
+                unencoded_s.push('\\');
+                unencoded_s.push(c);
+            }
+            ' '..='~' => unencoded_s.push(c),
+            '\0'..='\u{7f}' => unencoded_s += &format!("\\x{:02x}", c as u32),
+            '\u{80}'..='\u{ffff}' => unencoded_s += &format!("\\u{:04x}", c as u32),
+            _ => {
+                // Unicode escapes have four digits, so write the UTF-8 encoding of the character.
+                let mut utf8 = [0; 4];
+                for byte in c.encode_utf8(&mut utf8).bytes() {
+                    unencoded_s += &format!("\\x{:02x}", byte);
                 }
             }
-        } else if (32..127).contains(&c_code) {
-            unencoded_s.push(c);
-        } else {
-            let converted_char = format!("\\u{:x}", c_code);
-            unencoded_s += converted_char.as_str();
         }
     }
 
     unencoded_s
 }
 
+/// Return the escaped content of a string literal node. The compiler leaves out the `value` of a
+/// literal that is not valid UTF-8, in which case the content comes from the `hexValue`.
+///
+/// # Arguments
+///
+/// * `node` - The Literal or YulLiteral node.
+fn string_literal_content(node: &SolidityAST) -> String {
+    if let Some(value) = node.get_str_for_key("value") {
+        return unencode_string(value);
+    }
+    let hex_value = node.get_str_for_key("hexValue").unwrap_or("");
+    hex_value
+        .as_bytes()
+        .chunks(2)
+        .map(|digits| format!("\\x{}", String::from_utf8_lossy(digits)))
+        .collect()
+}
+
 /// Return true if the string only contains ASCII digits and/or the '.' character.
 ///
 /// # Arguments
@@ -980,19 +973,22 @@ impl NodePrinter<SolidityAST> for LiteralPrinter {
         _factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
-        if let Some(value) = node.get_str_for_key("value") {
-            if let Some(kind) = node.get_str_for_key("kind") {
-                if kind == "string" {
-                    let unencoded_string = unencode_string(value);
-                    write_string(printer, stream, &unencoded_string);
-                } else if kind == "unicodeString" {
-                    write_token(printer, stream, "unicode");
-                    write_string(printer, stream, value);
-                } else {
+        match node.get_str_for_key("kind") {
+            Some("string") => {
+                write_string(printer, stream, &string_literal_content(node));
+            }
+            Some("unicodeString") => {
+                let token = format!("unicode\"{}\"", string_literal_content(node));
+                write_token(printer, stream, &token);
+            }
+            Some("hexString") => {
+                let hex_value = node.get_str_for_key("hexValue").unwrap_or("");
+                write_token(printer, stream, &format!("hex\"{hex_value}\""));
+            }
+            _ => {
+                if let Some(value) = node.get_str_for_key("value") {
                     write_token(printer, stream, value);
                 }
-            } else {
-                write_token(printer, stream, value);
             }
         }
 
@@ -1382,7 +1378,7 @@ impl NodePrinter<SolidityAST> for ImportDirectivePrinter {
         }
 
         if let Some(file) = node.get_str_for_key("file") {
-            write_string(printer, stream, file);
+            write_string(printer, stream, &unencode_string(file));
         }
 
         if let Some(unit_alias_str) = node.get_str_for_key("unitAlias") {
@@ -2039,9 +2035,7 @@ impl NodePrinter<SolidityAST> for YulLiteralPrinter {
                     write_token(printer, stream, value_str);
                 }
             } else if kind_str == "string" {
-                if let Some(value_str) = node.get_str_for_key("value") {
-                    write_string(printer, stream, value_str);
-                }
+                write_string(printer, stream, &string_literal_content(node));
             }
         }
     }
-- 
2.43.0


From 373e1895ad89b44cc094b790d2c48380b6735c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 20/74] fix: documentation that contains a comment terminator
 stays documentation

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 47 +++++++++-----------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index bdddd38..01c622c 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1568,16 +1568,6 @@ impl NodePrinter<SolidityAST> for ModifierDefinitionPrinter {
 struct StructuredDocumentationPrinter {}
 
 impl NodePrinter<SolidityAST> for StructuredDocumentationPrinter {
-    fn on_entry(
-        &mut self,
-        printer: &mut PrettyPrinter,
-        stream: &mut dyn Write,
-        _factory: &dyn NodePrinterFactory<SolidityAST>,
-        _node: &SolidityAST,
-    ) {
-        write_token(printer, stream, "/**");
-    }
-
     fn print_node(
         &mut self,
         printer: &mut PrettyPrinter,
@@ -1585,26 +1575,31 @@ impl NodePrinter<SolidityAST> for StructuredDocumentationPrinter {
         _factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
-        if let Some(text) = node.get_str_for_key("text") {
-            let text_array: Vec<&str> = text.split('\n').collect();
-            for sub_text in text_array {
-                write_newline(printer, stream);
-                write_indent(printer, stream);
-                write_space(printer, stream);
-                write_token(printer, stream, "*");
+        let text = node.get_str_for_key("text").unwrap_or("");
+
+        if text.contains("*/") {
+            // The text came from line comments and would end a block comment early.
+            for (i, sub_text) in text.split('\n').enumerate() {
+                if i > 0 {
+                    write_newline(printer, stream);
+                    write_indent(printer, stream);
+                }
+                write_token(printer, stream, "///");
                 write_space(printer, stream);
-                write_flowable_text(printer, stream, sub_text, " *   ");
+                write_flowable_text(printer, stream, sub_text, "///   ");
             }
+            return;
         }
-    }
 
-    fn on_exit(
-        &mut self,
-        printer: &mut PrettyPrinter,
-        stream: &mut dyn Write,
-        _factory: &dyn NodePrinterFactory<SolidityAST>,
-        _node: &SolidityAST,
-    ) {
+        write_token(printer, stream, "/**");
+        for sub_text in text.split('\n') {
+            write_newline(printer, stream);
+            write_indent(printer, stream);
+            write_space(printer, stream);
+            write_token(printer, stream, "*");
+            write_space(printer, stream);
+            write_flowable_text(printer, stream, sub_text, " *   ");
+        }
         write_newline(printer, stream);
         write_indent(printer, stream);
         write_space(printer, stream);
-- 
2.43.0


From deb515ccb4407c3f8ad4f03d4746a7b97817a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 21/74] fix: a commented-out statement stays inside of its
 comment on every line

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 01c622c..d7da16a 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1764,7 +1764,12 @@ impl NodePrinter<SolidityAST> for CommentPrinter {
         }
 
         if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
+            // Every line of the commented node must stay inside of the comment.
+            let mut buffer: Vec<u8> = vec![];
+            let mut value_printer = PrettyPrinter::new(printer.tab_width, usize::MAX);
+            traverse_sub_node_and_print(&mut value_printer, &mut buffer, factory, value_node);
+            let value_text = String::from_utf8_lossy(&buffer);
+            write_flowable_text(printer, stream, &value_text, "// ");
         }
     }
 }
-- 
2.43.0


From 7424d422522d4b980ecb3d582568dc9d14edb6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 22/74] fix: never break the line of the license comment

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index d7da16a..d0fca8d 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -285,13 +285,9 @@ impl NodePrinter<SolidityAST> for SourceUnitPrinter {
         node: &SolidityAST,
     ) {
         if let Some(license) = node.get_str_for_key("license") {
-            write_token(printer, stream, "//");
-            write_space(printer, stream);
-            write_token(printer, stream, "SPDX-License-Identifier");
-            write_token(printer, stream, ":");
-            write_space(printer, stream);
-
-            write_token(printer, stream, license);
+            // One token, because a line break would end the comment.
+            let comment = format!("// SPDX-License-Identifier: {license}");
+            write_token(printer, stream, &comment);
             write_newline(printer, stream);
         }
     }
-- 
2.43.0


From f2aa034c6089ceb6da4cf6315863ca18bf57708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 23/74] fix: parenthesize operands a mutation moved to a place
 that binds tighter

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 111 +++++++++++++++++--
 1 file changed, 101 insertions(+), 10 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index d0fca8d..d386c7f 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -265,6 +265,85 @@ fn contains_digits_and_or_dots(s: &str) -> bool {
     true
 }
 
+/// Return how tightly an expression binds, following the precedence table of the Solidity compiler.
+///
+/// # Arguments
+///
+/// * `node` - The expression node.
+fn precedence(node: &SolidityAST) -> u8 {
+    match node.get_str_for_key("nodeType") {
+        Some("Assignment") | Some("Conditional") => 2,
+        Some("BinaryOperation") => match node.get_str_for_key("operator").unwrap_or("") {
+            "||" => 4,
+            "&&" => 5,
+            "==" | "!=" => 6,
+            "<" | ">" | "<=" | ">=" => 7,
+            "|" => 8,
+            "^" => 9,
+            "&" => 10,
+            "<<" | ">>" | ">>>" => 11,
+            "+" | "-" => 12,
+            "*" | "/" | "%" => 13,
+            _ => 14,
+        },
+        Some("UnaryOperation") => UNARY_PRECEDENCE,
+        Some("Literal") if starts_with_sign(node, '-') => UNARY_PRECEDENCE,
+        _ => POSTFIX_PRECEDENCE,
+    }
+}
+
+/// The precedence of prefix operators, postfix increment and decrement.
+const UNARY_PRECEDENCE: u8 = 15;
+/// The precedence of calls, member access, index access and primary expressions.
+const POSTFIX_PRECEDENCE: u8 = 16;
+
+/// Return true if the text of a prefix operation or a literal starts with `sign`.
+///
+/// # Arguments
+///
+/// * `node` - The expression node.
+/// * `sign` - The sign character.
+fn starts_with_sign(node: &SolidityAST, sign: char) -> bool {
+    let text = match node.get_str_for_key("nodeType") {
+        Some("UnaryOperation") if node.get_bool_for_key("prefix") == Some(true) => {
+            node.get_str_for_key("operator")
+        }
+        Some("Literal") if node.get_str_for_key("kind") == Some("number") => {
+            node.get_str_for_key("value")
+        }
+        _ => None,
+    };
+    text.map_or(false, |t| t.starts_with(sign))
+}
+
+/// Print the operand of an expression and put parentheses around an operand that binds less tightly
+/// than its place requires. The compiler represents the parentheses of the original program as
+/// tuples, so only operands placed by a mutation need them.
+///
+/// # Arguments
+///
+/// * `printer` - The [`PrettyPrinter`] object that will write to `stream`.
+/// * `stream` - The [`Write`] object that will receive formatted output.
+/// * `factory` - The [`SolidityNodePrinterFactory`] object that generates node printers.
+/// * `node` - The operand.
+/// * `required` - The lowest precedence allowed without parentheses.
+fn print_operand_helper(
+    printer: &mut PrettyPrinter,
+    stream: &mut dyn Write,
+    factory: &dyn NodePrinterFactory<SolidityAST>,
+    node: &SolidityAST,
+    required: u8,
+) {
+    let needs_parentheses = precedence(node) < required;
+    if needs_parentheses {
+        write_token(printer, stream, "(");
+    }
+    traverse_sub_node_and_print(printer, stream, factory, node);
+    if needs_parentheses {
+        write_token(printer, stream, ")");
+    }
+}
+
 /// Default node printer for unsupported nodes.
 struct DummyNodePrinter {}
 
@@ -947,14 +1026,21 @@ impl NodePrinter<SolidityAST> for BinaryOperationPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        // Exponentiation groups to the right, every other operator groups to the left.
+        let own = precedence(node);
+        let (left, right) = match node.get_str_for_key("operator") {
+            Some("**") => (own + 1, own),
+            _ => (own, own + 1),
+        };
+
         if let Some(le) = node.get("leftExpression") {
-            traverse_sub_node_and_print(printer, stream, factory, le);
+            print_operand_helper(printer, stream, factory, le, left);
         }
 
         print_operator_helper(printer, stream, node);
 
         if let Some(re) = node.get("rightExpression") {
-            traverse_sub_node_and_print(printer, stream, factory, re);
+            print_operand_helper(printer, stream, factory, re, right);
         }
     }
 }
@@ -1044,7 +1130,7 @@ impl NodePrinter<SolidityAST> for AssignmentPrinter {
         node: &SolidityAST,
     ) {
         if let Some(lhs) = node.get("leftHandSide") {
-            traverse_sub_node_and_print(printer, stream, factory, lhs);
+            print_operand_helper(printer, stream, factory, lhs, 4);
         }
 
         print_operator_helper(printer, stream, node);
@@ -1082,7 +1168,7 @@ impl NodePrinter<SolidityAST> for FunctionCallPrinter {
         node: &SolidityAST,
     ) {
         if let Some(expression) = node.get("expression") {
-            traverse_sub_node_and_print(printer, stream, factory, expression);
+            print_operand_helper(printer, stream, factory, expression, POSTFIX_PRECEDENCE);
             write_token(printer, stream, "(");
         }
     }
@@ -1166,7 +1252,12 @@ impl NodePrinter<SolidityAST> for UnaryOperationPrinter {
             }
 
             if let Some(sub_expression) = node.get("subExpression") {
-                traverse_sub_node_and_print(printer, stream, factory, sub_expression);
+                let required = if prefix {
+                    UNARY_PRECEDENCE
+                } else {
+                    POSTFIX_PRECEDENCE
+                };
+                print_operand_helper(printer, stream, factory, sub_expression, required);
             }
 
             if !prefix {
@@ -1189,7 +1280,7 @@ impl NodePrinter<SolidityAST> for MemberAccessPrinter {
         node: &SolidityAST,
     ) {
         if let Some(expression) = node.get("expression") {
-            traverse_sub_node_and_print(printer, stream, factory, expression);
+            print_operand_helper(printer, stream, factory, expression, POSTFIX_PRECEDENCE);
         }
 
         write_token(printer, stream, ".");
@@ -1211,7 +1302,7 @@ impl NodePrinter<SolidityAST> for IndexAccessPrinter {
         node: &SolidityAST,
     ) {
         if let Some(base_expression) = node.get("baseExpression") {
-            traverse_sub_node_and_print(printer, stream, factory, base_expression);
+            print_operand_helper(printer, stream, factory, base_expression, POSTFIX_PRECEDENCE);
         }
 
         write_token(printer, stream, "[");
@@ -1235,7 +1326,7 @@ impl NodePrinter<SolidityAST> for IndexRangeAccessPrinter {
         node: &SolidityAST,
     ) {
         if let Some(base_expression) = node.get("baseExpression") {
-            traverse_sub_node_and_print(printer, stream, factory, base_expression);
+            print_operand_helper(printer, stream, factory, base_expression, POSTFIX_PRECEDENCE);
         }
 
         write_token(printer, stream, "[");
@@ -2256,7 +2347,7 @@ impl NodePrinter<SolidityAST> for ConditionalPrinter {
         node: &SolidityAST,
     ) {
         if let Some(condition_node) = node.get("condition") {
-            traverse_sub_node_and_print(printer, stream, factory, condition_node);
+            print_operand_helper(printer, stream, factory, condition_node, 4);
         }
         write_space(printer, stream);
         write_token(printer, stream, "?");
@@ -2287,7 +2378,7 @@ impl NodePrinter<SolidityAST> for FunctionCallOptionsPrinter {
         node: &SolidityAST,
     ) {
         if let Some(expr_node) = node.get("expression") {
-            traverse_sub_node_and_print(printer, stream, factory, expr_node);
+            print_operand_helper(printer, stream, factory, expr_node, POSTFIX_PRECEDENCE);
         }
 
         if let Some(names_array) = node.get_array_for_key("names") {
-- 
2.43.0


From 278c8823da0464023d54fc4b5a320f668528ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 24/74] fix: keep consecutive Solidity signs apart

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index d386c7f..f5df855 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1247,6 +1247,14 @@ impl NodePrinter<SolidityAST> for UnaryOperationPrinter {
                         write_space(printer, stream);
                     } else {
                         write_token(printer, stream, operator);
+                        // Keep - and -- apart from a sign that follows.
+                        let sign = operator.chars().last().unwrap_or(' ');
+                        if let Some(sub_expression) = node.get("subExpression") {
+                            if sign != '!' && sign != '~' && starts_with_sign(sub_expression, sign)
+                            {
+                                write_space(printer, stream);
+                            }
+                        }
                     }
                 }
             }
-- 
2.43.0


From b7f7d179b0762f37dcf40760f92ce323e55c0f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 25/74] fix: flow words longer than a line, non-ASCII text and
 full lines without panic or loop

---
 mutagenyx_lib/src/pretty_printer.rs | 107 ++++++++--------------------
 1 file changed, 30 insertions(+), 77 deletions(-)

diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index 6f554b3..6c08520 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -323,91 +323,44 @@ impl PrettyPrinter {
         // way and breaks the column accounting algorithms.  This is a naive implementation of
         // character removal.
         let mut text = String::from(s);
-        while text.find('\n').is_some() {
-            text = text.replace('\n', " ");
-        }
+        text = text.replace(['\n', '\r'], " ");
 
         // Extra spaces may also break the flow.  So we replace two or more spaces with one space
         // until we have no more double spaces.
         text.remove_all("  ");
 
-        let t = text.as_str();
-
-        if t.len() > (self.page_width - self.column) {
-            let space_left = self.page_width - self.column;
-            if space_left == 0 {
-                self.write_newline(stream)?;
-                self.write_indent(stream)?;
-                self.write_token(stream, next_line_text)?;
-                self.write_flowable_text(stream, t, next_line_text)?;
-            } else {
-                // Here we carefully examine the breakpoint of the text to see if we are breaking
-                // the text mid-word, or on a space boundary.  If we are breaking mid-word, then
-                // we back up the break point to the last space character and put the next full word
-                // on a newline.  This behavior prevents output flowable text from having wierd breaks
-                // in words.
-                let mut index_of_start_of_word: usize = 0;
-                let mut i: usize = 0;
-                let mut previous_char_was_space = false;
-                let bytes = t.as_bytes();
-
-                // First walk through the text that would fit in the remaining space and find any
-                // word boundaries.  We use a ' ' (space) character as the word boundary.
-                while i < space_left {
-                    if bytes[i] as char == ' ' {
-                        previous_char_was_space = true;
-                    } else {
-                        if previous_char_was_space {
-                            index_of_start_of_word = i;
-                        }
-                        previous_char_was_space = false;
-                    }
-
-                    i += 1;
-                }
-
-                let first_part: &str;
-                let rest: &str;
-
-                // Now, check the end of the text at the space_left boundary and see if it is a
-                // ' ' (space) character or a text character.  If it is a space character, then we
-                // can break the text exactly on the space_left boundary.  If not, we go back
-                // to the previous space and put the with the partial word on the next line.
-                //
-                // NOTE: The algorithm makes no attempt to correctly break text with spaces enclosed
-                // in quotation marks (either single or double).
-                if bytes[i] as char == ' ' {
-                    first_part = &t[..space_left];
-                    rest = if bytes[space_left] as char == ' ' {
-                        &t[space_left + 1..]
-                    } else {
-                        &t[space_left..]
-                    };
-                } else {
-                    first_part = &t[..index_of_start_of_word];
-                    rest = if bytes[index_of_start_of_word] as char == ' ' {
-                        &t[index_of_start_of_word + 1..]
-                    } else {
-                        &t[index_of_start_of_word..]
-                    };
-                }
-
-                if !first_part.is_empty() {
-                    self.write_basic_string(stream, first_part)?;
-                }
-                self.write_newline(stream)?;
-                self.write_indent(stream)?;
-                self.write_token(stream, next_line_text)?;
+        let mut rest = text.as_str();
+        let mut at_line_start = false;
 
-                if !rest.is_empty() {
-                    self.write_flowable_text(stream, rest, next_line_text)?;
-                }
+        loop {
+            let space_left = self.page_width.saturating_sub(self.column);
+            if rest.len() <= space_left {
+                return self.write_basic_string(stream, rest);
             }
-        } else {
-            self.write_basic_string(stream, t)?;
-        }
 
-        Ok(())
+            // Break the text at the last space character that fits in the remaining space.  We do
+            // not break in the middle of words, so a word that does not fit in a whole line spills
+            // over the page width.
+            //
+            // NOTE: The algorithm makes no attempt to correctly break text with spaces enclosed
+            // in quotation marks (either single or double).
+            let last_space = rest.as_bytes()[..=space_left].iter().rposition(|b| *b == b' ');
+            let break_index = match last_space {
+                Some(index) => index,
+                None if at_line_start => match rest.find(' ') {
+                    Some(index) => index,
+                    None => return self.write_basic_string(stream, rest),
+                },
+                None => 0,
+            };
+            self.write_basic_string(stream, &rest[..break_index])?;
+            rest = rest[break_index..].trim_start_matches(' ');
+
+            self.write_newline(stream)?;
+            self.write_indent(stream)?;
+            self.write_basic_string(stream, next_line_text)?;
+            at_line_start = true;
+        }
     }
 
     /// Reset the printer output counters
-- 
2.43.0


From c8b09d36aa135473bce4b36541b3d90782fd22d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:05 +0000
Subject: [PATCH 26/74] fix: separate the modifiers of a function with spaces

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index f5df855..f88deb2 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -76,7 +76,7 @@ fn print_operator_helper(printer: &mut PrettyPrinter, stream: &mut dyn Write, no
     }
 }
 
-/// Helper function to write an array preceded by a space.
+/// Helper function to write the elements of an array, each preceded by a space.
 ///
 /// # Abstract
 ///
@@ -91,9 +91,9 @@ fn print_space_and_array_helper(
     node: &SolidityAST,
 ) {
     if let Some(array) = node.as_array() {
-        if !array.is_empty() {
+        for element in array {
             write_space(printer, stream);
-            print_array_helper(printer, stream, factory, array);
+            traverse_sub_node_and_print(printer, stream, factory, element);
         }
     }
 }
-- 
2.43.0


From 2212a3eed47f140d70e6be9a395139b0cdaff715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 27/74] fix: print the unary minus of Vyper expressions

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 2f85f28..464a7a0 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -964,6 +964,8 @@ impl NodePrinter<VyperAST> for UnaryOpPrinter {
                     needs_space = true;
                 } else if op_str == "Invert" {
                     write_token(printer, stream, "~");
+                } else if op_str == "USub" {
+                    write_token(printer, stream, "-");
                 }
             }
         }
-- 
2.43.0


From caeaba2bf0b800db24ad552c5e44073142b0c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 28/74] fix: parenthesize every Vyper operand that could
 regroup

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 464a7a0..a9d391a 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -215,7 +215,15 @@ fn write_node_with_parens_maybe(
     node: &VyperAST,
 ) {
     if let Some(ast_type) = node.get_str_for_key("ast_type") {
-        let needs_parens = ast_type == "BinOp" || ast_type == "Compare" || ast_type == "BoolOp";
+        let needs_parens = match ast_type {
+            "BinOp" | "BoolOp" | "Compare" | "IfExp" | "UnaryOp" => true,
+            // The sign of a literal binds less tightly than exponentiation.
+            "Int" => node.get_int_for_key("value").map_or(false, |v| v < 0),
+            "Decimal" => node
+                .get_str_for_key("value")
+                .map_or(false, |v| v.starts_with('-')),
+            _ => false,
+        };
 
         if needs_parens {
             write_token(printer, stream, "(");
@@ -355,7 +363,7 @@ impl NodePrinter<VyperAST> for SubscriptPrinter {
         node: &VyperAST,
     ) {
         if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
+            write_node_with_parens_maybe(printer, stream, factory, value_node);
         }
 
         if let Some(slice_node) = node.get("slice") {
@@ -626,7 +634,7 @@ impl NodePrinter<VyperAST> for AttributePrinter {
         node: &VyperAST,
     ) {
         if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
+            write_node_with_parens_maybe(printer, stream, factory, value_node);
         }
         write_token(printer, stream, ".");
         if let Some(attribute_str) = node.get_str_for_key("attr") {
@@ -904,7 +912,7 @@ impl NodePrinter<VyperAST> for CallPrinter {
         node: &VyperAST,
     ) {
         if let Some(func_node) = node.get("func") {
-            traverse_sub_node_and_print(printer, stream, factory, func_node);
+            write_node_with_parens_maybe(printer, stream, factory, func_node);
         }
         write_token(printer, stream, "(");
         write_args_as_array(printer, stream, factory, node);
-- 
2.43.0


From d9054bdc91b3d3bcec561f9764d7f76af591add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 29/74] fix: print every value of a Vyper boolean operation

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index a9d391a..a684b24 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -769,18 +769,16 @@ impl NodePrinter<VyperAST> for BoolOpPrinter {
                     return;
                 }
 
-                let left = &values_array[0];
-                let right = &values_array[1];
-
-                write_node_with_parens_maybe(printer, stream, factory, left);
-                write_space(printer, stream);
-
-                if let Some(op_node) = node.get("op") {
-                    traverse_sub_node_and_print(printer, stream, factory, op_node);
+                for (i, value) in values_array.iter().enumerate() {
+                    if i > 0 {
+                        write_space(printer, stream);
+                        if let Some(op_node) = node.get("op") {
+                            traverse_sub_node_and_print(printer, stream, factory, op_node);
+                        }
+                        write_space(printer, stream);
+                    }
+                    write_node_with_parens_maybe(printer, stream, factory, value);
                 }
-
-                write_space(printer, stream);
-                write_node_with_parens_maybe(printer, stream, factory, right);
             }
         }
     }
-- 
2.43.0


From 6fbfd6c8c1bb7bf05f09056acd9ce74c8c7eef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 30/74] fix: print Vyper calls that only have keyword arguments

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index a684b24..ab393f5 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -917,8 +917,10 @@ impl NodePrinter<VyperAST> for CallPrinter {
         if let Some(keywords_node) = node.get("keywords") {
             if let Some(keywords_array) = keywords_node.as_array() {
                 if !keywords_array.is_empty() {
-                    write_token(printer, stream, ",");
-                    write_space(printer, stream);
+                    if node.get_array_for_key("args").map_or(false, |a| !a.is_empty()) {
+                        write_token(printer, stream, ",");
+                        write_space(printer, stream);
+                    }
                     write_key_of_node_as_array(printer, stream, factory, "keywords", node);
                 }
             }
-- 
2.43.0


From 8cc9c0824b5a2f29c1bb948b30f8ed7f3e15cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 31/74] fix: print Vyper integers beyond the signed 64-bit
 range exactly

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index ab393f5..6c2ca92 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -694,6 +694,8 @@ impl NodePrinter<VyperAST> for IntPrinter {
     ) {
         if let Some(value) = node.get_int_for_key("value") {
             write_token(printer, stream, &value.to_string());
+        } else if let Some(value) = node.get("value").and_then(|v| v.as_u64()) {
+            write_token(printer, stream, &value.to_string());
         } else if let Some(value) = node.get_float_for_key("value") {
             write_token(printer, stream, &value.to_string());
         }
-- 
2.43.0


From 3ce8e9510737704dfbc2d366effbede5d55ded4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 32/74] fix: escape Vyper string literals and documentation
 strings

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 57 ++++++++++++++++++++---
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 6c2ca92..68dbfd1 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -269,6 +269,49 @@ fn pretty_print_node(node: &VyperAST, factory: &dyn NodePrinterFactory<VyperAST>
     String::from(s)
 }
 
+/// Change the characters that cannot appear directly in a Vyper string literal into escapes.
+///
+/// # Arguments
+///
+/// * `s` - The value of the string.
+fn escape_string(s: &str) -> String {
+    let mut escaped = String::new();
+    for c in s.chars() {
+        match c {
+            '"' | '\\' => {
+                escaped.push('\\');
+                escaped.push(c);
+            }
+            '\t' => escaped += "\\t",
+            '\n' => escaped += "\\n",
+            '\r' => escaped += "\\r",
+            ' '..='~' => escaped.push(c),
+            '\0'..='\u{ff}' => escaped += &format!("\\x{:02x}", c as u32),
+            _ => escaped.push(c),
+        }
+    }
+    escaped
+}
+
+/// Change the characters that would end or alter a documentation string into escapes.
+///
+/// # Arguments
+///
+/// * `s` - The value of the documentation string.
+fn escape_doc_string(s: &str) -> String {
+    let mut escaped = String::new();
+    let mut chars = s.chars().peekable();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => escaped += "\\\\",
+            '\r' => escaped += "\\r",
+            '"' if chars.peek().map_or(true, |next| *next == '"') => escaped += "\\\"",
+            _ => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 struct DummyNodePrinter {}
 
 impl NodePrinter<VyperAST> for DummyNodePrinter {
@@ -506,12 +549,12 @@ impl NodePrinter<VyperAST> for FunctionDefPrinter {
                 if let Some(doc_string) = doc_string_node.get_str_for_key("value") {
                     write_newline(printer, stream);
                     write_indent(printer, stream);
-                    let doc_string_text = String::from(doc_string);
+                    let doc_string_text = escape_doc_string(doc_string);
                     if let Some(_newline_index) = doc_string_text.find('\n') {
-                        write_triple_string(printer, stream, doc_string);
+                        write_triple_string(printer, stream, &doc_string_text);
                     } else {
                         write_token(printer, stream, "\"\"\"");
-                        write_flowable_text(printer, stream, doc_string, "");
+                        write_flowable_text(printer, stream, &doc_string_text, "");
                         write_token(printer, stream, "\"\"\"");
                     }
                     write_newline(printer, stream);
@@ -822,7 +865,7 @@ impl NodePrinter<VyperAST> for StrPrinter {
         node: &VyperAST,
     ) {
         if let Some(value_str) = node.get_str_for_key("value") {
-            write_string(printer, stream, value_str);
+            write_string(printer, stream, &escape_string(value_str));
         }
     }
 }
@@ -839,12 +882,12 @@ impl NodePrinter<VyperAST> for ModulePrinter {
     ) {
         if let Some(doc_string_node) = node.get("doc_string") {
             if let Some(doc_string) = doc_string_node.get_str_for_key("value") {
-                let doc_text = String::from(doc_string);
+                let doc_text = escape_doc_string(doc_string);
                 if let Some(_newline_index) = doc_text.find('\n') {
-                    write_triple_string(printer, stream, doc_string)
+                    write_triple_string(printer, stream, &doc_text)
                 } else {
                     write_token(printer, stream, "\"\"\"");
-                    write_flowable_text(printer, stream, doc_string, "");
+                    write_flowable_text(printer, stream, &doc_text, "");
                     write_token(printer, stream, "\"\"\"");
                 }
                 write_newline(printer, stream);
-- 
2.43.0


From 1ebff3c4ca9ffa54e0b8365bdf7a602464924dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 33/74] fix: print the level of relative Vyper imports

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 68dbfd1..e1892e2 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -1317,13 +1317,11 @@ impl NodePrinter<VyperAST> for ImportFromPrinter {
         write_token(printer, stream, "from");
         write_space(printer, stream);
         if let Some(module_node) = node.get("module") {
-            if !module_node.is_null() {
-                if let Some(module_str) = module_node.as_str() {
-                    write_token(printer, stream, module_str);
-                }
-            } else {
-                write_token(printer, stream, ".");
-            }
+            let module_str = module_node.as_str().unwrap_or("");
+            let default_level = if module_str.is_empty() { 1 } else { 0 };
+            let level = node.get_int_for_key("level").unwrap_or(default_level);
+            let dots = ".".repeat(usize::try_from(level).unwrap_or(0));
+            write_token(printer, stream, &(dots + module_str));
             write_space(printer, stream);
         }
         write_token(printer, stream, "import");
-- 
2.43.0


From b7726880f74cf14ce95a515a149224abc90580bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 34/74] fix: keep nested, passed and single-element Vyper
 tuples tuples

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 82 ++++++++++-------------
 1 file changed, 35 insertions(+), 47 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index e1892e2..b3fbcd3 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -56,6 +56,27 @@ fn write_elements_array(
     }
 }
 
+/// Write the elements of a tuple without the surrounding parentheses.
+///
+/// # Arguments
+///
+/// * `printer` - The [`PrettyPrinter`] object that writes formatted text to `stream`.
+/// * `stream` - The [`Write`] object that will receive the formatted text.
+/// * `factory` - The [`VyperNodePrinterFactory`] object that generates node printers.
+/// * `node` - The Tuple node.
+fn write_tuple_elements(
+    printer: &mut PrettyPrinter,
+    stream: &mut dyn Write,
+    factory: &dyn NodePrinterFactory<VyperAST>,
+    node: &VyperAST,
+) {
+    write_elements_array(printer, stream, factory, node);
+    if node.get_array_for_key("elements").map_or(false, |e| e.len() == 1) {
+        // The comma makes the difference between a tuple and a parenthesized expression.
+        write_token(printer, stream, ",");
+    }
+}
+
 /// Write the value of the array contained in `key`.
 ///
 /// # Arguments
@@ -377,13 +398,7 @@ impl NodePrinter<VyperAST> for VariableDeclPrinter {
             }
 
             if let Some(annotation_node) = node.get("annotation") {
-                let mut printer_settings = factory.get_settings().clone();
-                printer_settings.set_value_for_key(
-                    TUPLES_SHOULD_USE_PARENTHESES,
-                    PreferenceValue::Boolean(true),
-                );
-                let sub_factory = VyperNodePrinterFactory::new(printer_settings);
-                traverse_sub_node_and_print(printer, stream, &sub_factory, annotation_node);
+                traverse_sub_node_and_print(printer, stream, factory, annotation_node);
             }
 
             for _ in 0..close_parens_needed {
@@ -425,21 +440,19 @@ impl NodePrinter<VyperAST> for IndexPrinter {
         factory: &dyn NodePrinterFactory<VyperAST>,
         node: &VyperAST,
     ) {
-        let mut printer_settings = factory.get_settings().clone();
-        printer_settings.set_value_for_key(
-            TUPLES_SHOULD_USE_PARENTHESES,
-            PreferenceValue::Boolean(false),
-        );
-        let sub_factory = VyperNodePrinterFactory::new(printer_settings);
         write_token(printer, stream, "[");
-        write_simple_value(printer, stream, &sub_factory, node);
+        match node.get("value") {
+            // The parentheses around an index tuple are redundant.
+            Some(value_node) if value_node.get_str_for_key("ast_type") == Some("Tuple") => {
+                write_tuple_elements(printer, stream, factory, value_node);
+            }
+            _ => write_simple_value(printer, stream, factory, node),
+        }
         write_token(printer, stream, "]");
     }
 }
 
-struct TuplePrinter {
-    pub use_parentheses: bool,
-}
+struct TuplePrinter {}
 
 impl NodePrinter<VyperAST> for TuplePrinter {
     fn print_node(
@@ -449,13 +462,9 @@ impl NodePrinter<VyperAST> for TuplePrinter {
         factory: &dyn NodePrinterFactory<VyperAST>,
         node: &VyperAST,
     ) {
-        if self.use_parentheses {
-            write_token(printer, stream, "(");
-        }
-        write_elements_array(printer, stream, factory, node);
-        if self.use_parentheses {
-            write_token(printer, stream, ")");
-        }
+        write_token(printer, stream, "(");
+        write_tuple_elements(printer, stream, factory, node);
+        write_token(printer, stream, ")");
     }
 }
 
@@ -528,18 +537,10 @@ impl NodePrinter<VyperAST> for FunctionDefPrinter {
         write_token(printer, stream, ")");
         if let Some(returns_node) = node.get("returns") {
             if !returns_node.is_null() {
-                let mut printer_settings = factory.get_settings().clone();
-                printer_settings.set_value_for_key(
-                    TUPLES_SHOULD_USE_PARENTHESES,
-                    PreferenceValue::Boolean(true),
-                );
-                // let sub_factory: Box<dyn NodePrinterFactory<VyperAST>> =
-                //     Box::new(VyperNodePrinterFactory::new(printer_settings));
-                let sub_factory = VyperNodePrinterFactory::new(printer_settings);
                 write_space(printer, stream);
                 write_token(printer, stream, "->");
                 write_space(printer, stream);
-                traverse_sub_node_and_print(printer, stream, &sub_factory, returns_node);
+                traverse_sub_node_and_print(printer, stream, factory, returns_node);
             }
         }
         write_token(printer, stream, ":");
@@ -1575,7 +1576,6 @@ impl NodePrinter<VyperAST> for EnumDefPrinter {
     }
 }
 
-static TUPLES_SHOULD_USE_PARENTHESES: &str = "tuples_should_use_parentheses";
 static FUNCTION_DEF_USES_STRUCT_DECL_FORM: &str = "function_def_uses_struct_decl_form";
 
 /// Type that implements [`NodePrinterFactory<AST>`] for Vyper AST nodes.
@@ -1600,10 +1600,6 @@ impl VyperNodePrinterFactory {
     /// Create a new node printer factory with default settings.
     pub fn default() -> VyperNodePrinterFactory {
         let mut preferences = Preferences::new();
-        preferences.set_value_for_key(
-            TUPLES_SHOULD_USE_PARENTHESES,
-            PreferenceValue::Boolean(false),
-        );
         preferences.set_value_for_key(
             FUNCTION_DEF_USES_STRUCT_DECL_FORM,
             PreferenceValue::Boolean(false),
@@ -1622,15 +1618,7 @@ impl NodePrinterFactory<VyperAST> for VyperNodePrinterFactory {
                 "VariableDecl" => Box::new(VariableDeclPrinter {}),
                 "Subscript" => Box::new(SubscriptPrinter {}),
                 "Index" => Box::new(IndexPrinter {}),
-                "Tuple" => {
-                    Box::new(TuplePrinter {
-                        use_parentheses: <VyperNodePrinterFactory as NodePrinterFactory<
-                            VyperAST,
-                        >>::get_preference_value_for_key(
-                            self, TUPLES_SHOULD_USE_PARENTHESES
-                        ),
-                    })
-                }
+                "Tuple" => Box::new(TuplePrinter {}),
                 "FunctionDef" => Box::new(
                     FunctionDefPrinter::new(<VyperNodePrinterFactory as NodePrinterFactory<
                         VyperAST,
-- 
2.43.0


From 95202532fa6f7734e1786ea65da51e87143f1be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 35/74] fix: print Vyper shift and floor division operators

---
 mutagenyx_lib/src/vyper/operators.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/operators.rs b/mutagenyx_lib/src/vyper/operators.rs
index 3c44a84..b3e75bc 100644
--- a/mutagenyx_lib/src/vyper/operators.rs
+++ b/mutagenyx_lib/src/vyper/operators.rs
@@ -11,6 +11,9 @@ pub fn get_python_operator_map() -> HashMap<&'static str, &'static str> {
     operator_map.insert("Pow", "**");
     operator_map.insert("And", "&&");
     operator_map.insert("Or", "||");
+    operator_map.insert("FloorDiv", "//");
+    operator_map.insert("LShift", "<<");
+    operator_map.insert("RShift", ">>");
     operator_map.insert("BitAnd", "&");
     operator_map.insert("BitOr", "|");
     operator_map.insert("BitXor", "^");
-- 
2.43.0


From 5c1cb23a1b09e6958cd7ce7102cbda5cbdd1cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 36/74] fix: print transient Vyper state variables as transient

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index b3fbcd3..209cd47 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -397,6 +397,14 @@ impl NodePrinter<VyperAST> for VariableDeclPrinter {
                 }
             }
 
+            if let Some(transient) = node.get_bool_for_key("is_transient") {
+                if transient {
+                    close_parens_needed += 1;
+                    write_token(printer, stream, "transient");
+                    write_token(printer, stream, "(");
+                }
+            }
+
             if let Some(annotation_node) = node.get("annotation") {
                 traverse_sub_node_and_print(printer, stream, factory, annotation_node);
             }
-- 
2.43.0


From 74280ccd039030837ebb6503bad86e9052c423dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 37/74] fix: print Vyper implements declarations and
 conditional expressions

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 49 +++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 209cd47..3fcf243 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -1351,6 +1351,53 @@ impl NodePrinter<VyperAST> for ImportFromPrinter {
     }
 }
 
+struct ImplementsDeclPrinter {}
+
+impl NodePrinter<VyperAST> for ImplementsDeclPrinter {
+    fn print_node(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        stream: &mut dyn Write,
+        factory: &dyn NodePrinterFactory<VyperAST>,
+        node: &VyperAST,
+    ) {
+        write_token(printer, stream, "implements");
+        write_token(printer, stream, ":");
+        write_space(printer, stream);
+        if let Some(annotation_node) = node.get("annotation") {
+            traverse_sub_node_and_print(printer, stream, factory, annotation_node);
+        }
+    }
+}
+
+struct IfExpPrinter {}
+
+impl NodePrinter<VyperAST> for IfExpPrinter {
+    fn print_node(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        stream: &mut dyn Write,
+        factory: &dyn NodePrinterFactory<VyperAST>,
+        node: &VyperAST,
+    ) {
+        if let Some(body_node) = node.get("body") {
+            write_node_with_parens_maybe(printer, stream, factory, body_node);
+        }
+        write_space(printer, stream);
+        write_token(printer, stream, "if");
+        write_space(printer, stream);
+        if let Some(test_node) = node.get("test") {
+            write_node_with_parens_maybe(printer, stream, factory, test_node);
+        }
+        write_space(printer, stream);
+        write_token(printer, stream, "else");
+        write_space(printer, stream);
+        if let Some(orelse_node) = node.get("orelse") {
+            write_node_with_parens_maybe(printer, stream, factory, orelse_node);
+        }
+    }
+}
+
 struct EventDefPrinter {}
 
 impl NodePrinter<VyperAST> for EventDefPrinter {
@@ -1662,6 +1709,8 @@ impl NodePrinterFactory<VyperAST> for VyperNodePrinterFactory {
                 "Pass" => Box::new(PassPrinter {}),
                 "Return" => Box::new(ReturnPrinter {}),
                 "Raise" => Box::new(RaisePrinter {}),
+                "IfExp" => Box::new(IfExpPrinter {}),
+                "ImplementsDecl" => Box::new(ImplementsDeclPrinter {}),
                 "Import" => Box::new(ImportPrinter {}),
                 "ImportFrom" => Box::new(ImportFromPrinter {}),
                 "EventDef" => Box::new(EventDefPrinter {}),
-- 
2.43.0


From 748eb765959f74968cf5ed47f589080873d02259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:53 +0000
Subject: [PATCH 38/74] fix: do not break long lines or limit the indentation
 of printed Vyper code

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 3fcf243..2527181 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -889,6 +889,11 @@ impl NodePrinter<VyperAST> for ModulePrinter {
         factory: &dyn NodePrinterFactory<VyperAST>,
         node: &VyperAST,
     ) {
+        // Line breaks and indentation have meaning in Vyper, so the printer must not break long
+        // lines or limit the indentation.
+        let page_width = std::mem::replace(&mut printer.page_width, usize::MAX);
+        let max_indent = std::mem::replace(&mut printer.max_indent, usize::MAX);
+
         if let Some(doc_string_node) = node.get("doc_string") {
             if let Some(doc_string) = doc_string_node.get_str_for_key("value") {
                 let doc_text = escape_doc_string(doc_string);
@@ -912,6 +917,9 @@ impl NodePrinter<VyperAST> for ModulePrinter {
                 }
             }
         }
+
+        printer.page_width = page_width;
+        printer.max_indent = max_indent;
     }
 }
 
-- 
2.43.0


From 134446542149350edb8bcb6c6aecf172b2463aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:33 +0000
Subject: [PATCH 39/74] fix: do not look for a non-literal argument in a
 Solidity call that has only literals

---
 mutagenyx_lib/src/solidity/mutators.rs | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index e547ad9..5fe8102 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -877,25 +877,11 @@ impl Mutator<SolidityAST> for FunctionCallMutator {
             if node_type == "FunctionCall" {
                 if let Some(arguments_node) = node.get("arguments") {
                     if let Some(arguments_array) = arguments_node.as_array() {
-                        if !arguments_array.is_empty() {
-                            let mut has_literal = false;
-                            for value in arguments_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if value_node_type == "Literal" {
-                                        has_literal = true;
-                                        break;
-                                    }
-                                }
-                            }
-
-                            if has_literal && arguments_array.len() > 1 {
-                                return true;
-                            } else if has_literal {
-                                return false;
-                            }
-
-                            return true;
-                        }
+                        // The algorithm never selects a Literal argument, so it needs at least one
+                        // argument that is something else.
+                        return arguments_array
+                            .iter()
+                            .any(|value| value.get_str_for_key("nodeType") != Some("Literal"));
                     }
                 }
             }
-- 
2.43.0


From a3a6dc55c7bbfe7220265878cdcba021722318b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:33 +0000
Subject: [PATCH 40/74] fix: require two statements that are not returns before
 swapping lines

---
 mutagenyx_lib/src/solidity/mutators.rs | 26 +++++++-------------------
 mutagenyx_lib/src/vyper/mutators.rs    | 26 +++++++-------------------
 2 files changed, 14 insertions(+), 38 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 5fe8102..397caed 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1494,25 +1494,13 @@ impl Mutator<SolidityAST> for SwapLinesMutator {
             if node_type == "Block" {
                 if let Some(statements_node) = node.get("statements") {
                     if let Some(statements_array) = statements_node.as_array() {
-                        if statements_array.len() >= 2 {
-                            let mut found_return_statement = false;
-                            for value in statements_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if value_node_type == "Return" {
-                                        found_return_statement = true;
-                                        break;
-                                    }
-                                }
-                            }
-
-                            // If the body of the function def has a return statement, then there
-                            // must be at least 3 statements in the body in order to swap (but not
-                            // swap a return statement) statements.  If there are no return statements
-                            // then we can just go ahead and swap.
-                            if !found_return_statement || statements_array.len() >= 3 {
-                                return true;
-                            }
-                        }
+                        // The algorithm does not swap return statements, so there must be at least
+                        // two statements of another kind.
+                        return statements_array
+                            .iter()
+                            .filter(|value| value.get_str_for_key("nodeType") != Some("Return"))
+                            .count()
+                            >= 2;
                     }
                 }
             }
diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index b6b93f7..f1a97f4 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1589,25 +1589,13 @@ impl Mutator<VyperAST> for SwapLinesMutator {
             if ast_type == "FunctionDef" || ast_type == "For" || ast_type == "If" {
                 if let Some(body_node) = node.get(&self.key) {
                     if let Some(body_array) = body_node.as_array() {
-                        if body_array.len() >= 2 {
-                            let mut found_return_statement = false;
-                            for value in body_array {
-                                if let Some(value_ast_type) = value.get_str_for_key("ast_type") {
-                                    if value_ast_type == "Return" {
-                                        found_return_statement = true;
-                                        break;
-                                    }
-                                }
-                            }
-
-                            // If the body of the function def has a return statement, then there
-                            // must be at least 3 statements in the body in order to swap (but not
-                            // swap a return statement) statements.  If there are no return statements
-                            // then we can just go ahead and swap.
-                            if !found_return_statement || body_array.len() >= 3 {
-                                return true;
-                            }
-                        }
+                        // The algorithm does not swap return statements, so there must be at least
+                        // two statements of another kind.
+                        return body_array
+                            .iter()
+                            .filter(|value| value.get_str_for_key("ast_type") != Some("Return"))
+                            .count()
+                            >= 2;
                     }
                 }
             }
-- 
2.43.0


From 65d98eaa8d54cbc1d8eb6d23c6a389ce7009c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:33 +0000
Subject: [PATCH 41/74] fix: only wrap statements in an unchecked block when
 there is one that can be wrapped

---
 mutagenyx_lib/src/solidity/mutators.rs | 40 ++++++--------------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 397caed..f34ac55 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1820,37 +1820,15 @@ impl Mutator<SolidityAST> for SolidityUncheckedBlockMutator {
             if node_type == "Block" {
                 if let Some(statements_node) = node.get("statements") {
                     if let Some(statements_array) = statements_node.as_array() {
-                        if !statements_array.is_empty() {
-                            let mut have_return_statement = false;
-                            let mut have_unchecked_block_statement = false;
-                            let mut required_length: usize = 1;
-                            for value in statements_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if (!have_return_statement) && value_node_type == "Return" {
-                                        have_return_statement = true;
-                                        required_length += 1;
-                                    }
-                                    if (!have_unchecked_block_statement)
-                                        && value_node_type == "UncheckedBlock"
-                                    {
-                                        have_unchecked_block_statement = true;
-                                        required_length += 1;
-                                    }
-
-                                    if have_return_statement && have_unchecked_block_statement {
-                                        break;
-                                    }
-                                }
-                            }
-
-                            // If the Block node has a return statement and/or an UncheckedBlock statement,
-                            // we need at least one more statement than block + unchecked block
-                            // in order for the algorithm to work.  We do not wrap a return statement
-                            // or an unchecked block statement in unchecked{}.
-                            if statements_array.len() >= required_length {
-                                return true;
-                            }
-                        }
+                        // We do not wrap a return statement or an unchecked block statement in
+                        // unchecked{}, so we need at least one statement of another kind in order
+                        // for the algorithm to work.
+                        return statements_array.iter().any(|value| {
+                            !matches!(
+                                value.get_str_for_key("nodeType"),
+                                Some("Return") | Some("UncheckedBlock")
+                            )
+                        });
                     }
                 }
             }
-- 
2.43.0


From b41b4decea233a744056a02f94da67ae954c2fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:12 +0000
Subject: [PATCH 42/74] fix: leave Solidity assignments to arrays and user
 types to other mutators than Assignment

---
 mutagenyx_lib/src/solidity/mutators.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index f34ac55..39836a8 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -499,6 +499,23 @@ impl Mutator<SolidityAST> for UnaryOpMutator {
     }
 }
 
+/// Return true if `type_string` names an integer type, an unsigned integer type, or the boolean
+/// type, as opposed to a type that just starts with the same letters (an array of integers for
+/// example).
+///
+/// # Arguments
+///
+/// * `type_string` - The type name from the AST.
+fn is_assignable_value_type(type_string: &str) -> bool {
+    let size = type_string
+        .strip_prefix("uint")
+        .or_else(|| type_string.strip_prefix("int"));
+    match size {
+        Some(s) => matches!(s.parse::<u32>(), Ok(bits) if bits > 0),
+        None => type_string == "bool",
+    }
+}
+
 /// Implements the assignment mutation algorithm.
 ///
 /// For a given Assigment expression, the algorithm replaces the right-hand side of the expression
@@ -541,13 +558,7 @@ impl Mutator<SolidityAST> for AssignmentMutator {
                     }
                 };
 
-                if type_string.len() < 3 {
-                    return false;
-                }
-
-                let first_three_chars = &type_string[..3];
-
-                return matches!(first_three_chars, "uin" | "int" | "boo");
+                return is_assignable_value_type(type_string);
             }
         }
         false
-- 
2.43.0


From dce00a83195a74e18de2887b6f326fe95d034795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:12 +0000
Subject: [PATCH 43/74] fix: choose values for wide Solidity integer
 assignments without overflowing

---
 mutagenyx_lib/src/solidity/mutators.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 39836a8..a3ff563 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -623,8 +623,9 @@ impl Mutator<SolidityAST> for AssignmentMutator {
                     type_size = 128;
                 }
 
-                let lower_bound = -(2_i128.pow(type_size - 1));
-                let upper_bound = 2_i128.pow(type_size - 1);
+                // Shifting the extreme 128-bit values keeps the calculation in range.
+                let lower_bound = i128::MIN >> (128 - type_size);
+                let upper_bound = i128::MAX >> (128 - type_size);
                 let replacement_value = rand.gen_range(lower_bound, upper_bound);
 
                 hasher.update(&replacement_value.to_ne_bytes())?;
-- 
2.43.0


From 0366b755e94b58314d38ec227980fc0bccc00062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:12 +0000
Subject: [PATCH 44/74] fix: let the Solidity Assignment mutator choose true
 for booleans

---
 mutagenyx_lib/src/solidity/mutators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index a3ff563..e39ead3 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -670,7 +670,7 @@ impl Mutator<SolidityAST> for AssignmentMutator {
                 hasher.update("boo".as_bytes())?;
 
                 assert_eq!(type_string, "bool");
-                let replacement_value: i8 = rand.gen_range(0, 1);
+                let replacement_value: i8 = rand.gen_range(0, 2);
                 let bool_literal: bool = replacement_value != 0;
 
                 hasher.update(&replacement_value.to_ne_bytes())?;
-- 
2.43.0


From 9f79850ffc4097f9d023111961cbc199d7a19e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:12 +0000
Subject: [PATCH 45/74] fix: mutate hexadecimal, separated, exponential and
 long Solidity integers

---
 mutagenyx_lib/src/solidity/mutators.rs | 51 +++++++++++++++++++-------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index e39ead3..5cbb1ea 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -12,7 +12,7 @@ use crate::solidity::ast::{SolidityAST, SolidityASTApi};
 use crate::solidity::pretty_printer::SolidityNodePrinterFactory;
 use crate::PrettyPrinter;
 use hex;
-use num::Integer;
+use num::{BigInt, Integer};
 use openssl::hash::{Hasher, MessageDigest};
 use rand::seq::SliceRandom;
 use rand::{Rng, RngCore};
@@ -1264,6 +1264,28 @@ impl Mutator<SolidityAST> for IfStatementMutator {
     }
 }
 
+/// Return the value of the Solidity integer literal in `text`, or None if the text is not the text
+/// of an integer.  Solidity integers can be decimal or hexadecimal, can have more digits than fit
+/// in 64 bits, can contain underscores, and can have an exponent.
+///
+/// # Arguments
+///
+/// * `text` - The text of the literal.
+fn integer_literal_value(text: &str) -> Option<BigInt> {
+    let digits = text.replace('_', "");
+    if let Some(hex_digits) = digits.strip_prefix("0x") {
+        return BigInt::parse_bytes(hex_digits.as_bytes(), 16);
+    }
+    match digits.split_once(['e', 'E']) {
+        Some((mantissa, exponent)) => {
+            // Solidity does not have constants that need more than 4096 bits.
+            let exponent = exponent.parse::<u32>().ok().filter(|e| *e <= 1233)?;
+            Some(BigInt::parse_bytes(mantissa.as_bytes(), 10)? * BigInt::from(10).pow(exponent))
+        }
+        None => BigInt::parse_bytes(digits.as_bytes(), 10),
+    }
+}
+
 /// Implement the Integer mutation algorithm:
 ///
 /// Randomly selects one from the following:
@@ -1290,12 +1312,7 @@ impl Mutator<SolidityAST> for IntegerMutator {
                 if let Some(kind) = node.get_str_for_key("kind") {
                     if kind == "number" {
                         if let Some(value) = node.get_str_for_key("value") {
-                            let text = String::from(value);
-                            // Search for a . in the string which indicates a floating point number.
-                            let find_result = text.find('.');
-                            if find_result.is_none() {
-                                return true;
-                            }
+                            return integer_literal_value(value).is_some();
                         }
                     }
                 }
@@ -1325,9 +1342,13 @@ impl Mutator<SolidityAST> for IntegerMutator {
                 hasher.update(&[0])?;
                 // Add one to the integer constant.
                 if let Some(value) = node.get_str_for_key("value") {
-                    let value_string = value.to_string();
-                    original_value_s = value_string.clone();
-                    let mut my_integer = value_string.parse::<i64>().unwrap();
+                    original_value_s = value.to_string();
+                    let mut my_integer = integer_literal_value(value).ok_or_else(|| {
+                        MutagenyxError::MalformedNode(
+                            String::from("Literal"),
+                            String::from("value"),
+                        )
+                    })?;
                     my_integer += 1;
                     new_value_s = my_integer.to_string();
                     node.set_str_for_key("value", my_integer.to_string().as_str());
@@ -1337,9 +1358,13 @@ impl Mutator<SolidityAST> for IntegerMutator {
                 hasher.update(&[1])?;
                 // Subtract one from the integer constant.
                 if let Some(value) = node.get_str_for_key("value") {
-                    let value_string = value.to_string();
-                    original_value_s = value_string.clone();
-                    let mut my_integer = value_string.parse::<i64>().unwrap();
+                    original_value_s = value.to_string();
+                    let mut my_integer = integer_literal_value(value).ok_or_else(|| {
+                        MutagenyxError::MalformedNode(
+                            String::from("Literal"),
+                            String::from("value"),
+                        )
+                    })?;
                     my_integer -= 1;
                     new_value_s = my_integer.to_string();
                     node.set_str_for_key("value", my_integer.to_string().as_str());
-- 
2.43.0


From 61fe9e46edb2ac14f34de4fedaefd41a98855f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:12 +0000
Subject: [PATCH 46/74] fix: choose Solidity function arguments to swap
 independently of hash order

---
 mutagenyx_lib/src/solidity/mutators.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 5cbb1ea..2891d01 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -18,7 +18,7 @@ use rand::seq::SliceRandom;
 use rand::{Rng, RngCore};
 use rand_pcg::*;
 use serde_json::json;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 
 /// Return a new integer literal node representing an integer literal number.
@@ -1042,7 +1042,8 @@ impl Mutator<SolidityAST> for SwapFunctionArgumentsMutator {
         // nodes of the same type so that we can swap them.
         if let Some(mut arguments_node) = node.take_value_for_key("arguments") {
             if let Some(arguments_array) = arguments_node.as_array_mut() {
-                let mut arg_map: HashMap<&str, Vec<IndexedNode>> = HashMap::new();
+                // The map needs to have a reproducible iteration order.
+                let mut arg_map: BTreeMap<&str, Vec<IndexedNode>> = BTreeMap::new();
                 for (index, value) in arguments_array.iter().enumerate() {
                     if let Some(type_descriptions_node) = value.get("typeDescriptions") {
                         if let Some(type_string) =
-- 
2.43.0


From 7f7f17828b0b207b8aaf1a994dbb9108c954e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:12 +0000
Subject: [PATCH 47/74] fix: put a commented Solidity block back where it came
 from

---
 mutagenyx_lib/src/solidity/commenter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/commenter.rs b/mutagenyx_lib/src/solidity/commenter.rs
index 0dfda92..c5a0ab1 100644
--- a/mutagenyx_lib/src/solidity/commenter.rs
+++ b/mutagenyx_lib/src/solidity/commenter.rs
@@ -56,7 +56,7 @@ fn insert_comment_into_node_with_key(
                         {
                             statements_array.insert(0, comment_node);
                         }
-                        node.set_node_for_key("body", body_node);
+                        node.set_node_for_key(key, body_node);
                         return true;
                     }
                 }
-- 
2.43.0


From 3016e10f002fce901d77ba7e1e5e76cc62918514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:34 +0000
Subject: [PATCH 48/74] fix: do not fail on Vyper operators that
 SwapOperatorArguments does not know

---
 mutagenyx_lib/src/vyper/mutators.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index f1a97f4..d590011 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1469,9 +1469,8 @@ impl Mutator<VyperAST> for SwapOperatorArgumentsMutator {
             if ast_type == "BinOp" || ast_type == "BoolOp" || ast_type == "Compare" {
                 if let Some(op_node) = node.get("op") {
                     if let Some(op_string) = op_node.get_str_for_key("ast_type") {
-                        let converted_operator = self.operator_map[&op_string];
-                        if self.valid_operators.contains(&converted_operator) {
-                            return true;
+                        if let Some(converted_operator) = self.operator_map.get(op_string) {
+                            return self.valid_operators.contains(converted_operator);
                         }
                     }
                 }
-- 
2.43.0


From be0f332e66ea036eaf6d6cd7cb381494e59708a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:34 +0000
Subject: [PATCH 49/74] fix: leave a body when deleting the only statement of
 any Vyper function

---
 mutagenyx_lib/src/vyper/mutators.rs | 35 ++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index d590011..f282fd4 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -147,6 +147,29 @@ fn new_string_node(text: &str) -> Result<VyperAST, MutagenyxError> {
     new_json_node(&node_str)
 }
 
+/// Return a new node calling the `empty` built-in function to get a value of a type.
+///
+/// # Arguments
+///
+/// * `type_node` - The node that names the type of the value.
+fn new_empty_value_node(type_node: &VyperAST) -> Result<VyperAST, MutagenyxError> {
+    let node_str = "{\
+            \"node_id\": 9999990,
+            \"ast_type\": \"Call\",
+            \"func\": {
+                \"node_id\": 9999989,
+                \"ast_type\": \"Name\",
+                \"id\": \"empty\"
+            },
+            \"args\": [],
+            \"keywords\": []
+        }";
+
+    let mut node = new_json_node(node_str)?;
+    node.set_node_for_key("args", json![vec![type_node.clone()]]);
+    Ok(node)
+}
+
 /// Return an new `Return` node
 ///
 /// # Arguments
@@ -726,7 +749,7 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
                         if let Some(ast_type_str) = returns_node.get_str_for_key("ast_type") {
                             if ast_type_str == "Name" {
                                 if let Some(id_str) = returns_node.get_str_for_key("id") {
-                                    match &id_str[..3] {
+                                    match id_str.get(..3).unwrap_or(id_str) {
                                         "boo" => {
                                             let random_boolean = rand.next_u64() % 2_u64;
                                             let actual_boolean = matches!(random_boolean, 1);
@@ -848,10 +871,9 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
 
                                             body_array.push(return_node);
                                         }
-                                        unrecognized_type => {
-                                            return Err(MutagenyxError::UnrecognizedLanguageType(
-                                                String::from(unrecognized_type),
-                                            ))
+                                        _ => {
+                                            let new_node = new_empty_value_node(returns_node)?;
+                                            body_array.push(new_return_node(new_node)?);
                                         }
                                     }
                                 }
@@ -895,6 +917,9 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
                                         body_array.push(return_node);
                                     }
                                 }
+                            } else {
+                                let new_node = new_empty_value_node(returns_node)?;
+                                body_array.push(new_return_node(new_node)?);
                             }
                         } else {
                             let new_node = match new_pass_node() {
-- 
2.43.0


From a23c96286df86a1fad60f69864e4099165df4772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:34 +0000
Subject: [PATCH 50/74] fix: do not delete the mutability of pure functions in
 Vyper interfaces

---
 mutagenyx_lib/src/vyper/mutators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index f282fd4..2bf57eb 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -665,7 +665,7 @@ impl DeleteStatementMutator {
     pub fn new() -> DeleteStatementMutator {
         DeleteStatementMutator {
             comment_node: None,
-            single_line_statements_to_avoid: vec!["view", "nonpayable", "payable"],
+            single_line_statements_to_avoid: vec!["view", "pure", "nonpayable", "payable"],
         }
     }
 }
-- 
2.43.0


From d5fac8db58f28d747c38b94bdee15637f623124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:34 +0000
Subject: [PATCH 51/74] fix: restrict mutations to functions, not to anything
 that has the name of one

---
 mutagenyx_lib/src/solidity/language_interface.rs | 7 ++++++-
 mutagenyx_lib/src/vyper/language_interface.rs    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index 70f9b41..df5b5cc 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -156,8 +156,13 @@ impl JSONLanguageDelegate for SolidityLanguageSubDelegate {
     }
 
     fn get_namer(&self) -> Box<dyn Namer<Value>> {
+        // Permissions name functions, other nodes may have the same name as a function.
         Box::new(JSONNamer::new(|v| {
-            v.get_str_for_key("name").map(String::from)
+            if v.get_str_for_key("nodeType") == Some("FunctionDefinition") {
+                v.get_str_for_key("name").map(String::from)
+            } else {
+                None
+            }
         }))
     }
 }
diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index e282051..6f9b8c2 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -160,8 +160,13 @@ impl JSONLanguageDelegate for VyperLanguageDelegate {
     }
 
     fn get_namer(&self) -> Box<dyn Namer<Value>> {
+        // Permissions name functions, other nodes may have the same name as a function.
         Box::new(JSONNamer::new(|v| {
-            v.get_str_for_key("name").map(String::from)
+            if v.get_str_for_key("ast_type") == Some("FunctionDef") {
+                v.get_str_for_key("name").map(String::from)
+            } else {
+                None
+            }
         }))
     }
 }
-- 
2.43.0


From 13f274a9a879258a9f968924ea062e2d38680533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:34 +0000
Subject: [PATCH 52/74] fix: comment on mutations of file level Solidity
 declarations

---
 mutagenyx_lib/src/solidity/commenter.rs   | 1 +
 mutagenyx_lib/src/solidity/node_finder.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/commenter.rs b/mutagenyx_lib/src/solidity/commenter.rs
index c5a0ab1..aa34bbe 100644
--- a/mutagenyx_lib/src/solidity/commenter.rs
+++ b/mutagenyx_lib/src/solidity/commenter.rs
@@ -261,6 +261,7 @@ impl CommenterFactory<SolidityAST> for SolidityCommenterFactory {
                 "FunctionDefinition" => Box::new(FunctionDefinitionCommenter {}),
                 "IfStatement" => Box::new(IfStatementCommenter {}),
                 "ModifierDefinition" => Box::new(ModifierDefinitionCommenter {}),
+                "SourceUnit" => Box::new(ContractDefinitionCommenter {}),
                 "TryCatchClause" => Box::new(TryCatchClauseCommenter {}),
                 "UncheckedBlock" => Box::new(GenericBlockCommenter {}),
                 "WhileStatement" => Box::new(WhileStatementCommenter {}),
diff --git a/mutagenyx_lib/src/solidity/node_finder.rs b/mutagenyx_lib/src/solidity/node_finder.rs
index a505161..2c82dc9 100644
--- a/mutagenyx_lib/src/solidity/node_finder.rs
+++ b/mutagenyx_lib/src/solidity/node_finder.rs
@@ -216,6 +216,7 @@ impl NodeFinderFactory<SolidityAST> for SolidityNodeFinderFactory {
                 "FunctionDefinition" => Box::new(FunctionDefinitionFinder {}),
                 "IfStatement" => Box::new(IfStatementFinder {}),
                 "ModifierDefinition" => Box::new(ModifierDefinitionFinder {}),
+                "SourceUnit" => Box::new(ContractDefinitionFinder {}),
                 "TryCatchClause" => Box::new(TryCatchClauseFinder {}),
                 "UncheckedBlock" => Box::new(GenericBlockFinder {}),
                 "WhileStatement" => Box::new(WhileStatementFinder {}),
-- 
2.43.0


From 16bb0bd44cf30abb79ecac25d278490e25dbab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:34 +0000
Subject: [PATCH 53/74] fix: mutate Vyper integers that do not fit in 63 bits

---
 mutagenyx_lib/src/vyper/mutators.rs | 32 ++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 2bf57eb..d9a8716 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1360,6 +1360,24 @@ impl Mutator<VyperAST> for IfStatementMutator {
     }
 }
 
+/// Return the JSON number for the sum of `value` and `offset`.
+///
+/// # Arguments
+///
+/// * `value` - The JSON number.  The number may be larger than any 64 bit number.
+/// * `offset` - The number to add.
+fn offset_json_integer(value: &VyperAST, offset: i64) -> VyperAST {
+    if let Some(sum) = value.as_i64().and_then(|v| v.checked_add(offset)) {
+        json![sum]
+    } else if let Some(sum) = value.as_u64().and_then(|v| v.checked_add_signed(offset)) {
+        json![sum]
+    } else if let Some(v) = value.as_f64() {
+        json![v + offset as f64]
+    } else {
+        value.clone()
+    }
+}
+
 /// Implement the Integer mutation algorithm:
 ///
 /// Randomly selects one from the following:
@@ -1409,11 +1427,8 @@ impl Mutator<VyperAST> for IntegerMutator {
 
                 // Add one to the integer constant.
                 if let Some(value_node) = node.get("value") {
-                    if let Some(mut value) = value_node.as_i64() {
-                        value += 1;
-                        let json_value = json![value];
-                        node.set_node_for_key("value", json_value);
-                    }
+                    let json_value = offset_json_integer(value_node, 1);
+                    node.set_node_for_key("value", json_value);
                 }
             }
             1 => {
@@ -1421,11 +1436,8 @@ impl Mutator<VyperAST> for IntegerMutator {
 
                 // Subtract one from the integer constant.
                 if let Some(value_node) = node.get("value") {
-                    if let Some(mut value) = value_node.as_i64() {
-                        value -= 1;
-                        let json_value = json![value];
-                        node.set_node_for_key("value", json_value);
-                    }
+                    let json_value = offset_json_integer(value_node, -1);
+                    node.set_node_for_key("value", json_value);
                 }
             }
             2 => {
-- 
2.43.0


From 21056eeefabd6702c41a533a300badceb4c24e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:34 +0000
Subject: [PATCH 54/74] fix: assign decimal values that are decimals in Vyper

---
 mutagenyx_lib/src/vyper/mutators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index d9a8716..93a9bc8 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -51,7 +51,7 @@ fn new_float_constant_node<F: Float + fmt::Display>(value: F) -> Result<VyperAST
         "{{\
             \"node_id\": 9999998,
             \"ast_type\": \"Decimal\",
-            \"value\": \"{value}\"
+            \"value\": \"{value:.1}\"
         }}"
     );
     new_json_node(&node_str)
-- 
2.43.0


From 037d344134b3d652bcfe377d60f08efcd5b699bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:34 +0000
Subject: [PATCH 55/74] fix: print every digit of long Vyper integers

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 2527181..d06c239 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -749,7 +749,7 @@ impl NodePrinter<VyperAST> for IntPrinter {
         } else if let Some(value) = node.get("value").and_then(|v| v.as_u64()) {
             write_token(printer, stream, &value.to_string());
         } else if let Some(value) = node.get_float_for_key("value") {
-            write_token(printer, stream, &value.to_string());
+            write_token(printer, stream, &format!("{value:.0}"));
         }
     }
 }
-- 
2.43.0


From fedb9e35edf21505851f08ef02dccc7cc110eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:03 +0000
Subject: [PATCH 56/74] fix: do not write mutants that are the original program
 or another mutant

---
 mutagenyx/src/mutation_generator.rs           | 13 ++++-
 .../src/json_ast_language_interface.rs        | 49 +++++++++++++++++++
 mutagenyx_lib/src/language_interface.rs       | 11 +++++
 3 files changed, 71 insertions(+), 2 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index cf68305..8f71aec 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -17,7 +17,7 @@ use rand::seq::SliceRandom;
 use rand::RngCore;
 use rand::SeedableRng;
 use rand_pcg::*;
-use std::collections::{HashMap, VecDeque};
+use std::collections::{HashMap, HashSet, VecDeque};
 use std::time::{SystemTime, UNIX_EPOCH};
 use std::{path::PathBuf, str::FromStr};
 
@@ -453,6 +453,12 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
     let mut attempts: usize = 0;
     let mut observed_mutator_results: Vec<MutatorResult> = Vec::new();
 
+    // The texts of the original program and of the mutants.  Different mutations can produce the
+    // same program, and a mutation can reproduce the original program (when it swaps two equal
+    // statements for example).
+    let mut observed_programs: HashSet<String> =
+        HashSet::from([language_object.program_text(&ast)?]);
+
     'mutation_loops: while !mutation_kinds_todo.is_empty() {
         while attempts < ATTEMPTS_TO_GENERATE_A_MUTANT {
             // Get the next mutation type.
@@ -478,7 +484,9 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
 
             // See if we have already seen this ast result before. This step prevents us from
             // making non-unique mutations.
-            if observed_mutator_results.contains(&mutate_ast_result.mutator_result) {
+            if observed_mutator_results.contains(&mutate_ast_result.mutator_result)
+                || observed_programs.contains(&mutate_ast_result.program_text)
+            {
                 attempts += 1;
                 continue;
             }
@@ -526,6 +534,7 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
 
             // Add the mutator result to the list of results that we have observed.
             observed_mutator_results.push(mutate_ast_result.mutator_result);
+            observed_programs.insert(mutate_ast_result.program_text);
 
             files_written += 1;
 
diff --git a/mutagenyx_lib/src/json_ast_language_interface.rs b/mutagenyx_lib/src/json_ast_language_interface.rs
index 59b0ba4..bb24927 100644
--- a/mutagenyx_lib/src/json_ast_language_interface.rs
+++ b/mutagenyx_lib/src/json_ast_language_interface.rs
@@ -59,6 +59,44 @@ impl JSONLanguageInterface {
     }
 }
 
+/// Return the pretty-printed text of `ast` without comments.
+///
+/// # Arguments
+///
+/// * `delegate` - The language specific delegate.
+/// * `ast` - The JSON AST.
+fn text_without_comments(delegate: &dyn JSONLanguageDelegate, ast: &Value) -> String {
+    let mut program = ast.clone();
+    remove_comments(&mut program);
+
+    let mut text: Vec<u8> = Vec::new();
+    let mut pretty_printer = PrettyPrinter::new(4, 150);
+    let mut visitor = delegate.get_pretty_print_visitor(&mut text, &mut pretty_printer);
+    ASTTraverser::traverse(&program, &mut *visitor);
+    drop(visitor);
+
+    String::from_utf8_lossy(&text).into_owned()
+}
+
+/// Remove the comment nodes that mutators put into an AST.
+///
+/// # Arguments
+///
+/// * `node` - The node to search for comment nodes.
+fn remove_comments(node: &mut Value) {
+    match node {
+        Value::Array(values) => {
+            values.retain(|v| {
+                v.get_str_for_key("nodeType") != Some("Comment")
+                    && v.get_str_for_key("ast_type") != Some("Comment")
+            });
+            values.iter_mut().for_each(remove_comments);
+        }
+        Value::Object(map) => map.values_mut().for_each(remove_comments),
+        _ => (),
+    }
+}
+
 impl MutableLanguage for JSONLanguageInterface {
     fn load_ast_from_file(
         &mut self,
@@ -163,6 +201,9 @@ impl MutableLanguage for JSONLanguageInterface {
             return Err(e);
         }
 
+        // Inserting the comment can change the layout of the program, so get the text before that.
+        let program_text = text_without_comments(self.delegate.as_ref(), &mutated_ast);
+
         // We now have the path map and the index of the node we mutated in mutation_maker.mutated_node_id.
         // We can now walk down the ast to insert a comment.
         if let Some(node) = mutation_maker.mutator_comment {
@@ -177,6 +218,7 @@ impl MutableLanguage for JSONLanguageInterface {
         let mut mutate_ast_result = MutateASTResult::new();
         mutate_ast_result.mutator_result = mutation_maker.mutation_results;
         mutate_ast_result.ast = Some(ast);
+        mutate_ast_result.program_text = program_text;
         mutate_ast_result.mutator_result.index = Some(index);
 
         Ok(mutate_ast_result)
@@ -219,6 +261,13 @@ impl MutableLanguage for JSONLanguageInterface {
         Ok(())
     }
 
+    fn program_text(&mut self, ast: &SuperAST) -> Result<String, MutagenyxError> {
+        Ok(text_without_comments(
+            self.delegate.as_ref(),
+            self.recover_json_ast(ast)?,
+        ))
+    }
+
     fn get_extension_for_output_file(&self) -> &str {
         self.delegate.get_file_extension()
     }
diff --git a/mutagenyx_lib/src/language_interface.rs b/mutagenyx_lib/src/language_interface.rs
index a64beb6..db35473 100644
--- a/mutagenyx_lib/src/language_interface.rs
+++ b/mutagenyx_lib/src/language_interface.rs
@@ -26,6 +26,9 @@ pub struct MutateASTResult {
 
     /// If the mutation succeeded `ast` will contain the mutated AST.
     pub ast: Option<SuperAST>,
+
+    /// The text of the mutated program without any comments.
+    pub program_text: String,
 }
 
 impl MutateASTResult {
@@ -34,6 +37,7 @@ impl MutateASTResult {
         MutateASTResult {
             mutator_result: MutatorResult::new(),
             ast: None,
+            program_text: String::new(),
         }
     }
 }
@@ -125,6 +129,13 @@ pub trait MutableLanguage {
         path_map: &NodePathMap,
     ) -> Result<MutateASTResult, MutagenyxError>;
 
+    /// Return the text of the program in `ast` without the comments that mutations add.
+    ///
+    /// # Arguments
+    ///
+    /// * `ast` - The [`SuperAST`] object that encapsulates the concrete language AST.
+    fn program_text(&mut self, ast: &SuperAST) -> Result<String, MutagenyxError>;
+
     /// Pretty-print the contents of `ast` to the file named in `file_name`.
     ///
     /// # Arguments
-- 
2.43.0


From 5f0d1b6b722571cdd5b15a07ea5def34ccdd1e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:30 +0000
Subject: [PATCH 57/74] fix: parenthesize Vyper integers before a member name
 and 64 bit negative integers

---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index d06c239..996fe87 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -239,7 +239,10 @@ fn write_node_with_parens_maybe(
         let needs_parens = match ast_type {
             "BinOp" | "BoolOp" | "Compare" | "IfExp" | "UnaryOp" => true,
             // The sign of a literal binds less tightly than exponentiation.
-            "Int" => node.get_int_for_key("value").map_or(false, |v| v < 0),
+            "Int" => node
+                .get("value")
+                .and_then(|v| v.as_f64())
+                .map_or(false, |v| v < 0.0),
             "Decimal" => node
                 .get_str_for_key("value")
                 .map_or(false, |v| v.starts_with('-')),
@@ -686,7 +689,14 @@ impl NodePrinter<VyperAST> for AttributePrinter {
         node: &VyperAST,
     ) {
         if let Some(value_node) = node.get("value") {
-            write_node_with_parens_maybe(printer, stream, factory, value_node);
+            // Digits followed by a dot are the start of a decimal number.
+            if value_node.get_str_for_key("ast_type") == Some("Int") {
+                write_token(printer, stream, "(");
+                traverse_sub_node_and_print(printer, stream, factory, value_node);
+                write_token(printer, stream, ")");
+            } else {
+                write_node_with_parens_maybe(printer, stream, factory, value_node);
+            }
         }
         write_token(printer, stream, ".");
         if let Some(attribute_str) = node.get_str_for_key("attr") {
-- 
2.43.0


From 6f76d0bd9848e2b80f001a289eab45dd2d45ea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:51 +0000
Subject: [PATCH 58/74] fix: pretty-print every file to stdout, not only the
 first

---
 mutagenyx/src/pretty_printing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx/src/pretty_printing.rs b/mutagenyx/src/pretty_printing.rs
index 7de8a2e..d75ce45 100644
--- a/mutagenyx/src/pretty_printing.rs
+++ b/mutagenyx/src/pretty_printing.rs
@@ -45,7 +45,7 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
         if args.stdout {
             let mut stdout = std::io::stdout();
             match pretty_print_file_to_stream(&file_name, &mut stdout, &mut preferences) {
-                Ok(_) => return,
+                Ok(_) => (),
                 Err(e) => println!("Unable to pretty-print {}: {}", file_name, e),
             }
         } else {
-- 
2.43.0


From 7e842712e8b29d9974acc097537e1e3870f01d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:51 +0000
Subject: [PATCH 59/74] fix: pass the allowed paths to solc as one argument

---
 .../src/solidity/language_interface.rs        | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index df5b5cc..52a9a92 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -191,20 +191,17 @@ fn get_solidity_compiler_flags_from_preferences(prefs: &Preferences) -> Vec<Stri
                 }
             }
             if let Some(allow_paths_array) = compiler_prefs.get_array_for_key(ALLOW_PATHS_KEY) {
-                if !allow_paths_array.is_empty() {
+                // The compiler expects one argument with a comma separated list of paths.
+                let allow_paths: Vec<&str> = allow_paths_array
+                    .iter()
+                    .filter_map(|value| match value {
+                        PreferenceValue::String(s) => Some(s.as_str()),
+                        _ => None,
+                    })
+                    .collect();
+                if !allow_paths.is_empty() {
                     args.push(String::from("--allow-paths"));
-                    let mut i: usize = 0;
-                    while i < allow_paths_array.len() {
-                        let value = &allow_paths_array[i];
-                        if let PreferenceValue::String(s) = value {
-                            let mut path_value = s.clone();
-                            if i < (allow_paths_array.len() - 1) {
-                                path_value += ",";
-                            }
-                            args.push(path_value);
-                        }
-                        i += 1;
-                    }
+                    args.push(allow_paths.join(","));
                 }
             }
             if let Some(remappings_array) = compiler_prefs.get_array_for_key(REMAPPINGS_KEY) {
-- 
2.43.0


From 9fedfa406be152ea9c62397fdcb7045366b56ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:52 +0000
Subject: [PATCH 60/74] fix: do not use the seed of a configuration file for
 other inputs

---
 mutagenyx/src/mutation_generator.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index 8f71aec..e192c6a 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -113,7 +113,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
 
     // Select a random number generator seed based on args.rng_seed. If args.rng_seed is less
     // than 0, then use a seed based off of time (we don't need cryptographic randomness).
-    let mut seed: u64 = if args.rng_seed < 0 {
+    let seed: u64 = if args.rng_seed < 0 {
         let start = SystemTime::now();
         let since_the_epoch = start.duration_since(UNIX_EPOCH);
         match since_the_epoch {
@@ -161,11 +161,9 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
 
             actual_number_of_mutants = configuration_details.number_of_mutants as usize;
 
-            // Here we update the random number generator from the configuration details seed if the
-            // details have a new seed.
-            if let Some(s) = configuration_details.seed {
-                seed = s;
-            };
+            // Use the seed from the configuration details if the details have a seed.  Other input
+            // files do not use that seed.
+            let actual_seed = configuration_details.seed.unwrap_or(seed);
 
             // Check to see if the configuration file requested a different set of mutation algorithms.
             if configuration_details.all_mutations {
@@ -199,8 +197,8 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                 let generator_params = GeneratorParameters {
                     file_name: file_to_mutate_name,
                     number_of_mutants: actual_number_of_mutants,
-                    rng_seed: seed,
-                    rng: Pcg64::seed_from_u64(seed),
+                    rng_seed: actual_seed,
+                    rng: Pcg64::seed_from_u64(actual_seed),
                     output_directory: actual_output_directory.clone(),
                     use_stdout: actual_use_stdout,
                     mutations: actual_mutations.clone(),
-- 
2.43.0


From a5b1cbef54b9c0eef4c40cab2e9392e8d3e0b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:32 +0000
Subject: [PATCH 61/74] fix: read seeds of more than 63 bits from configuration
 files

---
 mutagenyx_lib/src/config_file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/config_file.rs b/mutagenyx_lib/src/config_file.rs
index 072d8b3..4d8940c 100644
--- a/mutagenyx_lib/src/config_file.rs
+++ b/mutagenyx_lib/src/config_file.rs
@@ -168,7 +168,9 @@ impl ConfigurationFileDetails {
                 details.number_of_mutants = number_of_mutants;
             }
 
-            if let Some(seed) = json_value.get_int_for_key(SEED_KEY) {
+            if let Some(seed) = json_value.get(SEED_KEY).and_then(|s| s.as_u64()) {
+                details.seed = Some(seed);
+            } else if let Some(seed) = json_value.get_int_for_key(SEED_KEY) {
                 details.seed = Some(seed as u64);
             }
 
-- 
2.43.0


From efbfd66f74de5b9e48821707d64471f5c8396b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:32 +0000
Subject: [PATCH 62/74] fix: keys missing from a configuration file do not
 override the command line

---
 mutagenyx/src/mutation_generator.rs | 18 +++++++++++------
 mutagenyx_lib/src/config_file.rs    | 30 +++++++++++++++++------------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index e192c6a..8fbdc5d 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -159,7 +159,9 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                 }
             }
 
-            actual_number_of_mutants = configuration_details.number_of_mutants as usize;
+            if let Some(number_of_mutants) = configuration_details.number_of_mutants {
+                actual_number_of_mutants = number_of_mutants as usize;
+            }
 
             // Use the seed from the configuration details if the details have a seed.  Other input
             // files do not use that seed.
@@ -176,7 +178,9 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                 actual_functions = configuration_details.functions;
             }
 
-            actual_verify = configuration_details.verify_mutants;
+            if let Some(verify_mutants) = configuration_details.verify_mutants {
+                actual_verify = verify_mutants;
+            }
 
             if let Some(output_directory) = configuration_details.output_directory {
                 if output_directory.to_str() == Some("stdout") {
@@ -186,7 +190,9 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                 }
             }
 
-            actual_print_original = configuration_details.print_original;
+            if let Some(print_original) = configuration_details.print_original {
+                actual_print_original = print_original;
+            }
 
             // The configuration files can have multiple files to mutate using the same settings
             // for each file. Go through the filenames list and add a generator parameter object
@@ -323,15 +329,15 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
         let details = ConfigurationFileDetails {
             language: Some(recognize_result.language),
             filenames,
-            number_of_mutants: params.number_of_mutants as i64,
+            number_of_mutants: Some(params.number_of_mutants as i64),
             seed: Some(params.rng_seed),
             mutations: params.mutations.clone(),
             all_mutations: false,
             compiler_details,
             functions: params.functions.clone(),
-            verify_mutants: params.verify_mutant_viability,
+            verify_mutants: Some(params.verify_mutant_viability),
             output_directory: Some(params.output_directory.clone()),
-            print_original: params.print_original,
+            print_original: Some(params.print_original),
         };
 
         // Build the output file name.
diff --git a/mutagenyx_lib/src/config_file.rs b/mutagenyx_lib/src/config_file.rs
index 4d8940c..71c5d8a 100644
--- a/mutagenyx_lib/src/config_file.rs
+++ b/mutagenyx_lib/src/config_file.rs
@@ -58,7 +58,7 @@ pub struct ConfigurationFileDetails {
     pub filenames: Vec<PathBuf>,
 
     /// The number of mutations to generate for the file.
-    pub number_of_mutants: i64,
+    pub number_of_mutants: Option<i64>,
 
     /// The random number generator seed, if present from the configuration file.
     pub seed: Option<u64>,
@@ -76,13 +76,13 @@ pub struct ConfigurationFileDetails {
     pub functions: Vec<String>,
 
     /// True if the tool should compile the mutants for viability.
-    pub verify_mutants: bool,
+    pub verify_mutants: Option<bool>,
 
     /// The location where the tool should put generated output files.
     pub output_directory: Option<PathBuf>,
 
     /// True if the tool should pretty-print the original source or AST file.
-    pub print_original: bool,
+    pub print_original: Option<bool>,
 }
 
 impl ConfigurationFileDetails {
@@ -113,15 +113,15 @@ impl ConfigurationFileDetails {
             language: None,
             filenames: Vec::new(),
             compiler_details: None,
-            number_of_mutants: 5,
+            number_of_mutants: None,
             // TODO: casting to u64 truncates data here, find something better.
             seed: None,
             mutations: Vec::new(),
             all_mutations: false,
             functions: Vec::new(),
-            verify_mutants: false,
+            verify_mutants: None,
             output_directory: None,
-            print_original: false,
+            print_original: None,
         };
 
         if let Ok(json_value) = load_json_from_file_with_name(config_file) {
@@ -165,7 +165,7 @@ impl ConfigurationFileDetails {
             }
 
             if let Some(number_of_mutants) = json_value.get_int_for_key(NUMBER_OF_MUTANTS_KEY) {
-                details.number_of_mutants = number_of_mutants;
+                details.number_of_mutants = Some(number_of_mutants);
             }
 
             if let Some(seed) = json_value.get(SEED_KEY).and_then(|s| s.as_u64()) {
@@ -204,7 +204,7 @@ impl ConfigurationFileDetails {
             }
 
             if let Some(check) = json_value.get_bool_for_key(VALIDATE_MUTANTS_KEY) {
-                details.verify_mutants = check;
+                details.verify_mutants = Some(check);
             }
 
             if let Some(output_directory) = json_value.get_str_for_key(OUTPUT_DIR_KEY) {
@@ -212,7 +212,7 @@ impl ConfigurationFileDetails {
             }
 
             if let Some(print_original) = json_value.get_bool_for_key(PRINT_ORIGINAL_KEY) {
-                details.print_original = print_original;
+                details.print_original = Some(print_original);
             }
         } else {
             return Err(MutagenyxError::ConfigFileNotSupported(String::from(
@@ -241,7 +241,9 @@ impl ConfigurationFileDetails {
 
         json_value.set_node_for_key(FILENAMES_KEY, json![json_filenames_array]);
 
-        json_value.set_node_for_key(NUMBER_OF_MUTANTS_KEY, json![self.number_of_mutants]);
+        if let Some(number_of_mutants) = self.number_of_mutants {
+            json_value.set_node_for_key(NUMBER_OF_MUTANTS_KEY, json![number_of_mutants]);
+        }
 
         if let Some(seed) = self.seed {
             json_value.set_node_for_key(SEED_KEY, json![seed]);
@@ -269,13 +271,17 @@ impl ConfigurationFileDetails {
             json_value.set_node_for_key(FUNCTIONS_KEY, json![self.functions]);
         }
 
-        json_value.set_node_for_key(VALIDATE_MUTANTS_KEY, json![self.verify_mutants]);
+        if let Some(verify_mutants) = self.verify_mutants {
+            json_value.set_node_for_key(VALIDATE_MUTANTS_KEY, json![verify_mutants]);
+        }
 
         if let Some(output_directory) = &self.output_directory {
             json_value.set_node_for_key(OUTPUT_DIR_KEY, json![output_directory.to_str()]);
         }
 
-        json_value.set_node_for_key(PRINT_ORIGINAL_KEY, json![self.print_original]);
+        if let Some(print_original) = self.print_original {
+            json_value.set_node_for_key(PRINT_ORIGINAL_KEY, json![print_original]);
+        }
 
         Ok(json_value)
     }
-- 
2.43.0


From 896bef6a5dbf0514805ed4948d37c913cd381d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:32 +0000
Subject: [PATCH 63/74] fix: record output to stdout in saved configuration
 files

---
 mutagenyx/src/mutation_generator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index 8fbdc5d..1551679 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -336,7 +336,11 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
             compiler_details,
             functions: params.functions.clone(),
             verify_mutants: Some(params.verify_mutant_viability),
-            output_directory: Some(params.output_directory.clone()),
+            output_directory: Some(if params.use_stdout {
+                PathBuf::from("stdout")
+            } else {
+                params.output_directory.clone()
+            }),
             print_original: Some(params.print_original),
         };
 
-- 
2.43.0


From df82c20e47d08952f563472e4d6971a867539664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:32 +0000
Subject: [PATCH 64/74] fix: report unknown mutation algorithm names

---
 mutagenyx/src/mutation_generator.rs | 9 +++------
 mutagenyx_lib/src/config_file.rs    | 6 ++----
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index 1551679..937ae95 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -31,11 +31,8 @@ fn get_mutation_strings_from_types(array: &[MutationType]) -> Vec<String> {
 }
 
 /// Convert a vector of [`String`] to a vector of [`MutationType`].
-fn get_mutation_types_from_strings(array: &[String]) -> Vec<MutationType> {
-    array
-        .iter()
-        .filter_map(|s| MutationType::from_str(s).ok())
-        .collect()
+fn get_mutation_types_from_strings(array: &[String]) -> Result<Vec<MutationType>, MutagenyxError> {
+    array.iter().map(|s| MutationType::from_str(s)).collect()
 }
 
 /// Helper function to convert a vector of strings representing function names to a Permissions
@@ -84,7 +81,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
         get_all_mutation_algorithms()
     } else {
         // Change the algorithm strings from the command line into actual MutationType values.
-        get_mutation_types_from_strings(&args.mutation)
+        get_mutation_types_from_strings(&args.mutation)?
     };
 
     let solidity_compiler_settings = SolidityCompilerSettings {
diff --git a/mutagenyx_lib/src/config_file.rs b/mutagenyx_lib/src/config_file.rs
index 71c5d8a..26d5512 100644
--- a/mutagenyx_lib/src/config_file.rs
+++ b/mutagenyx_lib/src/config_file.rs
@@ -178,10 +178,8 @@ impl ConfigurationFileDetails {
                 details.mutations = mutations_array
                     .iter()
                     .filter(|v| v.is_string())
-                    .map(|v| v.as_str().unwrap())
-                    .filter(|v| matches!(MutationType::from_str(v), Ok(_l)))
-                    .map(|v| MutationType::from_str(v).unwrap())
-                    .collect();
+                    .map(|v| MutationType::from_str(v.as_str().unwrap()))
+                    .collect::<Result<Vec<MutationType>, MutagenyxError>>()?;
             }
 
             if let Some(use_all_algorithms) = json_value.get_bool_for_key(ALL_MUTATIONS_KEY) {
-- 
2.43.0


From 70208925f35f4eeb9b5f8f15022cdf9e9c23678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:32 +0000
Subject: [PATCH 65/74] fix: generate mutants for the other inputs when one
 input fails

---
 mutagenyx/src/mutation_generator.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index 937ae95..aba321f 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -138,12 +138,26 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
         // Try to recognize the language of the source file.  The file might be a source code file,
         // an AST file, or a configuration file.
         let recognizer = Recognizer::new(&mut preferences);
-        let recognize_result = recognizer.recognize_file(&actual_file_name)?;
+        let recognize_result = match recognizer.recognize_file(&actual_file_name) {
+            Ok(result) => result,
+            Err(e) => {
+                // An unusable file does not keep us from mutating the other files.
+                println!("Unable to generate mutations for {}: {}", file_name, e);
+                continue;
+            }
+        };
 
         if recognize_result.file_type == FileType::Config {
             // If we have a config file, then we need to extract the mutation parameters from
             // the configuration file.
-            let configuration_details = ConfigurationFileDetails::new_from_file(&actual_file_name)?;
+            let configuration_details =
+                match ConfigurationFileDetails::new_from_file(&actual_file_name) {
+                    Ok(details) => details,
+                    Err(e) => {
+                        println!("Unable to generate mutations for {}: {}", file_name, e);
+                        continue;
+                    }
+                };
 
             if let Some(compiler_details) = &configuration_details.compiler_details {
                 let language_key = format!["{}", recognize_result.language];
@@ -236,7 +250,12 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
 
     // Now, for each set of parameters, invoke the mutator.
     for params in &mut generator_parameters {
-        generate_mutations(params)?;
+        if let Err(e) = generate_mutations(params) {
+            println!(
+                "Unable to generate mutations for {}: {}",
+                params.file_name, e
+            );
+        }
     }
 
     Ok(())
-- 
2.43.0


From 5c8cdb4c5b86935fb4e86698f1ebda8b5d455007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:32 +0000
Subject: [PATCH 66/74] fix: do not fail on Vyper compilers with an unreadable
 version

---
 mutagenyx_lib/src/vyper/language_interface.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index 6f9b8c2..59d8e06 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -222,10 +222,10 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
     {
         Ok(output) => {
             if output.status.success() {
-                let output_version = core::str::from_utf8(output.stdout.as_slice()).unwrap();
+                let output_version = String::from_utf8_lossy(output.stdout.as_slice());
 
                 // Clip off the newline character.  The Mess code dislikes the newline.
-                let output_version = &output_version[..output_version.len() - 1];
+                let output_version = output_version.trim();
 
                 // We use Mess here because the compiler may output some non-semantic versioned string
                 // like `0.2.11+commit.5db35ef` for a compiler version.  Mess gives us a shot at recovering
@@ -245,12 +245,19 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
                         if let Some(value) = v.nth(2) {
                             vstr += &(value).to_string();
                         }
-                        Versioning::new(&vstr).unwrap()
+                        match Versioning::new(&vstr) {
+                            Some(version) => version,
+                            None => {
+                                return Err(MutagenyxError::CompilerNoVersion(String::from(
+                                    compiler,
+                                )))
+                            }
+                        }
                     }
                     None => return Err(MutagenyxError::CompilerNoVersion(String::from(compiler))),
                 }
             } else {
-                let command_error = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let command_error = String::from_utf8_lossy(output.stderr.as_slice());
                 log::error!("Unable to retrieve compiler version: {}", command_error);
                 return Err(MutagenyxError::CompilerNoVersion(String::from(compiler)));
             }
-- 
2.43.0


From e47fe0406488fb806015d3b538fd9632a281dbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:55 +0000
Subject: [PATCH 67/74] fix: do not fail on compiler messages that are not
 UTF-8

---
 mutagenyx_lib/src/solidity/language_interface.rs | 8 ++++----
 mutagenyx_lib/src/vyper/language_interface.rs    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index 52a9a92..c5ebc92 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -280,8 +280,8 @@ fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, M
             if output.status.success() {
                 Ok(out_path)
             } else {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(output.stdout.as_slice());
+                let stderr_contents = String::from_utf8_lossy(output.stderr.as_slice());
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
@@ -347,8 +347,8 @@ fn invoke_compiler(file_name: &str, compiler: &str, args: &Vec<String>) -> bool
     match shell_execute(compiler, compiler_args) {
         Ok(output) => {
             if !output.status.success() {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(output.stdout.as_slice());
+                let stderr_contents = String::from_utf8_lossy(output.stderr.as_slice());
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index 59d8e06..9d1feae 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -436,8 +436,8 @@ fn file_compiles_with_pip(file_name: &str, prefs: &Preferences) -> bool {
     match shell_execute(&vyper_compiler, full_compiler_args) {
         Ok(output) => {
             if !output.status.success() {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(output.stdout.as_slice());
+                let stderr_contents = String::from_utf8_lossy(output.stderr.as_slice());
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
@@ -483,8 +483,8 @@ fn file_compiles_with_docker(file_name: &str, prefs: &Preferences) -> bool {
     match shell_execute("docker", args) {
         Ok(output) => {
             if !output.status.success() {
-                let stdout_contents = core::str::from_utf8(output.stdout.as_slice()).unwrap();
-                let stderr_contents = core::str::from_utf8(output.stderr.as_slice()).unwrap();
+                let stdout_contents = String::from_utf8_lossy(output.stdout.as_slice());
+                let stderr_contents = String::from_utf8_lossy(output.stderr.as_slice());
                 log::debug!(
                     "Compilation failed:\n\tstdout: {}\n\tstderr: {}",
                     stdout_contents,
-- 
2.43.0


From a3b261c28a430bf6f45a0c328d249cce014f101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:55 +0000
Subject: [PATCH 68/74] fix: do not pass --stop-after twice to solc

---
 mutagenyx_lib/src/solidity/language_interface.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index c5ebc92..47e8fe6 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -319,6 +319,11 @@ fn file_compiles(file_name: &str, prefs: &Preferences) -> bool {
         return true;
     }
 
+    // The compiler rejects a second '--stop-after'.
+    if full_compiler_args.iter().any(|arg| arg == "--stop-after") {
+        return false;
+    }
+
     // Compilation failed, try one more time, this time we inject '--stop-after parsing' into the command
     // line for the compiler.
     full_compiler_args.push(String::from("--stop-after"));
-- 
2.43.0


From 41033b7bc120ad007aecfa2d1d3496d4a41e85f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:55 +0000
Subject: [PATCH 69/74] fix: refuse directories as input files instead of
 failing

---
 mutagenyx/src/pretty_printing.rs | 4 +++-
 mutagenyx_lib/src/recognizer.rs  | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/mutagenyx/src/pretty_printing.rs b/mutagenyx/src/pretty_printing.rs
index d75ce45..13a659d 100644
--- a/mutagenyx/src/pretty_printing.rs
+++ b/mutagenyx/src/pretty_printing.rs
@@ -50,7 +50,9 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
             }
         } else {
             let original_file = PathBuf::from_str(&file_name).unwrap();
-            let original_file_str = original_file.file_name().unwrap();
+            let original_file_str = original_file
+                .file_name()
+                .unwrap_or(original_file.as_os_str());
             match pretty_print_file(&file_name, &args.output_directory, &mut preferences) {
                 Ok(_buf) => log::info!(
                     "Pretty-printing original file {:?} to {}",
diff --git a/mutagenyx_lib/src/recognizer.rs b/mutagenyx_lib/src/recognizer.rs
index 97b6258..6f0504e 100644
--- a/mutagenyx_lib/src/recognizer.rs
+++ b/mutagenyx_lib/src/recognizer.rs
@@ -9,7 +9,7 @@ use crate::language_interface::*;
 use crate::preferences::Preferences;
 use crate::MutagenyxError;
 use std::ffi::OsStr;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::str::FromStr;
 
 /// Enumeration of possible file types that a [`Recognizer`] can identify.
@@ -131,6 +131,11 @@ impl<'a> Recognizer<'a> {
     ///
     /// * `file_name` - The path to the file in the file system.
     pub fn recognize_file(&self, file_name: &str) -> Result<RecognizeResult, MutagenyxError> {
+        // Directories and missing files are not input files.
+        if !Path::new(file_name).is_file() {
+            return Err(MutagenyxError::LanguageNotRecognized);
+        }
+
         // Try to recognize the language of the source file.  The file might be a source code file,
         // an AST file, or a config file.
         let mut recognized_details = self.recognize_config_file(file_name);
-- 
2.43.0


From f52f19106df2fc774caef38b0fc9ddc0aff4e2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:14 +0000
Subject: [PATCH 70/74] fix: keep temporary files apart from the user's files

---
 .../src/json_ast_language_interface.rs        | 21 +++++------
 .../src/solidity/language_interface.rs        | 21 +++++++----
 mutagenyx_lib/src/utility.rs                  | 35 +++++++++++++++++++
 mutagenyx_lib/src/vyper/language_interface.rs | 23 ++++++------
 4 files changed, 70 insertions(+), 30 deletions(-)

diff --git a/mutagenyx_lib/src/json_ast_language_interface.rs b/mutagenyx_lib/src/json_ast_language_interface.rs
index bb24927..b2555f8 100644
--- a/mutagenyx_lib/src/json_ast_language_interface.rs
+++ b/mutagenyx_lib/src/json_ast_language_interface.rs
@@ -17,10 +17,10 @@ use crate::preferences::Preferences;
 use crate::pretty_printer::PrettyPrinter;
 use crate::recognizer::FileType;
 use crate::super_ast::SuperAST;
+use crate::utility::ScratchDirectory;
 use rand_pcg::Pcg64;
 use serde_json::Value;
 use std::collections::HashMap;
-use std::env;
 use std::io::Write;
 use std::path::PathBuf;
 
@@ -301,8 +301,12 @@ impl MutableLanguage for JSONLanguageInterface {
         ast: &SuperAST,
         prefs: &Preferences,
     ) -> bool {
-        // We will pretty print the AST to a file in the temp directory.
-        let mut source_file = env::temp_dir();
+        // We will pretty print the AST to a file in a new temporary directory.
+        let scratch = match ScratchDirectory::new() {
+            Ok(scratch) => scratch,
+            Err(_e) => return false,
+        };
+        let mut source_file = PathBuf::from(scratch.path());
 
         let original_file = PathBuf::from(original_file_name);
         let base_file_name = original_file.file_name().unwrap();
@@ -317,15 +321,8 @@ impl MutableLanguage for JSONLanguageInterface {
             return false;
         }
 
-        let compile_result = self
-            .delegate
-            .mutant_compiles(source_file.to_str().unwrap(), prefs);
-
-        if std::fs::remove_file(source_file.clone()).is_err() {
-            log::debug!("Failed to remove temporary source file: {:?}", source_file);
-        }
-
-        compile_result
+        self.delegate
+            .mutant_compiles(source_file.to_str().unwrap(), prefs)
     }
 
     fn calculate_node_paths(
diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index 47e8fe6..2efb5dc 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -28,11 +28,10 @@ use crate::solidity::mutators::SolidityMutatorFactory;
 use crate::solidity::node_finder::SolidityNodeFinderFactory;
 use crate::solidity::pretty_printer::SolidityNodePrinterFactory;
 use crate::super_ast::SuperAST;
-use crate::utility::shell_execute;
+use crate::utility::{shell_execute, ScratchDirectory};
 use crate::visitor::Visitor;
 use crate::Language;
 use serde_json::Value;
-use std::env;
 use std::io::Write;
 use std::path::PathBuf;
 use std::str::FromStr;
@@ -99,7 +98,7 @@ impl JSONLanguageDelegate for SolidityLanguageSubDelegate {
         file_name: &str,
         prefs: &Preferences,
     ) -> Result<SuperAST, MutagenyxError> {
-        if let Ok(s) = file_is_source_file(file_name, prefs) {
+        if let Ok((_scratch, s)) = file_is_source_file(file_name, prefs) {
             let value = load_json_from_file_with_name(&s)?;
             return <SolidityLanguageSubDelegate as JSONLanguageDelegate>::get_value_as_super_ast(
                 self, value,
@@ -247,10 +246,14 @@ fn get_solidity_compiler_from_preferences(prefs: &Preferences) -> String {
 ///
 /// * `file_name` - The path to the source file to compile.
 /// * `prefs` - The [`Preferences`] object that may contain a value for `solidity_compiler`.
-fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, MutagenyxError> {
+fn file_is_source_file(
+    file_name: &str,
+    prefs: &Preferences,
+) -> Result<(ScratchDirectory, String), MutagenyxError> {
     let file_path = PathBuf::from_str(file_name).unwrap();
     let base_name = file_path.file_name().unwrap().to_str().unwrap();
-    let tmp_dir = env::temp_dir();
+    let scratch = ScratchDirectory::new()?;
+    let tmp_dir = scratch.path();
     let separator = String::from(std::path::MAIN_SEPARATOR);
     let out_path =
         String::from(tmp_dir.to_str().unwrap()) + separator.as_str() + base_name + "_json.ast";
@@ -278,7 +281,7 @@ fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, M
     match shell_execute(&solidity_compiler, full_compiler_args) {
         Ok(output) => {
             if output.status.success() {
-                Ok(out_path)
+                Ok((scratch, out_path))
             } else {
                 let stdout_contents = String::from_utf8_lossy(output.stdout.as_slice());
                 let stderr_contents = String::from_utf8_lossy(output.stderr.as_slice());
@@ -305,7 +308,11 @@ fn file_is_source_file(file_name: &str, prefs: &Preferences) -> Result<String, M
 /// * `file_name` - The name of the file in the file system to compile.
 /// * `prefs` - The [`Preferences`] object containing compiler settings.
 fn file_compiles(file_name: &str, prefs: &Preferences) -> bool {
-    let tmp_dir = env::temp_dir();
+    let scratch = match ScratchDirectory::new() {
+        Ok(scratch) => scratch,
+        Err(_e) => return false,
+    };
+    let tmp_dir = scratch.path();
     let args = vec!["--overwrite", "-o", tmp_dir.to_str().unwrap(), file_name];
 
     let solidity_compiler = get_solidity_compiler_from_preferences(prefs);
diff --git a/mutagenyx_lib/src/utility.rs b/mutagenyx_lib/src/utility.rs
index a882e6a..182646a 100644
--- a/mutagenyx_lib/src/utility.rs
+++ b/mutagenyx_lib/src/utility.rs
@@ -2,8 +2,43 @@
 //! other parts of the library.
 
 use crate::error::MutagenyxError;
+use std::path::{Path, PathBuf};
 use std::process::{Command, Output};
 
+/// A new directory for temporary files.  Dropping the value removes the directory.
+pub struct ScratchDirectory {
+    path: PathBuf,
+}
+
+impl ScratchDirectory {
+    /// Create a directory, that did not exist before, in the system's directory for temporary files.
+    pub fn new() -> Result<ScratchDirectory, MutagenyxError> {
+        let mut number: usize = 0;
+        loop {
+            let name = format!("mutagenyx-{}-{}", std::process::id(), number);
+            let path = std::env::temp_dir().join(name);
+            match std::fs::create_dir(&path) {
+                Ok(()) => return Ok(ScratchDirectory { path }),
+                Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => number += 1,
+                Err(e) => return Err(MutagenyxError::from(e)),
+            }
+        }
+    }
+
+    /// Return the path of the directory.
+    pub fn path(&self) -> &Path {
+        &self.path
+    }
+}
+
+impl Drop for ScratchDirectory {
+    fn drop(&mut self) {
+        if let Err(e) = std::fs::remove_dir_all(&self.path) {
+            log::debug!("Failed to remove {:?}: {}", self.path, e);
+        }
+    }
+}
+
 /// Execute a command using the shell facility on the computer.
 ///
 /// # Arguments
diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index 9d1feae..1b811b4 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -21,7 +21,7 @@ use crate::preferences::Preferences;
 use crate::pretty_print_visitor::PrettyPrintVisitor;
 use crate::pretty_printer::PrettyPrinter;
 use crate::super_ast::SuperAST;
-use crate::utility::shell_execute;
+use crate::utility::{shell_execute, ScratchDirectory};
 use crate::visitor::Visitor;
 use crate::vyper::ast::VyperAST;
 use crate::vyper::commenter::VyperCommenterFactory;
@@ -30,7 +30,6 @@ use crate::vyper::mutators::VyperMutatorFactory;
 use crate::vyper::node_finder::VyperNodeFinderFactory;
 use crate::vyper::pretty_printer::VyperNodePrinterFactory;
 use serde_json::Value;
-use std::env;
 use std::io::Write;
 use std::path::PathBuf;
 use std::str::FromStr;
@@ -95,14 +94,14 @@ impl JSONLanguageDelegate for VyperLanguageDelegate {
         file_name: &str,
         prefs: &Preferences,
     ) -> Result<SuperAST, MutagenyxError> {
-        if let Ok(s) = file_is_source_file_with_vyper_from_pip(file_name, prefs) {
+        if let Ok((_scratch, s)) = file_is_source_file_with_vyper_from_pip(file_name, prefs) {
             let value = load_json_from_file_with_name(&s)?;
             return <VyperLanguageDelegate as JSONLanguageDelegate>::get_value_as_super_ast(
                 self, value,
             );
         }
 
-        if let Ok(s) = file_is_source_file_with_docker(file_name, prefs) {
+        if let Ok((_scratch, s)) = file_is_source_file_with_docker(file_name, prefs) {
             let value = load_json_from_file_with_name(&s)?;
             return <VyperLanguageDelegate as JSONLanguageDelegate>::get_value_as_super_ast(
                 self, value,
@@ -281,7 +280,7 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
 fn file_is_source_file_with_vyper_from_pip(
     file_name: &str,
     preferences: &Preferences,
-) -> Result<String, MutagenyxError> {
+) -> Result<(ScratchDirectory, String), MutagenyxError> {
     // This code does the following:
     // * Tries to determine the Vyper compiler version.
     // * Checks the discovered version against the first know version that supports -o output_file
@@ -290,8 +289,8 @@ fn file_is_source_file_with_vyper_from_pip(
 
     let file_path = PathBuf::from_str(file_name).unwrap();
     let base_name = file_path.file_name().unwrap().to_str().unwrap();
-    let tmp_dir = env::temp_dir();
-    let mut full_path_to_tmp_file = PathBuf::from(&tmp_dir);
+    let scratch = ScratchDirectory::new()?;
+    let mut full_path_to_tmp_file = PathBuf::from(scratch.path());
 
     // The Vyper compiler did not start to support '-o outfile_name' as a command line option until
     // Vyper compiler version 3.0.0.
@@ -342,7 +341,8 @@ fn file_is_source_file_with_vyper_from_pip(
                     let mut file = std::fs::File::create(full_path_to_tmp_file.to_str().unwrap())?;
                     write!(file, "{ast_contents}")?;
                 }
-                Ok(String::from(full_path_to_tmp_file.to_str().unwrap()))
+                let ast_path = String::from(full_path_to_tmp_file.to_str().unwrap());
+                Ok((scratch, ast_path))
             } else {
                 Err(MutagenyxError::SourceDoesNotCompile(String::from(
                     file_name,
@@ -364,13 +364,14 @@ fn file_is_source_file_with_vyper_from_pip(
 fn file_is_source_file_with_docker(
     file_name: &str,
     preferences: &Preferences,
-) -> Result<String, MutagenyxError> {
+) -> Result<(ScratchDirectory, String), MutagenyxError> {
     // The docker command to invoke the Vyper compiler requires the path where the source file
     // is located to map into the container /code directory.
     let full_file_path = PathBuf::from_str(file_name).unwrap();
     let base_name = full_file_path.file_name().unwrap().to_str().unwrap();
 
-    let tmp_dir = env::temp_dir();
+    let scratch = ScratchDirectory::new()?;
+    let tmp_dir = scratch.path();
 
     let separator = String::from(std::path::MAIN_SEPARATOR);
 
@@ -407,7 +408,7 @@ fn file_is_source_file_with_docker(
     match shell_execute("docker", args) {
         Ok(output) => {
             if output.status.success() {
-                Ok(out_path)
+                Ok((scratch, out_path))
             } else {
                 Err(MutagenyxError::SourceDoesNotCompile(String::from(
                     file_name,
-- 
2.43.0


From 956609e26e74b03511105aaa43bd52fbd250cf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:42 +0000
Subject: [PATCH 71/74] fix: report errors while writing pretty-printed
 programs

---
 .../src/json_ast_language_interface.rs        | 54 +++++++++++++++++--
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/mutagenyx_lib/src/json_ast_language_interface.rs b/mutagenyx_lib/src/json_ast_language_interface.rs
index b2555f8..cbfdae2 100644
--- a/mutagenyx_lib/src/json_ast_language_interface.rs
+++ b/mutagenyx_lib/src/json_ast_language_interface.rs
@@ -97,6 +97,48 @@ fn remove_comments(node: &mut Value) {
     }
 }
 
+/// A [`Write`] object that passes text to another stream and keeps the first error, because the
+/// node printers do not report errors.
+struct ErrorKeeper<'a> {
+    /// The stream that receives the text.
+    stream: &'a mut dyn Write,
+
+    /// The first error from the stream.
+    error: Option<std::io::Error>,
+}
+
+impl<'a> ErrorKeeper<'a> {
+    fn new(stream: &'a mut dyn Write) -> ErrorKeeper<'a> {
+        ErrorKeeper {
+            stream,
+            error: None,
+        }
+    }
+
+    /// Flush the stream and return the first error that occurred.
+    fn finish(mut self) -> Result<(), MutagenyxError> {
+        match self.error.take() {
+            Some(e) => Err(MutagenyxError::from(e)),
+            None => Ok(self.stream.flush()?),
+        }
+    }
+}
+
+impl<'a> Write for ErrorKeeper<'a> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        if self.error.is_none() {
+            if let Err(e) = self.stream.write_all(buf) {
+                self.error = Some(e);
+            }
+        }
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.stream.flush()
+    }
+}
+
 impl MutableLanguage for JSONLanguageInterface {
     fn load_ast_from_file(
         &mut self,
@@ -232,15 +274,17 @@ impl MutableLanguage for JSONLanguageInterface {
     ) -> Result<(), MutagenyxError> {
         let actual_ast = self.recover_json_ast(ast)?;
         let mut f = std::fs::File::create(file_name)?;
+        let mut output = ErrorKeeper::new(&mut f);
 
         let mut pretty_print_visitor = self
             .delegate
-            .get_pretty_print_visitor(&mut f, pretty_printer);
+            .get_pretty_print_visitor(&mut output, pretty_printer);
 
         // Traverse each node of the tree, process the node, and recover the original program.
         ASTTraverser::traverse(actual_ast, &mut *pretty_print_visitor);
+        drop(pretty_print_visitor);
 
-        Ok(())
+        output.finish()
     }
 
     fn pretty_print_ast_to_stream(
@@ -250,15 +294,17 @@ impl MutableLanguage for JSONLanguageInterface {
         pretty_printer: &mut PrettyPrinter,
     ) -> Result<(), MutagenyxError> {
         let actual_ast = self.recover_json_ast(ast)?;
+        let mut output = ErrorKeeper::new(stream);
 
         let mut pretty_print_visitor = self
             .delegate
-            .get_pretty_print_visitor(stream, pretty_printer);
+            .get_pretty_print_visitor(&mut output, pretty_printer);
 
         // Traverse each node of the tree, process the node, and recover the original program.
         ASTTraverser::traverse(actual_ast, &mut *pretty_print_visitor);
+        drop(pretty_print_visitor);
 
-        Ok(())
+        output.finish()
     }
 
     fn program_text(&mut self, ast: &SuperAST) -> Result<String, MutagenyxError> {
-- 
2.43.0


From b07847ed3f77fb29018d4ab83e5d2afc7f4e60db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:53 +0000
Subject: [PATCH 72/74] fix: do not overwrite input files

---
 mutagenyx/src/generator_parameters.rs |  3 ++
 mutagenyx/src/mutation_generator.rs   | 31 ++++++++++++++++++---
 mutagenyx/src/pretty_printing.rs      | 40 ++++++++++++++++++++++++++-
 mutagenyx_lib/src/error.rs            |  4 +++
 4 files changed, 73 insertions(+), 5 deletions(-)

diff --git a/mutagenyx/src/generator_parameters.rs b/mutagenyx/src/generator_parameters.rs
index e6d3365..d81d156 100644
--- a/mutagenyx/src/generator_parameters.rs
+++ b/mutagenyx/src/generator_parameters.rs
@@ -45,4 +45,7 @@ pub struct GeneratorParameters {
 
     /// Function names to mutate.
     pub functions: Vec<String>,
+
+    /// All input files of the run.  The mutation generator does not write to these files.
+    pub input_files: Vec<PathBuf>,
 }
diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index aba321f..fc69ca1 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -3,7 +3,9 @@
 
 use crate::compiler_settings::*;
 use crate::generator_parameters::GeneratorParameters;
-use crate::pretty_printing::{pretty_print_ast, pretty_print_ast_to_stream};
+use crate::pretty_printing::{
+    ensure_output_is_not_an_input, pretty_print_ast, pretty_print_ast_to_stream,
+};
 use crate::MutateCLArgs;
 use mutagenyx_lib::compiler_details::*;
 use mutagenyx_lib::config_file::*;
@@ -124,6 +126,8 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
 
     let pcg = Pcg64::seed_from_u64(seed);
 
+    let mut input_files: Vec<PathBuf> = args.file.iter().map(PathBuf::from).collect();
+
     for file_name in args.file {
         let mut actual_preferences = preferences.clone();
         let actual_file_name = file_name.clone();
@@ -224,6 +228,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                     save_configuration_file: args.save_config_files,
                     preferences: actual_preferences.clone(),
                     functions: actual_functions.clone(),
+                    input_files: Vec::new(),
                 };
 
                 generator_parameters.push(generator_params);
@@ -242,14 +247,22 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                 save_configuration_file: args.save_config_files,
                 preferences: actual_preferences,
                 functions: actual_functions,
+                input_files: Vec::new(),
             };
 
             generator_parameters.push(generator_params);
         }
     }
 
+    input_files.extend(
+        generator_parameters
+            .iter()
+            .map(|params| PathBuf::from(&params.file_name)),
+    );
+
     // Now, for each set of parameters, invoke the mutator.
     for params in &mut generator_parameters {
+        params.input_files = input_files.clone();
         if let Err(e) = generate_mutations(params) {
             println!(
                 "Unable to generate mutations for {}: {}",
@@ -312,7 +325,12 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
             pretty_print_ast_to_stream(&ast, &mut stdout)?;
         } else {
             let original_file = PathBuf::from_str(&params.file_name).unwrap();
-            pretty_print_ast(&ast, &params.file_name, &params.output_directory)?;
+            pretty_print_ast(
+                &ast,
+                &params.file_name,
+                &params.output_directory,
+                &params.input_files,
+            )?;
             println!(
                 "Pretty-printing original file {:?} to {}",
                 original_file.file_name().unwrap(),
@@ -377,6 +395,7 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
             let mut stdout = std::io::stdout();
             details.write_to_stream_as_json(&mut stdout)?;
         } else {
+            ensure_output_is_not_an_input(&out_file_path, &params.input_files)?;
             println!(
                 "Writing configuration file {}",
                 out_file_path.to_str().unwrap()
@@ -543,8 +562,12 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
 
                 let outfile = String::from(outfile_name.to_str().unwrap());
 
-                let final_file =
-                    pretty_print_ast(&mutated_ast, &outfile, &params.output_directory)?;
+                let final_file = pretty_print_ast(
+                    &mutated_ast,
+                    &outfile,
+                    &params.output_directory,
+                    &params.input_files,
+                )?;
 
                 println!(
                     "{} used to create mutant written to {}",
diff --git a/mutagenyx/src/pretty_printing.rs b/mutagenyx/src/pretty_printing.rs
index 13a659d..0a2138f 100644
--- a/mutagenyx/src/pretty_printing.rs
+++ b/mutagenyx/src/pretty_printing.rs
@@ -41,6 +41,8 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
 
     let mut preferences = compiler_paths.to_preferences();
 
+    let input_files: Vec<PathBuf> = args.file.iter().map(PathBuf::from).collect();
+
     for file_name in args.file {
         if args.stdout {
             let mut stdout = std::io::stdout();
@@ -53,7 +55,12 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
             let original_file_str = original_file
                 .file_name()
                 .unwrap_or(original_file.as_os_str());
-            match pretty_print_file(&file_name, &args.output_directory, &mut preferences) {
+            match pretty_print_file(
+                &file_name,
+                &args.output_directory,
+                &mut preferences,
+                &input_files,
+            ) {
                 Ok(_buf) => log::info!(
                     "Pretty-printing original file {:?} to {}",
                     original_file_str,
@@ -65,6 +72,31 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
     }
 }
 
+/// Return an error if writing `output_file` would overwrite one of the input files.
+///
+/// # Arguments
+///
+/// * `output_file` - The path of the file to write.
+/// * `input_files` - The paths of the input files.
+pub fn ensure_output_is_not_an_input(
+    output_file: &Path,
+    input_files: &[PathBuf],
+) -> Result<(), MutagenyxError> {
+    if let Ok(output_path) = output_file.canonicalize() {
+        for input_file in input_files {
+            if let Ok(input_path) = input_file.canonicalize() {
+                if input_path == output_path {
+                    return Err(MutagenyxError::OutputOverwritesInput(
+                        output_file.display().to_string(),
+                    ));
+                }
+            }
+        }
+    }
+
+    Ok(())
+}
+
 /// Pretty-print an individual file.
 ///
 /// # Arguments
@@ -76,6 +108,7 @@ pub fn pretty_print_file(
     file_name: &String,
     output_directory: &str,
     preferences: &mut Preferences,
+    input_files: &[PathBuf],
 ) -> Result<PathBuf, MutagenyxError> {
     // Convert the output_directory to a PathBuf
     let out_dir = PathBuf::from_str(output_directory).unwrap();
@@ -110,6 +143,8 @@ pub fn pretty_print_file(
     // Try to create the output directory:
     std::fs::create_dir_all(outfile_name.parent().unwrap())?;
 
+    ensure_output_is_not_an_input(&outfile_name, input_files)?;
+
     // Create a pretty printer for printing this AST.
     let mut pretty_printer = PrettyPrinter::new(4, 150);
     language_object.pretty_print_ast_to_file(&ast, &outfile, &mut pretty_printer)?;
@@ -160,6 +195,7 @@ pub fn pretty_print_ast(
     ast: &SuperAST,
     file_name: &str,
     output_dir: &Path,
+    input_files: &[PathBuf],
 ) -> Result<PathBuf, MutagenyxError> {
     let language = language_for_ast(ast);
 
@@ -182,6 +218,8 @@ pub fn pretty_print_ast(
     // Try to create the output directory:
     std::fs::create_dir_all(outfile_name.parent().unwrap())?;
 
+    ensure_output_is_not_an_input(&outfile_name, input_files)?;
+
     // Create a pretty printer for printing this AST.
     let mut pretty_printer = PrettyPrinter::new(4, 150);
     language_object.pretty_print_ast_to_file(ast, &outfile, &mut pretty_printer)?;
diff --git a/mutagenyx_lib/src/error.rs b/mutagenyx_lib/src/error.rs
index 54d04ba..a0cd415 100644
--- a/mutagenyx_lib/src/error.rs
+++ b/mutagenyx_lib/src/error.rs
@@ -86,6 +86,10 @@ pub enum MutagenyxError {
     #[error("Configuration file {0} contains an invalid value for the language key: {1}")]
     ConfigFileUnsupportedLanguage(String, String),
 
+    /// An error indicating that writing an output file would overwrite an input file.
+    #[error("Output file {0} is also an input file")]
+    OutputOverwritesInput(String),
+
     /// An error indicating an attempt to work with system time failed.
     #[error("Request for or operation on system time failed")]
     SystemTime,
-- 
2.43.0


From 06ba80e621b778f5d88f9b6805ab79f26f0a967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:49 +0000
Subject: [PATCH 73/74] fix: read plain Vyper versions

---
 mutagenyx_lib/src/vyper/language_interface.rs | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index 1b811b4..5a0b98c 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -232,18 +232,17 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
                 // contents.
                 match Mess::new(output_version) {
                     Some(v) => {
-                        let mut vstr = String::new();
-                        if let Some(value) = v.nth(0) {
-                            vstr += &(value).to_string();
-                        }
-                        vstr += ".";
-                        if let Some(value) = v.nth(1) {
-                            vstr += &(value).to_string();
-                        }
-                        vstr += ".";
-                        if let Some(value) = v.nth(2) {
-                            vstr += &(value).to_string();
-                        }
+                        // Mess does not see a number in the last part of a plain version such as
+                        // `0.3.1`, nor in `1rc2`: read the digits at the start of each part.
+                        let numbers: Vec<String> = (0..3)
+                            .map(|i| {
+                                v.chunks.get(i).map_or(String::new(), |chunk| {
+                                    let text = chunk.text();
+                                    text.chars().take_while(|c| c.is_ascii_digit()).collect()
+                                })
+                            })
+                            .collect();
+                        let vstr = numbers.join(".");
                         match Versioning::new(&vstr) {
                             Some(version) => version,
                             None => {
-- 
2.43.0


From 8b5c2d61295cee072ffabe4eb503d63c0025120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:59 +0000
Subject: [PATCH 74/74] fix: accept the null members of earlier compilers' ASTs

---
 .../src/solidity/language_interface.rs        | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index 2efb5dc..6ccb3b4 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -50,6 +50,23 @@ impl SolidityLanguageSubDelegate {
     }
 }
 
+/// Remove the members that have no value from the objects of a node. Compilers before version 0.8
+/// write the absent parts of a node as `null`, later ones leave them out.
+///
+/// # Arguments
+///
+/// * `node` - The node, updated in place together with the nodes below it.
+fn remove_null_members(node: &mut Value) {
+    match node {
+        Value::Object(members) => {
+            members.retain(|_, member| !member.is_null());
+            members.values_mut().for_each(remove_null_members);
+        }
+        Value::Array(elements) => elements.iter_mut().for_each(remove_null_members),
+        _ => {}
+    }
+}
+
 impl JSONLanguageDelegate for SolidityLanguageSubDelegate {
     fn recover_ast<'a>(&self, super_ast: &'a SuperAST) -> Result<&'a Value, MutagenyxError> {
         let solidity_ast = match super_ast {
@@ -59,10 +76,11 @@ impl JSONLanguageDelegate for SolidityLanguageSubDelegate {
         Ok(solidity_ast)
     }
 
-    fn get_value_as_super_ast(&self, value: Value) -> Result<SuperAST, MutagenyxError> {
+    fn get_value_as_super_ast(&self, mut value: Value) -> Result<SuperAST, MutagenyxError> {
         if <SolidityLanguageSubDelegate as JSONLanguageDelegate>::json_is_language_ast_json(
             self, &value,
         ) {
+            remove_null_members(&mut value);
             return Ok(SuperAST::Solidity(value));
         }
         Err(MutagenyxError::LanguageNotRecognized)
-- 
2.43.0

