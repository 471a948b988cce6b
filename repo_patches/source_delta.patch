From 31e31717c81f683e90813e3058a1db531e06a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 01/18] fix: keep non-ASCII bytes intact in json_encode

A signed char made every byte above 0x7F look like a control character, so that UTF-8 text was turned
into invalid escapes such as \u-03D.
---
 src/utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 57eb5a1..edec558 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -54,10 +54,10 @@ std::string url_encode(const std::string &str) {
  */
 std::string json_encode(const std::string &str) {
     auto ret = std::string{};
-    std::for_each(str.begin(), str.end(), [&ret](char c) {
-        ret += (c == '"' || c == '\\' || c <= '\x1f')
-            ? fmt::format("\\u{:04X}", static_cast<int>(c))
-            : std::string{ c };
+    std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
+        ret += (c == '"' || c == '\\' || c <= 0x1f)
+            ? fmt::format("\\u{:04X}", static_cast<unsigned int>(c))
+            : std::string{ static_cast<char>(c) };
     });
     return ret;
 }
-- 
2.43.0


From 4d595f746a723fd752c7a249c3dd77a39d3a1c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 02/18] fix: parse version components strictly and over their
 whole range

std::stoi stopped at the first character that is not a digit, so that '3.0x' or '3 .1' were taken for
versions, and threw out_of_range for components that fit the int64_t they are stored in.
---
 src/version.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/version.cpp b/src/version.cpp
index 72c09eb..58c2a2b 100644
--- a/src/version.cpp
+++ b/src/version.cpp
@@ -7,10 +7,26 @@
 #include <fmt/format.h>
 #include <fmt/ranges.h>
 
+#include <charconv>  // from_chars
 #include <memory>
+#include <stdexcept>  // invalid_argument
+#include <system_error>  // errc
 
 namespace cqasm::version {
 
+/**
+ * Parses a single version component.
+ */
+static std::int64_t parse_component(const std::string& component) {
+    std::int64_t value{};
+    const auto* const end = component.data() + component.size();
+    const auto [ptr, ec] = std::from_chars(component.data(), end, value);
+    if (ec != std::errc{} || ptr != end) {
+        throw std::invalid_argument("invalid version component");
+    }
+    return value;
+}
+
 /**
  * Constructs a version object from a string.
  */
@@ -21,10 +37,10 @@ Version::Version(const std::string& version) {
     size_t next = 0;
     size_t last = 0;
     while ((next = version.find('.', last)) != std::string::npos) {
-        push_back(std::stoi(version.substr(last, next - last)));
+        push_back(parse_component(version.substr(last, next - last)));
         last = next + 1;
     }
-    push_back(std::stoi(version.substr(last)));
+    push_back(parse_component(version.substr(last)));
     for (auto component : *this) {
         if (component < 0) {
             throw std::invalid_argument("version component below zero");
-- 
2.43.0


From 66a3b6b6836c89863f8ffa381490ee42e87b6e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:24 +0000
Subject: [PATCH 03/18] fix: read and write instruction references in Python as
 C++ does

The C++ library stores an instruction reference under 'name' and 'operand_types', but the Python module looked
for 'n' and 't', so that every resolved instruction was read as unresolved.
---
 python/module/cqasm/v3x/primitives.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/module/cqasm/v3x/primitives.py b/python/module/cqasm/v3x/primitives.py
index 8e38071..ffe7ae5 100644
--- a/python/module/cqasm/v3x/primitives.py
+++ b/python/module/cqasm/v3x/primitives.py
@@ -35,8 +35,8 @@ def serialize(typ, val):
             return {}
         else:
             return {
-                'n': val.data.name,
-                't': [x.serialize() for x in val.data.types]
+                'name': val.data.name,
+                'operand_types': [x.serialize() for x in val.data.types]
             }
     else:
         assert False
@@ -61,10 +61,10 @@ def deserialize(typ, val):
     elif typ is Version:
         return Version(val['x'])
     elif typ is cqasm.v3x.instruction.InstructionRef:
-        if 'n' in val:
+        if 'name' in val:
             return cqasm.v3x.instruction.InstructionRef(
-                val['n'],
-                [cqasm.v3x.types.Node.deserialize(x) for x in val['t']]
+                deserialize(Str, {'x': val['name']}),
+                [cqasm.v3x.types.Node.deserialize(x) for x in val['operand_types']]
             )
         else:
             return cqasm.v3x.instruction.InstructionRef()
-- 
2.43.0


From 055021929747fd66e6ccc8387ce1076a0c9e135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 04/18] fix: never leave an incomplete ANTLR jar file behind

---
 scripts/generate_antlr_parser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scripts/generate_antlr_parser.py b/scripts/generate_antlr_parser.py
index 63fb8b9..4eec478 100644
--- a/scripts/generate_antlr_parser.py
+++ b/scripts/generate_antlr_parser.py
@@ -1,7 +1,7 @@
 #!/usr/bin/env python3
 
+from http.client import HTTPException
 from urllib.request import urlopen
-from urllib import error
 
 import logging
 import os
@@ -37,15 +37,21 @@ class AntlrJarFileDownloader:
     @classmethod
     def download_antlr_jar_file(cls):
         url = "https://repo1.maven.org/maven2/org/antlr/antlr4/{}/{}".format(cls.file_version, cls.file_name)
+        # Only a complete file gets the final name: an interrupted run must not leave a broken jar file behind
+        partial_file_path = "{}.{}.part".format(cls.file_path, os.getpid())
         try:
             logging.info("Downloading ANTLR jar file from '{}'".format(url))
             with urlopen(url) as response:
                 logging.info("Writing ANTLR jar file to '{}'".format(cls.file_path))
-                with open(cls.file_path, "wb") as f:
+                with open(partial_file_path, "wb") as f:
                     f.write(response.read())
-        except error.URLError as err:
-            logging.error("Error downloading ANTLR jar file: {}".format(err.strerror))
+            os.replace(partial_file_path, cls.file_path)
+        except (HTTPException, OSError) as err:
+            logging.error("Error downloading ANTLR jar file: {}".format(err))
             exit(3)
+        finally:
+            if os.path.exists(partial_file_path):
+                os.remove(partial_file_path)
 
     @classmethod
     def get_antlr_jar_file_path(cls):
-- 
2.43.0


From cfc2989587c8179fc1f268d3da52cfcaed5ec22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 05/18] fix: reject a downloaded ANTLR jar file whose end is
 missing

---
 scripts/generate_antlr_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/generate_antlr_parser.py b/scripts/generate_antlr_parser.py
index 4eec478..9477b71 100644
--- a/scripts/generate_antlr_parser.py
+++ b/scripts/generate_antlr_parser.py
@@ -9,6 +9,7 @@ import shutil
 import subprocess
 import sys
 import tempfile
+import zipfile
 
 
 def print_usage():
@@ -45,6 +46,8 @@ class AntlrJarFileDownloader:
                 logging.info("Writing ANTLR jar file to '{}'".format(cls.file_path))
                 with open(partial_file_path, "wb") as f:
                     f.write(response.read())
+            if not zipfile.is_zipfile(partial_file_path):
+                raise OSError("the downloaded file is not complete")
             os.replace(partial_file_path, cls.file_path)
         except (HTTPException, OSError) as err:
             logging.error("Error downloading ANTLR jar file: {}".format(err))
-- 
2.43.0


From 9ef4d1f6f516e091699c9ebd660da4ed30f6eb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 06/18] fix: give semantic variables the location of their
 declaration

---
 src/v3x/semantic_analyzer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index 5645992..a180f84 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -101,12 +101,12 @@ std::any SemanticAnalyzer::visit_variable(syntactic::Variable& node) {
         auto type = build_semantic_type(node.typ);
 
         // Construct variable
-        // Use the location tag of the identifier to record where the variable was defined
+        // Use the location tag of the variable, i.e., that of its identifier, to record where it was defined
         const auto& identifier = node.name;
         ret->name = identifier->name;
         ret->typ = type.clone();
         ret->annotations = std::any_cast<tree::Any<semantic::AnnotationData>>(visit_annotated(*node.as_annotated()));
-        ret->copy_annotation<parser::SourceLocation>(*identifier);
+        ret->copy_annotation<parser::SourceLocation>(node);
 
         // Add the variable to the current scope
         analyzer_.add_variable_to_current_scope(ret);
-- 
2.43.0


From 91107a9c6a0f9b167625470298ca949721b70f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 07/18] fix: report input that is not valid UTF-8 as a parse
 error

---
 src/v3x/parse_helper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v3x/parse_helper.cpp b/src/v3x/parse_helper.cpp
index 016d6c3..0d3c0ea 100644
--- a/src/v3x/parse_helper.cpp
+++ b/src/v3x/parse_helper.cpp
@@ -54,7 +54,8 @@ ParseResult ParseHelper::parse() {
         result = scanner_up_->parse();
     } catch (error::AnalysisError& err) {
         result.errors.push_back(std::move(err));
-    } catch (const std::runtime_error& err) {
+    } catch (const std::exception& err) {
+        // ANTLR exceptions, e.g., for input that is not valid UTF-8, do not derive from std::runtime_error
         result.errors.emplace_back(err.what());
     }
 
-- 
2.43.0


From b7297fc21c7bd111764d3c5f5785c07492660f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 08/18] fix: report an integer division by zero in a constant
 expression as an error

---
 .../v3x/register_consteval_core_functions.hpp | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/libqasm/v3x/register_consteval_core_functions.hpp b/include/libqasm/v3x/register_consteval_core_functions.hpp
index 9845d22..8112bf3 100644
--- a/include/libqasm/v3x/register_consteval_core_functions.hpp
+++ b/include/libqasm/v3x/register_consteval_core_functions.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cmath>
+#include <cstdint>  // uint64_t
 #include <functional>
 #include <numeric>
 
@@ -15,9 +16,9 @@ namespace primitives = cqasm::v3x::primitives;
  * - There are not functions operating on complex types yet
  * - There are not functions operating on string types yet
  * - op_int_div_ii has been renamed to op_div_ii (integer division)
- * - op_div_ii is implemented using std::divides, not div_floor
- * - op_mod_ii is implemented using std::modulus, not mod_floor
- *   Whereas mod_floor keeps the sign of the divisor, std::modulus keeps the sign of the dividend
+ * - op_div_ii is implemented using the built-in division, not div_floor
+ * - op_mod_ii is implemented using the built-in modulo, not mod_floor
+ *   Whereas mod_floor keeps the sign of the divisor, the built-in modulo keeps the sign of the dividend
  * - op_sra_ii has been renamed to op_shr_ii (shift right arithmetic)
  * - op_srl_ii (shift right logic) has been dropped
  */
@@ -83,8 +84,23 @@ constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, std::minus{
 constexpr auto op_mul_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::multiplies{}>{};
 constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, std::multiplies{}>{};
 constexpr auto op_div_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::divides{}>{};
-constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, std::divides{}>{};
-constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, std::modulus{}>{};
+
+// Dividing by zero is an error.
+// Dividing the lowest integer by -1 overflows, so dividing by -1 is not left to the built-in operators.
+inline constexpr auto div_ii = [](primitives::Int a, primitives::Int b) -> primitives::Int {
+    if (b == 0) {
+        throw error::AnalysisError{ "integer division by zero" };
+    }
+    return (b == -1) ? static_cast<primitives::Int>(0 - static_cast<std::uint64_t>(a)) : a / b;
+};
+inline constexpr auto mod_ii = [](primitives::Int a, primitives::Int b) -> primitives::Int {
+    if (b == 0) {
+        throw error::AnalysisError{ "integer modulo by zero" };
+    }
+    return (b == -1) ? 0 : a % b;
+};
+constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, div_ii>{};
+constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, mod_ii>{};
 
 inline constexpr auto pow = [](auto base, auto exp) { return std::pow(base, exp); };
 constexpr auto op_pow_ff = bf_cp<values::ConstFloat, values::ConstFloat, pow>{};
-- 
2.43.0


From 5f2b6e1993b0a6e20a9624a3631a5f8c3206ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 09/18] fix: report an index of a constant as an error

---
 src/v3x/semantic_analyzer.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index a180f84..b68c7dd 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -577,18 +577,17 @@ void check_out_of_range(const IndexListT& indices, primitives::Int size) {
 std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
     try {
         auto expression = std::any_cast<values::Value>(visit_expression(*node.expr));
-        auto variable_ref_ptr = expression->as_variable_ref();
-        const auto variable_link = variable_ref_ptr->variable;
-        const auto variable_type = variable_link->typ;
-        if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {
-            auto indices = std::any_cast<IndexListT>(visit_index_list(*node.indices));
-            check_out_of_range(indices, types::size_of(variable_type));
-            auto ret = tree::make<values::IndexRef>(variable_link, indices);
-            return values::Value{ ret };
-        } else {
+        const auto variable_ref_ptr = expression->as_variable_ref();
+        if (!variable_ref_ptr ||
+            !(variable_ref_ptr->variable->typ->as_qubit_array() || variable_ref_ptr->variable->typ->as_bit_array())) {
             throw error::AnalysisError{ fmt::format(
                 "indexation is not supported for value of type '{}'", values::type_of(expression)) };
         }
+        const auto variable_link = variable_ref_ptr->variable;
+        auto indices = std::any_cast<IndexListT>(visit_index_list(*node.indices));
+        check_out_of_range(indices, types::size_of(variable_link->typ));
+        auto ret = tree::make<values::IndexRef>(variable_link, indices);
+        return values::Value{ ret };
     } catch (error::AnalysisError& err) {
         err.context(node);
         throw;
-- 
2.43.0


From 9bc1e5ee96cdc9a50905a447839dc47a202b5992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 10/18] fix: do not expand an index range beyond the array

---
 include/libqasm/v3x/semantic_analyzer.hpp |  5 +++++
 src/v3x/semantic_analyzer.cpp             | 11 ++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/libqasm/v3x/semantic_analyzer.hpp b/include/libqasm/v3x/semantic_analyzer.hpp
index 0260b4c..b3786de 100644
--- a/include/libqasm/v3x/semantic_analyzer.hpp
+++ b/include/libqasm/v3x/semantic_analyzer.hpp
@@ -21,6 +21,11 @@ protected:
     Analyzer& analyzer_;
     AnalysisResult result_;
 
+    /**
+     * Size of the array that is being indexed.
+     */
+    primitives::Int indexed_array_size_ = 0;
+
 public:
     explicit SemanticAnalyzer(Analyzer& analyzer);
 
diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index b68c7dd..3e59adc 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>  // any_of, for_each, transform
 #include <any>
 #include <iterator>  // back_inserter
+#include <utility>  // exchange
 
 #include "libqasm/v3x/analyzer.hpp"
 #include "libqasm/v3x/instruction.hpp"
@@ -584,8 +585,10 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
                 "indexation is not supported for value of type '{}'", values::type_of(expression)) };
         }
         const auto variable_link = variable_ref_ptr->variable;
+        const auto outer_array_size = std::exchange(indexed_array_size_, types::size_of(variable_link->typ));
         auto indices = std::any_cast<IndexListT>(visit_index_list(*node.indices));
-        check_out_of_range(indices, types::size_of(variable_link->typ));
+        check_out_of_range(indices, indexed_array_size_);
+        indexed_array_size_ = outer_array_size;
         auto ret = tree::make<values::IndexRef>(variable_link, indices);
         return values::Value{ ret };
     } catch (error::AnalysisError& err) {
@@ -628,6 +631,12 @@ std::any SemanticAnalyzer::visit_index_range(syntactic::IndexRange& index_range_
         auto index_value_sp = tree::make<IndexT>(index);
         index_value_sp->copy_annotation<parser::SourceLocation>(index_range_ast);
         ret.add(index_value_sp);
+
+        // Do not expand the range any further than its first index that is out of range
+        // The out of range check on the list of indices will report that one
+        if (index < 0 || index >= indexed_array_size_) {
+            break;
+        }
     }
     return ret;
 }
-- 
2.43.0


From 7b621824ce45aaf811614fa347002b83570886eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 11/18] fix: leave the analyzer unchanged by an analysis

---
 src/v3x/analyzer.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/v3x/analyzer.cpp b/src/v3x/analyzer.cpp
index 74a1371..6480e87 100644
--- a/src/v3x/analyzer.cpp
+++ b/src/v3x/analyzer.cpp
@@ -9,6 +9,7 @@
 #include <memory>  // make_unique
 #include <numbers>
 #include <stdexcept>  // runtime_error
+#include <utility>  // move
 
 #include "libqasm/error.hpp"
 #include "libqasm/v3x/core_function.hpp"
@@ -81,10 +82,40 @@ void Analyzer::register_default_instructions() {
     instruction::register_instructions(this);
 }
 
+/**
+ * Lets an analysis add variables and statements to a scope, and takes them out of it again at the end,
+ * so that the analyzer is left as it was, and the result is not changed by the next analysis.
+ */
+class ScopeRestorer {
+    Scope& scope_;
+    resolver::VariableTable variable_table_;
+    tree::One<semantic::Block> block_;
+    tree::Any<semantic::Variable> variables_;
+
+public:
+    explicit ScopeRestorer(Scope& scope)
+    : scope_{ scope }
+    , variable_table_{ scope.variable_table }
+    , block_{ scope.block }
+    , variables_{ scope.variables } {
+        scope_.block = tree::make<semantic::Block>();
+        scope_.block->statements = block_->statements;
+        scope_.block->copy_annotation<parser::SourceLocation>(*block_);
+    }
+    ScopeRestorer(const ScopeRestorer&) = delete;
+    ScopeRestorer& operator=(const ScopeRestorer&) = delete;
+    ~ScopeRestorer() {
+        scope_.variable_table = std::move(variable_table_);
+        scope_.block = std::move(block_);
+        scope_.variables = std::move(variables_);
+    }
+};
+
 /**
  * Analyzes the given AST.
  */
 AnalysisResult Analyzer::analyze(syntactic::Program& ast) {
+    const ScopeRestorer scope_restorer{ current_scope() };
     auto analyze_visitor_up = std::make_unique<SemanticAnalyzer>(*this);
     auto result = std::any_cast<AnalysisResult>(analyze_visitor_up->visit_program(ast));
     if (result.errors.empty()) {
-- 
2.43.0


From 450ffb807e689848af841ac0660f362ef5550182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:39 +0000
Subject: [PATCH 12/18] fix: do not match version numbers with a recursive
 regular expression

A version number of some 10000 digits overflowed the stack.
---
 src/v3x/syntactic_analyzer.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/v3x/syntactic_analyzer.cpp b/src/v3x/syntactic_analyzer.cpp
index b781aa1..ca05913 100644
--- a/src/v3x/syntactic_analyzer.cpp
+++ b/src/v3x/syntactic_analyzer.cpp
@@ -5,7 +5,6 @@
 #include <algorithm>  // for_each
 #include <cassert>  // assert
 #include <cstdint>  // uint32_t
-#include <regex>
 #include <stdexcept>  // runtime_error
 #include <string>  // stod, stoll
 
@@ -139,13 +138,13 @@ std::any SyntacticAnalyzer::visitVersion(CqasmParser::VersionContext* context) {
     auto ret = tree::make<Version>();
     const auto token = context->VERSION_NUMBER()->getSymbol();
     const auto& text = context->VERSION_NUMBER()->getText();
-    const std::regex pattern{ "([0-9]+)(?:\\.([0-9]+))?" };
-    std::smatch matches{};
-    std::regex_match(text, matches, pattern);
-    ret->items.push_back(get_int_value(token->getLine(), token->getCharPositionInLine(), matches[1]));
-    if (matches[2].matched) {
-        ret->items.push_back(
-            get_int_value(token->getLine(), token->getCharPositionInLine() + matches.position(2), matches[2]));
+    // A version number is a sequence of digits, optionally followed by a dot and another sequence of digits
+    const auto dot_position = text.find('.');
+    ret->items.push_back(get_int_value(token->getLine(), token->getCharPositionInLine(), text.substr(0, dot_position)));
+    if (dot_position != std::string::npos) {
+        ret->items.push_back(get_int_value(token->getLine(),
+            token->getCharPositionInLine() + dot_position + 1,
+            text.substr(dot_position + 1)));
     }
     setNodeAnnotation(ret, token);
     return ret;
-- 
2.43.0


From 03ade838c74084838efda5ed666abeb6592f5814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:45 +0000
Subject: [PATCH 13/18] fix: fold case and encode URLs the same in every locale

---
 src/utils.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index edec558..6178b14 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -8,7 +8,6 @@
 
 #include <algorithm>  // for_each
 #include <cassert>  // assert
-#include <cctype>  // isalnum, tolower, toupper
 #include <range/v3/algorithm/equal.hpp>
 #include <range/v3/range/conversion.hpp>  // to
 #include <range/v3/view/transform.hpp>
@@ -16,6 +15,16 @@
 
 namespace cqasm::utils {
 
+/**
+ * Counterparts of std::tolower and std::isalnum that do not depend on the locale of the program.
+ */
+static constexpr unsigned char to_lowercase(unsigned char c) {
+    return (c >= 'A' && c <= 'Z') ? static_cast<unsigned char>(c - 'A' + 'a') : c;
+}
+static constexpr bool is_alphanumeric(unsigned char c) {
+    return (c >= '0' && c <= '9') || (to_lowercase(c) >= 'a' && to_lowercase(c) <= 'z');
+}
+
 // clang-format off
 
 /**
@@ -23,7 +32,7 @@ namespace cqasm::utils {
 */
 std::string to_lowercase(const std::string &name) {
     return name
-        | ranges::views::transform([](unsigned char c) { return std::tolower(c); })
+        | ranges::views::transform([](unsigned char c) { return to_lowercase(c); })
         | ranges::to<std::string>();
 }
 
@@ -32,7 +41,7 @@ std::string to_lowercase(const std::string &name) {
  */
 bool equal_case_insensitive(const std::string &lhs, const std::string &rhs) {
     return ranges::equal(lhs, rhs, [](unsigned char l, unsigned char r) {
-        return std::tolower(l) == std::tolower(r);
+        return to_lowercase(l) == to_lowercase(r);
     });
 }
 
@@ -42,7 +51,7 @@ bool equal_case_insensitive(const std::string &lhs, const std::string &rhs) {
 std::string url_encode(const std::string &str) {
     auto ret = std::string{};
     std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
-        ret += (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~')
+        ret += (is_alphanumeric(c) || c == '-' || c == '_' || c == '.' || c == '~')
             ? std::string{ static_cast<char>(c) }
             : fmt::format("%{:02X}", static_cast<unsigned int>(c));
     });
-- 
2.43.0


From 1563e76db78c20cee09c25cacd41d9fc6b1f58a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:45 +0000
Subject: [PATCH 14/18] fix: read float literals the same in every locale

---
 src/v3x/syntactic_analyzer.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/v3x/syntactic_analyzer.cpp b/src/v3x/syntactic_analyzer.cpp
index ca05913..fe9f89a 100644
--- a/src/v3x/syntactic_analyzer.cpp
+++ b/src/v3x/syntactic_analyzer.cpp
@@ -5,8 +5,11 @@
 #include <algorithm>  // for_each
 #include <cassert>  // assert
 #include <cstdint>  // uint32_t
-#include <stdexcept>  // runtime_error
-#include <string>  // stod, stoll
+#include <limits>
+#include <locale>
+#include <sstream>  // istringstream
+#include <stdexcept>  // out_of_range, runtime_error
+#include <string>  // stoll
 
 #include "libqasm/annotations.hpp"
 #include "libqasm/tree.hpp"
@@ -67,6 +70,21 @@ void SyntacticAnalyzer::copyNodeAnnotation(
     to->copy_annotation<annotations::SourceLocation>(*from);
 }
 
+/**
+ * Counterpart of std::stod for float literals that does not depend on the locale of the program.
+ */
+static double to_double(const std::string& text) {
+    auto stream = std::istringstream{ text };
+    stream.imbue(std::locale::classic());
+    double value{};
+    stream >> value;
+    const auto is_zero = text.find_first_of("123456789") >= text.find_first_of("eE");
+    if (stream.fail() || (value < std::numeric_limits<double>::min() && !is_zero)) {
+        throw std::out_of_range{ "to_double" };
+    }
+    return value;
+}
+
 std::int64_t SyntacticAnalyzer::get_int_value(
     size_t line, size_t char_position_in_line, const std::string& text) const {
     try {
@@ -79,7 +97,7 @@ std::int64_t SyntacticAnalyzer::get_int_value(
 
 double SyntacticAnalyzer::get_float_value(size_t line, size_t char_position_in_line, const std::string& text) const {
     try {
-        return std::stod(text);
+        return to_double(text);
     } catch (std::out_of_range&) {
         syntaxError(line, char_position_in_line, fmt::format("value '{}' is out of the FLOAT_LITERAL range", text));
     }
-- 
2.43.0


From ff26ac6664d1f688922ec93479b000f1cb176038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:45 +0000
Subject: [PATCH 15/18] fix: write source locations the same in every locale

---
 src/annotations.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/annotations.cpp b/src/annotations.cpp
index 73f4817..642e6f0 100644
--- a/src/annotations.cpp
+++ b/src/annotations.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>  // min, max
 #include <iostream>
+#include <string>  // to_string
 
 #include "libqasm/annotations_constants.hpp"
 
@@ -49,28 +50,28 @@ std::ostream& operator<<(std::ostream& os, const SourceLocation& object) {
     }
 
     // Print line number.
-    os << ":" << object.range.first.line;
+    os << ":" << std::to_string(object.range.first.line);
 
     // Special case for when only line numbers are known.
     if (!object.range.first.column) {
         // Print last line too, if greater.
         if (object.range.last.line > object.range.first.line) {
-            os << ".." << object.range.last.line;
+            os << ".." << std::to_string(object.range.last.line);
         }
         return os;
     }
 
     // Print column.
-    os << ":" << object.range.first.column;
+    os << ":" << std::to_string(object.range.first.column);
 
     if (object.range.last.line == object.range.first.line) {
         // Range is on a single line. Only repeat the column number.
         if (object.range.last.column > object.range.first.column) {
-            os << ".." << object.range.last.column;
+            os << ".." << std::to_string(object.range.last.column);
         }
     } else if (object.range.last.line > object.range.first.line) {
         // Range is on multiple lines. Repeat both line and column number.
-        os << ".." << object.range.last.line << ":" << object.range.last.column;
+        os << ".." << std::to_string(object.range.last.line) << ":" << std::to_string(object.range.last.column);
     }
 
     return os;
-- 
2.43.0


From 4a30bec5f3dee877ec15cde13d9741b7a8efbb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:15 +0000
Subject: [PATCH 16/18] fix: do not copy in the noexcept moves of an overload

---
 include/libqasm/overload.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libqasm/overload.hpp b/include/libqasm/overload.hpp
index bb5319b..4abdd9e 100644
--- a/include/libqasm/overload.hpp
+++ b/include/libqasm/overload.hpp
@@ -42,7 +42,7 @@ public:
     , param_types{ other.param_types } {}
     Overload(Overload&& other) noexcept
     : tag{ std::move(other.tag) }
-    , param_types{ other.param_types } {}
+    , param_types{ std::move(other.param_types) } {}
     Overload& operator=(const Overload& other) {
         tag = other.tag;
         param_types = other.param_types;
@@ -50,7 +50,7 @@ public:
     }
     Overload& operator=(Overload&& other) noexcept {
         tag = std::move(other.tag);
-        param_types = other.param_types;
+        param_types = std::move(other.param_types);
         return *this;
     }
 
-- 
2.43.0


From 8fd4a9e0f68cec6f875c6e1d3fe73bd17fef523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:15 +0000
Subject: [PATCH 17/18] fix: do not end the process when memory runs out in
 Error::what()

---
 src/error.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index 9274c03..00f4e96 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -56,9 +56,14 @@ void Error::context(const tree::Annotatable& node) {
  * Returns the exception-style message.
  */
 const char* Error::what() const noexcept {
-    what_message_ = fmt::format("Error{}: {}",
-        location_ ? fmt::format(" at {}", *location_) : std::string{},
-        !message_.empty() ? message_ : unknown_error_message);
+    try {
+        what_message_ = fmt::format("Error{}: {}",
+            location_ ? fmt::format(" at {}", *location_) : std::string{},
+            !message_.empty() ? message_ : unknown_error_message);
+    } catch (const std::exception&) {
+        // Out of memory: this function cannot throw
+        return std::runtime_error::what();
+    }
     return what_message_.c_str();
 }
 
-- 
2.43.0


From c074b7d3614630a319475cb857e6d3c89f8b4d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:15 +0000
Subject: [PATCH 18/18] fix: leave the scopes of an analyzer as they were when
 memory runs out

---
 src/v3x/analyzer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/v3x/analyzer.cpp b/src/v3x/analyzer.cpp
index 6480e87..49d0cb0 100644
--- a/src/v3x/analyzer.cpp
+++ b/src/v3x/analyzer.cpp
@@ -98,9 +98,10 @@ public:
     , variable_table_{ scope.variable_table }
     , block_{ scope.block }
     , variables_{ scope.variables } {
-        scope_.block = tree::make<semantic::Block>();
-        scope_.block->statements = block_->statements;
-        scope_.block->copy_annotation<parser::SourceLocation>(*block_);
+        auto block = tree::make<semantic::Block>();
+        block->statements = block_->statements;
+        block->copy_annotation<parser::SourceLocation>(*block_);
+        scope_.block = std::move(block);
     }
     ScopeRestorer(const ScopeRestorer&) = delete;
     ScopeRestorer& operator=(const ScopeRestorer&) = delete;
@@ -162,8 +163,9 @@ AnalysisResult Analyzer::analyze_string(const std::string& data, const std::opti
  * Pushes a new empty scope to the top of the scope stack.
  */
 void Analyzer::push_scope() {
+    auto block = tree::make<semantic::Block>();
     scope_stack_.emplace_front();
-    current_scope().block = tree::make<semantic::Block>();
+    current_scope().block = std::move(block);
 }
 
 /**
-- 
2.43.0

