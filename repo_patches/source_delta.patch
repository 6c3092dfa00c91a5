From c31ae04705ab161fe23ac3b2c16ce6c1fd7b39f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 01/48] fix: a trailing comment no longer swallows the line
 break after it

---
 src/lexer/lexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index e461e40..e11ccbf 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -55,8 +55,8 @@ const std::vector<Token*> Lexer::makeTokens() {
             if (idx >= expr->size() || currentChar != '/') {
                 tokens.emplace_back(new Token(TokenType::SLASH, line, column));
             } else {
-                int commentLine = line;
-                while (line == commentLine && idx < expr->size()) advance();
+                // Stop at the line break: it still ends the statement before the comment
+                while (idx < expr->size() && currentChar != '\n') advance();
             }
             continue;
         } else if (currentChar == '(') {
-- 
2.43.0


From 8d2726c6538774e033f2c49b13c6a53744e9585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 02/48] fix: "<digits>//<digits>" is a number and a comment,
 not a date without a month

---
 src/lexer/symbolLexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/symbolLexer.cpp b/src/lexer/symbolLexer.cpp
index 7f1ad71..a89686f 100644
--- a/src/lexer/symbolLexer.cpp
+++ b/src/lexer/symbolLexer.cpp
@@ -186,7 +186,7 @@ void Lexer::makeNumber() {
     int i = 0;
     char c = getNextChar(i);
     while (isdigit(c = getNextChar(++i))) {}
-    if (c != '/' || !isdigit(c = getNextChar(++i))) return;
+    if (i == 1 || c != '/' || !isdigit(c = getNextChar(++i))) return;
 
     for (int j = 0; j < i; j++) advance();
     while (isdigit(currentChar) && idx < expr->size()) advance();
-- 
2.43.0


From 6d2161d9f8ca59da28671ba87cca2d0465240404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 03/48] fix: a tab separates an I/O statement keyword from '('
 like a space does

---
 src/lexer/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index e11ccbf..fa9e56e 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -60,7 +60,7 @@ const std::vector<Token*> Lexer::makeTokens() {
             }
             continue;
         } else if (currentChar == '(') {
-            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ') {
+            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ' && (*expr)[idx-1] != '\t') {
                 TokenType t = tokens[tokens.size()-1]->type;
                 if (t == TokenType::INPUT) {
                     throw PSC::LexerError(line, column, "Unexpected '('\n'INTPUT' is statement(not a function) used as 'INPUT <var>' where <var> is a variable to store the input");
-- 
2.43.0


From 8f2b65f8333f6ae50a42b27a14f74fa9a298a103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 04/48] fix: allow blank and comment lines inside a record type
 definition

---
 src/parser/userType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/userType.cpp b/src/parser/userType.cpp
index df62671..b4a3691 100644
--- a/src/parser/userType.cpp
+++ b/src/parser/userType.cpp
@@ -59,13 +59,14 @@ Node *Parser::parseComposite(const Token &token, const Token &identifier) {
     PSC::Block *block = new PSC::Block();
     blocks.emplace_back(block);
 
+    while (currentToken->type == TokenType::LINE_END) advance();
     while (currentToken->type == TokenType::DECLARE) {
         Node *declareNode = parseDeclareExpression();
         block->addNode(declareNode);
 
         if (currentToken->type != TokenType::LINE_END)
             throw PSC::ExpectedTokenError(*currentToken, "newline");
-        advance();
+        while (currentToken->type == TokenType::LINE_END) advance();
     }
 
     if (currentToken->type != TokenType::ENDTYPE)
-- 
2.43.0


From bb1749ed4cff99748001eea8b1a1f3b27f2bc1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 05/48] fix: report number literals that are out of range
 instead of terminating

---
 src/nodes/eval/arithmetic.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 86f63e6..299671b 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -3,15 +3,26 @@
 #include "pch.h"
 
 #include <chrono>
+#include <cmath>
+#include <cstdlib>
 #include <memory>
+#include <stdexcept>
 #include "psc/error.h"
 #include "nodes/eval/arithmetic.h"
 #include "psc/types/datatypes.h"
 #include "psc/types/type_definitions.h"
 #include "psc/types/types.h"
 
+static PSC::int_t makeInteger(const Token &token) {
+    try {
+        return std::stol(token.value);
+    } catch (const std::out_of_range&) {
+        throw PSC::SyntaxError(token, "Integer literal is out of range");
+    }
+}
+
 IntegerNode::IntegerNode(const Token &token)
-    : Node(token), valueInt(std::stol(token.value))
+    : Node(token), valueInt(makeInteger(token))
 {}
 
 std::unique_ptr<NodeResult> IntegerNode::evaluate(PSC::Context&) {
@@ -19,8 +30,15 @@ std::unique_ptr<NodeResult> IntegerNode::evaluate(PSC::Context&) {
 }
 
 
+static PSC::real_t makeReal(const Token &token) {
+    PSC::real_t value = std::strtod(token.value.c_str(), nullptr);
+    if (std::isinf(value))
+        throw PSC::SyntaxError(token, "Real literal is out of range");
+    return value;
+}
+
 RealNode::RealNode(const Token &token)
-    : Node(token), valueReal(std::stod(token.value))
+    : Node(token), valueReal(makeReal(token))
 {}
 
 std::unique_ptr<NodeResult> RealNode::evaluate(PSC::Context&) {
-- 
2.43.0


From d0360def44740a43bb953db6501426a4e2a8cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 06/48] fix: report a cast to DATE instead of aborting

---
 src/parser/parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index 8446c90..88dce82 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -17,6 +17,8 @@ PSC::DataType Parser::getPSCType() {
         return PSC::DataType::CHAR;
     } else if (currentToken->value == "STRING") {
         return PSC::DataType::STRING;
+    } else if (currentToken->value == "DATE") {
+        return PSC::DataType::DATE;
     } else {
         std::abort();
     }
-- 
2.43.0


From 17636a839909c907a058a2be9859a9f0ec302c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 07/48] fix: date components outside the calendar no longer
 wrap into a valid date

---
 src/nodes/eval/arithmetic.cpp     |  9 +++++----
 src/psc/builtinFunctions/date.cpp | 10 +++++-----
 src/psc/types/date.cpp            | 15 +++++++++++++++
 src/psc/types/types.h             |  3 +++
 4 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 299671b..9b7d844 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -76,11 +76,12 @@ inline PSC::Date makeDate(const std::string &dateStr) {
         else yearStr += c;
     }
 
-    std::chrono::day day(std::stoul(dayStr));
-    std::chrono::month month(std::stoul(monthStr));
-    std::chrono::year year(std::stoul(yearStr));
+    // strtol() saturates, which keeps an out of range component out of range
+    PSC::int_t day = std::strtol(dayStr.c_str(), nullptr, 10);
+    PSC::int_t month = std::strtol(monthStr.c_str(), nullptr, 10);
+    PSC::int_t year = std::strtol(yearStr.c_str(), nullptr, 10);
 
-    return PSC::Date(std::chrono::year_month_day(year, month, day));
+    return PSC::Date(PSC::Date::makeDate(day, month, year));
 }
 
 DateNode::DateNode(const Token &token)
diff --git a/src/psc/builtinFunctions/date.cpp b/src/psc/builtinFunctions/date.cpp
index a24dc1b..2564ffa 100644
--- a/src/psc/builtinFunctions/date.cpp
+++ b/src/psc/builtinFunctions/date.cpp
@@ -90,11 +90,11 @@ void PSC::BuiltinFnSETDATE::run(PSC::Context &ctx) {
     PSC::Variable *yearVar = ctx.getVariable("Year");
     if (yearVar == nullptr || yearVar->type != PSC::DataType::INTEGER) std::abort();
 
-    day day(dayVar->get<PSC::Integer>().value);
-    month month(monthVar->get<PSC::Integer>().value);
-    year year(yearVar->get<PSC::Integer>().value);
-
-    year_month_day ymd(year, month, day);
+    year_month_day ymd = PSC::Date::makeDate(
+        dayVar->get<PSC::Integer>().value,
+        monthVar->get<PSC::Integer>().value,
+        yearVar->get<PSC::Integer>().value
+    );
     if (!ymd.ok())
         throw PSC::RuntimeError(PSC::errToken, ctx, "Invalid Date!");
 
diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index da4421e..818496e 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -7,6 +7,21 @@ using namespace PSC;
 Date::Date(std::chrono::year_month_day date)
     : date(date) {}
 
+std::chrono::year_month_day Date::makeDate(int_t day, int_t month, int_t year) {
+    // std::chrono stores the components in narrower types
+    bool inRange = day >= 1 && day <= 31
+        && month >= 1 && month <= 12
+        && year >= static_cast<int>(std::chrono::year::min())
+        && year <= static_cast<int>(std::chrono::year::max());
+    if (!inRange) day = month = year = 0;
+
+    return std::chrono::year_month_day(
+        std::chrono::year(static_cast<int>(year)),
+        std::chrono::month(static_cast<unsigned int>(month)),
+        std::chrono::day(static_cast<unsigned int>(day))
+    );
+}
+
 std::unique_ptr<Integer> Date::toInteger() const {
     unsigned int day = static_cast<unsigned int>(date.day());
     unsigned int month = static_cast<unsigned int>(date.month());
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 0221de6..42c3627 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -244,6 +244,9 @@ namespace PSC {
 
         Date(std::chrono::year_month_day date);
 
+        // The result is not ok() unless it is exactly the given day, month and year
+        static std::chrono::year_month_day makeDate(int_t day, int_t month, int_t year);
+
         Date(const Date&) = default;
 
         Date &operator=(const Date &other) = default;
-- 
2.43.0


From 9b9e4dfcc751018b15c1ac19e67da7ecf8fa6a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 08/48] fix: DIV and MOD of the smallest INTEGER by -1 no
 longer trap

---
 src/psc/types/numeric.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/numeric.cpp b/src/psc/types/numeric.cpp
index cc023a4..02707b7 100644
--- a/src/psc/types/numeric.cpp
+++ b/src/psc/types/numeric.cpp
@@ -118,7 +118,9 @@ real_t modReal(real_t x, real_t y) {
 std::unique_ptr<Number> Number::operator%(const Number &other) const {
     int type = mergeType(real, other.real);
     if (type == mergeType(false, false)) { // int, int
-        int_t x = ((Integer*) this)->value % (Integer&) other;
+        int_t divisor = (Integer&) other;
+        // INT_MIN % -1 traps
+        int_t x = divisor == -1 ? 0 : ((Integer*) this)->value % divisor;
         return std::make_unique<Integer>(x);
     }
 
@@ -142,7 +144,11 @@ std::unique_ptr<Number> Number::operator%(const Number &other) const {
 std::unique_ptr<Number> Number::operator|(const Number &other) const {
     int type = mergeType(real, other.real);
     if (type == mergeType(false, false)) { // int, int
-        int_t x = ((Integer*) this)->value / (Integer&) other;
+        int_t divisor = (Integer&) other;
+        // INT_MIN / -1 traps, so negate (wrapping around) instead
+        int_t x = divisor == -1
+            ? (int_t) (0 - (unsigned long) ((Integer*) this)->value)
+            : ((Integer*) this)->value / divisor;
         return std::make_unique<Integer>(x);
     }
     
-- 
2.43.0


From 5051e571af2aa6e11c1d6a642d4762ea12480ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 09/48] fix: report expressions without a value used as an
 operand instead of crashing

---
 src/nodes/cast.cpp              | 3 +++
 src/nodes/eval/stringcat.cpp    | 3 +++
 src/nodes/variable/variable.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/nodes/cast.cpp b/src/nodes/cast.cpp
index ca1141f..5bcd40d 100644
--- a/src/nodes/cast.cpp
+++ b/src/nodes/cast.cpp
@@ -10,6 +10,9 @@ CastNode::CastNode(const Token &token, Node &node, PSC::DataType target)
 std::unique_ptr<NodeResult> CastNode::evaluate(PSC::Context &ctx) {
     auto value = node.evaluate(ctx);
 
+    if (value->type == PSC::DataType::NONE)
+        throw PSC::InvalidUsageError(token, ctx, "type cast, expected a value");
+
     if (!value->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "Cast");
     if (value->type == target) return value;
diff --git a/src/nodes/eval/stringcat.cpp b/src/nodes/eval/stringcat.cpp
index 6e3d971..89c416b 100644
--- a/src/nodes/eval/stringcat.cpp
+++ b/src/nodes/eval/stringcat.cpp
@@ -7,6 +7,9 @@ std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx)
     auto leftRes = left.evaluate(ctx);
     auto rightRes = right.evaluate(ctx);
 
+    if (leftRes->type == PSC::DataType::NONE || rightRes->type == PSC::DataType::NONE)
+        throw PSC::InvalidUsageError(token, ctx, "'&' operator, operands must have a value");
+
     if (!leftRes->data->isPrimitive() || !rightRes->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "'&'");
 
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index b287444..dd43a0b 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -89,6 +89,9 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
         
         if (pedantic)
             throw PSC::PedanticError(token, "Assigning to undeclared variable");
+
+        if (valueRes->type == PSC::DataType::NONE)
+            throw PSC::RuntimeError(token, ctx, "Expected a value for assignment");
         
         var = new PSC::Variable(simpleSource->getName(), valueRes->type, false, &ctx);
         ctx.addVariable(var);
-- 
2.43.0


From 71aa8960b100969fcd1efd64a1ccf564c60d9697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 10/48] fix: report casts of a DATE that have no meaning
 instead of aborting

---
 src/nodes/cast.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nodes/cast.cpp b/src/nodes/cast.cpp
index 5bcd40d..efdb1a9 100644
--- a/src/nodes/cast.cpp
+++ b/src/nodes/cast.cpp
@@ -17,6 +17,11 @@ std::unique_ptr<NodeResult> CastNode::evaluate(PSC::Context &ctx) {
         throw PSC::TypeOperationError(token, ctx, "Cast");
     if (value->type == target) return value;
 
+    if (value->type == PSC::DataType::DATE
+        && target != PSC::DataType::INTEGER
+        && target != PSC::DataType::STRING
+    ) throw PSC::InvalidUsageError(token, ctx, "type cast, DATE can only be converted to INTEGER or STRING");
+
     auto pvalue = static_cast<const PSC::Primitive*>(value->data.get());
 
     std::unique_ptr<PSC::Value> result;
-- 
2.43.0


From a24062147efb896db259e00b042c37aaf5e48ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 11/48] fix: enum arithmetic wraps correctly for any INTEGER
 and its result keeps the enum type

---
 src/nodes/eval/arithmetic.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 9b7d844..cfbbf44 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -149,13 +149,16 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
         const PSC::Enum &enumVal = leftRes->get<PSC::Enum>();
         const PSC::Integer &integer = rightRes->get<PSC::Integer>();
 
+        const PSC::EnumTypeDefinition &definition = enumVal.getDefinition(ctx);
+        PSC::int_t enumSize = definition.values.size();
+
         PSC::int_t left, right;
         if (enumSwap) {
-            left = integer.value;
+            left = integer.value % enumSize;
             right = enumVal.idx;
         } else {
             left = enumVal.idx;
-            right = integer.value;
+            right = integer.value % enumSize;
         }
 
         PSC::int_t res;
@@ -165,14 +168,12 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
             res = left - right;
         }
 
-        const PSC::EnumTypeDefinition &definition = enumVal.getDefinition(ctx);
-        std::size_t enumSize = definition.values.size();
         res %= enumSize;
         if (res < 0) res += enumSize;
 
         std::unique_ptr<PSC::Enum> resEnum = std::make_unique<PSC::Enum>(definition.name);
         resEnum->idx = res;
-        return std::make_unique<NodeResult>(std::move(resEnum), PSC::DataType::ENUM);
+        return std::make_unique<NodeResult>(std::move(resEnum), PSC::DataType(PSC::DataType::ENUM, &definition.name));
     }
 
     if ((leftRes->type != PSC::DataType::INTEGER && leftRes->type != PSC::DataType::REAL)
-- 
2.43.0


From 1264d6d362d84ebe4e6e58e8626db791d474517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 12/48] fix: the type of an enum literal no longer refers to
 the temporary value

---
 src/nodes/variable/variable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index dd43a0b..fb6b100 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -150,7 +150,8 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
     } catch (PSC::NotDefinedError &e) {
         auto def = ctx.getEnumElement(token.value);
         if (def != nullptr)
-            return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->definitionName));
+            // The name must outlive the value, as it can become the type of a new variable
+            return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->getDefinition(ctx).name));
         throw e;
     }
 
-- 
2.43.0


From 0a92bcfb3935e931aeaeb7022366d48edc98cd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 13/48] fix: an enum defined inside a procedure keeps its
 values in later calls

---
 src/nodes/variable/enum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/variable/enum.cpp b/src/nodes/variable/enum.cpp
index 6b26955..e02df70 100644
--- a/src/nodes/variable/enum.cpp
+++ b/src/nodes/variable/enum.cpp
@@ -11,7 +11,8 @@ std::unique_ptr<NodeResult> EnumDefineNode::evaluate(PSC::Context &ctx) {
     if (ctx.isIdentifierType(name, false))
         throw PSC::RedefinitionError(token, ctx, name.value);
 
-    PSC::EnumTypeDefinition definition(name.value, std::move(values));
+    // The definition can be evaluated again (e.g. inside a procedure), so keep the values
+    PSC::EnumTypeDefinition definition(name.value, std::vector<std::string>(values));
     ctx.createEnumDefinition(std::move(definition));
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
-- 
2.43.0


From 8d085e0bc486ebe9b302801f6afe779b019729d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 14/48] fix: user-defined types are told apart by definition,
 so local types work in records and next to global types of the same name

---
 src/psc/scope/context.cpp  | 40 +++++++++++++++++++++++++++++++++++++-
 src/psc/scope/context.h    | 10 ++++++++++
 src/psc/types/datatypes.h  |  2 +-
 src/psc/types/types.cpp    |  2 +-
 src/psc/types/types.h      |  6 +++---
 src/psc/types/userType.cpp | 21 ++++++++++----------
 6 files changed, 64 insertions(+), 17 deletions(-)

diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 6b64d51..61b6366 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -6,6 +6,14 @@
 
 using namespace PSC;
 
+template<typename T>
+const T *findDefinition(const std::vector<std::unique_ptr<T>> &definitions, const std::string &definitionName) {
+    for (const auto &d : definitions) {
+        if (&d->name == &definitionName) return d.get();
+    }
+    return nullptr;
+}
+
 Context::Context(Context *parent, const std::string &name)
     : Context(parent, name, false, PSC::DataType::NONE)
 {}
@@ -16,7 +24,13 @@ Context::Context(Context *parent, const std::string &name, bool isFunctionCtx, P
 
 Context::Context(Context *parent, const std::string &name, bool isCompositeCtx)
     : parent(parent), name(name), isFunctionCtx(false), isCompositeCtx(isCompositeCtx), returnType(PSC::DataType::NONE)
-{}
+{
+    if (!isCompositeCtx) return;
+
+    definitionCtx = parent;
+    while (definitionCtx->parent != nullptr && findDefinition(definitionCtx->composites, name) == nullptr)
+        definitionCtx = definitionCtx->parent;
+}
 
 template<typename T, typename... Args>
 void copyPtrVector(const std::vector<std::unique_ptr<T>> &source, std::vector<std::unique_ptr<T>> &dest, Args&&... args) {
@@ -255,6 +269,7 @@ void Context::createCompositeDefinition(CompositeTypeDefinition &&definition) {
 }
 
 const EnumTypeDefinition *Context::getEnumDefinition(const std::string &name, bool global) {
+    if (isCompositeCtx) return definitionCtx->getEnumDefinition(name, global);
     for (const auto &e : enums) {
         if (e->name == name) return e.get();
     }
@@ -263,6 +278,7 @@ const EnumTypeDefinition *Context::getEnumDefinition(const std::string &name, bo
 }
 
 const PointerTypeDefinition *Context::getPointerDefinition(const std::string &name, bool global) {
+    if (isCompositeCtx) return definitionCtx->getPointerDefinition(name, global);
     for (const auto &p : pointers) {
         if (p->name == name) return p.get();
     }
@@ -271,6 +287,7 @@ const PointerTypeDefinition *Context::getPointerDefinition(const std::string &na
 }
 
 const CompositeTypeDefinition *Context::getCompositeDefinition(const std::string &name, bool global) {
+    if (isCompositeCtx) return definitionCtx->getCompositeDefinition(name, global);
     for (const auto &c : composites) {
         if (c->name == name) return c.get();
     }
@@ -278,6 +295,27 @@ const CompositeTypeDefinition *Context::getCompositeDefinition(const std::string
     return nullptr;
 }
 
+const EnumTypeDefinition *Context::findEnumDefinition(const std::string &definitionName) const {
+    const EnumTypeDefinition *def = nullptr;
+    for (const Context *ctx = this; ctx != nullptr && def == nullptr; ctx = ctx->parent)
+        def = findDefinition(ctx->enums, definitionName);
+    return def;
+}
+
+const PointerTypeDefinition *Context::findPointerDefinition(const std::string &definitionName) const {
+    const PointerTypeDefinition *def = nullptr;
+    for (const Context *ctx = this; ctx != nullptr && def == nullptr; ctx = ctx->parent)
+        def = findDefinition(ctx->pointers, definitionName);
+    return def;
+}
+
+const CompositeTypeDefinition *Context::findCompositeDefinition(const std::string &definitionName) const {
+    const CompositeTypeDefinition *def = nullptr;
+    for (const Context *ctx = this; ctx != nullptr && def == nullptr; ctx = ctx->parent)
+        def = findDefinition(ctx->composites, definitionName);
+    return def;
+}
+
 FileManager &Context::getFileManager() {
     return *(getGlobalContext()->fileManager);
 }
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index deba644..3c188c9 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -27,6 +27,9 @@ namespace PSC {
 
         std::vector<ResolverCache*> cache;
 
+        // Composites only: where the type is defined, the types of its fields are looked up there
+        Context *definitionCtx = nullptr;
+
     public:
         const Token *switchToken = nullptr;
 
@@ -95,6 +98,13 @@ namespace PSC {
         const PointerTypeDefinition *getPointerDefinition(const std::string &name, bool global = true);
 
         const CompositeTypeDefinition *getCompositeDefinition(const std::string &name, bool global = true);
+
+        // Find the definition that owns the given name, other types with an equal name are skipped
+        const EnumTypeDefinition *findEnumDefinition(const std::string &definitionName) const;
+
+        const PointerTypeDefinition *findPointerDefinition(const std::string &definitionName) const;
+
+        const CompositeTypeDefinition *findCompositeDefinition(const std::string &definitionName) const;
     
         FileManager &getFileManager();
 
diff --git a/src/psc/types/datatypes.h b/src/psc/types/datatypes.h
index 97787ee..dafe7a7 100644
--- a/src/psc/types/datatypes.h
+++ b/src/psc/types/datatypes.h
@@ -8,7 +8,7 @@ namespace PSC {
         };
 
         using enum Type;
-        const std::string *name;
+        const std::string *name; // Name in the type's definition, identifies user-defined types
         Type type;
 
         DataType();
diff --git a/src/psc/types/types.cpp b/src/psc/types/types.cpp
index 0d831f0..b7a2d32 100644
--- a/src/psc/types/types.cpp
+++ b/src/psc/types/types.cpp
@@ -15,5 +15,5 @@ bool DataType::operator==(Type other) const {
 
 bool DataType::operator==(const DataType &other) const {
     if (name == nullptr || other.name == nullptr) return operator==(other.type);
-    return type == other.type && *name == *other.name;
+    return type == other.type && name == other.name;
 }
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 42c3627..c88e042 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -274,7 +274,7 @@ namespace PSC {
 
     class Enum : public Custom {
     public:
-        const std::string definitionName;
+        const std::string &definitionName; // Name in the definition itself
         std::size_t idx = 0;
 
         Enum(const std::string &name);
@@ -298,7 +298,7 @@ namespace PSC {
         Context *varCtx = nullptr;
 
     public:
-        const std::string definitionName;
+        const std::string &definitionName; // Name in the definition itself
 
         Pointer(const std::string &name);
 
@@ -321,7 +321,7 @@ namespace PSC {
 
     class Composite : public Custom {
     public:
-        const std::string definitionName;
+        const std::string &definitionName; // Name in the definition itself
         std::unique_ptr<Context> ctx;
 
         Composite(const std::string &name, Context &parent);
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 993eecb..1194ffb 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -9,12 +9,12 @@ using namespace PSC;
 Enum::Enum(const std::string &name) : definitionName(name) {}
 
 void Enum::operator=(const Enum &other) {
-    if (definitionName != other.definitionName) std::abort();
+    if (&definitionName != &other.definitionName) std::abort();
     idx = other.idx;
 }
 
 const EnumTypeDefinition &Enum::getDefinition(Context &ctx) const {
-    return *ctx.getEnumDefinition(definitionName);
+    return *ctx.findEnumDefinition(definitionName);
 }
 
 std::string Enum::getString(Context &ctx) const {
@@ -32,12 +32,12 @@ bool Enum::load(std::istream &in, Context &ctx) {
     if (s != "ENUM") return false;
 
     in >> s;
-    const EnumTypeDefinition *def = ctx.getEnumDefinition(s);
-    if (def == nullptr || (def->name != definitionName)) return false;
+    if (s != definitionName) return false;
+    const EnumTypeDefinition &def = getDefinition(ctx);
 
     size_t idx1;
     in >> idx1;
-    if (in.fail() || idx1 >= def->values.size()) return false;
+    if (in.fail() || idx1 >= def.values.size()) return false;
 
     idx = idx1;
     return true;
@@ -59,7 +59,7 @@ void Pointer::setValue(Variable *value) {
 }
 
 void Pointer::operator=(const Pointer &other) {
-    if (definitionName != other.definitionName) std::abort();
+    if (&definitionName != &other.definitionName) std::abort();
     ptr = other.ptr;
     varCtx = other.varCtx;
 }
@@ -73,7 +73,7 @@ const Context *Pointer::getCtx() const {
 }
 
 const PointerTypeDefinition &Pointer::getDefinition(Context &ctx) const {
-    return *ctx.getPointerDefinition(definitionName);
+    return *ctx.findPointerDefinition(definitionName);
 }
 
 void Pointer::dump(std::ostream&) const {}
@@ -96,7 +96,7 @@ Composite::Composite(const Composite &other)
 {}
 
 void Composite::operator=(const Composite &other) {
-    if (definitionName != other.definitionName) std::abort();
+    if (&definitionName != &other.definitionName) std::abort();
     ctx->copyVariableData(*other.ctx);
 }
 
@@ -109,7 +109,7 @@ DataHolder *Composite::getMember(const std::string &name) {
 }
 
 const CompositeTypeDefinition &Composite::getDefinition(PSC::Context &ctx) const {
-    return *ctx.getCompositeDefinition(definitionName);
+    return *ctx.findCompositeDefinition(definitionName);
 }
 
 void Composite::dump(std::ostream &out) const {
@@ -135,8 +135,7 @@ bool Composite::load(std::istream &in, Context &ctx) {
     if (s != "COMPOSITE") return false;
 
     in >> s;
-    const CompositeTypeDefinition *def = ctx.getCompositeDefinition(s);
-    if (def == nullptr || (def->name != definitionName)) return false;
+    if (s != definitionName) return false;
 
     for (const auto &var : this->ctx->getVariables()) {
         if (!var->load(in, ctx)) return false;
-- 
2.43.0


From bb1a35cf98ac57a1163c5e0e472f110097d7b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 15/48] fix: copies of a record include its array fields and
 are independent of the original

---
 src/nodes/functions/function.cpp  | 34 +------------------------
 src/nodes/functions/procedure.cpp | 34 +------------------------
 src/nodes/variable/variable.cpp   |  8 ++++--
 src/psc/array.cpp                 | 19 +++++++++++---
 src/psc/array.h                   |  6 ++++-
 src/psc/scope/context.cpp         | 30 +++++++++++++++-------
 src/psc/scope/context.h           |  7 ++++--
 src/psc/types/types.h             |  7 ++++++
 src/psc/types/userType.cpp        | 11 ++++++++-
 src/psc/variable.cpp              | 41 ++++++++++++++++++++++++++++++-
 src/psc/variable.h                |  7 +++++-
 11 files changed, 118 insertions(+), 86 deletions(-)

diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index 15ed111..0ce3289 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -100,39 +100,7 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
             PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
             var = original.createReference(parameter.name);
         } else {
-            var = new PSC::Variable(parameter.name, argRes->type, false, functionCtx.get());
-
-            switch (var->type.type) {
-                case PSC::DataType::INTEGER:
-                    var->get<PSC::Integer>() = argRes->get<PSC::Integer>();
-                    break;
-                case PSC::DataType::REAL:
-                    var->get<PSC::Real>() = argRes->get<PSC::Real>();
-                    break;
-                case PSC::DataType::BOOLEAN:
-                    var->get<PSC::Boolean>() = argRes->get<PSC::Boolean>();
-                    break;
-                case PSC::DataType::CHAR:
-                    var->get<PSC::Char>() = argRes->get<PSC::Char>();
-                    break;
-                case PSC::DataType::STRING:
-                    var->get<PSC::String>() = argRes->get<PSC::String>();
-                    break;
-                case PSC::DataType::DATE:
-                    var->get<PSC::Date>() = argRes->get<PSC::Date>();
-                    break;
-                case PSC::DataType::ENUM:
-                    var->get<PSC::Enum>() = argRes->get<PSC::Enum>();
-                    break;
-                case PSC::DataType::POINTER:
-                    var->get<PSC::Pointer>() = argRes->get<PSC::Pointer>();
-                    break;
-                case PSC::DataType::COMPOSITE:
-                    var->get<PSC::Composite>() = argRes->get<PSC::Composite>();
-                    break;
-                case PSC::DataType::NONE:
-                    std::abort();
-            }
+            var = new PSC::Variable(parameter.name, argRes->type, false, functionCtx.get(), argRes->data.get());
         }
 
         functionCtx->addVariable(var);
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index e84dc65..a817960 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -92,39 +92,7 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
             PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
             var = original.createReference(parameter.name);
         } else {
-            var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get());
-
-            switch (var->type.type) {
-                case PSC::DataType::INTEGER:
-                    var->get<PSC::Integer>() = argRes->get<PSC::Integer>();
-                    break;
-                case PSC::DataType::REAL:
-                    var->get<PSC::Real>() = argRes->get<PSC::Real>();
-                    break;
-                case PSC::DataType::BOOLEAN:
-                    var->get<PSC::Boolean>() = argRes->get<PSC::Boolean>();
-                    break;
-                case PSC::DataType::CHAR:
-                    var->get<PSC::Char>() = argRes->get<PSC::Char>();
-                    break;
-                case PSC::DataType::STRING:
-                    var->get<PSC::String>() = argRes->get<PSC::String>();
-                    break;
-                case PSC::DataType::DATE:
-                    var->get<PSC::Date>() = argRes->get<PSC::Date>();
-                    break;
-                case PSC::DataType::ENUM:
-                    var->get<PSC::Enum>() = argRes->get<PSC::Enum>();
-                    break;
-                case PSC::DataType::POINTER:
-                    var->get<PSC::Pointer>() = argRes->get<PSC::Pointer>();
-                    break;
-                case PSC::DataType::COMPOSITE:
-                    var->get<PSC::Composite>() = argRes->get<PSC::Composite>();
-                    break;
-                case PSC::DataType::NONE:
-                    std::abort();
-            }
+            var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get(), argRes->data.get());
         }
 
         procedureCtx->addVariable(var);
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index fb6b100..91713ae 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -61,6 +61,8 @@ void AssignNode::assignArray(PSC::Context &ctx, const PSC::ArrayDirectAccessErro
         throw PSC::RuntimeError(token, ctx, "Cannot assign arrays of different data type");
     if (arr->dimensions != array->dimensions)
         throw PSC::RuntimeError(token, ctx, "Cannot assign arrays of different dimensions");
+    if (!arr->hasSameLayout(*array))
+        throw PSC::RuntimeError(token, ctx, "Cannot assign records with arrays of different dimensions");
 
     arr->copyData(*array);
 }
@@ -93,8 +95,8 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
         if (valueRes->type == PSC::DataType::NONE)
             throw PSC::RuntimeError(token, ctx, "Expected a value for assignment");
         
-        var = new PSC::Variable(simpleSource->getName(), valueRes->type, false, &ctx);
-        ctx.addVariable(var);
+        ctx.addVariable(new PSC::Variable(simpleSource->getName(), valueRes->type, false, &ctx, valueRes->data.get()));
+        return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
     }
 
     if (var->isConstant)
@@ -130,6 +132,8 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
             var->get<PSC::Pointer>() = valueRes->get<PSC::Pointer>();
             break;
         case PSC::DataType::COMPOSITE:
+            if (!var->get<PSC::Composite>().hasSameLayout(valueRes->get<PSC::Composite>()))
+                throw PSC::RuntimeError(token, ctx, "Cannot assign records with arrays of different dimensions");
             var->get<PSC::Composite>() = valueRes->get<PSC::Composite>();
             break;
         case PSC::DataType::NONE:
diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index 2cf834b..f733ba2 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -26,16 +26,29 @@ Array::Array(const std::string &name, DataType type, const std::vector<ArrayDime
     : DataHolder(name), type(type), dimensions(dimensions)
 {}
 
-Array::Array(const Array &other)
+Array::Array(const Array &other, Context *ctx)
     : DataHolder(other.name),
     type(other.type),
     dimensions(Array::copyDimensions(other.dimensions))
-{}
+{
+    data.reserve(other.data.size());
+    for (const auto &element : other.data) {
+        data.emplace_back(std::make_unique<PSC::Variable>(*element, ctx));
+    }
+}
 
 void Array::copyData(const Array &other) {
     for (size_t i = 0; i < data.size(); i++) {
-        data[i] = std::make_unique<PSC::Variable>(*(other.data[i]), other.data[i]->parent);
+        data[i]->copyData(*other.data[i]);
+    }
+}
+
+bool Array::hasSameLayout(const Array &other) const {
+    if (dimensions != other.dimensions) return false;
+    for (size_t i = 0; i < data.size(); i++) {
+        if (!data[i]->hasSameLayout(*other.data[i])) return false;
     }
+    return true;
 }
 
 const std::vector<ArrayDimension> Array::copyDimensions(const std::vector<ArrayDimension> &source) {
diff --git a/src/psc/array.h b/src/psc/array.h
index 7e12b70..7a9d8f5 100644
--- a/src/psc/array.h
+++ b/src/psc/array.h
@@ -34,10 +34,14 @@ namespace PSC {
 
         Array(const std::string &name, DataType type, const std::vector<ArrayDimension> &dimensions);
 
-        Array(const Array &other);
+        // The elements of the copy belong to the given context
+        Array(const Array &other, Context *ctx);
 
+        // Both must have the same layout
         void copyData(const Array &other);
 
+        bool hasSameLayout(const Array &other) const;
+
         constexpr bool isArray() const override {return true;}
 
         // Allocates memory for elements
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 61b6366..ffb0c9d 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -32,32 +32,44 @@ Context::Context(Context *parent, const std::string &name, bool isCompositeCtx)
         definitionCtx = definitionCtx->parent;
 }
 
-template<typename T, typename... Args>
-void copyPtrVector(const std::vector<std::unique_ptr<T>> &source, std::vector<std::unique_ptr<T>> &dest, Args&&... args) {
+template<typename T>
+void copyPtrVector(const std::vector<std::unique_ptr<T>> &source, std::vector<std::unique_ptr<T>> &dest, Context *ctx) {
     size_t size = source.size();
     dest.reserve(size);
     for (size_t i = 0; i < size; i++) {
-        dest.emplace_back(std::make_unique<T>(*source[i], std::forward<Args>(args)...));
+        dest.emplace_back(std::make_unique<T>(*source[i], ctx));
     }
 }
 
-Context::Context(const Context &other)
-    : parent(other.parent),
+Context::Context(const Context &other, Context *parent)
+    : parent(parent),
     name(other.name),
+    definitionCtx(other.definitionCtx),
     isFunctionCtx(other.isFunctionCtx),
     isCompositeCtx(other.isCompositeCtx),
     returnType(other.returnType)
 {
     copyPtrVector(other.variables, variables, this);
-    copyPtrVector(other.arrays, arrays);
-    copyPtrVector(other.procedures, procedures);
-    copyPtrVector(other.functions, functions);
+    copyPtrVector(other.arrays, arrays, this);
 }
 
 void Context::copyVariableData(const Context &other) {
     for (size_t i = 0; i < variables.size(); i++) {
-        variables[i]->set(&other.variables[i]->get<Value>(), true);
+        variables[i]->copyData(*other.variables[i]);
+    }
+    for (size_t i = 0; i < arrays.size(); i++) {
+        arrays[i]->copyData(*other.arrays[i]);
+    }
+}
+
+bool Context::hasSameLayout(const Context &other) const {
+    for (size_t i = 0; i < variables.size(); i++) {
+        if (!variables[i]->hasSameLayout(*other.variables[i])) return false;
+    }
+    for (size_t i = 0; i < arrays.size(); i++) {
+        if (!arrays[i]->hasSameLayout(*other.arrays[i])) return false;
     }
+    return true;
 }
 
 Context::~Context() {
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 3c188c9..9fb4572 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -46,11 +46,14 @@ namespace PSC {
         Context(Context *parent, const std::string &name, bool isCompositeCtx);
 
         // For copying composites
-        explicit Context(const Context &other);
+        Context(const Context &other, Context *parent);
 
-        // Only for composites
+        // Only for composites, both must have the same layout
         void copyVariableData(const Context &other);
 
+        // Only for composites
+        bool hasSameLayout(const Context &other) const;
+
         ~Context();
 
         static std::unique_ptr<Context> createGlobalContext();
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index c88e042..25e307f 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -328,8 +328,15 @@ namespace PSC {
 
         Composite(const Composite &other);
 
+        // The copy and everything in it belongs to the given context
+        Composite(const Composite &other, Context &parent);
+
+        // Both must have the same layout
         void operator=(const Composite &other);
 
+        // Array fields of the same type can have different bounds if these are not literals
+        bool hasSameLayout(const Composite &other) const;
+
         DataHolder *getMember(const std::string &name);
 
         const CompositeTypeDefinition &getDefinition(Context &ctx) const;
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 1194ffb..f5bc2ee 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -92,7 +92,12 @@ Composite::Composite(const std::string &name, Context &parent)
 
 Composite::Composite(const Composite &other)
     : definitionName(other.definitionName),
-    ctx(std::make_unique<Context>(*other.ctx))
+    ctx(std::make_unique<Context>(*other.ctx, other.ctx->getParent()))
+{}
+
+Composite::Composite(const Composite &other, Context &parent)
+    : definitionName(other.definitionName),
+    ctx(std::make_unique<Context>(*other.ctx, &parent))
 {}
 
 void Composite::operator=(const Composite &other) {
@@ -100,6 +105,10 @@ void Composite::operator=(const Composite &other) {
     ctx->copyVariableData(*other.ctx);
 }
 
+bool Composite::hasSameLayout(const Composite &other) const {
+    return ctx->hasSameLayout(*other.ctx);
+}
+
 DataHolder *Composite::getMember(const std::string &name) {
     PSC::Variable *var = ctx->getVariable(name);
     if (var != nullptr) return var;
diff --git a/src/psc/variable.cpp b/src/psc/variable.cpp
index 1619079..0fa62a4 100644
--- a/src/psc/variable.cpp
+++ b/src/psc/variable.cpp
@@ -91,13 +91,52 @@ void Variable::set(Value *_data, bool copy) {
             data = new PSC::Pointer(*((const PSC::Pointer*) _data));
             break;
         case DataType::COMPOSITE:
-            data = new PSC::Composite(*((const PSC::Composite*) _data));
+            data = new PSC::Composite(*((const PSC::Composite*) _data), *parent);
             break;
         case DataType::NONE:
             std::abort();
     }
 }
 
+void Variable::copyData(const Variable &other) {
+    switch (type.type) {
+        case DataType::INTEGER:
+            get<PSC::Integer>() = other.getConst<PSC::Integer>();
+            break;
+        case DataType::REAL:
+            get<PSC::Real>() = other.getConst<PSC::Real>();
+            break;
+        case DataType::BOOLEAN:
+            get<PSC::Boolean>() = other.getConst<PSC::Boolean>();
+            break;
+        case DataType::CHAR:
+            get<PSC::Char>() = other.getConst<PSC::Char>();
+            break;
+        case DataType::STRING:
+            get<PSC::String>() = other.getConst<PSC::String>();
+            break;
+        case DataType::DATE:
+            get<PSC::Date>() = other.getConst<PSC::Date>();
+            break;
+        case DataType::ENUM:
+            get<PSC::Enum>() = other.getConst<PSC::Enum>();
+            break;
+        case DataType::POINTER:
+            get<PSC::Pointer>() = other.getConst<PSC::Pointer>();
+            break;
+        case DataType::COMPOSITE:
+            get<PSC::Composite>() = other.getConst<PSC::Composite>();
+            break;
+        case DataType::NONE:
+            std::abort();
+    }
+}
+
+bool Variable::hasSameLayout(const Variable &other) const {
+    if (type.type != DataType::COMPOSITE) return true;
+    return getConst<PSC::Composite>().hasSameLayout(other.getConst<PSC::Composite>());
+}
+
 Variable *Variable::createReference(const std::string &refName) {
     Variable *v = ref == nullptr ? this : ref;
     return new Variable(refName, v);
diff --git a/src/psc/variable.h b/src/psc/variable.h
index 7ce64d8..c30a3ac 100644
--- a/src/psc/variable.h
+++ b/src/psc/variable.h
@@ -43,11 +43,16 @@ namespace PSC {
 
         void set(Value *_data, bool copy = false);
 
+        // Both must be of the same type and layout
+        void copyData(const Variable &other);
+
+        bool hasSameLayout(const Variable &other) const;
+
         template<std::derived_from<Value> T>
         T &get() { return *((T*) data); }
 
         template<std::derived_from<Value> T>
-        T &getConst() const { return *((const T*) data); }
+        const T &getConst() const { return *((const T*) data); }
 
         Variable *createReference(const std::string &refName);
 
-- 
2.43.0


From 4adade1a041ca51107a915455b2791317c546491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 16/48] fix: a global variable is not a field of every record

---
 src/psc/types/userType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index f5bc2ee..230509b 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -110,10 +110,10 @@ bool Composite::hasSameLayout(const Composite &other) const {
 }
 
 DataHolder *Composite::getMember(const std::string &name) {
-    PSC::Variable *var = ctx->getVariable(name);
+    PSC::Variable *var = ctx->getVariable(name, false);
     if (var != nullptr) return var;
 
-    PSC::Array *arr = ctx->getArray(name);
+    PSC::Array *arr = ctx->getArray(name, false);
     return arr;
 }
 
-- 
2.43.0


From d5ea9f7ae394cf6717e11a5f9f8378326d67edbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 17/48] fix: an argument passed by reference is evaluated only
 once

---
 src/nodes/functions/function.cpp  | 44 ++++++++++++++++++++-----------
 src/nodes/functions/procedure.cpp | 40 +++++++++++++++++++---------
 2 files changed, 55 insertions(+), 29 deletions(-)

diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index 0ce3289..90da1f5 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -65,12 +65,28 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
     argResults.reserve(args.size());
     argTypes.reserve(args.size());
 
+    size_t nArgs = function->parameters.size();
+
+    // Arguments passed by reference are only resolved, evaluating them as well would repeat side effects
+    std::vector<PSC::Variable*> argRefs(args.size(), nullptr);
+
     for (size_t i = 0; i < args.size(); i++) {
-        argResults.push_back(args[i]->evaluate(ctx));
-        argTypes.push_back(argResults[i]->type);
+        bool byRef = args.size() == nArgs && function->parameters[i].byRef;
+        AccessNode *accsNode = byRef ? dynamic_cast<AccessNode*>(args[i]) : nullptr;
+        if (accsNode != nullptr) {
+            auto &holder = accsNode->getResolver().resolve(ctx);
+            if (holder.isArray())
+                throw PSC::ArrayDirectAccessError(token, ctx);
+
+            argRefs[i] = static_cast<PSC::Variable*>(&holder);
+            argResults.push_back(nullptr);
+            argTypes.push_back(argRefs[i]->type);
+        } else {
+            argResults.push_back(args[i]->evaluate(ctx));
+            argTypes.push_back(argResults[i]->type);
+        }
     }
 
-    size_t nArgs = function->parameters.size();
     if (args.size() != nArgs)
         throw PSC::InvalidArgsError(token, ctx, function->getTypes(), std::move(argTypes));
 
@@ -81,24 +97,20 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
         auto &argRes = argResults[i];
         const PSC::Parameter &parameter = function->parameters[i];
 
-        if (!parameter.byRef) argRes->implicitCast(parameter.type);
-        if (parameter.type != argRes->type) {
-            throw PSC::InvalidArgsError(token, ctx, function->getTypes(), std::move(argTypes));
+        PSC::DataType argType = argTypes[i];
+        if (!parameter.byRef) {
+            argRes->implicitCast(parameter.type);
+            argType = argRes->type;
         }
+        if (parameter.type != argType)
+            throw PSC::InvalidArgsError(token, ctx, function->getTypes(), std::move(argTypes));
 
         PSC::Variable *var;
         if (parameter.byRef) {
-            AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
-            if (!accsNode) {
-                throw PSC::RuntimeError(token, ctx, "Only variables can be used as arguements when passing by reference");
-            }
-
-            auto &holder = accsNode->getResolver().resolve(ctx);
-            if (holder.isArray())
-                throw PSC::ArrayDirectAccessError(token, ctx);
+            if (argRefs[i] == nullptr)
+                throw PSC::RuntimeError(token, ctx, "Only variables and array elements can be used as arguements when passing by reference");
 
-            PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
-            var = original.createReference(parameter.name);
+            var = argRefs[i]->createReference(parameter.name);
         } else {
             var = new PSC::Variable(parameter.name, argRes->type, false, functionCtx.get(), argRes->data.get());
         }
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index a817960..3ba62c8 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -59,12 +59,28 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
     argResults.reserve(args.size());
     argTypes.reserve(args.size());
 
+    size_t nArgs = procedure->parameters.size();
+
+    // Arguments passed by reference are only resolved, evaluating them as well would repeat side effects
+    std::vector<PSC::Variable*> argRefs(args.size(), nullptr);
+
     for (size_t i = 0; i < args.size(); i++) {
-        argResults.push_back(args[i]->evaluate(ctx));
-        argTypes.push_back(argResults[i]->type);
+        bool byRef = args.size() == nArgs && procedure->parameters[i].byRef;
+        AccessNode *accsNode = byRef ? dynamic_cast<AccessNode*>(args[i]) : nullptr;
+        if (accsNode != nullptr) {
+            auto &holder = accsNode->getResolver().resolve(ctx);
+            if (holder.isArray())
+                throw PSC::ArrayDirectAccessError(token, ctx);
+
+            argRefs[i] = static_cast<PSC::Variable*>(&holder);
+            argResults.push_back(nullptr);
+            argTypes.push_back(argRefs[i]->type);
+        } else {
+            argResults.push_back(args[i]->evaluate(ctx));
+            argTypes.push_back(argResults[i]->type);
+        }
     }
 
-    size_t nArgs = procedure->parameters.size();
     if (args.size() != nArgs)
         throw PSC::InvalidArgsError(token, ctx, procedure->getTypes(), std::move(argTypes));
 
@@ -75,22 +91,20 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
         auto &argRes = argResults[i];
         const PSC::Parameter &parameter = procedure->parameters[i];
 
-        if (!parameter.byRef) argRes->implicitCast(parameter.type);
-        if (parameter.type != argRes->type)
+        PSC::DataType argType = argTypes[i];
+        if (!parameter.byRef) {
+            argRes->implicitCast(parameter.type);
+            argType = argRes->type;
+        }
+        if (parameter.type != argType)
             throw PSC::InvalidArgsError(token, ctx, procedure->getTypes(), std::move(argTypes));
 
         PSC::Variable *var;
         if (parameter.byRef) {
-            AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
-            if (!accsNode)
+            if (argRefs[i] == nullptr)
                 throw PSC::RuntimeError(token, ctx, "Only variables and array elements can be used as arguements when passing by reference");
 
-            auto &holder = accsNode->getResolver().resolve(ctx);
-            if (holder.isArray())
-                throw PSC::ArrayDirectAccessError(token, ctx);
-
-            PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
-            var = original.createReference(parameter.name);
+            var = argRefs[i]->createReference(parameter.name);
         } else {
             var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get(), argRes->data.get());
         }
-- 
2.43.0


From 548036b038a14cf3aea212d350ea23a0d8011ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 18/48] fix: report a record type that contains itself instead
 of recursing forever

---
 src/nodes/variable/array.cpp    | 2 ++
 src/nodes/variable/variable.cpp | 2 ++
 src/psc/scope/context.cpp       | 9 +++++++++
 src/psc/scope/context.h         | 3 +++
 4 files changed, 16 insertions(+)

diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 8a6cce5..a808b4d 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -43,6 +43,8 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
         PSC::DataType dataType = ctx.getType(type);
         if (dataType.type == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
+        if (ctx.isInComposite(dataType))
+            throw PSC::RuntimeError(token, ctx, "Record type '" + type.value + "' contains itself");
 
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
         array->init(ctx);
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 91713ae..97b5ed1 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -20,6 +20,8 @@ std::unique_ptr<NodeResult> DeclareNode::evaluate(PSC::Context &ctx) {
         PSC::DataType dataType = ctx.getType(type);
         if (dataType == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
+        if (ctx.isInComposite(dataType))
+            throw PSC::RuntimeError(token, ctx, "Record type '" + type.value + "' contains itself");
 
         ctx.addVariable(new PSC::Variable(identifier->value, dataType, false, &ctx));
     }
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index ffb0c9d..b0f0154 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -307,6 +307,15 @@ const CompositeTypeDefinition *Context::getCompositeDefinition(const std::string
     return nullptr;
 }
 
+bool Context::isInComposite(const PSC::DataType &type) const {
+    if (type != PSC::DataType::COMPOSITE) return false;
+    for (const Context *ctx = this; ctx != nullptr && ctx->isCompositeCtx; ctx = ctx->parent) {
+        if (ctx->name == *type.name && findDefinition(ctx->definitionCtx->composites, *type.name) != nullptr)
+            return true;
+    }
+    return false;
+}
+
 const EnumTypeDefinition *Context::findEnumDefinition(const std::string &definitionName) const {
     const EnumTypeDefinition *def = nullptr;
     for (const Context *ctx = this; ctx != nullptr && def == nullptr; ctx = ctx->parent)
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 9fb4572..c4d5741 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -102,6 +102,9 @@ namespace PSC {
 
         const CompositeTypeDefinition *getCompositeDefinition(const std::string &name, bool global = true);
 
+        // Whether a field is being declared for a record of the given type, directly or in a nested record
+        bool isInComposite(const PSC::DataType &type) const;
+
         // Find the definition that owns the given name, other types with an equal name are skipped
         const EnumTypeDefinition *findEnumDefinition(const std::string &definitionName) const;
 
-- 
2.43.0


From fba4512b03a4163297f5696cfe82eb1374949844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 19/48] fix: report errors in the fields of a record being
 declared instead of crashing

---
 src/nodes/variable/array.cpp    | 2 ++
 src/nodes/variable/variable.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index a808b4d..6d0e79e 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -47,7 +47,9 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
             throw PSC::RuntimeError(token, ctx, "Record type '" + type.value + "' contains itself");
 
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
+        ctx.switchToken = &token;
         array->init(ctx);
+        ctx.switchToken = nullptr;
         ctx.addArray(std::move(array));
     }
 
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 97b5ed1..1dc99e1 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -23,7 +23,10 @@ std::unique_ptr<NodeResult> DeclareNode::evaluate(PSC::Context &ctx) {
         if (ctx.isInComposite(dataType))
             throw PSC::RuntimeError(token, ctx, "Record type '" + type.value + "' contains itself");
 
+        // Declaring a record runs the declarations of its fields
+        ctx.switchToken = &token;
         ctx.addVariable(new PSC::Variable(identifier->value, dataType, false, &ctx));
+        ctx.switchToken = nullptr;
     }
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
-- 
2.43.0


From ace1c87c38d1c0dea852be6ae5f8c15af3a168f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 20/48] fix: a pointer to a variable of a finished call never
 becomes valid again

---
 src/nodes/variable/resolver.cpp | 15 ++++-----------
 src/psc/scope/block.cpp         | 14 ++------------
 src/psc/scope/context.cpp       |  2 ++
 src/psc/scope/context.h         |  5 +++++
 src/psc/types/types.h           |  7 +++++--
 src/psc/types/userType.cpp      | 18 +++++++++++++-----
 6 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index 6b4db88..fe577b4 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -51,19 +51,12 @@ PSC::DataHolder &PointerDereferencer::resolve(PSC::Context &ctx) {
     }
 
     PSC::Pointer &ptr = ptrVar->get<PSC::Pointer>();
-    const PSC::Context *ptrCtx = ptr.getCtx();
-    PSC::Context *tempCtx = &ctx;
-    while (tempCtx != ptrCtx) {
-        tempCtx = tempCtx->getParent();
-        if (tempCtx == nullptr)
-            throw PSC::RuntimeError(token, ctx, "Attempting to access deleted object from pointer '" + ptrVar->name + "'");
-    }
-
-    PSC::Variable *ptrRefVar = ptr.getValue();
-    if (ptrRefVar == nullptr)
+    if (ptr.isNull())
         throw PSC::RuntimeError(token, ctx, "Attempt to access uninitalized pointer");
+    if (!ptr.isAlive(ctx))
+        throw PSC::RuntimeError(token, ctx, "Attempting to access deleted object from pointer '" + ptrVar->name + "'");
 
-    return *ptrRefVar;
+    return *ptr.getValue();
 }
 
 CompositeResolver::CompositeResolver(const Token &token, std::unique_ptr<AbstractVariableResolver> &&resolver, const Token &member)
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index a80ad80..46ea10a 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -48,19 +48,9 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
         } case PSC::DataType::POINTER: {
             auto &resPtr = result->get<PSC::Pointer>();
 
-            const PSC::Context *ptrCtx = resPtr.getCtx();
-            PSC::Context *tempCtx = &ctx;
-            bool valid = true;
-            while (valid && tempCtx != ptrCtx) {
-                tempCtx = tempCtx->getParent();
-                if (tempCtx == nullptr) valid = false;
-            }
-
             std::cout << resPtr.definitionName << ": ";
-            if (valid) {
-                PSC::Variable *ptrValue = resPtr.getValue();
-                const std::string &valueStr = ptrValue == nullptr ? "null" : ptrValue->name;
-                std::cout << valueStr;
+            if (resPtr.isAlive(ctx)) {
+                std::cout << resPtr.getValue()->name;
             } else {
                 std::cout << "{DELETED}";
             }
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index b0f0154..fca6bc4 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -6,6 +6,8 @@
 
 using namespace PSC;
 
+unsigned long Context::nextId = 1;
+
 template<typename T>
 const T *findDefinition(const std::vector<std::unique_ptr<T>> &definitions, const std::string &definitionName) {
     for (const auto &d : definitions) {
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index c4d5741..be624bc 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -30,7 +30,12 @@ namespace PSC {
         // Composites only: where the type is defined, the types of its fields are looked up there
         Context *definitionCtx = nullptr;
 
+        static unsigned long nextId;
+
     public:
+        // Unlike the address this is never reused by another context
+        const unsigned long id = nextId++;
+
         const Token *switchToken = nullptr;
 
         const bool isFunctionCtx, isCompositeCtx;
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 25e307f..82ec082 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -295,7 +295,7 @@ namespace PSC {
     class Pointer : public Custom {
     private:
         Variable *ptr = nullptr;
-        Context *varCtx = nullptr;
+        unsigned long varCtxId = 0;
 
     public:
         const std::string &definitionName; // Name in the definition itself
@@ -310,7 +310,10 @@ namespace PSC {
 
         Variable *getValue() const;
 
-        const Context *getCtx() const;
+        bool isNull() const;
+
+        // The target only exists as long as the context it belongs to
+        bool isAlive(const Context &ctx) const;
 
         const PointerTypeDefinition &getDefinition(Context &ctx) const;
     
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 230509b..08849bb 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -47,29 +47,37 @@ Pointer::Pointer(const std::string &name)
     : definitionName(name) {}
 
 Pointer::Pointer(const Pointer &other)
-    : ptr(other.ptr), varCtx(other.varCtx), definitionName(other.definitionName)
+    : ptr(other.ptr), varCtxId(other.varCtxId), definitionName(other.definitionName)
 {}
 
 void Pointer::setValue(Variable *value) {
     ptr = value;
-    varCtx = value->parent;
+    const Context *varCtx = value->parent;
     while (varCtx->isCompositeCtx) {
         varCtx = varCtx->getParent();
     }
+    varCtxId = varCtx->id;
 }
 
 void Pointer::operator=(const Pointer &other) {
     if (&definitionName != &other.definitionName) std::abort();
     ptr = other.ptr;
-    varCtx = other.varCtx;
+    varCtxId = other.varCtxId;
 }
 
 Variable *Pointer::getValue() const {
     return ptr;
 }
 
-const Context *Pointer::getCtx() const {
-    return varCtx;
+bool Pointer::isNull() const {
+    return ptr == nullptr;
+}
+
+bool Pointer::isAlive(const Context &ctx) const {
+    for (const Context *c = &ctx; c != nullptr; c = c->getParent()) {
+        if (c->id == varCtxId) return true;
+    }
+    return false;
 }
 
 const PointerTypeDefinition &Pointer::getDefinition(Context &ctx) const {
-- 
2.43.0


From ad6ebeebd484a90d7ae6f755b26ba95a1292834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 21/48] fix: a local declaration takes effect for names that
 were used before it

---
 src/psc/scope/context.cpp | 7 +++++++
 src/psc/scope/context.h   | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index fca6bc4..a9d5746 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -75,9 +75,14 @@ bool Context::hasSameLayout(const Context &other) const {
 }
 
 Context::~Context() {
+    clearCache();
+}
+
+void Context::clearCache() {
     for (ResolverCache *c : cache) {
         c->clear();
     }
+    cache.clear();
 }
 
 std::unique_ptr<Context> Context::createGlobalContext() {
@@ -151,6 +156,7 @@ const std::string &Context::getName() const {
 
 void Context::addVariable(Variable *variable) {
     variables.emplace_back(variable);
+    clearCache();
 }
 
 Variable *Context::getVariable(const std::string &varName, bool global) {
@@ -204,6 +210,7 @@ Function *Context::getFunction(const std::string &functionName) {
 
 void Context::addArray(std::unique_ptr<Array> &&array) {
     arrays.emplace_back(std::move(array));
+    clearCache();
 }
 
 Array *Context::getArray(const std::string &arrayName, bool global) {
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index be624bc..619c573 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -27,6 +27,9 @@ namespace PSC {
 
         std::vector<ResolverCache*> cache;
 
+        // A new name can hide one that was resolved before
+        void clearCache();
+
         // Composites only: where the type is defined, the types of its fields are looked up there
         Context *definitionCtx = nullptr;
 
-- 
2.43.0


From 6cf9f27b3d3adb0da0d1b9e27f1a88bea64d7dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 22/48] fix: a local array hides a global variable of the same
 name

---
 src/nodes/io/file.cpp           | 14 ++++++++------
 src/nodes/variable/resolver.cpp | 14 ++++----------
 src/psc/scope/context.cpp       | 10 ++++++++++
 src/psc/scope/context.h         |  3 +++
 4 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index cb67719..b5393d4 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -174,10 +174,11 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() != PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "'GETRECORD' can only be used for random files");
 
-    PSC::Variable *variable = ctx.getVariable(identifier.value);
-    PSC::Array *array = ctx.getArray(identifier.value);
-    if (variable == nullptr && array == nullptr)
+    PSC::DataHolder *holder = ctx.getDataHolder(identifier.value);
+    if (holder == nullptr)
         throw PSC::NotDefinedError(identifier, ctx, identifier.value);
+    PSC::Variable *variable = holder->isArray() ? nullptr : static_cast<PSC::Variable*>(holder);
+    PSC::Array *array = holder->isArray() ? static_cast<PSC::Array*>(holder) : nullptr;
     if ((variable != nullptr && variable->type == PSC::DataType::POINTER)
         || (array != nullptr && array->type == PSC::DataType::POINTER))
         throw PSC::RuntimeError(token, ctx, "Pointers cannot be stored in random files");
@@ -209,10 +210,11 @@ std::unique_ptr<NodeResult> PutRecordNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() != PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "'PUTRECORD' can only be used for random files");
 
-    PSC::Variable *variable = ctx.getVariable(identifier.value);
-    PSC::Array *array = ctx.getArray(identifier.value);
-    if (variable == nullptr && array == nullptr)
+    PSC::DataHolder *holder = ctx.getDataHolder(identifier.value);
+    if (holder == nullptr)
         throw PSC::NotDefinedError(identifier, ctx, identifier.value);
+    PSC::Variable *variable = holder->isArray() ? nullptr : static_cast<PSC::Variable*>(holder);
+    PSC::Array *array = holder->isArray() ? static_cast<PSC::Array*>(holder) : nullptr;
     if ((variable != nullptr && variable->type == PSC::DataType::POINTER)
         || (array != nullptr && array->type == PSC::DataType::POINTER))
         throw PSC::RuntimeError(token, ctx, "Pointers cannot be stored in random files");
diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index fe577b4..8260844 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -151,16 +151,10 @@ PSC::DataHolder &SimpleVariableSource::resolve(PSC::Context &ctx) {
     PSC::DataHolder *cached = cache.get(ctx);
     if (cached != nullptr) return *cached;
 
-    PSC::Variable *var = ctx.getVariable(token.value);
-    if (var != nullptr) {
-        cache.set(var, ctx);
-        return *var;
-    }
-
-    PSC::Array *arr = ctx.getArray(token.value);
-    if (arr != nullptr) {
-        cache.set(arr, ctx);
-        return *arr;
+    PSC::DataHolder *holder = ctx.getDataHolder(token.value);
+    if (holder != nullptr) {
+        cache.set(holder, ctx);
+        return *holder;
     }
 
     throw PSC::NotDefinedError(token, ctx, "Identifier '" + token.value + "'");
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index a9d5746..3ee41ea 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -224,6 +224,16 @@ Array *Context::getArray(const std::string &arrayName, bool global) {
     return getGlobalContext()->getArray(arrayName);
 }
 
+DataHolder *Context::getDataHolder(const std::string &name) {
+    Variable *var = getVariable(name, false);
+    if (var != nullptr) return var;
+
+    Array *array = getArray(name, false);
+    if (array != nullptr) return array;
+
+    return parent == nullptr ? nullptr : getGlobalContext()->getDataHolder(name);
+}
+
 PSC::DataType Context::getType(const Token &token, bool global) {
     if (token.type == TokenType::DATA_TYPE) {
         if (token.value == "INTEGER") return PSC::DataType(PSC::DataType::INTEGER);
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 619c573..a5f5109 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -92,6 +92,9 @@ namespace PSC {
 
         Array *getArray(const std::string &arrayName, bool global = true);
 
+        // A variable or array with the given name, local ones hide global ones
+        DataHolder *getDataHolder(const std::string &name);
+
         PSC::DataType getType(const Token &token, bool global = true);
 
         bool isIdentifierType(const Token &identifier, bool global = true);
-- 
2.43.0


From 77a364002eacbfa6dc6c8548910100048b303646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 23/48] fix: report an array that is too large instead of
 terminating

---
 src/nodes/variable/array.cpp | 10 +++++++++-
 src/psc/array.cpp            | 12 ++++++++----
 src/psc/array.h              |  2 +-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 6d0e79e..9282a49 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -1,4 +1,6 @@
 #include "pch.h"
+#include <new>
+#include <stdexcept>
 
 #include "psc/error.h"
 #include "nodes/variable/variable.h"
@@ -48,7 +50,13 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
 
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
         ctx.switchToken = &token;
-        array->init(ctx);
+        try {
+            array->init(ctx);
+        } catch (std::length_error&) {
+            throw PSC::RuntimeError(token, ctx, "Array '" + identifier->value + "' is too large");
+        } catch (std::bad_alloc&) {
+            throw PSC::RuntimeError(token, ctx, "Array '" + identifier->value + "' is too large");
+        }
         ctx.switchToken = nullptr;
         ctx.addArray(std::move(array));
     }
diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index f733ba2..f00579e 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -1,4 +1,5 @@
 #include "pch.h"
+#include <stdexcept>
 
 #include "psc/types/types.h"
 #include "psc/array.h"
@@ -62,15 +63,18 @@ const std::vector<ArrayDimension> Array::copyDimensions(const std::vector<ArrayD
 }
 
 void Array::init(Context &ctx) {
-    unsigned long size = 1;
+    size_t size = 1;
     for (auto &dim : dimensions) {
-        size *= dim.getSize();
+        // The size itself can be out of range, the difference of the bounds cannot
+        size_t maxIndex = (size_t) dim.upperBound - (size_t) dim.lowerBound;
+        if (maxIndex >= data.max_size() / size)
+            throw std::length_error("Array is too large");
+        size *= maxIndex + 1;
     }
 
     data.reserve(size);
 
-    size_t capacity = data.capacity();
-    for (size_t i = 0; i < capacity; i++) {
+    for (size_t i = 0; i < size; i++) {
         data.emplace_back(new Variable(name, type, false, &ctx));
     }
 }
diff --git a/src/psc/array.h b/src/psc/array.h
index 7a9d8f5..a700c99 100644
--- a/src/psc/array.h
+++ b/src/psc/array.h
@@ -44,7 +44,7 @@ namespace PSC {
 
         constexpr bool isArray() const override {return true;}
 
-        // Allocates memory for elements
+        // Allocates memory for elements, throws std::length_error or std::bad_alloc if there are too many
         void init(Context &ctx);
 
         Variable &getElement(const std::vector<int_t> &index);
-- 
2.43.0


From 717712556b6a08514279dda419274a2f8652ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 24/48] fix: CONTINUE in a REPEAT loop no longer skips the
 UNTIL condition

---
 src/nodes/loop/repeatUntil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/loop/repeatUntil.cpp b/src/nodes/loop/repeatUntil.cpp
index 7308ff0..783ec2f 100644
--- a/src/nodes/loop/repeatUntil.cpp
+++ b/src/nodes/loop/repeatUntil.cpp
@@ -15,7 +15,7 @@ std::unique_ptr<NodeResult> RepeatUntilNode::evaluate(PSC::Context &ctx) {
         } catch (BreakErrSignal&) {
             break;
         } catch (ContinueErrSignal&) {
-            continue;
+            // The condition is still tested at the end of this iteration
         }
 
         auto conditionRes = node.evaluate(ctx);
-- 
2.43.0


From b1d4b993e60f4c31c49d5ed1d0667a2bc4750b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 25/48] fix: BREAK and CONTINUE outside a loop of a procedure
 no longer act on the loop of its caller

---
 src/psc/procedure.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/psc/procedure.cpp b/src/psc/procedure.cpp
index b5d43d4..c99c493 100644
--- a/src/psc/procedure.cpp
+++ b/src/psc/procedure.cpp
@@ -1,5 +1,7 @@
 #include "pch.h"
 
+#include "nodes/loop/control.h"
+#include "psc/error.h"
 #include "psc/scope/block.h"
 #include "psc/scope/context.h"
 #include "procedure.h"
@@ -32,7 +34,14 @@ std::vector<PSC::DataType> Procedure::getTypes() const {
 }
 
 void Procedure::run(PSC::Context &ctx) {
-    block->run(ctx);
+    // These only act on loops of the body itself, not on one the call is in
+    try {
+        block->run(ctx);
+    } catch (BreakErrSignal &e) {
+        throw PSC::InvalidUsageError(e.token, ctx, "'BREAK' statement");
+    } catch (ContinueErrSignal &e) {
+        throw PSC::InvalidUsageError(e.token, ctx, "'CONTINUE' statement");
+    }
 }
 
 Function::Function(
-- 
2.43.0


From 722cb572b84c83370302d0dd25f33e9c250e610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 26/48] fix: a CASE range compares integers exactly

---
 src/nodes/selection/case.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nodes/selection/case.cpp b/src/nodes/selection/case.cpp
index 941c025..85e3241 100644
--- a/src/nodes/selection/case.cpp
+++ b/src/nodes/selection/case.cpp
@@ -72,6 +72,12 @@ bool RangeCaseComponent::match(const NodeResult &value, PSC::Context &ctx) {
     else if (upper->type == PSC::DataType::REAL) upperVal = upper->get<PSC::Real>().value;
     else throw PSC::RuntimeError(upperBound.getToken(), ctx, "Upper bound must be of type INTEGER or REAL");
 
+    // Large integers are not exact as real numbers
+    if (value.type == PSC::DataType::INTEGER && lower->type == PSC::DataType::INTEGER && upper->type == PSC::DataType::INTEGER) {
+        PSC::int_t testInt = value.get<PSC::Integer>().value;
+        return lower->get<PSC::Integer>().value <= testInt && testInt <= upper->get<PSC::Integer>().value;
+    }
+
     return (lowerVal <= testValue) && (testValue <= upperVal);
 }
 
-- 
2.43.0


From b48856b5d6fefd9971751d0b2487a811cc42add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 27/48] fix: FOR, INPUT, READFILE and GETRECORD no longer
 change constants

---
 src/nodes/io/file.cpp  | 5 +++++
 src/nodes/io/io.cpp    | 3 +++
 src/nodes/loop/for.cpp | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index b5393d4..6cf3d83 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -39,6 +39,8 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
         var = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
         ctx.addVariable(var);
     }
+    if (var->isConstant)
+        throw PSC::ConstAssignError(token, ctx, var->name);
     if (var->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
 
@@ -183,6 +185,9 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
         || (array != nullptr && array->type == PSC::DataType::POINTER))
         throw PSC::RuntimeError(token, ctx, "Pointers cannot be stored in random files");
 
+    if (variable != nullptr && variable->isConstant)
+        throw PSC::ConstAssignError(token, ctx, variable->name);
+
     if (variable != nullptr) {
         if (!file->getRecord(*variable, ctx))
             throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index e9e2202..0fd0d29 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -82,6 +82,9 @@ std::unique_ptr<NodeResult> InputNode::evaluate(PSC::Context &ctx) {
         ctx.addVariable(var);
     }
 
+    if (var->isConstant)
+        throw PSC::ConstAssignError(token, ctx, var->name);
+
     PSC::String inputStr;
     getLine(inputStr.value, "");
 
diff --git a/src/nodes/loop/for.cpp b/src/nodes/loop/for.cpp
index 9cbc72f..790c2d6 100644
--- a/src/nodes/loop/for.cpp
+++ b/src/nodes/loop/for.cpp
@@ -20,6 +20,9 @@ std::unique_ptr<NodeResult> ForLoopNode::evaluate(PSC::Context &ctx) {
         ctx.addVariable(iterator);
     }
 
+    if (iterator->isConstant)
+        throw PSC::ConstAssignError(token, ctx, iterator->name);
+
     if (iterator->type != PSC::DataType::INTEGER)
         throw PSC::RuntimeError(token, ctx, "Iterator variable must be of type INTEGER");
 
-- 
2.43.0


From 8eddce8f6d77ace75aeae7d4c07c020d5ece03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 28/48] fix: INPUT of an empty line into a CHAR does not read
 past the end of the line

---
 src/nodes/io/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index 0fd0d29..800b3c0 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -99,7 +99,7 @@ std::unique_ptr<NodeResult> InputNode::evaluate(PSC::Context &ctx) {
             var->get<PSC::Boolean>() = (inputStr.value == "TRUE");
             break;
         case PSC::DataType::CHAR:
-            var->get<PSC::Char>() = inputStr.value.front();
+            var->get<PSC::Char>() = inputStr.value.empty() ? '\0' : inputStr.value.front();
             break;
         case PSC::DataType::STRING:
             var->get<PSC::String>().value = std::move(inputStr.value);
-- 
2.43.0


From ea1628755b9f19fdd8151c143c8abcf523b6785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 29/48] fix: a missing field name after '.' is a syntax error

---
 src/parser/variableExprParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/variableExprParser.cpp b/src/parser/variableExprParser.cpp
index f2b330d..edbe24d 100644
--- a/src/parser/variableExprParser.cpp
+++ b/src/parser/variableExprParser.cpp
@@ -84,6 +84,9 @@ std::unique_ptr<AbstractVariableResolver> Parser::parseIdentifierExpression() {
                 const Token &token = *currentToken;
                 advance();
 
+                if (currentToken->type != TokenType::IDENTIFIER)
+                    throw PSC::ExpectedTokenError(*currentToken, "identifier");
+
                 resolver = std::make_unique<CompositeResolver>(token, std::move(resolver), *currentToken);
                 advance();
                 break;
-- 
2.43.0


From e3aee8dbf9b40e5a68acb0f1a988bfaa718ff86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 30/48] fix: the REPL takes names that start with a keyword for
 a multi-line construct and misses indented ones

---
 src/launch/repl.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/launch/repl.cpp b/src/launch/repl.cpp
index 6ebc747..6d667de 100644
--- a/src/launch/repl.cpp
+++ b/src/launch/repl.cpp
@@ -1,5 +1,7 @@
 #include "pch.h"
 
+#include <algorithm>
+#include <cctype>
 #include <string>
 #include "launch/run.h"
 #include "PsConfig.h"
@@ -19,6 +21,13 @@ static const std::string multilineKeywords[] = {
     "TYPE"
 };
 
+static bool startsWithWord(const std::string &code, const std::string &word) {
+    if (!code.starts_with(word)) return false;
+    if (code.size() == word.size()) return true;
+    unsigned char next = code[word.size()];
+    return !std::isalnum(next) && next != '_';
+}
+
 bool startREPL() {
     std::cout << "PseudoEngine2 v" << PseudoEngine2_VERSION_MAJOR << '.' << PseudoEngine2_VERSION_MINOR << '.' << PseudoEngine2_VERSION_PATCH << " REPL\nEnter '?' for help, 'EXIT' to quit\n";
 
@@ -37,7 +46,7 @@ bool startREPL() {
             continue;
         } else if (code == "EXIT") {
             break;
-        } else if (code.starts_with("RUNFILE")) {
+        } else if (startsWithWord(code, "RUNFILE")) {
             if (size < 9) {
                 std::cerr << "Expected filename" << std::endl;
                 continue;
@@ -59,8 +68,9 @@ bool startREPL() {
         }
 
         for (const std::string &keyword : multilineKeywords) {
-            if (code.starts_with(keyword)) {
-                if (keyword == "TYPE" && code.find("=") != std::string::npos) break;
+            if (startsWithWord(code.substr(std::min(code.find_first_not_of(" \t"), size)), keyword)) {
+                // The definition of an enumerated or pointer type is a single line
+                if (keyword == "TYPE" && code.find("=") < code.find("//")) break;
                 std::string line = " ";
                 while (line.size() > 0) {
                     code += "\n";
-- 
2.43.0


From c3fb9a0a71c3cc4e5965271a790f508a7925640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 31/48] fix: READFILE on a file that is not open for reading is
 an error without effect

---
 src/nodes/io/file.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 6cf3d83..49fa16d 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -34,6 +34,15 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     if (filenameRes->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Expected string for file name");
 
+    auto &filename = filenameRes->get<PSC::String>();
+    PSC::File *file = ctx.getFileManager().getFile(filename);
+    if (file == nullptr)
+        throw PSC::FileNotOpenError(token, ctx, filename.value);
+    if (file->getMode() == PSC::FileMode::RANDOM)
+        throw PSC::RuntimeError(token, ctx, "Attempting to use 'READFILE' on random file. Use 'GETRECORD' instead.");
+    if (file->getMode() != PSC::FileMode::READ)
+        throw PSC::RuntimeError(token, ctx, "File '" + filename.value + "' is not open for reading");
+
     PSC::Variable *var = ctx.getVariable(identifier.value);
     if (var == nullptr) {
         var = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
@@ -44,16 +53,7 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     if (var->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
 
-    auto &filename = filenameRes->get<PSC::String>();
-    PSC::File *file = ctx.getFileManager().getFile(filename);
-    if (file == nullptr)
-        throw PSC::FileNotOpenError(token, ctx, filename.value);
-    if (file->getMode() == PSC::FileMode::RANDOM)
-        throw PSC::RuntimeError(token, ctx, "Attempting to use 'READFILE' on random file. Use 'GETRECORD' instead.");
-    
-    PSC::String *data = new PSC::String;
-    *data = file->read();
-    var->set(data);
+    var->get<PSC::String>() = file->read();
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
-- 
2.43.0


From 4dbcdfb4ccfa469168cf4ff01681ca81e2424fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 32/48] fix: EOF is TRUE as soon as no unread line remains

---
 src/psc/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index f794751..df39228 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -53,7 +53,7 @@ FileMode File::getMode() {
 
 bool File::eof() {
     if (mode != FileMode::READ) std::abort();
-    return ifile->eof();
+    return ifile->peek() == std::ifstream::traits_type::eof();
 }
 
 void File::close() {
-- 
2.43.0


From a4c83daa013bbad025b711042ee2a49cb8a97046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 33/48] fix: appending to a file whose last line is not
 terminated starts a new line

---
 src/psc/file.cpp | 8 ++++++++
 src/psc/file.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index df39228..bae7579 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -17,6 +17,12 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
             ofile->open(name.value);
             break;
         case FileMode::APPEND:
+            // The last line is not always terminated
+            ifile = std::make_unique<std::ifstream>();
+            ifile->open(name.value);
+            if (ifile->seekg(-1, std::ios::end)) needsNewline = ifile->peek() != '\n';
+            ifile->close();
+
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value, std::ios::app);
             break;
@@ -86,6 +92,8 @@ String File::read() {
 }
 
 void File::write(const String &data) {
+    if (needsNewline) *ofile << "\n";
+    needsNewline = false;
     *ofile << data.value << "\n";
 }
 
diff --git a/src/psc/file.h b/src/psc/file.h
index 517bd89..65189eb 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -21,6 +21,7 @@ namespace PSC {
         size_t ptr = 0;
         bool open = true;
         bool modified = false;
+        bool needsNewline = false;
 
     public:
         const String name;
-- 
2.43.0


From 5e5e1ca5c1db2c648d24cf99917f1dbf53486e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 34/48] fix: line breaks in the first record of a random file
 are read back

---
 src/psc/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index bae7579..0223dc6 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -33,7 +33,7 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
             if (ifile->peek() != std::ifstream::traits_type::eof()) {
                 while (!ifile->eof()) {
                     std::getline(*ifile, line);
-                    if (line.starts_with('#') && records.size() > 1) {
+                    if (line.starts_with('#') && records.size() > 0) {
                         records[records.size()-1] += '\n';
                         records[records.size()-1] += line;
                         continue;
-- 
2.43.0


From ffe37cde951a765d9e4d181332116edf9d809f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 35/48] fix: a line break in a CHAR field of a record is read
 back from a random file

---
 src/psc/types/character.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index e3f4c79..27bfe38 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -52,6 +52,7 @@ bool Char::load(std::istream &in, Context&) {
 
     in.ignore(1); // whitespace
     value = in.get();
+    if (value == '\n') in.ignore(1); // '#'
 
     return !in.fail();
 }
-- 
2.43.0


From 5c8cde0fa25e0bb52ff941610f0a8c4488a610ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 36/48] fix: records with several array fields can be read back
 from a random file

---
 src/psc/types/userType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 08849bb..33a25ba 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -142,7 +142,7 @@ void Composite::dump(std::ostream &out) const {
     if (arrays.size() > 0) out << " ";
     for (size_t i = 0; i < arrays.size(); i++) {
         arrays[i]->dump(out);
-        if (i < vars.size() - 1) out << " ";
+        if (i < arrays.size() - 1) out << " ";
     }
 }
 
-- 
2.43.0


From 362646cf5369da52f9c8b61ede9f4d63d74cc262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 37/48] fix: a STRING record with a wrong length is reported
 instead of read out of bounds

---
 src/psc/types/character.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index 27bfe38..691a922 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -125,20 +125,21 @@ bool String::load(std::istream &in, Context&) {
     in >> s;
     if (s != "STRING") return false;
 
-    in >> s;
-    if (in.fail()) return false;
-    size_t length = std::stoul(s, nullptr);
-
-    char *buf = new char[length];
+    std::streamsize length;
+    in >> length;
+    if (in.fail() || length < 0) return false;
     in.ignore(1); // whitespace
-    in.read(buf, length);
+
+    // The length might not match the contents of the file
+    if (length > 0 && length > in.rdbuf()->in_avail()) return false;
+    std::string buf(length, '\0');
+    in.read(buf.data(), length);
     value.clear();
     value.reserve(length);
-    for (size_t i = 0; i < length; i++) {
+    for (size_t i = 0; i < buf.size(); i++) {
         if (i > 0 && buf[i] == '#' && buf[i-1] == '\n') continue;
         value += buf[i];
     }
-    delete[] buf;
 
     return true;
 }
-- 
2.43.0


From 01f77f251b3ba5bfee9c57ea230a830f0d749ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 38/48] fix: a DATE record that is not a valid date is reported

---
 src/psc/types/date.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index 818496e..d949c76 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -58,20 +58,17 @@ bool Date::load(std::istream &in, Context&) {
     in >> s;
     if (s != "DATE") return false;
     
-    unsigned int day = 0;
-    unsigned int month = 0;
-    int year = 0;
+    int_t day = 0;
+    int_t month = 0;
+    int_t year = 0;
 
     in >> day;
     in >> month;
     in >> year;
     if (in.fail()) return false;
 
-    date = std::chrono::year_month_day(
-        std::chrono::year(year),
-        std::chrono::month(month),
-        std::chrono::day(day)
-    );
+    date = makeDate(day, month, year);
 
-    return true;
+    // The default value is the only one that is not an actual date
+    return date.ok() || (day == 0 && month == 0 && year == 0);
 }
-- 
2.43.0


From 7de86c6e05fe18bae60f89a51080bd5cc79d6e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 39/48] fix: a GETRECORD that fails leaves the variable
 unchanged

---
 src/psc/file.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 0223dc6..9856924 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -108,7 +108,21 @@ bool File::getRecord(DataHolder &data, Context &ctx) {
     if (ptr == records.size()) return false;
     const std::string &line = records[ptr];
     std::istringstream ss(line);
-    return data.load(ss, ctx);
+
+    // The data is only changed if all of the record can be used
+    auto loadRecord = [&]<typename T>(T &dest, T &&temp) {
+        if (!temp.load(ss, ctx)) return false;
+        if (!(ss >> std::ws).eof()) return false;
+        dest.copyData(temp);
+        return true;
+    };
+
+    if (data.isArray()) {
+        auto &array = static_cast<Array&>(data);
+        return loadRecord(array, Array(array, &ctx));
+    }
+    auto &variable = static_cast<Variable&>(data);
+    return loadRecord(variable, Variable(variable, &ctx));
 }
 
 void File::putRecord(DataHolder &data) {
-- 
2.43.0


From dd25feb03be1e66fd8513d00fddd02163b99738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 40/48] fix: report an OPENFILE that cannot open the file

---
 src/psc/file.cpp | 20 ++++++++++++++++++--
 src/psc/file.h   |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 9856924..ac51de8 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -3,6 +3,7 @@
 #include "psc/file.h"
 #include <filesystem>
 #include <sstream>
+#include <system_error>
 
 using namespace PSC;
 
@@ -11,10 +12,12 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
         case FileMode::READ:
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
+            open = ifile->is_open();
             break;
         case FileMode::WRITE:
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value);
+            open = ofile->is_open();
             break;
         case FileMode::APPEND:
             // The last line is not always terminated
@@ -25,10 +28,12 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
 
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value, std::ios::app);
+            open = ofile->is_open();
             break;
         case FileMode::RANDOM:
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
+            open = ifile->is_open();
             std::string line;
             if (ifile->peek() != std::ifstream::traits_type::eof()) {
                 while (!ifile->eof()) {
@@ -53,6 +58,10 @@ File::~File() {
     if (open) close();
 }
 
+bool File::isOpen() const {
+    return open;
+}
+
 FileMode File::getMode() {
     return mode;
 }
@@ -138,7 +147,12 @@ void File::putRecord(DataHolder &data) {
 
 bool FileManager::createFile(const String &name, FileMode mode) {
     namespace fs = std::filesystem;
-    if (!fs::exists(fs::path(name.value))) {
+    if (name.value.find('\0') != std::string::npos) return false;
+
+    std::error_code error;
+    auto status = fs::status(fs::path(name.value), error);
+    if (!fs::status_known(status) || fs::is_directory(status)) return false;
+    if (!fs::exists(status)) {
         if (mode == FileMode::RANDOM) {
             std::ofstream f(name.value, std::ios::out);
             f.close();
@@ -147,7 +161,9 @@ bool FileManager::createFile(const String &name, FileMode mode) {
             return false;
         }
     }
-    files.emplace_back(std::make_unique<File>(name, mode));
+    auto file = std::make_unique<File>(name, mode);
+    if (!file->isOpen()) return false;
+    files.emplace_back(std::move(file));
     return true;
 }
 
diff --git a/src/psc/file.h b/src/psc/file.h
index 65189eb..207ec07 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -30,6 +30,8 @@ namespace PSC {
 
         ~File();
 
+        bool isOpen() const;
+
         FileMode getMode();
 
         bool eof();
-- 
2.43.0


From 5ed4d4c378fcb03ae6b737bdc392333500135afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 41/48] fix: report data that cannot be written to a file

---
 src/launch/repl.cpp    |  4 ++--
 src/launch/run.h       |  3 +++
 src/launch/runFile.cpp | 21 +++++++++++++++++----
 src/nodes/io/file.cpp  |  6 ++++--
 src/psc/file.cpp       | 31 +++++++++++++++++++++++++------
 src/psc/file.h         | 11 ++++++++---
 6 files changed, 59 insertions(+), 17 deletions(-)

diff --git a/src/launch/repl.cpp b/src/launch/repl.cpp
index 6d667de..24efac1 100644
--- a/src/launch/repl.cpp
+++ b/src/launch/repl.cpp
@@ -74,7 +74,7 @@ bool startREPL() {
                 std::string line = " ";
                 while (line.size() > 0) {
                     code += "\n";
-                    if (!getLine(line, ". ")) return true;
+                    if (!getLine(line, ". ")) return closeFiles(*globalCtx);
                     code += line;
                 }
                 break;
@@ -94,5 +94,5 @@ bool startREPL() {
             e.print();
         }
     }
-    return true;
+    return closeFiles(*globalCtx);
 }
diff --git a/src/launch/run.h b/src/launch/run.h
index 7cb55ee..38b22c8 100644
--- a/src/launch/run.h
+++ b/src/launch/run.h
@@ -4,4 +4,7 @@
 
 bool runFile();
 
+// Closes the files that are still open, false (and a diagnostic) if one of them could not be written
+bool closeFiles(PSC::Context &ctx);
+
 bool startREPL();
diff --git a/src/launch/runFile.cpp b/src/launch/runFile.cpp
index ba56bd9..b1a19f8 100644
--- a/src/launch/runFile.cpp
+++ b/src/launch/runFile.cpp
@@ -2,6 +2,7 @@
 #include <fstream>
 
 #include "launch/run.h"
+#include "psc/builtinFunctions/functions.h"
 
 extern std::string psfilename;
 
@@ -23,18 +24,30 @@ bool runFile() {
     file.close();
 
     Lexer lexer(&fData);
+    Parser parser;
+    auto globalCtx = PSC::Context::createGlobalContext();
+    bool success = true;
     try {
         const std::vector<Token*> &tokens = lexer.makeTokens();
-        Parser parser(&tokens);
+        parser.setTokens(&tokens);
         PSC::Block *block = parser.parse();
         std::cout.precision(10);
 
-        auto globalCtx = PSC::Context::createGlobalContext();
         block->run(*globalCtx);
     } catch (const PSC::Error &e) {
         std::cout << "\n";
         e.print();
-        return false;
+        success = false;
+    }
+    return closeFiles(*globalCtx) && success;
+}
+
+bool closeFiles(PSC::Context &ctx) {
+    std::vector<std::string> failed = ctx.getFileManager().closeAll();
+    for (const std::string &name : failed) {
+        PSC::RuntimeError error(PSC::errToken, ctx, "Failed to write to file '" + name + "'");
+        std::cout << "\n";
+        error.print();
     }
-    return true;
+    return failed.empty();
 }
diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 49fa16d..0bfaf8f 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -106,7 +106,8 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
             throw PSC::TypeOperationError(token, ctx, "Write");
     }
 
-    file->write(*data);
+    if (!file->write(*data))
+        throw PSC::RuntimeError(token, ctx, "Failed to write to file '" + filename.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
@@ -125,7 +126,8 @@ std::unique_ptr<NodeResult> CloseFileNode::evaluate(PSC::Context &ctx) {
     if (file == nullptr)
         throw PSC::FileNotOpenError(token, ctx, filename.value);
 
-    ctx.getFileManager().closeFile(filename);
+    if (!ctx.getFileManager().closeFile(filename))
+        throw PSC::RuntimeError(token, ctx, "Failed to write to file '" + filename.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index ac51de8..627f06e 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -23,7 +23,10 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
             // The last line is not always terminated
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
-            if (ifile->seekg(-1, std::ios::end)) needsNewline = ifile->peek() != '\n';
+            if (ifile->seekg(-1, std::ios::end)) {
+                int last = ifile->peek();
+                needsNewline = last != '\n' && last != std::ifstream::traits_type::eof();
+            }
             ifile->close();
 
             ofile = std::make_unique<std::ofstream>();
@@ -71,7 +74,8 @@ bool File::eof() {
     return ifile->peek() == std::ifstream::traits_type::eof();
 }
 
-void File::close() {
+bool File::close() {
+    bool success = true;
     switch (mode) {
         case FileMode::READ:
             ifile->close();
@@ -79,6 +83,7 @@ void File::close() {
         case FileMode::WRITE:
         case FileMode::APPEND:
             ofile->close();
+            success = !ofile->fail();
             break;
         case FileMode::RANDOM:
             if (modified) {
@@ -88,10 +93,12 @@ void File::close() {
                     *ofile << line << "\n";
                 }
                 ofile->close();
+                success = !ofile->fail();
             }
             break;
     }
     open = false;
+    return success;
 }
 
 String File::read() {
@@ -100,10 +107,12 @@ String File::read() {
     return line;
 }
 
-void File::write(const String &data) {
+bool File::write(const String &data) {
     if (needsNewline) *ofile << "\n";
     needsNewline = false;
     *ofile << data.value << "\n";
+    ofile->flush();
+    return !ofile->fail();
 }
 
 bool File::seek(const Integer &address) {
@@ -174,13 +183,23 @@ File *FileManager::getFile(const String &name) {
     return nullptr;
 }
 
-void FileManager::closeFile(const String &name) {
+bool FileManager::closeFile(const String &name) {
     for (std::size_t i = 0; i < files.size(); i++) {
         auto &file = files[i];
         if (file->name.value == name.value) {
-            file->close();
+            bool success = file->close();
             files.erase(files.begin() + i);
-            return;
+            return success;
         }
     }
+    return true;
+}
+
+std::vector<std::string> FileManager::closeAll() {
+    std::vector<std::string> failed;
+    for (auto &file : files) {
+        if (!file->close()) failed.push_back(file->name.value);
+    }
+    files.clear();
+    return failed;
 }
diff --git a/src/psc/file.h b/src/psc/file.h
index 207ec07..a5830ed 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -36,11 +36,12 @@ namespace PSC {
 
         bool eof();
 
-        void close();
+        // False if not everything could be written
+        bool close();
 
         String read();
 
-        void write(const String &data);
+        bool write(const String &data);
 
         bool seek(const Integer &address);
 
@@ -58,6 +59,10 @@ namespace PSC {
 
         File *getFile(const String &name);
 
-        void closeFile(const String &name);
+        // False if not everything could be written, the file is closed anyway
+        bool closeFile(const String &name);
+
+        // Names of the files that could not be written
+        std::vector<std::string> closeAll();
     };
 }
-- 
2.43.0


From cee29bb1b33ed5715b93242fb4a03a5786c8534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 42/48] verification hook: bounds for generated programs
 (PSC_VERIF_BUDGET)

---
 src/nodes/eval/stringcat.cpp |  3 +++
 src/psc/array.cpp            |  3 +++
 src/psc/procedure.cpp        |  2 ++
 src/psc/scope/block.cpp      |  4 ++++
 src/psc/verif_budget.h       | 45 ++++++++++++++++++++++++++++++++++++
 5 files changed, 57 insertions(+)
 create mode 100644 src/psc/verif_budget.h

diff --git a/src/nodes/eval/stringcat.cpp b/src/nodes/eval/stringcat.cpp
index 89c416b..e80a876 100644
--- a/src/nodes/eval/stringcat.cpp
+++ b/src/nodes/eval/stringcat.cpp
@@ -2,6 +2,7 @@
 
 #include "psc/error.h"
 #include "nodes/eval/stringcat.h"
+#include "psc/verif_budget.h"
 
 std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx) {
     auto leftRes = left.evaluate(ctx);
@@ -16,6 +17,8 @@ std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx)
     auto leftStr = static_cast<const PSC::Primitive*>(leftRes->data.get())->toString();
     auto rightStr = static_cast<const PSC::Primitive*>(rightRes->data.get())->toString();
 
+    PSC_VERIF_STRING(leftStr->value.length() + rightStr->value.length(), token, ctx);
+
     auto res = (*leftStr) & (*rightStr);
 
     return std::make_unique<NodeResult>(std::move(res), PSC::DataType::STRING);
diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index f00579e..ad99351 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -3,6 +3,7 @@
 
 #include "psc/types/types.h"
 #include "psc/array.h"
+#include "psc/verif_budget.h"
 
 using namespace PSC;
 
@@ -72,6 +73,8 @@ void Array::init(Context &ctx) {
         size *= maxIndex + 1;
     }
 
+    PSC_VERIF_CELLS(size, PSC::verifToken, ctx);
+
     data.reserve(size);
 
     for (size_t i = 0; i < size; i++) {
diff --git a/src/psc/procedure.cpp b/src/psc/procedure.cpp
index c99c493..c450f3d 100644
--- a/src/psc/procedure.cpp
+++ b/src/psc/procedure.cpp
@@ -5,6 +5,7 @@
 #include "psc/scope/block.h"
 #include "psc/scope/context.h"
 #include "procedure.h"
+#include "psc/verif_budget.h"
 
 using namespace PSC;
 
@@ -34,6 +35,7 @@ std::vector<PSC::DataType> Procedure::getTypes() const {
 }
 
 void Procedure::run(PSC::Context &ctx) {
+    PSC_VERIF_DEPTH(PSC::verifToken, ctx);
     // These only act on loops of the body itself, not on one the call is in
     try {
         block->run(ctx);
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index 46ea10a..c6e01ed 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -5,6 +5,7 @@
 #include "nodes/loop/control.h"
 #include "psc/error.h"
 #include "psc/scope/block.h"
+#include "psc/verif_budget.h"
 
 using namespace PSC;
 
@@ -66,17 +67,20 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
 
 void Block::_run(PSC::Context &ctx) {
     for (Node *node : nodes) {
+        PSC_VERIF_STEP(node->getToken(), ctx);
         node->evaluate(ctx);
     }
 }
 
 void Block::_runREPL(PSC::Context &ctx) {
     for (Node *node : nodes) {
+        PSC_VERIF_STEP(node->getToken(), ctx);
         runNodeREPL(node, ctx);
     }
 }
 
 void Block::run(PSC::Context &ctx) {
+    PSC_VERIF_STEP(PSC::verifToken, ctx);
     if (REPLMode) _runREPL(ctx);
     else _run(ctx);
 }
diff --git a/src/psc/verif_budget.h b/src/psc/verif_budget.h
new file mode 100644
index 0000000..a203983
--- /dev/null
+++ b/src/psc/verif_budget.h
@@ -0,0 +1,45 @@
+#pragma once
+// Bounds for runs of generated programs, only used when built for verification.
+// A run that exceeds one of them ends with an ordinary RuntimeError.
+#ifdef PSC_VERIF_BUDGET
+#include "psc/error.h"
+
+namespace PSC {
+    struct VerifBudget {
+        unsigned long steps = 0, maxSteps = 200000; // Statements and block executions
+        unsigned long depth = 0, maxDepth = 400; // Active procedure and function calls
+        unsigned long cells = 0, maxCells = 200000; // Array elements created
+        unsigned long maxString = 1000000; // Length of a concatenated string
+        unsigned long exceeded = 0;
+
+        void check(bool ok, const Token &token, const Context &ctx) {
+            if (ok) return;
+            exceeded++;
+            throw RuntimeError(token, ctx, "[verification budget exceeded]");
+        }
+    };
+
+    inline VerifBudget verifBudget;
+
+    inline const Token verifToken{TokenType::EXPRESSION_END, 0, 0};
+
+    struct VerifDepth {
+        VerifDepth(const Token &token, const Context &ctx) {
+            verifBudget.check(verifBudget.depth < verifBudget.maxDepth, token, ctx);
+            verifBudget.depth++;
+        }
+
+        ~VerifDepth() { verifBudget.depth--; }
+    };
+}
+
+#define PSC_VERIF_STEP(token, ctx) PSC::verifBudget.check(++PSC::verifBudget.steps <= PSC::verifBudget.maxSteps, token, ctx)
+#define PSC_VERIF_DEPTH(token, ctx) PSC::VerifDepth verifDepth(token, ctx)
+#define PSC_VERIF_CELLS(n, token, ctx) PSC::verifBudget.check((n) <= PSC::verifBudget.maxCells && (PSC::verifBudget.cells += (n)) <= PSC::verifBudget.maxCells, token, ctx)
+#define PSC_VERIF_STRING(n, token, ctx) PSC::verifBudget.check((n) <= PSC::verifBudget.maxString, token, ctx)
+#else
+#define PSC_VERIF_STEP(token, ctx)
+#define PSC_VERIF_DEPTH(token, ctx)
+#define PSC_VERIF_CELLS(n, token, ctx)
+#define PSC_VERIF_STRING(n, token, ctx)
+#endif
-- 
2.43.0


From 90c617e184d45c3fc27f56188b0893061b418c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:14 +0000
Subject: [PATCH 43/48] fix: a token spanning lines is reported at its first
 line

---
 src/lexer/symbolLexer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lexer/symbolLexer.cpp b/src/lexer/symbolLexer.cpp
index a89686f..5acffb0 100644
--- a/src/lexer/symbolLexer.cpp
+++ b/src/lexer/symbolLexer.cpp
@@ -215,6 +215,7 @@ void Lexer::makeChar() {
     if (idx + 2 >= expr->size()) 
         throw PSC::LexerError(line, column, "Char must contain at least one character");
 
+    int startLine = line;
     int startColumn = column;
     advance();
     char c;
@@ -236,10 +237,11 @@ void Lexer::makeChar() {
 
     std::string str;
     str += c;
-    tokens.emplace_back(new Token(TokenType::CHAR, line, startColumn, str));
+    tokens.emplace_back(new Token(TokenType::CHAR, startLine, startColumn, str));
 }
 
 void Lexer::makeString() {
+    int startLine = line;
     int startColumn = column;
     advance();
 
@@ -260,5 +262,5 @@ void Lexer::makeString() {
         throw PSC::ExpectedQuotesError(line, column, true);
     advance();
 
-    tokens.emplace_back(new Token(TokenType::STRING, line, startColumn, str));
+    tokens.emplace_back(new Token(TokenType::STRING, startLine, startColumn, str));
 }
-- 
2.43.0


From 5c642490d89528a03496b68757684f17ad752d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 44/48] fix: a whole-array assignment evaluated the indices of
 its source twice

---
 src/nodes/variable/variable.cpp | 7 ++++---
 src/psc/error.cpp               | 8 ++++++--
 src/psc/error.h                 | 7 ++++++-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 1dc99e1..9e52887 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -55,8 +55,9 @@ AssignNode::AssignNode(const Token &token, Node &node, std::unique_ptr<AbstractV
 
 void AssignNode::assignArray(PSC::Context &ctx, const PSC::ArrayDirectAccessError &e) {
     AccessNode *accsNode = dynamic_cast<AccessNode*>(&node);
-    if (accsNode == nullptr) throw e;
-    auto array = static_cast<PSC::Array*>(&accsNode->resolver->resolve(ctx));
+    if (accsNode == nullptr || e.array == nullptr || !e.isAt(accsNode->token)) throw e;
+    // Resolving the array again would repeat side effects
+    auto array = e.array;
     
     PSC::DataHolder &holder = resolver->resolve(ctx);
     if (!holder.isArray()) throw e;
@@ -165,7 +166,7 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
     }
 
     if (holder->isArray())
-        throw PSC::ArrayDirectAccessError(token, ctx);
+        throw PSC::ArrayDirectAccessError(token, ctx, static_cast<PSC::Array*>(holder));
     
     PSC::Variable &var = *static_cast<PSC::Variable*>(holder);
 
diff --git a/src/psc/error.cpp b/src/psc/error.cpp
index acdb67d..4b8e357 100644
--- a/src/psc/error.cpp
+++ b/src/psc/error.cpp
@@ -132,10 +132,14 @@ TypeNotDefinedError::TypeNotDefinedError(const Token &token, const Context &cont
     : NotDefinedError(token, context, "Type '" + type + "'", getTypeHint(type))
 {}
 
-ArrayDirectAccessError::ArrayDirectAccessError(const Token &token, const Context &context)
-    : RuntimeError(token, context, "Attempting to access array without indices")
+ArrayDirectAccessError::ArrayDirectAccessError(const Token &token, const Context &context, Array *array)
+    : RuntimeError(token, context, "Attempting to access array without indices"), array(array)
 {}
 
+bool ArrayDirectAccessError::isAt(const Token &accessToken) const {
+    return &token == &accessToken;
+}
+
 inline std::string conditionTypeErrorMessage(TokenType type) {
     std::stringstream msg;
     msg << "Invalid condition for ";
diff --git a/src/psc/error.h b/src/psc/error.h
index 115c821..d4fe586 100644
--- a/src/psc/error.h
+++ b/src/psc/error.h
@@ -107,7 +107,12 @@ namespace PSC {
 
     class ArrayDirectAccessError : public RuntimeError {
     public:
-        ArrayDirectAccessError(const Token &token, const Context &context);
+        // Set if the array was found by evaluating the access at 'token'
+        Array *const array;
+
+        ArrayDirectAccessError(const Token &token, const Context &context, Array *array = nullptr);
+
+        bool isAt(const Token &accessToken) const;
     };
 
     class ConditionTypeError : public RuntimeError {
-- 
2.43.0


From 210e0739e18f2a4fbf2809915845e0759eedb13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 45/48] fix: WRITEFILE used a file closed by a function called
 in its data

The file was looked up before the data was evaluated; a function called
there could close it (or open it again in another mode), after which the
statement wrote through a dangling pointer.
---
 src/nodes/io/file.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 0bfaf8f..d5ac706 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -77,6 +77,14 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
         throw PSC::RuntimeError(token, ctx, "Attempting to use 'WRITEFILE' on random file. Use 'PUTRECORD' instead.");
 
     auto nodeRes = data.evaluate(ctx);
+
+    // A function called by the data may have closed the file, or opened it in another mode
+    file = ctx.getFileManager().getFile(filename);
+    if (file == nullptr)
+        throw PSC::FileNotOpenError(token, ctx, filename.value);
+    if (file->getMode() != PSC::FileMode::WRITE && file->getMode() != PSC::FileMode::APPEND)
+        throw PSC::RuntimeError(token, ctx, "File '" + filename.value + "' is not open for writing");
+
     std::unique_ptr<PSC::String> data;
     switch (nodeRes->type.type) {
         case PSC::DataType::INTEGER:
-- 
2.43.0


From c371a7498d0094e0a67ed5a5a6d215891390b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:27 +0000
Subject: [PATCH 46/48] fix: an error in an index was swallowed where an enum
 value has the array's name

Evaluating 'v[f()]' treated any undefined name, also one met while the
index was evaluated, as the enum value 'v' if there is one. Only a name
alone can be an enum value.
---
 src/nodes/variable/variable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 9e52887..c74cfb2 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -158,7 +158,9 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
     try {
         holder = &resolver->resolve(ctx);
     } catch (PSC::NotDefinedError &e) {
-        auto def = ctx.getEnumElement(token.value);
+        // The error can also come from an index, and only a name alone can be an enum value
+        bool isName = dynamic_cast<const SimpleVariableSource*>(resolver.get()) != nullptr;
+        auto def = isName ? ctx.getEnumElement(token.value) : nullptr;
         if (def != nullptr)
             // The name must outlive the value, as it can become the type of a new variable
             return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->getDefinition(ctx).name));
-- 
2.43.0


From bbe4469d546e91488a7b55997c24a3d9166e5ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 47/48] fix: order dates before year 0 before the later ones

---
 src/psc/types/date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index d949c76..aaaed58 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -25,7 +25,7 @@ std::chrono::year_month_day Date::makeDate(int_t day, int_t month, int_t year) {
 std::unique_ptr<Integer> Date::toInteger() const {
     unsigned int day = static_cast<unsigned int>(date.day());
     unsigned int month = static_cast<unsigned int>(date.month());
-    int year = static_cast<int>(date.year());
+    int_t year = static_cast<int>(date.year());
 
     int_t cmp = year * 372 + month * 31 + day;
     return std::make_unique<Integer>(cmp);
-- 
2.43.0


From 0faa7c373bdc20164a906bf8d4bcfcb611bfe726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 48/48] fix: a string with a NUL character after the digits was
 converted like a numeral

---
 src/psc/types/character.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index 691a922..f3199dd 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -79,7 +79,7 @@ std::unique_ptr<Integer> String::toInteger() const {
     char *end;
 
     int_t x = std::strtol(cStr, &end, 10);
-    if (end[0] != '\0' || cStr[0] == '\0') {
+    if (end != cStr + value.size() || value.empty()) {
         x = 0;
     }
 
@@ -91,7 +91,7 @@ std::unique_ptr<Real> String::toReal() const {
     char *end;
 
     real_t x = std::strtod(cStr, &end);
-    if (end[0] != '\0' || cStr[0] == '\0') {
+    if (end != cStr + value.size() || value.empty()) {
         x = 0.0;
     }
 
-- 
2.43.0

