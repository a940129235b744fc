From 994ade5f554bda5bddfae65aa797450a2e8a080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 01/34] fix: error messages longer than the format buffer read
 past its end

---
 src/error.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index b7edf5b..e1aab1c 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -22,9 +22,20 @@ std::string verrorFormat(const char* fmt, ...)
     va_start(args, fmt);
 
     char buf[1024];
-    int n = std::vsnprintf(buf, sizeof(buf) - 1, fmt, args);
+    int n = std::vsnprintf(buf, sizeof(buf), fmt, args);
+    va_end(args);
 
-    return std::string(buf, n);
+    if (n < 0) return fmt;
+    if (size_t(n) < sizeof(buf)) return std::string(buf, n);
+
+    // Doesn't fit in our stack buffer so we need to format again.
+    std::vector<char> large(n + 1);
+
+    va_start(args, fmt);
+    std::vsnprintf(large.data(), large.size(), fmt, args);
+    va_end(args);
+
+    return std::string(large.data(), n);
 }
 
 
-- 
2.43.0


From 553581c9c81fa5f0a3c876d02e53d440d29fc5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 02/34] fix: hold the registry lock while the registry is used

---
 src/registry.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index 461b467..3165235 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -19,19 +19,20 @@ namespace {
 
 struct RegistryState
 {
-    std::mutex lock;
+    // Loaders are executed while holding the lock and can call back into the
+    // registry to look up the types they depend on.
+    std::recursive_mutex lock;
+
     std::unordered_map<std::string, const Type*> types;
     std::unordered_map<std::string, std::string> aliases;
     std::unordered_map<std::string, std::function<void(Type*)> > loaders;
     Scope scopes;
 };
 
-RegistryState* registry_ = nullptr;
-
 RegistryState& getRegistry()
 {
-    if (!registry_) registry_ = new RegistryState();
-    return *registry_;
+    static RegistryState* registry = new RegistryState();
+    return *registry;
 }
 
 } // namespace anonymous
@@ -53,7 +54,7 @@ Registry::
 get(const std::string& id)
 {
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     const std::string* pId = &id;
 
@@ -109,7 +110,7 @@ add(const std::string& id, std::function<void(Type*)> loader)
         reflectError("can't add loader for<%s>", id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     // If we already have a loader then too-bad.
     registry.loaders.emplace(std::move(id), std::move(loader));
@@ -124,7 +125,7 @@ alias(const std::string& id, const std::string& alias)
         reflectError("<%s> can't be aliased to <%s>", alias, id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     auto ret = registry.aliases.emplace(std::move(alias), std::move(id));
     if (!ret.second) {
-- 
2.43.0


From 4c4c3f5d61c50a128a35c4a09b027456d1455183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 03/34] fix: template types are visible as loaded only once
 they're registered

---
 src/dsl/template.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dsl/template.h b/src/dsl/template.h
index ab1184c..b069644 100644
--- a/src/dsl/template.h
+++ b/src/dsl/template.h
@@ -8,6 +8,8 @@
 #include "reflect.h"
 #pragma once
 
+#include <atomic>
+
 namespace reflect {
 
 /******************************************************************************/
@@ -17,10 +19,10 @@ namespace reflect {
 #define reflectTemplateLoader()                 \
     static void loader()                        \
     {                                           \
-        static bool loaded = false;             \
+        static std::atomic<bool> loaded(false); \
         if (loaded) return;                     \
-        loaded = true;                          \
         Registry::add<T_>();                    \
+        loaded = true;                          \
     }
 
 
-- 
2.43.0


From 2e50e9e683fa8acebc514133255142cf4896f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 04/34] fix: testing a conversion can't deadlock with the
 loading of a type

---
 src/argument.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index e279d7b..7e4884a 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -7,6 +7,7 @@
 
 #include "reflect.h"
 
+#include <atomic>
 #include <sstream>
 
 namespace reflect {
@@ -92,7 +93,12 @@ Match
 Argument::
 isConvertibleTo(const Argument& target) const
 {
-    static const Type* valueType = reflect::type<Value>();
+    // Can't be a plain static because its initialization would require the
+    // registry's lock which might be held by a thread waiting on said static.
+    static std::atomic<const Type*> valueCache(nullptr);
+
+    const Type* valueType = valueCache;
+    if (!valueType) valueCache = valueType = reflect::type<Value>();
 
     if (*this == target) return Match::Exact;
 
-- 
2.43.0


From 4a76b012536ebba4eb270bee5daaf5a8888414f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 05/34] fix: the reference type of a void argument was never
 initialized

---
 src/argument.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index 7e4884a..899ecf7 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -42,7 +42,9 @@ std::ostream& operator<<(std::ostream& stream, Match match)
 /******************************************************************************/
 
 Argument::
-Argument() : type_(reflect::type<void>()), isConst_(false) {}
+Argument() :
+    type_(reflect::type<void>()), refType_(RefType::Copy), isConst_(false)
+{}
 
 Argument::
 Argument(const Type* type, RefType refType, bool isConst) :
-- 
2.43.0


From b217aec64481b9b2b81808e81fe0d5a3081d8518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 06/34] fix: json print on a stream called parse and didn't
 compile

---
 src/utils/json/printer.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/printer.tcc b/src/utils/json/printer.tcc
index acf7704..7616028 100644
--- a/src/utils/json/printer.tcc
+++ b/src/utils/json/printer.tcc
@@ -114,7 +114,7 @@ template<typename T>
 Error print(std::ostream& stream, const T& value)
 {
     Writer writer(stream);
-    return parse(stream, value);
+    return print(writer, value);
 }
 
 template<typename T>
-- 
2.43.0


From 32823ca49b067ccf0df631c26b69fc99b693272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 07/34] fix: move assigning a function leaked the previous
 function

---
 src/function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/function.cpp b/src/function.cpp
index 0c2a826..c5ceda4 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -32,6 +32,7 @@ operator=(Function&& other) noexcept
 {
     if (this == &other) return *this;
 
+    if (fn) freeValueFunction(fn);
     fn = other.fn;
     other.fn = nullptr;
 
-- 
2.43.0


From 85f1387d451c3e5f4e16d821dca63cf92ba63050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 08/34] fix: json printer missed two fields sharing the same
 alias

---
 src/utils/json/printer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/printer.cpp b/src/utils/json/printer.cpp
index e8fa643..ab28d59 100644
--- a/src/utils/json/printer.cpp
+++ b/src/utils/json/printer.cpp
@@ -250,8 +250,8 @@ struct ObjectPrinter : public Printer
                 isSkipEmpty = traits.skipEmpty;
             }
 
-            if (fields.count(key))
-                reflectError("duplicate json key <%s> in <%s>", key, type->id());
+            if (keys.count(alias))
+                reflectError("duplicate json key <%s> in <%s>", alias, type->id());
 
             keys[alias] = key;
             sortedKeys.push_back(alias);
-- 
2.43.0


From 77335f113b933b32608f75879186137e70c9fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 09/34] fix: json line count ignored the end of comments

---
 src/utils/json/token.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 64dccad..ec4ae47 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -125,6 +125,7 @@ char nextChar(Reader& reader)
                 reader.error("comments are not allowed");
 
             while (reader && (c = reader.pop()) != '\n') continue;
+            if (c == '\n') reader.newline();
             continue;
         }
 
-- 
2.43.0


From a0b3b77d3cefaa2c3d88d9717c814f6fc48cad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 10/34] fix: json skip passed a token to printf

---
 src/utils/json/parser.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index f2f99b3..7b6c53f 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -117,7 +117,7 @@ void skip(Reader& reader)
         break;
 
     default:
-        reader.error("unable to skip token %s", token);
+        reader.error("unable to skip token %s", token.print());
         break;
 
     }
-- 
2.43.0


From 434235a9189ab0e350ee0a32649ebf0f33d24bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 11/34] fix: malformed or truncated json is reported through
 the reader's error

---
 src/utils/json/parser.tcc | 23 +++++++++++++++--------
 src/utils/json/token.cpp  |  2 +-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index 7b6c53f..ad1d70a 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -21,12 +21,15 @@ void parseNull(Reader& reader)
 
 bool parseBool(Reader& reader)
 {
-    return reader.expectToken(Token::Bool).asBool();
+    Token token = reader.expectToken(Token::Bool);
+    return token.type() == Token::Bool ? token.asBool() : false;
 }
 
 int64_t parseInt(Reader& reader)
 {
-    return reader.expectToken(Token::Int).asInt();
+    Token token = reader.expectToken(Token::Int);
+    if (token.type() != Token::Int) return 0;
+    return token.asInt();
 }
 
 double parseFloat(Reader& reader)
@@ -34,14 +37,15 @@ double parseFloat(Reader& reader)
     Token token = reader.nextToken();
 
     if (token.type() == Token::Int);
-    else reader.assertToken(token, Token::Float);
+    else if (!reader.assertToken(token, Token::Float)) return 0;
 
     return token.asFloat();
 }
 
 std::string parseString(Reader& reader)
 {
-    return reader.expectToken(Token::String).asString();
+    Token token = reader.expectToken(Token::String);
+    return token.type() == Token::String ? token.asString() : std::string();
 }
 
 template<typename Fn>
@@ -49,7 +53,7 @@ void parseObject(Reader& reader, const Fn& fn)
 {
     Token token = reader.nextToken();
     if (token.type() == Token::Null) return;
-    reader.assertToken(token, Token::ObjectStart);
+    if (!reader.assertToken(token, Token::ObjectStart)) return;
 
     token = reader.peekToken();
     if (token.type() == Token::ObjectEnd) {
@@ -57,10 +61,13 @@ void parseObject(Reader& reader, const Fn& fn)
         return;
     }
 
-    while (reader) {
+    while (!reader.error()) {
         token = reader.expectToken(Token::String);
+        if (token.type() != Token::String) return;
+
         const std::string& key = token.asString();
         token = reader.expectToken(Token::KeySeparator);
+        if (reader.error()) return;
 
         fn(key);
 
@@ -75,7 +82,7 @@ void parseArray(Reader& reader, const Fn& fn)
 {
     Token token = reader.nextToken();
     if (token.type() == Token::Null) return;
-    reader.assertToken(token, Token::ArrayStart);
+    if (!reader.assertToken(token, Token::ArrayStart)) return;
 
     token = reader.peekToken();
     if (token.type() == Token::ArrayEnd) {
@@ -83,7 +90,7 @@ void parseArray(Reader& reader, const Fn& fn)
         return;
     }
 
-    for (size_t i = 0; reader; ++i) {
+    for (size_t i = 0; !reader.error(); ++i) {
         fn(i);
 
         token = reader.nextToken();
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index ec4ae47..7d501c5 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -49,7 +49,7 @@ double
 Token::
 asFloat() const
 {
-    if (type_ != Float)
+    if (type_ != Float && type_ != Int)
         reflectError("invalid conversion of token %s to <float>", print());
 
     return std::stod(*value_);
-- 
2.43.0


From e9b01033e0307bf5d3f4ee827527eed6a45207de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 12/34] fix: invalid or out of range json numbers threw std
 exceptions

---
 src/utils/json/parser.tcc | 16 +++++++++++++---
 src/utils/json/token.cpp  | 20 +++++++++++++++-----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index ad1d70a..b00b50e 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -6,6 +6,9 @@
 #include "json.h"
 #pragma once
 
+#include <cmath>
+#include <stdexcept>
+
 namespace reflect {
 namespace json {
 
@@ -28,8 +31,13 @@ bool parseBool(Reader& reader)
 int64_t parseInt(Reader& reader)
 {
     Token token = reader.expectToken(Token::Int);
-    if (token.type() != Token::Int) return 0;
-    return token.asInt();
+    if (token.type() != Token::Int || reader.error()) return 0;
+
+    try { return token.asInt(); }
+    catch (const std::out_of_range&) {
+        reader.error("integer out of range %s", token.print());
+        return 0;
+    }
 }
 
 double parseFloat(Reader& reader)
@@ -39,7 +47,9 @@ double parseFloat(Reader& reader)
     if (token.type() == Token::Int);
     else if (!reader.assertToken(token, Token::Float)) return 0;
 
-    return token.asFloat();
+    double value = token.asFloat();
+    if (std::isinf(value)) reader.error("float out of range %s", token.print());
+    return value;
 }
 
 std::string parseString(Reader& reader)
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 7d501c5..652be28 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -52,7 +52,7 @@ asFloat() const
     if (type_ != Float && type_ != Int)
         reflectError("invalid conversion of token %s to <float>", print());
 
-    return std::stod(*value_);
+    return std::strtod(value_->c_str(), nullptr);
 }
 
 const std::string&
@@ -289,8 +289,16 @@ Token::Type readNumber(Reader& reader, char c)
     reader.save(c); // can be either - or [0-9].
 
     auto readDigits = [&] {
-        while (reader && std::isdigit(c = reader.peek()))
+        bool found = false;
+        while (reader && std::isdigit(c = reader.peek())) {
             reader.save(reader.pop());
+            found = true;
+        }
+        return found;
+    };
+
+    auto expectDigits = [&] {
+        if (!readDigits()) reader.error("expected digits in number");
     };
 
     auto readChar = [&] (char c) {
@@ -308,16 +316,18 @@ Token::Type readNumber(Reader& reader, char c)
         return true;
     };
 
-    readDigits();
+    if (c == '-') expectDigits();
+    else readDigits();
+
     if (readChar('.')) {
         type = Token::Float;
-        readDigits();
+        expectDigits();
     }
 
     if (readChars('e', 'E')) {
         type = Token::Float;
         readChars('+', '-');
-        readDigits();
+        expectDigits();
     }
 
     return type;
-- 
2.43.0


From 7f76e12ecd2c0c78e0ded528bc829e7944bd9ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 13/34] fix: undefined shifts on invalid UTF-8 headers in json
 strings

---
 src/utils/json/token.cpp | 6 +++++-
 src/utils/json/utils.h   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 652be28..2e58a91 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -220,7 +220,10 @@ void validateUnicode(Reader& reader, char c)
     reader.save(c);
 
     size_t bytes = clz(~c);
-    if (bytes > 4 || bytes < 2) reader.error("invalid UTF-8 header: %x", c);
+    if (bytes > 4 || bytes < 2) {
+        reader.error("invalid UTF-8 header: %x", c);
+        return;
+    }
 
     uint32_t mask = (1 << (7 - bytes)) - 1;
     uint32_t code = uint32_t(c) & mask;
@@ -246,6 +249,7 @@ void readString(Reader& reader)
 
     while (reader) {
         char c = reader.pop();
+        if (!reader) break;
 
         if (c == '\n') {
             reader.error("invalid \\n character in a string");
diff --git a/src/utils/json/utils.h b/src/utils/json/utils.h
index 6c46988..3032814 100644
--- a/src/utils/json/utils.h
+++ b/src/utils/json/utils.h
@@ -12,7 +12,11 @@ namespace json {
 /* BIT OPS                                                                    */
 /******************************************************************************/
 
-size_t clz(char value) { return __builtin_clz(uint32_t(value) << 24); }
+inline size_t clz(char value)
+{
+    // __builtin_clz is undefined for 0.
+    return value ? __builtin_clz(uint32_t(value) << 24) : 8;
+}
 
 } // namespace json
 } // namespace reflect
-- 
2.43.0


From 0e1168de003d0e1b9ed884064bae66afdaf7b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 14/34] fix: undefined shifts on invalid UTF-8 headers when
 printing json strings

---
 src/utils/json/format.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 9c8f743..dbb7a6c 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -56,7 +56,10 @@ void formatFloat(Writer& writer, double value)
 size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
 {
     size_t bytes = clz(~value[i]);
-    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
+    if (bytes > 4 || bytes < 2) {
+        writer.error("invalid UTF-8 header");
+        return i;
+    }
     if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
 
     size_t leftover = 8 - (bytes + 1);
@@ -76,7 +79,10 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
 size_t readUnicode(Writer& writer, const std::string& value, size_t i)
 {
     size_t bytes = clz(~value[i]);
-    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
+    if (bytes > 4 || bytes < 2) {
+        writer.error("invalid UTF-8 header");
+        return i;
+    }
     if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
 
     size_t leftover = 8 - (bytes + 1);
-- 
2.43.0


From ce0d29e426384e0788d2bdcce0ba284fbdd55e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 15/34] fix: json writer overwrote its first error

---
 src/utils/json/writer.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/json/writer.tcc b/src/utils/json/writer.tcc
index 8df45ab..d28aa08 100644
--- a/src/utils/json/writer.tcc
+++ b/src/utils/json/writer.tcc
@@ -18,6 +18,8 @@ void
 Writer::
 error(const char* fmt, Args&&... args)
 {
+    if (error_) return;
+
     error_ = Error(reflect::errorFormat(fmt, std::forward<Args>(args)...));
 }
 
-- 
2.43.0


From 7abfc2968332c422a77262a25222f7c209136602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 16/34] fix: json escape of code points that don't fit in 4 hex
 digits

---
 src/utils/json/format.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index dbb7a6c..5c3293d 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -71,7 +71,15 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
         code = (code << 6) | (value[i] & 0x3F);
     }
 
-    format(writer, "\\u%04x", code);
+    if (!writer) return i - 1;
+
+    if (code <= 0xFFFF) format(writer, "\\u%04x", code);
+    else {
+        // Doesn't fit in 4 hex digits so use a surrogate pair.
+        code -= 0x10000;
+        format(writer, "\\u%04x", 0xD800 | (code >> 10));
+        format(writer, "\\u%04x", 0xDC00 | (code & 0x3FF));
+    }
 
     return i - 1;
 }
-- 
2.43.0


From 0b2fbfc32304a0f62f0c6158a8be2bb85d47f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 17/34] fix: json UTF-8 validation accepted surrogates,
 overlong escapes and out of range code points

---
 src/utils/json/format.cpp |  7 ++-----
 src/utils/json/token.cpp  |  8 +-------
 src/utils/json/utils.h    | 13 +++++++++++++
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 5c3293d..2a13fa0 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -71,6 +71,7 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
         code = (code << 6) | (value[i] & 0x3F);
     }
 
+    if (!isValidUnicode(bytes, code)) writer.error("invalid UTF-8 encoding");
     if (!writer) return i - 1;
 
     if (code <= 0xFFFF) format(writer, "\\u%04x", code);
@@ -104,11 +105,7 @@ size_t readUnicode(Writer& writer, const std::string& value, size_t i)
         writer.push(value[i]);
     }
 
-    switch (bytes) {
-    case 4: if (code <= 0xFFFF) writer.error("invalid UTF-8 encoding"); break;
-    case 3: if (code <= 0x7FF) writer.error("invalid UTF-8 encoding"); break;
-    case 2: if (code <= 0x7F) writer.error("invalid UTF-8 encoding"); break;
-    }
+    if (!isValidUnicode(bytes, code)) writer.error("invalid UTF-8 encoding");
 
     return i - 1;
 }
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 2e58a91..6bee609 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -234,13 +234,7 @@ void validateUnicode(Reader& reader, char c)
         code = (code << 6) | (c & 0x3F);
     }
 
-    switch (bytes) {
-    case 4: if (code > 0xFFFF) return; break;
-    case 3: if (code > 0x7FF) return; break;
-    case 2: if (code > 0x7F) return; break;
-    }
-
-    reader.error("invalid UTF-8 encoding");
+    if (!isValidUnicode(bytes, code)) reader.error("invalid UTF-8 encoding");
 }
 
 void readString(Reader& reader)
diff --git a/src/utils/json/utils.h b/src/utils/json/utils.h
index 3032814..bdb81ca 100644
--- a/src/utils/json/utils.h
+++ b/src/utils/json/utils.h
@@ -18,5 +18,18 @@ inline size_t clz(char value)
     return value ? __builtin_clz(uint32_t(value) << 24) : 8;
 }
 
+// Rejects overlong encodings, surrogates and anything past the last code point.
+inline bool isValidUnicode(size_t bytes, uint32_t code)
+{
+    if (code >= 0xD800 && code <= 0xDFFF) return false;
+
+    switch (bytes) {
+    case 4: return code > 0xFFFF && code <= 0x10FFFF;
+    case 3: return code > 0x7FF;
+    case 2: return code > 0x7F;
+    default: return false;
+    }
+}
+
 } // namespace json
 } // namespace reflect
-- 
2.43.0


From 9c1a51514df41c045fac1005d89c4ba44b66e027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 18/34] fix: json skipEmpty trait was never initialized nor
 reflected

---
 src/utils/json/traits.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/traits.cpp b/src/utils/json/traits.cpp
index 1b7201f..1069425 100644
--- a/src/utils/json/traits.cpp
+++ b/src/utils/json/traits.cpp
@@ -11,7 +11,7 @@ namespace json {
 /* TRAITS                                                                     */
 /******************************************************************************/
 
-Traits::Traits() : skip(false) {}
+Traits::Traits() : skip(false), skipEmpty(false) {}
 
 Traits
 Traits::
@@ -47,6 +47,10 @@ Traits alias(std::string alias)
 {
     Traits traits;
     traits.alias = std::move(alias);
+
+    // Aliased fields have always been omitted when they're empty.
+    traits.skipEmpty = true;
+
     return traits;
 }
 
@@ -66,6 +70,7 @@ reflectTypeImpl(reflect::json::Traits)
 {
     reflectPlumbing();
     reflectField(skip);
+    reflectField(skipEmpty);
     reflectField(alias);
     reflectField(parser);
     reflectField(printer);
-- 
2.43.0


From b284148fe5b50741306d88935ec9d0c5f32efe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 19/34] fix: json unescape turned surrogate pairs into invalid
 UTF-8

---
 src/utils/json/token.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 6bee609..411dcc7 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -145,7 +145,7 @@ void readLiteral(Reader& reader, const char* literal)
     if (*l) reader.error("expected literal <%s>", literal);
 }
 
-void unescapeUnicode(Reader& reader)
+uint32_t readCodeUnit(Reader& reader)
 {
     uint32_t code = 0;
 
@@ -162,6 +162,25 @@ void unescapeUnicode(Reader& reader)
     }
 
     if (reader && i != 4) reader.error("\\u requires 4 hex digits", i);
+    return code;
+}
+
+void unescapeUnicode(Reader& reader)
+{
+    uint32_t code = readCodeUnit(reader);
+
+    // Code points that don't fit in 4 hex digits are escaped as two surrogates.
+    if (code >= 0xD800 && code <= 0xDFFF) {
+        uint32_t low = 0;
+        if (code <= 0xDBFF && reader.pop() == '\\' && reader.pop() == 'u')
+            low = readCodeUnit(reader);
+
+        if (low < 0xDC00 || low > 0xDFFF)
+            reader.error("unpaired surrogate in unicode code point");
+
+        code = 0x10000 + ((code & 0x3FF) << 10) + (low & 0x3FF);
+    }
+
     if (!reader) return;
 
     auto encode = [&] (unsigned pos, uint32_t mask, uint32_t head) {
-- 
2.43.0


From 247207fe9f12b7569190a90f04fe06750da6c0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 20/34] fix: json floats that aren't finite were printed as
 invalid json

---
 src/utils/json/format.cpp | 5 +++++
 src/utils/json/json.cpp   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 2a13fa0..aeab37d 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -50,6 +50,11 @@ void formatInt(Writer& writer, int64_t value)
 
 void formatFloat(Writer& writer, double value)
 {
+    if (!std::isfinite(value)) {
+        writer.error("unable to represent <%f> in json", value);
+        return;
+    }
+
     format(writer, "%1.12g", value);
 }
 
diff --git a/src/utils/json/json.cpp b/src/utils/json/json.cpp
index 11c5e3a..2eabd4d 100644
--- a/src/utils/json/json.cpp
+++ b/src/utils/json/json.cpp
@@ -14,6 +14,7 @@
 #include "dsl/all.h"
 #include "utils.h"
 
+#include <cmath>
 #include <mutex>
 #include <algorithm>
 
-- 
2.43.0


From 571232c0d663404a799de49481e880ce381653e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 21/34] fix: deeply indented json read past the end of the
 padding

---
 src/utils/json/writer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/writer.cpp b/src/utils/json/writer.cpp
index 9cd1c5e..41647ef 100644
--- a/src/utils/json/writer.cpp
+++ b/src/utils/json/writer.cpp
@@ -26,7 +26,10 @@ newline()
     if (!pretty()) return;
 
     push("\n");
-    push(spaces.c_str(), indent_ * 4);
+
+    size_t n = indent_ * 4;
+    for (; n > spaces.size(); n -= spaces.size()) push(spaces);
+    push(spaces.c_str(), n);
 }
 
 } // namespace json
-- 
2.43.0


From f4430c7bff18c2b892df6fe4c864c896b957d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 22/34] fix: json null didn't reset raw pointers

---
 src/utils/json/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index f14d695..da8cb8b 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -104,7 +104,7 @@ struct PointerParser : public Parser
             reader.nextToken();
 
             if (isSmartPtr) ptr.call<void>("reset");
-            else ptr = inner.type->construct();
+            else ptr.assign(ptr.type()->construct());
 
             return;
         }
-- 
2.43.0


From 3064e581f557ceabf69755f84beaa77e61e3f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 23/34] fix: checking for a function in an unknown scope raised
 an error

---
 src/scope.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 8850893..cf5a7e0 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -345,8 +345,10 @@ hasFunction(const std::string& name) const
 {
     auto split = tail(name);
 
-    if (!split.second.empty())
-        return scope(split.second)->hasFunction(split.first);
+    if (!split.second.empty()) {
+        return hasScope(split.second)
+            && scope(split.second)->hasFunction(split.first);
+    }
 
     auto it = functions_.find(split.first);
     return it != functions_.end();
-- 
2.43.0


From 8bb38315e7f464563cbc30d33d0581663fe658d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 24/34] fix: looking up an unknown nested scope created it

---
 src/scope.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index cf5a7e0..369fbe3 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -181,7 +181,9 @@ scope(const std::string& name) const
     if (it == scopes_.end())
         reflectError("<%s> doesn't have scope <%s>", name_, name);
 
-    return !split.second.empty() ? it->second->scope(split.second) : it->second;
+    // Going through a const scope prevents the creation of missing scopes.
+    const Scope* child = it->second;
+    return !split.second.empty() ? child->scope(split.second) : it->second;
 }
 
 Scope*
-- 
2.43.0


From 207ebe4ee439de81f383cf4a2d646f298d7ecce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 25/34] fix: looking up a function in an unknown scope created
 the scope

---
 src/scope.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 369fbe3..a6b9f57 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -362,8 +362,10 @@ function(const std::string& name)
 {
     auto split = tail(name);
 
+    // Going through a const scope prevents the creation of missing scopes.
+    const Scope* cthis = this;
     if (!split.second.empty())
-        return scope(split.second)->function(split.first);
+        return cthis->scope(split.second)->function(split.first);
 
     auto it = functions_.find(split.first);
     if (it == functions_.end())
-- 
2.43.0


From ccc1df7f465cc855e86055f6562ecaed42982773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 26/34] fix: copying an r-value moved its content

---
 src/value.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/value.cpp b/src/value.cpp
index 5e0c84d..c023fae 100644
--- a/src/value.cpp
+++ b/src/value.cpp
@@ -90,7 +90,8 @@ copy() const
     if (!type()->isCopiable())
         reflectError("<%s> is not copiable", type()->id());
 
-    return type()->construct(*this);
+    // A copy never consumes the original even when it's an r-value.
+    return type()->construct(toConst());
 }
 
 Value
-- 
2.43.0


From c258f99ddef37cf69672357ec6d0fe6732fc3cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 27/34] fix: casting to a const r-value reference moved out of
 the const object

---
 src/cast.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cast.h b/src/cast.h
index 5c1174b..4ce58da 100644
--- a/src/cast.h
+++ b/src/cast.h
@@ -79,8 +79,10 @@ private:
         return value.as<CleanTarget>();
     }
 
+    // Can't move out of a const object.
     typedef typename std::conditional<
-        std::is_rvalue_reference<Target>::value,
+        std::is_rvalue_reference<Target>::value &&
+            !std::is_const<typename std::remove_reference<Target>::type>::value,
         typename std::is_move_constructible<CleanTarget>::type, std::false_type>::type
     retRValue;
 
-- 
2.43.0


From fbaa87f1f6bf8fdab3179bdd41145903cdeb89c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 28/34] fix: postfix operators of a value could never be
 instantiated

---
 src/value.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/value.h b/src/value.h
index c837038..7824247 100644
--- a/src/value.h
+++ b/src/value.h
@@ -54,6 +54,13 @@ struct CleanValue
         return call<Value>(#op, std::forward<Arg>(arg));        \
     }
 
+// A template isn't allowed to declare the parameter of a postfix operator.
+#define reflectValueOpPostfix(op)               \
+    Value op(int arg) const                     \
+    {                                           \
+        return call<Value>(#op, arg);           \
+    }
+
 #define reflectValueOpBool(op)                          \
     template<typename Arg>                              \
     bool op(Arg&& arg) const                            \
@@ -133,9 +140,9 @@ struct Value
     reflectValueOpBinary(operator>>=)
 
     reflectValueOpUnary (operator++)
-    reflectValueOpBinary(operator++)
+    reflectValueOpPostfix(operator++)
     reflectValueOpUnary (operator--)
-    reflectValueOpBinary(operator--)
+    reflectValueOpPostfix(operator--)
 
     reflectValueOpBinary(operator+)
     reflectValueOpBinary(operator-)
-- 
2.43.0


From dd68eeb222f20e8dd643332720ffbeb2cd60ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 29/34] fix: reflectOperators reflected operator* twice which
 is always ambiguous

---
 src/dsl/operators.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dsl/operators.h b/src/dsl/operators.h
index 8ebed0c..114d9a2 100644
--- a/src/dsl/operators.h
+++ b/src/dsl/operators.h
@@ -202,6 +202,8 @@ reflectOpFn(operator*,   Indirection)
 /* ALL                                                                        */
 /******************************************************************************/
 
+// Expands reflectOpOther() without operator* because it's already reflected, with
+// any number of operands, by reflectOpArithmetic().
 #define reflectOperators()                      \
     do {                                        \
         reflectOpAssign();                      \
@@ -209,7 +211,8 @@ reflectOpFn(operator*,   Indirection)
         reflectOpArithmetic();                  \
         reflectOpLogical();                     \
         reflectOpComparaison();                 \
-        reflectOpOther();                       \
+        reflectOp(operator(),  Function);       \
+        reflectOp(operator[],  Array);          \
     } while(false)
 
 } // reflect
-- 
2.43.0


From 4c924f09d3d52d39473f5509f9a1978ccfef3727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 30/34] fix: a value was lost when moving its content failed

---
 src/value.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value.cpp b/src/value.cpp
index c023fae..a6cd26c 100644
--- a/src/value.cpp
+++ b/src/value.cpp
@@ -101,9 +101,9 @@ move()
     if (!type()->isMovable())
         reflectError("<%s> is not movable", type()->id());
 
-    Value arg = rvalue();
+    Value result = type()->construct(rvalue());
     *this = Value();
-    return arg.type()->construct(arg);
+    return result;
 }
 
 Value
-- 
2.43.0


From 41c6b350b54ea875b56a2316f9db0f08a2a352a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 31/34] fix: skipping json past the end of the stream wasn't an
 error

---
 src/utils/json/parser.tcc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index b00b50e..fea216b 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -113,7 +113,6 @@ void parseArray(Reader& reader, const Fn& fn)
 void skip(Reader& reader)
 {
     Token token = reader.peekToken();
-    if (!reader) return;
 
     switch (token.type()) {
 
-- 
2.43.0


From 18c5bed33ae9973ebcd4c89a9fccae4bc2fabfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:25 +0000
Subject: [PATCH 32/34] fix: deeply nested documents exhausted the stack

---
 src/utils/json/parser.tcc | 22 ++++++++++++++++++++++
 src/utils/json/reader.cpp |  8 ++++++++
 src/utils/json/reader.h   |  9 ++++++++-
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index fea216b..65af8d7 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -58,6 +58,22 @@ std::string parseString(Reader& reader)
     return token.type() == Token::String ? token.asString() : std::string();
 }
 
+namespace details {
+
+struct NestingGuard
+{
+    NestingGuard(Reader& reader) : reader(reader) { reader.enter(); }
+    ~NestingGuard() { reader.leave(); }
+
+    NestingGuard(const NestingGuard&) = delete;
+    NestingGuard& operator=(const NestingGuard&) = delete;
+
+private:
+    Reader& reader;
+};
+
+} // namespace details
+
 template<typename Fn>
 void parseObject(Reader& reader, const Fn& fn)
 {
@@ -65,6 +81,9 @@ void parseObject(Reader& reader, const Fn& fn)
     if (token.type() == Token::Null) return;
     if (!reader.assertToken(token, Token::ObjectStart)) return;
 
+    details::NestingGuard guard(reader);
+    if (reader.error()) return;
+
     token = reader.peekToken();
     if (token.type() == Token::ObjectEnd) {
         reader.expectToken(Token::ObjectEnd);
@@ -94,6 +113,9 @@ void parseArray(Reader& reader, const Fn& fn)
     if (token.type() == Token::Null) return;
     if (!reader.assertToken(token, Token::ArrayStart)) return;
 
+    details::NestingGuard guard(reader);
+    if (reader.error()) return;
+
     token = reader.peekToken();
     if (token.type() == Token::ArrayEnd) {
         reader.expectToken(Token::ArrayEnd);
diff --git a/src/utils/json/reader.cpp b/src/utils/json/reader.cpp
index 1f4c4d6..408d217 100644
--- a/src/utils/json/reader.cpp
+++ b/src/utils/json/reader.cpp
@@ -42,6 +42,14 @@ expectToken(Token::Type exp)
     return assertToken(token, exp) ? token : Token(Token::EOS);
 }
 
+void
+Reader::
+enter()
+{
+    if (++depth_ > MaxDepth)
+        error("nested deeper than %lu levels", size_t(MaxDepth));
+}
+
 bool
 Reader::
 assertToken(const Token& token, Token::Type exp)
diff --git a/src/utils/json/reader.h b/src/utils/json/reader.h
index 75e229a..102a649 100644
--- a/src/utils/json/reader.h
+++ b/src/utils/json/reader.h
@@ -28,7 +28,7 @@ struct Reader
 
     Reader(std::istream& stream, Options options = Default) :
         stream(stream),
-        pos_(1), line_(1),
+        pos_(1), line_(1), depth_(0),
         options(options)
     {
         buffer_.reserve(128);
@@ -57,6 +57,12 @@ struct Reader
     size_t line() const { return line_; }
     void newline() { pos_ = 1; line_++; }
 
+    // Parsing is recursive so the nesting has to be bounded to keep a document
+    // from exhausting the stack.
+    enum { MaxDepth = 512 };
+    void enter();
+    void leave() { depth_--; }
+
     bool allowComments() const { return options & AllowComments; }
     bool unescapeUnicode() const { return options & UnescapeUnicode; }
     bool validateUnicode() const { return options & ValidateUnicode; }
@@ -68,6 +74,7 @@ private:
 
     size_t pos_;
     size_t line_;
+    size_t depth_;
 
     Options options;
 
-- 
2.43.0


From 9d242dda756d677e6134f304a04217700ada1722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:07 +0000
Subject: [PATCH 33/34] fix: a converter to a base class hid the relation to
 that class

---
 src/argument.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index 899ecf7..b9a5d18 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -109,7 +109,10 @@ isConvertibleTo(const Argument& target) const
 
     bool isExact = false;
 
-    if (type()->hasConverter(target.type())) {
+    // As in C++, conversions to a base class never go through a converter.
+    if (!type()->isChildOf(target.type())
+            && type()->hasConverter(target.type()))
+    {
         if (target.refType() != RefType::LValue) return Match::Partial;
         return Match::None;
     }
-- 
2.43.0


From 6db355e7d20889827653c9ebbe72cb9e18558bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:45 +0000
Subject: [PATCH 34/34] fix: a pointed to object leaked when its parser threw

---
 src/utils/json/parser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index da8cb8b..34ba087 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -116,11 +116,14 @@ struct PointerParser : public Parser
 
         else {
             Value value = inner.type->alloc();
-            Value pointee = *value;
-            inner.parser->parse(reader, pointee);
 
+            // The pointer has to own the value before we start parsing or we'd
+            // leak it if the parser throws.
             if (isSmartPtr) ptr.call<void>("reset", value);
             else ptr.assign(value);
+
+            Value pointee = *value;
+            inner.parser->parse(reader, pointee);
         }
     }
 
-- 
2.43.0

