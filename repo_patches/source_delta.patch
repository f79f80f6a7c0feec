From e7798aed97d69e7f78782d0993f92569f847ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 01/65] fix: StreamConsumer used its params uninitialized (or
 null) when not configured

---
 src/streamConsumer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 2421ec1..5ae9860 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -12,7 +12,7 @@
 #include "streamConsumer.hh"
 #include "unicode.hpp"
 
-StreamConsumer::StreamConsumer(std::istream &s): stream(s), root(nullptr)
+StreamConsumer::StreamConsumer(std::istream &s): stream(s), root(nullptr), params(nullptr)
 { }
 
 StreamConsumer::~StreamConsumer()
@@ -231,7 +231,7 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
             read++;
             rawInput += c;
         }
-        else if ((buf.str() != "true" && buf.str() != "false") || (buf.str() != rawInput && params->isStrict()))
+        else if ((buf.str() != "true" && buf.str() != "false") || (buf.str() != rawInput && (!params || params->isStrict())))
             throw JsonFormatException(stream.tellg(), history);
         else if (buf.str() == "true")
         {
@@ -326,7 +326,7 @@ JSonElement *StreamConsumer::consumeNull(JSonContainer *parent, std::stringstrea
     }
     for (int i =1; i < 4; ++i)
         _bufLower += std::tolower(_buf[i]);
-    if (_bufLower == "null" && (_bufLower == buf.str() || !params->isStrict()))
+    if (_bufLower == "null" && (_bufLower == buf.str() || (params && !params->isStrict())))
     {
         if (buf.str() != "null")
             warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-- 
2.43.0


From 66e41626cc414f126a70a41407c311a97f6928b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 02/65] fix: crash on object key without a value

---
 src/streamConsumer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 5ae9860..28189b3 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -92,6 +92,8 @@ JSonObject *StreamConsumer::readObject(JSonContainer *parent)
             }
         }
         JSonElement *child = readNext(result);
+        if (child == nullptr)
+            throw JsonNotJsonException(stream.tellg(), history);
         result->push(key->getValue(), child);
         delete keyObj;
         keyObj = consumeToken(result, buf);
-- 
2.43.0


From d0d98914673cabbb80afc40d827a1708697314f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 03/65] fix: objects with a missing or wrong separator were
 silently accepted or truncated

---
 src/streamConsumer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 28189b3..daef0e0 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -97,7 +97,9 @@ JSonObject *StreamConsumer::readObject(JSonContainer *parent)
         result->push(key->getValue(), child);
         delete keyObj;
         keyObj = consumeToken(result, buf);
-    } while (!keyObj && buf.str() != "}");
+        if (keyObj != nullptr || (buf.str() != "," && buf.str() != "}"))
+            throw JsonUnexpectedException('}', stream.tellg(), history);
+    } while (buf.str() != "}");
     return result;
 }
 
-- 
2.43.0


From f788f1ecf80fe275e7892d61c6bcba7f7b769018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 04/65] fix: numbers: uncaught exceptions, refused exponents
 and lost digits

A lone sign and an integer out of the long long range ended the program,
numbers with an exponent were refused, and non-integers were displayed
with six decimals whatever their value.
---
 include/jsonPrimitive.hh  |  8 ++++++
 include/streamConsumer.hh |  1 +
 src/streamConsumer.cpp    | 52 +++++++++++++++++++++++++++++----------
 3 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/include/jsonPrimitive.hh b/include/jsonPrimitive.hh
index 04ddf86..486d8e9 100644
--- a/include/jsonPrimitive.hh
+++ b/include/jsonPrimitive.hh
@@ -25,6 +25,10 @@ class JSonPrimitive: public AJSonPrimitive
 {
     public:
         JSonPrimitive(JSonContainer *parent, T const &v);
+        /**
+         * @param repr source text of the value, used as its stringified value
+        **/
+        JSonPrimitive(JSonContainer *parent, T const &v, const std::string &repr);
         virtual ~JSonPrimitive();
 
         /**
@@ -61,6 +65,10 @@ template<typename T>
 JSonPrimitive<T>::JSonPrimitive(JSonContainer *parent, T const &v): AJSonPrimitive(parent), value(v), stringValue(toString())
 { }
 
+template<typename T>
+JSonPrimitive<T>::JSonPrimitive(JSonContainer *parent, T const &v, const std::string &repr): AJSonPrimitive(parent), value(v), stringValue(repr)
+{ }
+
 template<typename T>
 T JSonPrimitive<T>::getValue() const
 { return value; }
diff --git a/include/streamConsumer.hh b/include/streamConsumer.hh
index 24f3cd6..6e88c85 100644
--- a/include/streamConsumer.hh
+++ b/include/streamConsumer.hh
@@ -61,6 +61,7 @@ class StreamConsumer
         JSonElement *consumeBool(JSonContainer *parent, std::stringstream &buf, char c);
         JSonElement *consumeNumber(JSonContainer *parent, std::stringstream &buf, char c);
         JSonElement *consumeNull(JSonContainer *parent, std::stringstream &buf, char firstChar);
+        JSonElement *doubleFromString(JSonContainer *parent, const std::string &str);
         bool consumeEscapedChar(char c, std::stringstream &buf);
 
         /**
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index daef0e0..8933de1 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -265,7 +265,9 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
 
 JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstream &buf, char firstChar)
 {
-    bool numberIsDouble = false;
+    bool numberIsDouble = (firstChar == '.');
+    bool hasExponent = false;
+    char previous = firstChar;
 
     buf.str("");
     buf.clear();
@@ -277,32 +279,43 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
         history.put(c);
 
         if (c >= '0' && c <= '9')
-            buf.write(&c, 1);
+            buf.write(&(previous = c), 1);
         else if (c == '.' && !numberIsDouble)
         {
             numberIsDouble = true;
-            buf.write(&c, 1);
+            buf.write(&(previous = c), 1);
         }
+        else if ((c == 'e' || c == 'E') && !hasExponent)
+        {
+            numberIsDouble = hasExponent = true;
+            buf.write(&(previous = c), 1);
+        }
+        else if ((c == '+' || c == '-') && (previous == 'e' || previous == 'E'))
+            buf.write(&(previous = c), 1);
         else
         {
             history.pop_back();
             stream.unget();
             if (numberIsDouble)
-            {
-                try {
-                    return new JSonPrimitive<double>(parent, atof(buf.str().c_str()));
-                } catch (std::runtime_error &e)
-                {
-                    throw JsonFormatException(stream.tellg(), history);
-                }
-            }
+                return doubleFromString(parent, buf.str());
             try
             {
                 return new JSonPrimitive<int>(parent, std::stoi(buf.str()));
             }
-            catch(std::out_of_range e)
+            catch(std::out_of_range &e)
+            {
+                try
+                {
+                    return new JSonPrimitive<long long>(parent, std::stoll(buf.str()));
+                }
+                catch(std::out_of_range &e)
+                {
+                    return doubleFromString(parent, buf.str());
+                }
+            }
+            catch(std::invalid_argument &e)
             {
-                return new JSonPrimitive<long long>(parent, std::stol(buf.str()));
+                throw JsonFormatException(stream.tellg(), history);
             }
         }
     }
@@ -311,6 +324,19 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
     return nullptr;
 }
 
+JSonElement *StreamConsumer::doubleFromString(JSonContainer *parent, const std::string &str)
+{
+    std::istringstream input(str);
+    double value = 0;
+
+    input.imbue(std::locale::classic());
+    input >> value;
+    // A well-formed number which does not fit also fails, but sets value
+    if ((input.fail() && value == 0) || input.rdbuf()->in_avail() > 0)
+        throw JsonFormatException(stream.tellg(), history);
+    return new JSonPrimitive<double>(parent, value, str);
+}
+
 JSonElement *StreamConsumer::consumeNull(JSonContainer *parent, std::stringstream &buf, char firstChar)
 {
     char _buf[5] = { firstChar, '\0', '\0', '\0', '\0' };
-- 
2.43.0


From 6b4619a4563f1b9c6088e33190a326cf77341512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 05/65] fix: uncaught exception on surrogate pairs, which are
 now decoded

---
 include/streamConsumer.hh |  1 +
 src/streamConsumer.cpp    | 25 +++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/streamConsumer.hh b/include/streamConsumer.hh
index 6e88c85..7f79b2a 100644
--- a/include/streamConsumer.hh
+++ b/include/streamConsumer.hh
@@ -86,6 +86,7 @@ class StreamConsumer
          * compute unicode value and append it to buffer
         **/
         static void appendUnicode(const char [4], std::stringstream &);
+        static void appendUnicode(char32_t, std::stringstream &);
 
         /**
          * input stream
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 8933de1..8894ba4 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -189,7 +189,24 @@ bool StreamConsumer::consumeEscapedChar(char c, std::stringstream &buf)
             if (gcount != 4)
                 return false;
             try {
-                appendUnicode(unicodeBuf, buf);
+                unsigned int codepoint = hexbyte<unsigned short>(unicodeBuf, 4);
+                if (codepoint >= 0xD800 && codepoint < 0xE000)
+                {
+                    // Surrogate: must be an high one, and the low one must follow
+                    char lowBuf[6];
+                    stream.read(lowBuf, 6);
+                    gcount = stream.gcount();
+                    history.put(lowBuf, gcount);
+                    if (gcount != 6)
+                        return false;
+                    if (lowBuf[0] != '\\' || lowBuf[1] != 'u')
+                        throw std::invalid_argument("unpaired surrogate");
+                    const unsigned int low = hexbyte<unsigned short>(&lowBuf[2], 4);
+                    if (codepoint >= 0xDC00 || low < 0xDC00 || low >= 0xE000)
+                        throw std::invalid_argument("unpaired surrogate");
+                    codepoint = 0x10000 + ((codepoint - 0xD800) << 10) + (low - 0xDC00);
+                }
+                appendUnicode(codepoint, buf);
             }
             catch (std::invalid_argument &e)
             {
@@ -398,7 +415,11 @@ JSonElement *StreamConsumer::consumeToken(JSonContainer *parent, std::stringstre
 
 void StreamConsumer::appendUnicode(const char unicode[4], std::stringstream &buf)
 {
-    unsigned short uni = hexbyte<unsigned short>(unicode, 4);
+    appendUnicode(hexbyte<unsigned short>(unicode, 4), buf);
+}
+
+void StreamConsumer::appendUnicode(char32_t uni, std::stringstream &buf)
+{
     std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
     std::string unichar = converter.to_bytes(uni);
     buf.write(unichar.c_str(), unichar.size());
-- 
2.43.0


From 07d8b3003e989fc825be5b0ff4330754a660fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 06/65] fix: an escaped backslash was read as the start of an
 escape sequence

"\\n" and "\n" were read as the same string and printed the same way.
Strings keep their escape sequences: keep the escaped backslash too, and
likewise the backslash and control characters written as \uXXXX.
---
 src/streamConsumer.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 8894ba4..476fb35 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -6,6 +6,7 @@
 
 #include <iostream>
 #include <sstream>
+#include <cstring>
 #include <codecvt>
 #include <locale>
 #include "jsonElement.hh"
@@ -174,7 +175,7 @@ JSonElement *StreamConsumer::consumeString(JSonContainer *parent, std::stringstr
 
 bool StreamConsumer::consumeEscapedChar(char c, std::stringstream &buf)
 {
-    if (c == '\\' || c == '"' || c == '/')
+    if (c == '"' || c == '/')
         buf.write(&c, 1);
     else if (c == 'u')
     {
@@ -214,7 +215,7 @@ bool StreamConsumer::consumeEscapedChar(char c, std::stringstream &buf)
             }
         }
     }
-    else if (c == 'b' || c == 'f' || c == 'r' || c == 'n' || c == 't')
+    else if (c == '\\' || c == 'b' || c == 'f' || c == 'r' || c == 'n' || c == 't')
         buf.write("\\", 1).write(&c, 1);
     else if (params && params->isStrict())
         throw JsonEscapedException(c, stream.tellg(), history);
@@ -420,6 +421,24 @@ void StreamConsumer::appendUnicode(const char unicode[4], std::stringstream &buf
 
 void StreamConsumer::appendUnicode(char32_t uni, std::stringstream &buf)
 {
+    // Same as in consumeEscapedChar: backslash and control characters are kept escaped
+    static const char controls[] = "\b\t\n\f\r";
+    static const char escapes[] = "btnfr";
+
+    if (uni == '\\')
+    {
+        buf.write("\\\\", 2);
+        return;
+    }
+    if (uni < 0x20)
+    {
+        const char *pos = uni ? strchr(controls, uni) : nullptr;
+        if (pos)
+            buf.write("\\", 1).write(&escapes[pos - controls], 1);
+        else
+            buf.write("\\u00", 4).put(uni < 0x10 ? '0' : '1').put("0123456789abcdef"[uni & 0xF]);
+        return;
+    }
     std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
     std::string unichar = converter.to_bytes(uni);
     buf.write(unichar.c_str(), unichar.size());
-- 
2.43.0


From b191c204f4c9928477298d406c1e084f26a0b4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 07/65] fix: container brackets were read from a destroyed
 string

---
 src/simpleOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index afcec54..ac37b87 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -43,7 +43,7 @@ void SimpleOutput::writePrimitive(const AJSonPrimitive *item, bool prependComma)
 void SimpleOutput::writeContainer(const JSonContainer *item, bool prependComma)
 {
     std::string _indent = getIndent();
-    const char *brackets = item->stringify().c_str();
+    const std::string brackets = item->stringify();
     bool first = true;
 
     out << _indent << (prependComma ? "," : "") << std::string(1, brackets[0]);
-- 
2.43.0


From 8c3c3187bdd2e4966fced44334c68658198d243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 08/65] fix: strings of an object were printed without quotes

---
 include/simpleOutput.hh |  1 +
 src/simpleOutput.cpp    | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/simpleOutput.hh b/include/simpleOutput.hh
index 4d0a99d..e6b7932 100644
--- a/include/simpleOutput.hh
+++ b/include/simpleOutput.hh
@@ -16,6 +16,7 @@ class SimpleOutput
         std::string getIndent() const;
 
         inline void writeObjectEntry(const JSonObjectEntry *, bool);
+        inline void writeValue(const AJSonPrimitive *);
         inline void writePrimitive(const AJSonPrimitive *, bool);
         inline void writeContainer(const JSonContainer *, bool);
         inline void write(const JSonElement *, bool prependComma);
diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index ac37b87..f0c5493 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -22,20 +22,25 @@ void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependCom
     }
     else
     {
-        out << (**item)->stringify();
+        writeValue((const AJSonPrimitive *) **item);
         if (!params.compressed())
             out << std::endl;
     }
 }
 
-void SimpleOutput::writePrimitive(const AJSonPrimitive *item, bool prependComma)
+void SimpleOutput::writeValue(const AJSonPrimitive *item)
 {
-    out << getIndent() << (prependComma ? "," : "");
-
     if (dynamic_cast<const JSonPrimitive<std::string>*> (item))
         out << "\"" << item->stringify() << "\"";
     else
         out << item->stringify();
+}
+
+void SimpleOutput::writePrimitive(const AJSonPrimitive *item, bool prependComma)
+{
+    out << getIndent() << (prependComma ? "," : "");
+
+    writeValue(item);
     if (!params.compressed())
         out << std::endl;
 }
-- 
2.43.0


From 69d6ba452e7e231aaed596b15972bacbaf52124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 09/65] fix: quotes inside of strings were printed unescaped

---
 include/simpleOutput.hh |  1 +
 src/simpleOutput.cpp    | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/simpleOutput.hh b/include/simpleOutput.hh
index e6b7932..82b1b64 100644
--- a/include/simpleOutput.hh
+++ b/include/simpleOutput.hh
@@ -14,6 +14,7 @@ class SimpleOutput
         SimpleOutput(std::ostream &output, const Params &p);
 
         std::string getIndent() const;
+        static std::string escapeQuotes(const std::string &);
 
         inline void writeObjectEntry(const JSonObjectEntry *, bool);
         inline void writeValue(const AJSonPrimitive *);
diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index f0c5493..029929b 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -12,7 +12,7 @@ SimpleOutput::SimpleOutput(std::ostream &output, const Params &p): out(output),
 
 void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependComma)
 {
-    out << getIndent() << (prependComma ? ",\"" : "\"") << item->stringify() << "\":";
+    out << getIndent() << (prependComma ? ",\"" : "\"") << escapeQuotes(item->stringify()) << "\":";
 
     if (dynamic_cast<const JSonContainer *> (**item))
     {
@@ -31,7 +31,7 @@ void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependCom
 void SimpleOutput::writeValue(const AJSonPrimitive *item)
 {
     if (dynamic_cast<const JSonPrimitive<std::string>*> (item))
-        out << "\"" << item->stringify() << "\"";
+        out << "\"" << escapeQuotes(item->stringify()) << "\"";
     else
         out << item->stringify();
 }
@@ -79,6 +79,19 @@ void SimpleOutput::write(const JSonElement *item, bool prependComma)
         writePrimitive((const AJSonPrimitive *) item, prependComma);
 }
 
+std::string SimpleOutput::escapeQuotes(const std::string &str)
+{
+    std::string result;
+
+    for (char c: str)
+    {
+        if (c == '"')
+            result += '\\';
+        result += c;
+    }
+    return result;
+}
+
 std::string SimpleOutput::getIndent() const
 {
     if (params.compressed())
-- 
2.43.0


From 4c758bbcd4a262e602a0d0abc9db4dce029e31f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 10/65] fix: error messages were built with pointer arithmetic
 instead of the character

---
 src/jsonException.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsonException.cpp b/src/jsonException.cpp
index 2343e78..e6503bc 100644
--- a/src/jsonException.cpp
+++ b/src/jsonException.cpp
@@ -29,16 +29,17 @@ JsonNotJsonException::JsonNotJsonException(unsigned long long pos, LinearHistory
 { }
 
 JsonEscapedException::JsonEscapedException(char ch, unsigned long long pos, LinearHistory &h):
-    JsonException("unexpected escaped char " +c, pos, h), c(ch)
+    JsonException(std::string("unexpected escaped char ") +ch, pos, h), c(ch)
 { }
 
-JsonUnexpectedException::JsonUnexpectedException(const char expected, unsigned long long offset, LinearHistory &h): JsonException("expected " +expected, offset, h)
+JsonUnexpectedException::JsonUnexpectedException(const char expected, unsigned long long offset, LinearHistory &h): JsonException(std::string("expected ") +expected, offset, h)
 { }
 
 std::string JsonHexvalueException::msg(char c)
 {
     std::string what = "invalid hex value '";
-    what += c + '\'';
+    what += c;
+    what += '\'';
     return what;
 }
 
-- 
2.43.0


From e080ce4cce5dd3010aeef2f36ebc48f33c00bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 11/65] fix: uncaught exception when an error is found on an
 empty line

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 0bd256c..2592d3f 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -23,7 +23,7 @@ void displayException(const std::string &filename, const Params &params, const s
     const std::string buffer = e.getHistory();
 
     std::cerr << params.getProgName() << ": " << filename << " [" << type << "] at line " << e.currentLine() << ", col " << e.currentCol() << " ("  << e.what() << ") while reading" << std::endl;
-    std::cerr << buffer << std::endl << std::string(buffer.size() -1, '~') << '^' << std::endl;
+    std::cerr << buffer << std::endl << std::string(buffer.empty() ? 0 : buffer.size() -1, '~') << '^' << std::endl;
 }
 
 StreamConsumer *readFile(std::pair<std::string, std::basic_istream<char>*> input, const Params &params)
-- 
2.43.0


From 54311fead89c33f927b43ef7b51cf44210354809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 12/65] fix: number of written items was not initialized, so
 was the column of errors

---
 include/wrappedBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wrappedBuffer.hpp b/include/wrappedBuffer.hpp
index 11d5897..939ce35 100644
--- a/include/wrappedBuffer.hpp
+++ b/include/wrappedBuffer.hpp
@@ -60,7 +60,7 @@ class WrappedBuffer
 };
 
 template<typename T, int SIZE>
-WrappedBuffer<T, SIZE>::WrappedBuffer(): curR(0), curW(-1)
+WrappedBuffer<T, SIZE>::WrappedBuffer(): curR(0), curW(-1), written(0)
 { }
 
 template<typename T, int SIZE>
-- 
2.43.0


From 987bb494cd1fec131092167dc699561eb4aa0442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 13/65] fix: wrapped buffer returned wrong content after some
 put and pop_back sequences

A put after two pop_back on a full buffer resurrected a removed item, a batch
larger than the buffer left out items, and pop_back on an empty buffer
underflowed the number of written items.
---
 include/wrappedBuffer.hpp | 63 ++++++++-------------------------------
 1 file changed, 12 insertions(+), 51 deletions(-)

diff --git a/include/wrappedBuffer.hpp b/include/wrappedBuffer.hpp
index 939ce35..e7aea59 100644
--- a/include/wrappedBuffer.hpp
+++ b/include/wrappedBuffer.hpp
@@ -82,71 +82,32 @@ unsigned int WrappedBuffer<T, SIZE>::totalSize() const
 template<typename T, int SIZE>
 void WrappedBuffer<T, SIZE>::put(T item)
 {
+    const bool full = (size() == SIZE);
+
     written++;
-    if (curW +1 == SIZE)
-    {
-        curR = 1;
-        curW = 0;
-        buffer[0] = item;
-    }
-    else if (curW == -1)
-    {
-        curR = SIZE;
-        buffer[curW = 0] = item;
-    }
-    else
-    {
-        buffer[++curW] = item;
-        if (curR == curW)
-        {
-            if (++curR > SIZE)
-                curR = 0;
-        }
-    }
+    if (curW == -1)
+        curR = 0;
+    curW = (curW +1) % SIZE;
+    buffer[curW] = item;
+    if (full)
+        curR = (curW +1) % SIZE;
 }
 
 template<typename T, int SIZE>
 void WrappedBuffer<T, SIZE>::put(T items[], unsigned int count)
 {
-    unsigned int newSize = size() + count;
-
-    if (!count)
-        return;
-    written += count;
-    while (count > SIZE)
-    {
-        count -= SIZE;
-        items += SIZE;
-    }
-    if (curW + count >= SIZE)
-    {
-        if (curW +1 != SIZE)
-        {
-            memcpy(&buffer[curW +1], items, sizeof(T) * (SIZE - curW -1));
-            items += (SIZE - curW -1);
-            count -= (SIZE - curW -1);
-        }
-        curW = -1;
-    }
-    memcpy(&buffer[curW +1], items, sizeof(T) * count);
-    curW += count;
-    if (curW == SIZE)
-    {
-        curW = 0;
-        curR = 1;
-    }
-    else if (newSize >= SIZE)
-        curR = (curW +1) % SIZE;
+    for (unsigned int i =0; i < count; ++i)
+        WrappedBuffer<T, SIZE>::put(items[i]);
 }
 
 template<typename T, int SIZE>
 void WrappedBuffer<T, SIZE>::pop_back()
 {
     unsigned int oldSize = size();
-    written--;
     if (oldSize == 0)
         return;
-    else if (oldSize == 1)
+    written--;
+    if (oldSize == 1)
     {
         curW = -1;
         curR = 0;
-- 
2.43.0


From b70fa8606ddb13a9787852047232b6c85833866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 14/65] fix: out of bounds read when some characters read at
 once contain a new-line

---
 src/linearHistory.cpp | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/src/linearHistory.cpp b/src/linearHistory.cpp
index 93f8dae..797ca33 100644
--- a/src/linearHistory.cpp
+++ b/src/linearHistory.cpp
@@ -31,29 +31,7 @@ void LinearHistory::put(char item)
 
 void LinearHistory::put(char items[], unsigned int count)
 {
-    if (willReset)
-    {
-        reset();
-        line++;
-        willReset = false;
-    }
     for (unsigned int i=0; i < count; ++i)
-    {
-        if (items[i] == '\n')
-        {
-            if (i < count -1)
-            {
-                willReset = true;
-                put(&items[i +1], count -i);
-                return;
-            }
-            else
-            {
-                willReset = true;
-                return;
-            }
-        }
-    }
-    WrappedBuffer<char, ERROR_HISTORY_LEN>::put(items, count);
+        put(items[i]);
 }
 
-- 
2.43.0


From 56084fce55acb76fb3a204d6836b5355748399a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 15/65] fix: wrong line number in errors

A new-line right after a number or a boolean was counted twice, as were
the \r and \n of a DOS new-line, and the last digit was missing.
---
 include/linearHistory.hh |  9 +++++++--
 src/linearHistory.cpp    | 23 ++++++++++++++++++-----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/linearHistory.hh b/include/linearHistory.hh
index 457b0c5..336c3f0 100644
--- a/include/linearHistory.hh
+++ b/include/linearHistory.hh
@@ -27,11 +27,16 @@ class LinearHistory: public WrappedBuffer<char, ERROR_HISTORY_LEN>
         void put(char item);
         void put(char item[], unsigned int count);
 
+        /**
+         * Remove last char, which may be a new-line
+        **/
+        void pop_back();
+
     private:
         /**
-         * True if new line found, and should reset at new put
+         * New-line found (\n, \r or \r\n), and should reset at next put
         **/
-        bool willReset;
+        std::string lineEnd;
         /**
          * Current line
         **/
diff --git a/src/linearHistory.cpp b/src/linearHistory.cpp
index 797ca33..320f50c 100644
--- a/src/linearHistory.cpp
+++ b/src/linearHistory.cpp
@@ -6,7 +6,7 @@
 
 #include "linearHistory.hh"
 
-LinearHistory::LinearHistory(): willReset(false), line(1)
+LinearHistory::LinearHistory(): line(1)
 { }
 
 LinearHistory::~LinearHistory()
@@ -17,14 +17,19 @@ unsigned int LinearHistory::currentLine() const
 
 void LinearHistory::put(char item)
 {
-    if (willReset)
+    if (item == '\n' && lineEnd == "\r")
+    {
+        lineEnd += item;
+        return;
+    }
+    if (!lineEnd.empty())
     {
         reset();
         line++;
-        willReset = false;
+        lineEnd.clear();
     }
-    if (item == L'\n' || item == L'\r')
-        willReset = true;
+    if (item == '\n' || item == '\r')
+        lineEnd = item;
     else
         WrappedBuffer<char, ERROR_HISTORY_LEN>::put(item);
 }
@@ -35,3 +40,11 @@ void LinearHistory::put(char items[], unsigned int count)
         put(items[i]);
 }
 
+
+void LinearHistory::pop_back()
+{
+    if (!lineEnd.empty())
+        lineEnd.pop_back();
+    else
+        WrappedBuffer<char, ERROR_HISTORY_LEN>::pop_back();
+}
-- 
2.43.0


From 6f5124193f00de7f1f2c5cfce89ccf7965c9062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 16/65] fix: end of file was handled as a character in strings
 and error positions

---
 include/streamConsumer.hh |  6 ++++++
 src/streamConsumer.cpp    | 41 ++++++++++++++++++++++++++-------------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/include/streamConsumer.hh b/include/streamConsumer.hh
index 7f79b2a..c2306b5 100644
--- a/include/streamConsumer.hh
+++ b/include/streamConsumer.hh
@@ -53,6 +53,12 @@ class StreamConsumer
         static std::string extractUnicode(const std::string &);
 
     protected:
+        /**
+         * read one char / put back the last char read, if not at the end of the stream
+        **/
+        char getChar();
+        void ungetChar();
+
         /**
          * @return non-null on successfully read JSonElement, or null if token (',', '[', ...)
         **/
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 476fb35..92965f7 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -139,6 +139,24 @@ JSonArray *StreamConsumer::readArray(JSonContainer *parent)
     return result;
 }
 
+char StreamConsumer::getChar()
+{
+    char c = stream.get();
+
+    if (stream.good())
+        history.put(c);
+    return c;
+}
+
+void StreamConsumer::ungetChar()
+{
+    if (stream.good())
+    {
+        history.pop_back();
+        stream.unget();
+    }
+}
+
 JSonElement *StreamConsumer::consumeString(JSonContainer *parent, std::stringstream &buf)
 {
     bool escaped = false;
@@ -148,9 +166,10 @@ JSonElement *StreamConsumer::consumeString(JSonContainer *parent, std::stringstr
 
     while (stream.good())
     {
-        char c = stream.get();
-        history.put(c);
+        char c = getChar();
 
+        if (!stream.good())
+            break;
         if (!escaped)
         {
             if (c == '"')
@@ -241,9 +260,8 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
     //TODO batch-get 3 char, then do that
     while (stream.good())
     {
-        const char c = stream.get();
+        const char c = getChar();
         const char cLower = std::tolower(c);
-        history.put(c);
 
         if (cLower == 'a' || cLower == 'e' || cLower == 'l' || cLower == 'r' || cLower == 's' || cLower == 'u')
         {
@@ -259,16 +277,14 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
         {
             if (buf.str() != rawInput)
                 warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-            history.pop_back();
-            stream.unget();
+            ungetChar();
             return new JSonPrimitive<bool>(parent, true);
         }
         else if (buf.str() == "false")
         {
             if (buf.str() != rawInput)
                 warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-            history.pop_back();
-            stream.unget();
+            ungetChar();
             return new JSonPrimitive<bool>(parent, false);
         }
         else if (ignoreChar(c))
@@ -293,8 +309,7 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
 
     while (stream.good())
     {
-        char c = stream.get();
-        history.put(c);
+        char c = getChar();
 
         if (c >= '0' && c <= '9')
             buf.write(&(previous = c), 1);
@@ -312,8 +327,7 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
             buf.write(&(previous = c), 1);
         else
         {
-            history.pop_back();
-            stream.unget();
+            ungetChar();
             if (numberIsDouble)
                 return doubleFromString(parent, buf.str());
             try
@@ -387,8 +401,7 @@ JSonElement *StreamConsumer::consumeToken(JSonContainer *parent, std::stringstre
 {
     while (stream.good())
     {
-        char c = stream.get();
-        history.put(c);
+        char c = getChar();
 
         //!InString, !inbool
         if (c == '"')
-- 
2.43.0


From 9548b3a808809094862b2c5105c9531e69b16973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 17/65] fix: column of errors counted characters missing at the
 end of file

---
 src/streamConsumer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 92965f7..0aad4c0 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -379,7 +379,7 @@ JSonElement *StreamConsumer::consumeNull(JSonContainer *parent, std::stringstrea
 
     stream.read(&_buf[1], 3);
     buf.write(_buf, 4);
-    history.put(&_buf[1], 3);
+    history.put(&_buf[1], stream.gcount());
     if (!stream.good())
     {
         buf.str("");
-- 
2.43.0


From 4a2cc0e3d98ebd90162be51c616ea032a2bc9276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 18/65] fix: search pattern's type filter was not initialized

---
 src/searchPattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index 62db98d..dd0a86a 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -6,7 +6,7 @@
 #include "jsonObjectEntry.hh"
 #include "jsonPrimitive.hh"
 
-SearchPattern::SearchPattern(const std::string &input): regex(nullptr), flags(0)
+SearchPattern::SearchPattern(const std::string &input): regex(nullptr), flags(0), typeFlag(0)
 {
     size_t pos = 0;
     bool escaped = false;
-- 
2.43.0


From bd078e73512a1809d1f4cb54ffbf7672e679e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 19/65] fix: case insensitive search changed the meaning of
 regex escapes

The pattern was lowercased even when it is a regex, so \W searched for \w.
---
 src/searchPattern.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index dd0a86a..b05f5f5 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -48,10 +48,7 @@ void SearchPattern::evalFlags(const char *s)
     while (*s)
     {
         if (*s == 'i')
-        {
             flags |= SearchPattern::FLAG_CASE;
-            std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
-        }
         else if (*s == 'w')
             flags |= SearchPattern::FLAG_WHOLEWORD;
         else if (*s == 'f')
@@ -68,6 +65,8 @@ void SearchPattern::evalFlags(const char *s)
             typeFlag = SearchPattern::TYPE_OBJKEY;
         s++;
     }
+    if ((flags & FLAG_CASE) && !(flags & FLAG_REGEX))
+        std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
     if (!regex && flags & SearchPattern::FLAG_REGEX)
     {
         std::regex_constants::syntax_option_type opts = std::regex_constants::ECMAScript;
-- 
2.43.0


From 5d1de614ee98aa5737d6201e96006be0729973f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 20/65] fix: whole word search missed the first and last words

---
 src/searchPattern.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index b05f5f5..9997dbf 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -112,7 +112,8 @@ bool SearchPattern::match(const std::string &str, const JSonElement *type) const
     if (flags & FLAG_WHOLEWORD && str.length() > pattern.length())
     {
         std::string pattern = " " +this->pattern +' ';
-        return std::search(str.begin(), str.end(), pattern.begin(), pattern.end(), *this) != str.end();
+        const std::string words = " " +str +' ';
+        return std::search(words.begin(), words.end(), pattern.begin(), pattern.end(), *this) != words.end();
     }
     return std::search(str.begin(), str.end(), pattern.begin(), pattern.end(), *this) != str.end();
 }
-- 
2.43.0


From 4d388eae5631c5a13f157eb653d8ec40e41619fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 21/65] fix: search input was not null-terminated

---
 src/curseOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 5e6a104..f1d7bcc 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -233,7 +233,8 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
 
     {
         const size_t size = buffer.size();
-        char bytesString[size * sizeof(wchar_t)];
+        char bytesString[(size +1) * sizeof(wchar_t)];
+        bytesString[0] = '\0';
         wcstombs(&bytesString[0], buffer.c_str(), sizeof(bytesString));
         std::string str;
         if (params.isIgnoringUnicode())
-- 
2.43.0


From f36d3fc0437931ad6a9e39dedd3bb400311f3359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 22/65] fix: an invalid regex typed as a search ended the
 program

---
 src/curseOutput.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index f1d7bcc..2e83fef 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -241,7 +241,15 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
             str = bytesString;
         else
             str = StreamConsumer::extractUnicode(bytesString);
-        return abort ? nullptr : new SearchPattern(str);
+        try
+        {
+            return abort ? nullptr : new SearchPattern(str);
+        }
+        catch (std::regex_error &e)
+        {
+            writeBottomLine(std::string("Invalid pattern"), OutputFlag::SPECIAL_ERROR);
+            return nullptr;
+        }
     }
 }
 
-- 
2.43.0


From 5f86aa7eec29ada9ca08f7f02d6e15a2c704452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 23/65] fix: unicode in search patterns

The character after \uXXXX was skipped, and reading went on after the end of
the input if there was none. An invalid \uXXXX ended the program.
---
 src/streamConsumer.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 0aad4c0..9370481 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -465,8 +465,15 @@ std::string StreamConsumer::extractUnicode(const char *buf)
     {
         if (*buf == '\\' && buf[1] == 'u' && buf[2] && buf[3] && buf[4] && buf[5])
         {
-            appendUnicode(buf +2, result);
-            buf += 6;
+            try
+            {
+                appendUnicode(buf +2, result);
+                buf += 5;
+            }
+            catch (std::exception &e) // invalid hexadecimal value or codepoint
+            {
+                result.write(buf, 1);
+            }
         }
         else
             result.write(buf, 1);
-- 
2.43.0


From af7399abd0bfb6ce8ae5c4ca441680eda8e11d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 24/65] fix: search prompt: non-ascii characters and function
 keys

The bytes of an UTF-8 sequence were taken for characters, and the backspace key
and interruptions for characters to search for.
---
 src/curseOutput.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 2e83fef..417fe92 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -203,7 +203,7 @@ void CurseOutput::unfold(const JSonElement *item)
 
 const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
 {
-    std::wstring buffer;
+    std::string buffer;
     bool abort = false;
     if (!w)
         w = stdscr;
@@ -214,33 +214,34 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
     {
         int c;
 
-        writeBottomLine(L'/' +buffer, OutputFlag::SPECIAL_SEARCH);
+        writeBottomLine('/' +buffer, OutputFlag::SPECIAL_SEARCH);
         c = wgetch(w);
-        if (c == L'\n' || c == L'\r')
+        if (c == L'\n' || c == L'\r' || c == KEY_ENTER)
             break;
-        else if (c == L'\b' || c == 127)
+        else if (c == L'\b' || c == 127 || c == KEY_BACKSPACE)
         {
+            // Remove a whole UTF-8 sequence
+            while (!buffer.empty() && (buffer.back() & 0xC0) == 0x80)
+                buffer.pop_back();
             if (!buffer.empty())
                 buffer.pop_back();
         }
         else if (c == 27)
             abort = true;
-        else
+        else if (c > 0 && c < 256) // Neither an error (eg. interrupted by a signal) nor a function key
             buffer += c;
+        else if (breakLoop)
+            abort = true;
     }
     wtimeout(w, 150);
     curs_set(false);
 
     {
-        const size_t size = buffer.size();
-        char bytesString[(size +1) * sizeof(wchar_t)];
-        bytesString[0] = '\0';
-        wcstombs(&bytesString[0], buffer.c_str(), sizeof(bytesString));
         std::string str;
         if (params.isIgnoringUnicode())
-            str = bytesString;
+            str = buffer;
         else
-            str = StreamConsumer::extractUnicode(bytesString);
+            str = StreamConsumer::extractUnicode(buffer);
         try
         {
             return abort ? nullptr : new SearchPattern(str);
-- 
2.43.0


From 429b85018c587947d12c26f1ecb17756793ea8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 25/65] fix: buffer overflow while computing the length of an
 element

---
 src/jsonElement.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/jsonElement.cpp b/src/jsonElement.cpp
index 9c5572f..679d1c8 100644
--- a/src/jsonElement.cpp
+++ b/src/jsonElement.cpp
@@ -4,6 +4,7 @@
  * Author: isundil <isundill@gmail.com>
 **/
 
+#include <stdlib.h>
 #include "jsonElement.hh"
 #include "jsonContainer.hh"
 #include "jsonObjectEntry.hh"
@@ -21,16 +22,19 @@ void JSonElement::setParent(JSonElement *p)
     parent = p;
 }
 
+static size_t countColumns(const std::string &buf)
+{
+    const size_t len = mbstowcs(nullptr, buf.c_str(), 0);
+
+    return len == (size_t) -1 ? buf.size() : len; // Not a valid multibyte string in current locale
+}
+
 size_t JSonElement::lazystrlen()
 {
     if (_strlen)
         return _strlen;
     const std::string buf = stringify();
-    if (!buf.size())
-        return _strlen;
-    wchar_t wbuf[buf.size()];
-    mbstowcs(wbuf, buf.c_str(), buf.size() * sizeof(wchar_t));
-    return _strlen = wcslen(wbuf);
+    return _strlen = countColumns(buf);
 }
 
 size_t JSonElement::strlen() const
@@ -38,11 +42,7 @@ size_t JSonElement::strlen() const
     if (_strlen)
         return _strlen;
     const std::string buf = stringify();
-    if (!buf.size())
-        return _strlen;
-    wchar_t wbuf[buf.size()];
-    mbtowc(wbuf, buf.c_str(), buf.size());
-    return wcslen(wbuf);
+    return countColumns(buf);
 }
 
 unsigned int JSonElement::getLevel() const
-- 
2.43.0


From d236b0d6b148964a1c08d7ffdc7f7f5af7d56d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 26/65] fix: viewer kept pointers to the previous, deleted,
 input

---
 src/curseSimpleOutput.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index f0d0623..3c13bbf 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -27,6 +27,9 @@ CurseSimpleOutput::~CurseSimpleOutput()
 void CurseSimpleOutput::run(JSonElement *root, const std::string &i)
 {
     scrollTop = 0;
+    // Do not keep pointers to the previous input
+    collapsed.clear();
+    search_result.clear();
     selection = data = root;
     inputName = i;
     loop(nullptr);
-- 
2.43.0


From 26b0c1f50ad928d3d735be7434deef9b5aec8c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 27/65] fix: split output used uninitialized number of inputs
 and windows

---
 src/curseSplitOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 873a493..212f659 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -24,7 +24,7 @@ template<class T> static const T &list_at(const std::list<T> &l, unsigned int po
     return *it;
 }
 
-CurseSplitOutput::CurseSplitOutput(const Params &p): CurseOutput(p)
+CurseSplitOutput::CurseSplitOutput(const Params &p): CurseOutput(p), nbInputs(1), selectedWin(0), workingWin(0), bottomLine(nullptr)
 {
     diffMatrice = nullptr;
     init();
-- 
2.43.0


From 82b9f2ef853707c2209de1a96aa1085c33605ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 28/65] fix: external diff: child process went on as its parent
 when command cannot be executed

---
 src/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 2592d3f..acadfee 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -10,6 +10,8 @@
 #include <sys/wait.h>
 #include <unistd.h>
 #include <locale.h>
+#include <errno.h>
+#include <string.h>
 #include "curseSimpleOutput.hh"
 #include "curseSplitOutput.hh"
 #include "streamConsumer.hh"
@@ -114,7 +116,12 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
     if (fk == -1)
         return inputsFilenames;
     else if (fk == 0)
+    {
         execvp(*av, av);
+        // Command cannot be executed, do not let the child act as its parent
+        std::cerr << p.getProgName() << ": cannot execute " << *av << ": " << strerror(errno) << std::endl;
+        _exit(127);
+    }
     // Wait for child to terminate
     do {
         waitpid(fk, &status, 0);
-- 
2.43.0


From 3e0e36c0df8f5975542e6b0cb68fc8071c1449c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 29/65] fix: external diff: infinite loop when the command is
 killed by a signal

---
 src/main.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index acadfee..1f4a921 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -124,8 +124,15 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
     }
     // Wait for child to terminate
     do {
-        waitpid(fk, &status, 0);
-    } while (!WIFEXITED(status));
+        if (waitpid(fk, &status, 0) == -1)
+        {
+            if (errno == EINTR)
+                continue;
+            break;
+        }
+        if (WIFEXITED(status) || WIFSIGNALED(status))
+            break;
+    } while (true);
     return inputsFilenames;
 }
 
-- 
2.43.0


From 71da3a962a034c6342145000c520a6ecc7624d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 30/65] fix: crash with an empty --diff-cmd

---
 src/params.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/params.cpp b/src/params.cpp
index eea9de8..397a8c2 100644
--- a/src/params.cpp
+++ b/src/params.cpp
@@ -108,7 +108,11 @@ bool Params::read()
         else if (inDiff)
         {
             if (tmp == ";")
+            {
+                if (diffCmd->getArgv().empty())
+                    throw std::runtime_error("Missing command for --diff-cmd");
                 inDiff = false;
+            }
             else
                 diffCmd->add(tmp);
         }
@@ -121,6 +125,8 @@ bool Params::read()
             input->write(tmp.c_str(), sizeof(char) * tmp.size());
         }
     }
+    if (inDiff && diffCmd->getArgv().empty())
+        throw std::runtime_error("Missing command for --diff-cmd");
     if (diffMode)
     {
         if (inputs.size() > 3)
-- 
2.43.0


From d378a3e2d451c5f0710dbd758490f8c3411f0977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 31/65] fix: external diff: temporary files shared between
 inputs, or overwriting an existing file

---
 src/main.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 1f4a921..1c778b0 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -9,6 +9,7 @@
 #include <sys/types.h>
 #include <sys/wait.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <locale.h>
 #include <errno.h>
 #include <string.h>
@@ -77,8 +78,14 @@ std::ofstream getOutputFile(const std::string iname, std::string &outfile)
         ss = std::stringstream("");
         ss << "/tmp/jsondifftmp" << hash << '.' << i << ".tmp";
         outfile = ss.str();
-        fout.open(outfile);
-    } while (!fout.is_open() && i  < 1000);
+        // Never write to an existing file: it can be the one of another input, or does not belong to us
+        const int fd = open(outfile.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600);
+        if (fd != -1)
+        {
+            close(fd);
+            fout.open(outfile);
+        }
+    } while (!fout.is_open() && ++i < 1000);
     return fout;
 }
 
@@ -99,6 +106,12 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
         if (!stream)
             return inputsFilenames;
         std::ofstream fout = getOutputFile(input.first, fname);
+        if (!fout.is_open())
+        {
+            std::cerr << p.getProgName() << ": " << input.first << " cannot create a temporary file" << std::endl;
+            delete stream;
+            return inputsFilenames;
+        }
         inputsFilenames.push_back(fname);
         SimpleOutput::display(fout, stream->getRoot(), p);
         delete stream;
-- 
2.43.0


From 65bfd55c75083922864e2e5f52b8757e39192952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 32/65] fix: external diff: failures while writing temporary
 files or starting the command were ignored

---
 src/main.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 1c778b0..5ffba64 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -115,6 +115,12 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
         inputsFilenames.push_back(fname);
         SimpleOutput::display(fout, stream->getRoot(), p);
         delete stream;
+        fout.close();
+        if (fout.fail())
+        {
+            std::cerr << p.getProgName() << ": " << input.first << " cannot write temporary file" << std::endl;
+            return inputsFilenames;
+        }
     }
     for (Warning w : warns)
     {
@@ -127,7 +133,10 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
     int status;
 
     if (fk == -1)
+    {
+        std::cerr << p.getProgName() << ": cannot execute " << *av << ": " << strerror(errno) << std::endl;
         return inputsFilenames;
+    }
     else if (fk == 0)
     {
         execvp(*av, av);
-- 
2.43.0


From 31ac4be282b407bf116f01e3b4ec374e51cb793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 33/65] fix: diff: division by zero on empty containers, and
 containers without anything in common were considered as similar

---
 include/levenshteinMatrice.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index c341f69..29f6e82 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -113,8 +113,9 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
             }
 
             result->levenDist = matrice[n][m];
-            result->levenRelativeDist = 1 -(matrice[n][m] / std::max(n, m));
-            if (result->levenRelativeDist > LEVENSHTEIN_SENSIBILITY)
+            // Similar if they have something in common, or if both are empty
+            result->levenRelativeDist = (result->levenDist < std::max(n, m) || (!n && !m)) ? 1.f : 0.f;
+            if (n && result->levenRelativeDist > LEVENSHTEIN_SENSIBILITY)
                 result->shortestPath<T>(matrice, subMatrice, n, m, --a, --b);
             cleanMatrice(matrice, subMatrice, n, m);
             return result;
-- 
2.43.0


From d5007bcd5fbc57b0bcd2a4d3f2d06203d0fb00ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 34/65] fix: diff: overflow of the distance between big
 containers

---
 include/levenshteinMatrice.hpp | 6 +++---
 src/levenshtein.cpp            | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index 29f6e82..3a39915 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -97,10 +97,10 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
                     LevenshteinMatrice_base *_subMatrice = matriceBuilder.build(*a, *b);
                     if (_subMatrice != nullptr)
                     {
-                        const T chCost = matrice[i -1][j -1] + (_subMatrice->areSimilar() ? 0 : _subMatrice->result());
+                        const size_t chCost = (size_t) matrice[i -1][j -1] + (_subMatrice->areSimilar() ? 0 : _subMatrice->result());
 
-                        if (chCost <= matrice[i -1][j] +1 &&
-                                chCost <= matrice[i][j -1] +1)
+                        if (chCost <= (size_t) matrice[i -1][j] +1 &&
+                                chCost <= (size_t) matrice[i][j -1] +1)
                         {
                             matrice[i][j] = chCost;
                             subMatrice[i -1][j -1] = _subMatrice;
diff --git a/src/levenshtein.cpp b/src/levenshtein.cpp
index 5ad378e..ac615e8 100644
--- a/src/levenshtein.cpp
+++ b/src/levenshtein.cpp
@@ -61,9 +61,10 @@ LevenshteinMatrice_base *LevenshteinMatrice_base::Builder::build(const JSonEleme
 
         LevenshteinMatrice *result = nullptr;
 
-        if (lenA < UCHAR_MAX && lenB < UCHAR_MAX)
+        // Distance can be up to lenA +lenB
+        if (lenA + lenB < UCHAR_MAX)
             result = LevenshteinMatrice::build<unsigned char>(aBegin, bBegin, lenA, lenB);
-        else if (lenA < USHRT_MAX && lenB < USHRT_MAX)
+        else if (lenA + lenB < USHRT_MAX)
             result = LevenshteinMatrice::build<unsigned short>(aBegin, bBegin, lenA, lenB);
         else
             result = LevenshteinMatrice::build<unsigned int>(aBegin, bBegin, lenA, lenB);
-- 
2.43.0


From 74d8e0c7b0647a777582202196257cb292d26816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 35/65] fix: diff: different values were shown as equal when
 similar

---
 include/levenshteinMatrice.hpp |  8 +++++++-
 src/levenshtein.cpp            | 11 ++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index 3a39915..2e95a18 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -14,6 +14,10 @@ class LevenshteinMatrice_base
         virtual const std::map<const JSonElement*, eLevenshteinOperator> path() const;
         virtual size_t result() const =0;
         virtual bool areSimilar() const =0;
+        /**
+         * true if elements are values, and are different (even if they are similar)
+        **/
+        virtual bool isModified() const;
 
         eLevenshteinOperator get(const JSonElement *) const;
         virtual std::map<const JSonElement *, const JSonElement *> getEquivalences() const;
@@ -54,9 +58,11 @@ class LevenshteinMatriceWithScore: public LevenshteinMatrice_base
 
         size_t result() const;
         bool areSimilar() const;
+        bool isModified() const;
 
     private:
         bool _result;
+        bool modified;
         const JSonElement *equivalentA, *equivalentB;
 };
 
@@ -184,7 +190,7 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
                 else if (_i && _j)
                 {
                     eLevenshteinOperator op =
-                        matrice[_i][_j] == matrice[_i -1][_j -1] ?
+                        (matrice[_i][_j] == matrice[_i -1][_j -1] && !subMatrice[_i -1][_j -1]->isModified()) ?
                         eLevenshteinOperator::equ :
                         eLevenshteinOperator::mod;
                     operations[*i] = operations[*j] = op;
diff --git a/src/levenshtein.cpp b/src/levenshtein.cpp
index ac615e8..b1688e9 100644
--- a/src/levenshtein.cpp
+++ b/src/levenshtein.cpp
@@ -111,6 +111,9 @@ eLevenshteinOperator LevenshteinMatrice_base::get(const JSonElement *e) const
 const JSonElement *LevenshteinMatrice_base::getEquivalence(const JSonElement *) const
 { return nullptr; }
 
+bool LevenshteinMatrice_base::isModified() const
+{ return false; }
+
 /**
  * base (generic) Matrice
 **/
@@ -172,6 +175,7 @@ bool LevenshteinMatrice_manual::areSimilar() const
 LevenshteinMatriceWithScore::LevenshteinMatriceWithScore(float s, const JSonElement *a, const JSonElement *b, bool sameType)
 {
     _result = s > LEVENSHTEIN_SENSIBILITY;
+    modified = s < 1.f || !sameType;
     if (sameType)
     {
         equivalentA = a;
@@ -180,7 +184,7 @@ LevenshteinMatriceWithScore::LevenshteinMatriceWithScore(float s, const JSonElem
     else
         equivalentA = equivalentB = nullptr;
     if (sameType)
-        operations[a] = operations[b] = (_result ? eLevenshteinOperator::equ : eLevenshteinOperator::mod);
+        operations[a] = operations[b] = (modified ? eLevenshteinOperator::mod : eLevenshteinOperator::equ);
     else
         operations[a] = operations[b] = eLevenshteinOperator::add;
 }
@@ -210,3 +214,8 @@ bool LevenshteinMatriceWithScore::areSimilar() const
     return _result;
 }
 
+bool LevenshteinMatriceWithScore::isModified() const
+{
+    return modified;
+}
+
-- 
2.43.0


From 479cd714194fe1ab9bc4a4eff819cb26baedae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 36/65] fix: viewers did not stop on SIGINT or SIGTERM until a
 key was pressed

---
 include/inputSequence.hh | 6 +++++-
 src/curseOutput.cpp      | 6 ++----
 src/curseSplitOutput.cpp | 1 +
 src/inputSequence.cpp    | 6 +++++-
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/inputSequence.hh b/include/inputSequence.hh
index 8759f3e..4d90ec4 100644
--- a/include/inputSequence.hh
+++ b/include/inputSequence.hh
@@ -11,7 +11,11 @@ class InputSequence
     public:
         ~InputSequence();
 
-        static InputSequence read(WINDOW *);
+        /**
+         * Wait for a key sequence
+         * @param abort stop waiting (and return an empty sequence) if it becomes true
+        **/
+        static InputSequence read(WINDOW *, const bool &abort);
 
         const std::string &key() const;
 
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 417fe92..0d9c5c4 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -107,7 +107,7 @@ inputResult CurseOutput::readInput(WINDOW *w)
 {
     while (!breakLoop)
     {
-        inputResult r = evalKey(InputSequence::read(w));
+        inputResult r = evalKey(InputSequence::read(w, breakLoop));
         if (r != inputResult::nextInput)
             return r;
     }
@@ -209,7 +209,6 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
         w = stdscr;
 
     curs_set(true);
-    wtimeout(w, -1);
     while (!abort)
     {
         int c;
@@ -230,10 +229,9 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
             abort = true;
         else if (c > 0 && c < 256) // Neither an error (eg. interrupted by a signal) nor a function key
             buffer += c;
-        else if (breakLoop)
+        if (breakLoop)
             abort = true;
     }
-    wtimeout(w, 150);
     curs_set(false);
 
     {
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 212f659..7a7cb3f 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -62,6 +62,7 @@ void CurseSplitOutput::run(const std::deque<std::string> &inputName, const std::
         subwin.outerWin = newwin(screenSize.second +2, screenSize.first, 0, i * (screenSize.first -1));
         subwin.innerWin = newwin(screenSize.second, screenSize.first -2, 1, i * (screenSize.first -1) +1);
         keypad(subwin.outerWin, true);
+        wtimeout(subwin.outerWin, 150);
         subWindows.push_back(subwin);
         box(subwin.outerWin, 0, 0);
         wrefresh(subwin.outerWin);
diff --git a/src/inputSequence.cpp b/src/inputSequence.cpp
index 6efeadf..6d0c91f 100644
--- a/src/inputSequence.cpp
+++ b/src/inputSequence.cpp
@@ -10,7 +10,7 @@ InputSequence::InputSequence(const InputSequence &o): seq(o.seq)
 InputSequence::~InputSequence()
 { }
 
-InputSequence InputSequence::read(WINDOW *w)
+InputSequence InputSequence::read(WINDOW *w, const bool &abort)
 {
     InputSequence result;
     const char *kname = nullptr;
@@ -20,7 +20,11 @@ InputSequence InputSequence::read(WINDOW *w)
         const int input = wgetch(w ? w : stdscr);
 
         if (input == -1)
+        {
+            if (abort)
+                return InputSequence();
             continue;
+        }
 
         kname = keyname(toupper(input));
 
-- 
2.43.0


From 1818dc157a69e067464cadcff28039837818fee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 37/65] fix: uncaught exception when comparing 3 files

---
 src/main.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 5ffba64..3d36d6d 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -191,8 +191,15 @@ void runDiff(const Params &params)
     }
     if (streams.size() == nbInputs)
     {
-        CurseSplitOutput out(params);
-        out.run(inputNames, roots);
+        try
+        {
+            CurseSplitOutput out(params);
+            out.run(inputNames, roots);
+        }
+        catch (std::runtime_error &e)
+        {
+            std::cerr << params.getProgName() << ": " << e.what() << std::endl;
+        }
     }
     for (StreamConsumer *stream: streams)
         delete stream;
-- 
2.43.0


From 247b88137e555739dbc38bdbf2edc0c2a6cfcd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 38/65] fix: no next element after the last one of a container
 in an object

---
 src/jsonElement.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsonElement.cpp b/src/jsonElement.cpp
index 679d1c8..2d52707 100644
--- a/src/jsonElement.cpp
+++ b/src/jsonElement.cpp
@@ -86,8 +86,10 @@ const JSonElement* JSonElement::findNext() const
 {
     const JSonElement *item = this;
     const JSonElement *parent = item->getParent();
-    if (parent == nullptr || !dynamic_cast<const JSonContainer*>(parent))
+    if (parent == nullptr)
         return nullptr; // Root node, can't have brothers
+    if (!dynamic_cast<const JSonContainer*>(parent))
+        return parent->findNext(); // Value of an object entry
     JSonContainer::const_iterator it = ((const JSonContainer*)parent)->cbegin();
     while (it != ((const JSonContainer*)parent)->cend())
     {
-- 
2.43.0


From cce925b82b7237cc8ae70147b2c2f395f3317db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:08 +0000
Subject: [PATCH 39/65] fix: crash or endless loop without a usable terminal

---
 src/curseOutput.cpp | 12 +++++++++++-
 src/main.cpp        | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 0d9c5c4..40b65c3 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -5,6 +5,7 @@
 **/
 
 #include <iostream>
+#include <stdexcept>
 
 #include <sys/ioctl.h>
 #include <algorithm>
@@ -22,7 +23,7 @@
 
 static CurseOutput *runningInst = nullptr;
 
-CurseOutput::CurseOutput(const Params &p): params(p)
+CurseOutput::CurseOutput(const Params &p): params(p), screen(nullptr), screen_fd(nullptr)
 {
     runningInst = this;
 }
@@ -297,6 +298,8 @@ void CurseOutput::init()
     if (!isatty(fileno(stdin)) || !isatty(fileno(stdout))) //TODO remove after v1.2 and #29
     {
         screen_fd = fopen("/dev/tty", "r+");
+        if (!screen_fd)
+            throw std::runtime_error("cannot open the terminal");
         setbuf(screen_fd, nullptr);
         screen = newterm(nullptr, screen_fd, screen_fd);
     }
@@ -305,6 +308,13 @@ void CurseOutput::init()
         screen = newterm(nullptr, stdout, stdin);
         screen_fd = nullptr;
     }
+    if (!screen)
+    {
+        if (screen_fd)
+            fclose(screen_fd);
+        screen_fd = nullptr;
+        throw std::runtime_error("cannot initialize the terminal");
+    }
     wtimeout(stdscr, 150);
     cbreak();
     clear();
diff --git a/src/main.cpp b/src/main.cpp
index 3d36d6d..8511f52 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -233,9 +233,19 @@ void runStdout(const Params &params)
 void run(const Params &params)
 {
     IndexedDeque inputs = params.getInputs();
-    CurseSimpleOutput *out = new CurseSimpleOutput(params);
+    CurseSimpleOutput *out;
     std::deque<Warning> warns;
 
+    try
+    {
+        out = new CurseSimpleOutput(params);
+    }
+    catch (std::runtime_error &e)
+    {
+        std::cerr << params.getProgName() << ": " << e.what() << std::endl;
+        return;
+    }
+
     for (std::pair<std::string, std::basic_istream<char>*> input : inputs)
     {
         StreamConsumer *stream = readOneFile(input, params, warns);
-- 
2.43.0


From f273d1a5be9e01f5effdc05448c9c892ad95ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 40/65] fix: errors on an input were lost when the viewer had
 the terminal

---
 src/main.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 8511f52..6472418 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -233,29 +233,27 @@ void runStdout(const Params &params)
 void run(const Params &params)
 {
     IndexedDeque inputs = params.getInputs();
-    CurseSimpleOutput *out;
     std::deque<Warning> warns;
 
-    try
-    {
-        out = new CurseSimpleOutput(params);
-    }
-    catch (std::runtime_error &e)
-    {
-        std::cerr << params.getProgName() << ": " << e.what() << std::endl;
-        return;
-    }
-
     for (std::pair<std::string, std::basic_istream<char>*> input : inputs)
     {
         StreamConsumer *stream = readOneFile(input, params, warns);
         if (!stream)
             break;
-        out->run(stream->getRoot(), input.first);
+        try
+        {
+            // The terminal is released after each input: errors of the next one must remain visible
+            CurseSimpleOutput out(params);
+            out.run(stream->getRoot(), input.first);
+        }
+        catch (std::runtime_error &e)
+        {
+            std::cerr << params.getProgName() << ": " << e.what() << std::endl;
+            delete stream;
+            break;
+        }
         delete stream;
     }
-    if (out)
-        delete out;
     for (Warning w : warns)
     {
         std::cerr << "Warning: ";
-- 
2.43.0


From d9f6d3a57a97a3c8308815e8ea1653e0a60d4f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 41/65] fix: case insensitive search never matched non-ascii
 characters

---
 src/searchPattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index 9997dbf..f70b94e 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -84,7 +84,7 @@ bool SearchPattern::operator()(char a, char b)
     if (a == '\t')
         a = ' ';
     if (flags & SearchPattern::FLAG_CASE)
-        return std::tolower(a) == b;
+        return (char) std::tolower((unsigned char) a) == b;
     return a == b;
 }
 
-- 
2.43.0


From ed88beebcc71833030faa1792f038927d5de6391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 42/65] fix: viewer could not go down from an element filling
 the screen

---
 src/curseSimpleOutput.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 3c13bbf..c0b13a3 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -86,12 +86,11 @@ inputResult CurseSimpleOutput::selectUp()
 
 inputResult CurseSimpleOutput::selectDown()
 {
+    if (!selectIsLast && selection == select_down)
+        return inputResult::nextInput;
     if (selectIsLast)
         scrollTop += 2;
-    else if (selection != select_down)
-        selection = select_down;
-    else
-        return inputResult::nextInput;
+    selection = select_down;
     return inputResult::redraw;
 }
 
-- 
2.43.0


From 529af5c840d6e3c4721f2189169309cd46be2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 43/65] fix: viewer skipped the content of an object entry when
 it was below the screen

---
 src/curseSimpleOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index c0b13a3..28c234f 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -63,7 +63,8 @@ bool CurseSimpleOutput::redraw()
         selectIsLast = true;
     if (!select_down)
     {
-        const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(selection);
+        const JSonObjectEntry *entry = dynamic_cast<const JSonObjectEntry*>(selection);
+        const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(entry ? **entry : selection);
         if (pselect && !pselect->empty() && collapsed.find(pselect) == collapsed.cend())
             select_down = *(pselect->cbegin());
         else
-- 
2.43.0


From 81f2164310e90b4e9e65436748937a59b04fa5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 44/65] fix: viewers stayed in an inconsistent state when a
 search result was below the screen

---
 src/curseOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 40b65c3..6991975 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -158,8 +158,9 @@ inputResult CurseOutput::evalKey(const InputSequence &c)
 
 bool CurseOutput::redraw(const std::string &errorMsg)
 {
-    bool result = redraw();
+    bool result;
 
+    while (!(result = redraw()));
     writeBottomLine(errorMsg, OutputFlag::SPECIAL_ERROR);
     return result;
 }
-- 
2.43.0


From 3e8b5a6f66011651ba362d9ff3f8b3e70032340a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 45/65] fix: wrong number of lines for some keys, and division
 by zero on narrow terminals

---
 src/curseSimpleOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 28c234f..60d6073 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -323,7 +323,7 @@ bool CurseSimpleOutput::writeKey(const std::string &key, const size_t keylen, t_
     }
     char oldType = flags.type();
     flags.type(OutputFlag::TYPE_OBJKEY);
-    cursor.second += write(cursor.first, cursor.second, key, keylen, screenSize.first -extraLen -2, flags);
+    cursor.second += write(cursor.first, cursor.second, key, keylen +2, screenSize.first -extraLen, flags);
     flags.type(OutputFlag::TYPE_OBJ);
     write(": ", flags);
     flags.type(oldType);
-- 
2.43.0


From 10d179c9f97b3f586a38e14954f766f78e884faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 46/65] fix: viewer wrote elements indented beyond the width of
 the screen at a wrong place

---
 include/curseSimpleOutput.hh |  4 ++++
 src/curseSimpleOutput.cpp    | 12 ++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/curseSimpleOutput.hh b/include/curseSimpleOutput.hh
index 1f6081a..408cf49 100644
--- a/include/curseSimpleOutput.hh
+++ b/include/curseSimpleOutput.hh
@@ -38,6 +38,10 @@ class CurseSimpleOutput: public CurseOutput
         const OutputFlag getFlag(const JSonElement *item) const;
         const OutputFlag getFlag(const JSonElement *item, const JSonElement *selection) const;
 
+        /**
+         * Move to a position which can be beyond the right border
+        **/
+        void moveCursor(unsigned int x, unsigned int y) const;
         unsigned int write(const unsigned int &x, const unsigned int &y, const char item, unsigned int maxWidth, OutputFlag flags);
         unsigned int write(const unsigned int &x, const unsigned int &y, const std::string &str, const size_t strlen, unsigned int maxWidth, const OutputFlag flags);
         void write(const std::string &str, const OutputFlag flags) const;
diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 60d6073..d256794 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -353,6 +353,13 @@ bool CurseSimpleOutput::writeKey(const std::string &key, const size_t keylen, co
     return writeKey(key, keylen, after, after.size(), cursor, flags);
 }
 
+void CurseSimpleOutput::moveCursor(unsigned int x, unsigned int y) const
+{
+    // Indentation goes on with next lines, as texts do
+    if (move(y + x / screenSize.first, x % screenSize.first) == ERR)
+        move(screenSize.second -1, screenSize.first -1);
+}
+
 unsigned int CurseSimpleOutput::write(const unsigned int &x, const unsigned int &y, const char item, unsigned int maxWidth, OutputFlag flags)
 {
     char color = OutputFlag::SPECIAL_NONE;
@@ -369,7 +376,8 @@ unsigned int CurseSimpleOutput::write(const unsigned int &x, const unsigned int
 
     if (color != OutputFlag::SPECIAL_NONE)
         attron(COLOR_PAIR(color));
-    mvprintw(y - scrollTop, x, "%c", item);
+    moveCursor(x, y - scrollTop);
+    printw("%c", item);
     attroff(A_REVERSE | A_BOLD);
     if (color != OutputFlag::SPECIAL_NONE)
         attroff(COLOR_PAIR(color));
@@ -380,7 +388,7 @@ unsigned int CurseSimpleOutput::write(const unsigned int &x, const unsigned int
 {
     if (y <= scrollTop)
         return 1;
-    move(y - scrollTop, x);
+    moveCursor(x, y - scrollTop);
     write(str, flags);
     return getNbLines(strlen +x, maxWidth);
 }
-- 
2.43.0


From d86179347a5714a46f4df2c41f36a6510bd28fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 47/65] fix: SIGINT or SIGTERM received before the first
 display was lost

---
 src/curseOutput.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 6991975..9b60e24 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -23,7 +23,7 @@
 
 static CurseOutput *runningInst = nullptr;
 
-CurseOutput::CurseOutput(const Params &p): params(p), screen(nullptr), screen_fd(nullptr)
+CurseOutput::CurseOutput(const Params &p): params(p), screen(nullptr), screen_fd(nullptr), breakLoop(false)
 {
     runningInst = this;
 }
@@ -41,7 +41,6 @@ void CurseOutput::loop(WINDOW * w)
 {
     inputResult read;
 
-    breakLoop = false;
     do
     {
         while (!redraw());
-- 
2.43.0


From b9eb6a06f7cef8089bd93e2f9f832d332337baba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 48/65] fix: viewers drew in a signal handler, over what was
 being drawn

---
 include/curseOutput.hh   | 17 ++++++++++++++++-
 include/inputSequence.hh |  2 +-
 src/curseOutput.cpp      | 38 ++++++++++++++++++++++++++++++--------
 src/inputSequence.cpp    |  2 +-
 4 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/include/curseOutput.hh b/include/curseOutput.hh
index 848ea59..25b24ae 100644
--- a/include/curseOutput.hh
+++ b/include/curseOutput.hh
@@ -60,6 +60,11 @@ class CurseOutput
         **/
         virtual void shutdown() =0;
 
+        /**
+         * Adapt to the size of the terminal
+        **/
+        void resize();
+
         /**
          * Called before redraw after window got SIGWINCH'd
         **/
@@ -180,7 +185,17 @@ class CurseOutput
         /**
          * Used by signals to stop reading input and shutdown ncurses
         **/
-        bool breakLoop;
+        volatile bool breakLoop;
+
+        /**
+         * The terminal got another size, which is not displayed yet
+        **/
+        volatile bool resized;
+
+        /**
+         * Stop waiting for a key
+        **/
+        volatile bool interrupted;
 
         /**
          * initialized colors
diff --git a/include/inputSequence.hh b/include/inputSequence.hh
index 4d90ec4..024280c 100644
--- a/include/inputSequence.hh
+++ b/include/inputSequence.hh
@@ -15,7 +15,7 @@ class InputSequence
          * Wait for a key sequence
          * @param abort stop waiting (and return an empty sequence) if it becomes true
         **/
-        static InputSequence read(WINDOW *, const bool &abort);
+        static InputSequence read(WINDOW *, const volatile bool &abort);
 
         const std::string &key() const;
 
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 9b60e24..1c6f458 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -23,7 +23,7 @@
 
 static CurseOutput *runningInst = nullptr;
 
-CurseOutput::CurseOutput(const Params &p): params(p), screen(nullptr), screen_fd(nullptr), breakLoop(false)
+CurseOutput::CurseOutput(const Params &p): params(p), screen(nullptr), screen_fd(nullptr), breakLoop(false), resized(false), interrupted(false)
 {
     runningInst = this;
 }
@@ -53,19 +53,28 @@ void CurseOutput::onResizeHandler()
     clear();
 }
 
+void CurseOutput::resize()
+{
+    struct winsize size;
+
+    resized = false;
+    if (ioctl(fileno(screen_fd ? screen_fd : stdout), TIOCGWINSZ, &size) == 0)
+        resize_term(size.ws_row, size.ws_col);
+    screenSize = getScreenSize();
+    onResizeHandler();
+}
+
 bool CurseOutput::onsig(int signo)
 {
     struct winsize size;
     t_Cursor oldScrSize;
 
+    interrupted = true;
     switch (signo)
     {
     case SIGWINCH:
-        if (ioctl(fileno(screen_fd ? screen_fd : stdout), TIOCGWINSZ, &size) == 0)
-            resize_term(size.ws_row, size.ws_col);
-        screenSize = getScreenSize();
-        onResizeHandler();
-        while (!redraw());
+        // Something may be being displayed, wait for the end of it
+        resized = true;
         break;
 
     case SIGCONT:
@@ -105,9 +114,17 @@ void _resizeFnc(int signo)
 **/
 inputResult CurseOutput::readInput(WINDOW *w)
 {
-    while (!breakLoop)
+    while (true)
     {
-        inputResult r = evalKey(InputSequence::read(w, breakLoop));
+        interrupted = false;
+        if (breakLoop)
+            break;
+        if (resized)
+        {
+            resize();
+            return inputResult::redraw;
+        }
+        inputResult r = evalKey(InputSequence::read(w, interrupted));
         if (r != inputResult::nextInput)
             return r;
     }
@@ -232,6 +249,11 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
             buffer += c;
         if (breakLoop)
             abort = true;
+        else if (resized)
+        {
+            resize();
+            while (!redraw());
+        }
     }
     curs_set(false);
 
diff --git a/src/inputSequence.cpp b/src/inputSequence.cpp
index 6d0c91f..55c8599 100644
--- a/src/inputSequence.cpp
+++ b/src/inputSequence.cpp
@@ -10,7 +10,7 @@ InputSequence::InputSequence(const InputSequence &o): seq(o.seq)
 InputSequence::~InputSequence()
 { }
 
-InputSequence InputSequence::read(WINDOW *w, const bool &abort)
+InputSequence InputSequence::read(WINDOW *w, const volatile bool &abort)
 {
     InputSequence result;
     const char *kname = nullptr;
-- 
2.43.0


From 24bb549205f6bbf762294fa63ba44aab5133c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 49/65] fix: the message about an invalid pattern was erased
 before being seen

---
 include/curseOutput.hh    |  3 ++-
 src/curseOutput.cpp       | 10 +---------
 src/curseSimpleOutput.cpp | 12 +++++++++++-
 src/curseSplitOutput.cpp  | 11 ++++++++++-
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/curseOutput.hh b/include/curseOutput.hh
index 25b24ae..58e42f0 100644
--- a/include/curseOutput.hh
+++ b/include/curseOutput.hh
@@ -143,7 +143,8 @@ class CurseOutput
 
         /**
          * prompt for user input, and return it
-         * @throws noInputException if user use a kill-key (to exit buffer)
+         * @return nullptr if user use a kill-key (to exit buffer)
+         * @throws std::regex_error if the pattern is not valid
         **/
         const SearchPattern *inputSearch(WINDOW *w =nullptr);
 
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 1c6f458..b812f52 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -263,15 +263,7 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
             str = buffer;
         else
             str = StreamConsumer::extractUnicode(buffer);
-        try
-        {
-            return abort ? nullptr : new SearchPattern(str);
-        }
-        catch (std::regex_error &e)
-        {
-            writeBottomLine(std::string("Invalid pattern"), OutputFlag::SPECIAL_ERROR);
-            return nullptr;
-        }
+        return abort ? nullptr : new SearchPattern(str);
     }
 }
 
diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index d256794..34272cd 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -167,7 +167,17 @@ inputResult CurseSimpleOutput::collapseSelection()
 
 inputResult CurseSimpleOutput::initSearch()
 {
-    const SearchPattern *search_pattern = inputSearch();
+    const SearchPattern *search_pattern;
+
+    try
+    {
+        search_pattern = inputSearch();
+    }
+    catch (std::regex_error &e)
+    {
+        CurseOutput::redraw("Invalid pattern");
+        return inputResult::nextInput;
+    }
     if (!search_pattern)
         return inputResult::redraw;
     search_result.clear();
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 7a7cb3f..c2ad119 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -199,8 +199,17 @@ inputResult CurseSplitOutput::collapseSelection()
 
 inputResult CurseSplitOutput::initSearch()
 {
-    const SearchPattern *searchPattern = inputSearch(subWindows.at(0).outerWin);
+    const SearchPattern *searchPattern;
 
+    try
+    {
+        searchPattern = inputSearch(subWindows.at(0).outerWin);
+    }
+    catch (std::regex_error &e)
+    {
+        CurseOutput::redraw("Invalid pattern");
+        return inputResult::nextInput;
+    }
     if (!searchPattern)
         return inputResult::redraw;
     for (t_subWindow &s : subWindows)
-- 
2.43.0


From 6adf7c838cdc0fdb0b65dc04e4b40c8736159126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 50/65] fix: diff: an empty array and an empty object were
 shown as equal

---
 src/levenshtein.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/levenshtein.cpp b/src/levenshtein.cpp
index b1688e9..877fe16 100644
--- a/src/levenshtein.cpp
+++ b/src/levenshtein.cpp
@@ -1,4 +1,5 @@
 #include <climits>
+#include <typeinfo>
 #include "levenshteinMatrice.hpp"
 #include "jsonObjectEntry.hh"
 #include "jsonPrimitive.hh"
@@ -56,6 +57,15 @@ LevenshteinMatrice_base *LevenshteinMatrice_base::Builder::build(const JSonEleme
         const size_t lenA = ((const JSonContainer*) a)->size();
         const size_t lenB = ((const JSonContainer*) b)->size();
 
+        if (typeid(*a) != typeid(*b))
+        {
+            // An array and an object, even empty, have nothing in common
+            LevenshteinMatrice_manual *result = new LevenshteinMatrice_manual();
+            result->_result = std::max<size_t>(1, std::max(lenA, lenB));
+            return result->add(a, eLevenshteinOperator::add)
+                ->add(b, eLevenshteinOperator::add);
+        }
+
         const JSonContainer::const_iterator aBegin = ((const JSonContainer*)a)->cbegin();
         const JSonContainer::const_iterator bBegin = ((const JSonContainer*)b)->cbegin();
 
-- 
2.43.0


From c06610d4e2bb6b9e7d29bc2cc493390ed47da068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 51/65] fix: diff viewer: uninitialised values were copied

---
 src/curseSplitOutput.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index c2ad119..ce7de98 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -59,6 +59,7 @@ void CurseSplitOutput::run(const std::deque<std::string> &inputName, const std::
         subwin.select_up = subwin.select_down = nullptr;
         subwin.innerWin = subwin.outerWin = nullptr;
         subwin.scrollTop = 0;
+        subwin.selectFound = subwin.selectIsLast = false;
         subwin.outerWin = newwin(screenSize.second +2, screenSize.first, 0, i * (screenSize.first -1));
         subwin.innerWin = newwin(screenSize.second, screenSize.first -2, 1, i * (screenSize.first -1) +1);
         keypad(subwin.outerWin, true);
-- 
2.43.0


From 83f5286a680a7f97b28de9e3bcf0505c85c9e2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 52/65] fix: diff viewer: differences were marked on wrong
 lines once scrolled

---
 src/curseSplitOutput.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index ce7de98..b61c75f 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -488,7 +488,11 @@ bool CurseSplitOutput::redraw()
                 for (t_subWindow &wi: subWindows)
                     if (i++ != workingWin)
                         for (unsigned int j = 0; j < diffY; ++j)
-                            displayDiffOp(wi.innerWin, (wi.cursor.second)++, eLevenshteinOperator::rem);
+                        {
+                            if (wi.cursor.second > wi.scrollTop)
+                                displayDiffOp(wi.innerWin, wi.cursor.second - wi.scrollTop, eLevenshteinOperator::rem);
+                            wi.cursor.second++;
+                        }
                 restart = true;
 
                 break;
@@ -789,7 +793,7 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
 
     if (y <= w.scrollTop)
         return 1;
-    displayDiffOp(currentWin, y, flags.diffOp());
+    displayDiffOp(currentWin, y - w.scrollTop, flags.diffOp());
     wmove(subWindows.at(workingWin).innerWin, y - w.scrollTop, x);
     write(str, flags);
     return getNbLines(strlen +x, maxWidth);
-- 
2.43.0


From 4e9bac7b9b947ad2ca59a233b48d2010e3a612fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 53/65] fix: diff viewer: matches in the other input were
 searched in the selected one

---
 src/curseSplitOutput.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index b61c75f..7b46ca7 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -323,8 +323,12 @@ unsigned int CurseSplitOutput::search(const SearchPattern &searchPattern)
 {
     unsigned int result =0;
 
+    workingWin = 0;
     for (t_subWindow &w : subWindows)
+    {
         result += search(searchPattern, w.root);
+        ++workingWin;
+    }
     return result;
 }
 
@@ -344,14 +348,14 @@ unsigned int CurseSplitOutput::search(const SearchPattern &searchPattern, const
         if (current && current->match(searchPattern))
         {
             if (current->getParent() && dynamic_cast<const JSonObjectEntry*>(current->getParent()))
-                subWindows.at(selectedWin).searchResults.push_back(current->getParent());
+                subWindows.at(workingWin).searchResults.push_back(current->getParent());
             else
-                subWindows.at(selectedWin).searchResults.push_back(current);
+                subWindows.at(workingWin).searchResults.push_back(current);
         }
         if (objEntry)
             search(searchPattern, **objEntry);
     }
-    return subWindows.at(selectedWin).searchResults.size();
+    return subWindows.at(workingWin).searchResults.size();
 }
 
 bool CurseSplitOutput::jumpToNextSearch()
@@ -886,9 +890,9 @@ const OutputFlag CurseSplitOutput::getFlag(const JSonElement *item, const JSonEl
 
     res.selected(item == selection
             || (item->getParent() && dynamic_cast<const JSonObjectEntry*>(item->getParent()) && selection == item->getParent()));
-    res.searched(std::find(subWindows.at(selectedWin).searchResults.cbegin(),
-                subWindows.at(selectedWin).searchResults.cend(),
-                item) != subWindows.at(selectedWin).searchResults.cend());
+    res.searched(std::find(subWindows.at(workingWin).searchResults.cbegin(),
+                subWindows.at(workingWin).searchResults.cend(),
+                item) != subWindows.at(workingWin).searchResults.cend());
 
     try {
         res.diffOp(diffMatrice->get(item));
-- 
2.43.0


From 82c1bedf82b34c7dd4c21db6174261642851195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 54/65] fix: diff viewer: a match was unfolded in one input
 only

---
 include/curseSplitOutput.hh |  5 +++++
 src/curseSplitOutput.cpp    | 18 ++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index 107aaef..4eee37d 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -58,6 +58,11 @@ class CurseSplitOutput: public CurseOutput
         bool jumpToNextSearch(const JSonElement *current, bool &selectFound);
         bool jumpToNextSearch();
 
+        /**
+         * unfold parents of the selection, in every window
+        **/
+        void unfoldSelection();
+
         virtual void writeBottomLine(const std::string &currentBuffer, short color) const;
         virtual void writeBottomLine(const std::wstring &currentBuffer, short color) const;
 
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 7b46ca7..3b40542 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -366,14 +366,28 @@ bool CurseSplitOutput::jumpToNextSearch()
     if (!res)
     {
         setSelection(*(subWindows.at(selectedWin).searchResults.cbegin()));
-        unfold(subWindows.at(selectedWin).selection);
+        unfoldSelection();
         CurseOutput::redraw("Search hit BOTTOM, continuing at TOP");
         return false;
     }
-    unfold(subWindows.at(selectedWin).selection);
+    unfoldSelection();
     return true;
 }
 
+void CurseSplitOutput::unfoldSelection()
+{
+    const JSonElement *item = subWindows.at(selectedWin).selection;
+
+    for (item = item->getParent(); item; item = item->getParent())
+    {
+        const JSonElement *equivalence = diffMatrice->getEquivalence(item);
+
+        collapsed.erase((const JSonContainer *)item);
+        if (equivalence)
+            collapsed.erase((const JSonContainer *)equivalence);
+    }
+}
+
 const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
 {
     bool result;
-- 
2.43.0


From 909247b267e45d0c3ae8cdd6df6fda977c5afb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 55/65] fix: diff viewer: inputs were scrolled apart from each
 other

---
 include/curseSplitOutput.hh |  5 +++++
 src/curseSplitOutput.cpp    | 22 +++++++++++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index 4eee37d..86be560 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -37,6 +37,11 @@ class CurseSplitOutput: public CurseOutput
         void checkSelection(const JSonElement *item);
 
         bool redraw();
+
+        /**
+         * Set the first displayed line of every window
+        **/
+        void scrollTo(unsigned int position);
         bool redraw(t_subWindow &, std::pair<int, JSonContainer *> &);
         bool redraw(t_subWindow &, JSonElement *);
         const Optional<bool> redrawOneItemToWorkingWin(t_subWindow &w);
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 3b40542..897d412 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -266,8 +266,11 @@ void CurseSplitOutput::checkSelection(const JSonElement *item)
     {
         if (w.lastSelection == item)
         {
-            if (w.cursor.second <= w.scrollTop) //Selection is above vp, move scroll pos to selection and start drawing
-                w.scrollTop = w.cursor.second == 0 ? 0 : w.cursor.second -1;
+            if (workingWin == selectedWin && w.cursor.second <= w.scrollTop) //Selection is above vp, move scroll pos to selection and restart drawing
+            {
+                scrollTo(w.cursor.second == 0 ? 0 : w.cursor.second -1);
+                throw SelectionOutOfRange();
+            }
             w.selectFound = true;
         }
         else if (!item->getParent() || !dynamic_cast<const JSonObjectEntry*>(item->getParent()))
@@ -393,7 +396,9 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
     bool result;
 
     try {
-        if (w.parentsIterators.empty())
+        if (hasReachedBottom(w.cursor.second, w.scrollTop, screenSize.second)) // because of another window
+            result = false;
+        else if (w.parentsIterators.empty())
             result = redraw(w, w.root);
         else
             result = redraw(w, w.parentsIterators.top());
@@ -406,9 +411,9 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
     {
         if (!result)
         {
-            if (!w.selectFound)
+            if (!w.selectFound && workingWin == selectedWin)
             {
-                w.scrollTop++;
+                scrollTo(w.scrollTop +1);
                 return Optional<bool>::empty;
             }
             if (!w.select_down)
@@ -432,6 +437,13 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
     return Optional<bool>::of(false);
 }
 
+void CurseSplitOutput::scrollTo(unsigned int position)
+{
+    // Matching elements are displayed side by side
+    for (t_subWindow &w : subWindows)
+        w.scrollTop = position;
+}
+
 void CurseSplitOutput::onResizeHandler()
 {
     size_t i =0;
-- 
2.43.0


From d289c0b4d516dfd1e6e9ddf761472f01c6419e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 56/65] fix: diff viewer: close bracket next to an unrelated
 element

---
 src/curseSplitOutput.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 897d412..e245a77 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -671,7 +671,11 @@ bool CurseSplitOutput::isAdded(const std::pair<int, JSonContainer *> &item) cons
     const JSonElement *e;
 
     if ((unsigned int) (item.first +1) >= item.second->size())
+    {
+        // close bracket: there is no other one if the equivalent element is not a container
         e = item.second;
+        return !dynamic_cast<const JSonContainer *>(diffMatrice->getEquivalence(e));
+    }
     else
         e = list_at<JSonElement*>(*(item.second), item.first +1);
     return isAdded(e);
-- 
2.43.0


From 0b533cbef36e121865e14582154fd78eaf242e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 57/65] fix: diff viewer: wrong number of lines for long keys

---
 src/curseSplitOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index e245a77..950956c 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -631,7 +631,7 @@ bool CurseSplitOutput::writeKey(t_subWindow &w, const std::string &key, const si
     }
     char oldType = flags.type();
     flags.type(OutputFlag::TYPE_OBJKEY);
-    w.cursor.second += write(w.cursor.first, w.cursor.second, key, keylen, screenSize.first -extraLen -2 -2, flags);
+    w.cursor.second += write(w.cursor.first, w.cursor.second, key, keylen +2, screenSize.first -extraLen -2, flags);
     flags.type(OutputFlag::TYPE_OBJ);
     write(": ", flags);
     flags.type(oldType);
-- 
2.43.0


From 709552c015af66e52f1b2e4576ff02885d31d585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 58/65] fix: diff viewer: deeply nested elements were written
 anywhere

---
 include/curseSplitOutput.hh |  1 +
 src/curseSplitOutput.cpp    | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index 86be560..f828f35 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -56,6 +56,7 @@ class CurseSplitOutput: public CurseOutput
         unsigned int write(const unsigned int &x, const unsigned int &y, const char item, unsigned int maxWidth, OutputFlag flags);
         unsigned int write(const unsigned int &x, const unsigned int &y, const std::string &str, const size_t strlen, unsigned int maxWidth, const OutputFlag flags);
         void write(const std::string &str, const OutputFlag flags) const;
+        void moveCursor(unsigned int x, unsigned int y) const;
         void displayDiffOp(WINDOW *w, const int &y, const eLevenshteinOperator &op) const;
 
         void writeTopLine(const std::string &currentBuffer, short color) const;
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 950956c..2f0518c 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -778,7 +778,8 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
 
     if (color != OutputFlag::SPECIAL_NONE)
         wattron(currentWin, COLOR_PAIR(color));
-    mvwprintw(currentWin, offsetY, x, "%c", item);
+    moveCursor(x, offsetY);
+    wprintw(currentWin, "%c", item);
     wattroff(currentWin, A_REVERSE | A_BOLD);
     if (color != OutputFlag::SPECIAL_NONE)
         wattroff(currentWin, COLOR_PAIR(color));
@@ -787,6 +788,16 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
     return getNbLines(x +1, maxWidth);
 }
 
+void CurseSplitOutput::moveCursor(unsigned int x, unsigned int y) const
+{
+    // Indentation goes on with next lines, as texts do
+    const unsigned int width = screenSize.first -2;
+    WINDOW *currentWin = subWindows.at(workingWin).innerWin;
+
+    if (wmove(currentWin, y + x / width, x % width) == ERR)
+        wmove(currentWin, screenSize.second -1, width -1);
+}
+
 void CurseSplitOutput::displayDiffOp(WINDOW *w, const int &y, const eLevenshteinOperator &op) const
 {
     switch (op)
@@ -828,7 +839,7 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
     if (y <= w.scrollTop)
         return 1;
     displayDiffOp(currentWin, y - w.scrollTop, flags.diffOp());
-    wmove(subWindows.at(workingWin).innerWin, y - w.scrollTop, x);
+    moveCursor(x, y - w.scrollTop);
     write(str, flags);
     return getNbLines(strlen +x, maxWidth);
 }
-- 
2.43.0


From 2e75b49b27a5cd4718523f73eb26603cec1c1004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 59/65] fix: diff viewer: windows could not be created in small
 terminals

---
 src/curseSplitOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 2f0518c..c3dc44d 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -902,7 +902,8 @@ void CurseSplitOutput::writeTopLine(const std::string &buffer, short color) cons
 const t_Cursor CurseSplitOutput::getScreenSize() const
 {
     t_Cursor result = getScreenSizeUnsafe();
-    return t_Cursor(result.first / nbInputs, result.second -2);
+    // Frames, file name, and at least one line and one column
+    return t_Cursor(std::max(result.first / nbInputs, 3u), std::max(result.second, 4u) -2);
 }
 
 void CurseSplitOutput::shutdown()
-- 
2.43.0


From 76fc99b61eb1c4cece365c39b34b5f816b277f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 60/65] fix: diff viewer: could not select what is below the
 last displayed line

---
 src/curseSplitOutput.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index c3dc44d..a4511b6 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -421,12 +421,15 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
         }
         if (!w.select_down)
         {
-            const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(w.selection);
+            const JSonObjectEntry *entry = dynamic_cast<const JSonObjectEntry*>(w.lastSelection);
+            const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(entry ? **entry : w.lastSelection);
             if (pselect && !pselect->empty() && collapsed.find(pselect) == collapsed.cend())
                 w.select_down = *(pselect->cbegin());
             else
             {
-                const JSonElement *next = w.lastSelection->findNext();
+                const JSonElement *next = nullptr;
+                for (const JSonElement *i = w.lastSelection; i && !next; i = i->getParent())
+                    next = i->findNext();
                 w.select_down = next ? next : w.lastSelection;
             }
         }
-- 
2.43.0


From 1e8f5fa6010bb8ef230f8a010d4fac02eccdcf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 61/65] fix: diff viewer: a part of the previous message was
 still displayed

---
 src/curseSplitOutput.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index a4511b6..6a1367d 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -472,6 +472,8 @@ bool CurseSplitOutput::redraw()
     short writingDone = (1 << nbInputs) -1;
     unsigned int *cursorInit = (unsigned int *)alloca(sizeof(*cursorInit) * nbInputs);
 
+    werase(bottomLine);
+    wnoutrefresh(bottomLine);
     workingWin = 0;
     for (t_subWindow &w : subWindows)
     {
-- 
2.43.0


From cba8c65ee06007e9b562793ee5a75918de259d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 62/65] fix: diff viewer: windows were placed outside of small
 terminals

---
 src/curseSplitOutput.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 6a1367d..d3c38d1 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -40,6 +40,16 @@ CurseSplitOutput::~CurseSplitOutput()
     }
 }
 
+/**
+ * Windows can be partially, but not completely, outside of a small terminal
+**/
+static void placeWindow(WINDOW *w, int height, int width, int y, int x)
+{
+    wresize(w, 1, 1);
+    mvwin(w, std::min(y, getmaxy(stdscr) -1), std::min(x, getmaxx(stdscr) -1));
+    wresize(w, height, width);
+}
+
 void CurseSplitOutput::run(const std::deque<std::string> &inputName, const std::deque<JSonElement*> &roots)
 {
     nbInputs = inputName.size();
@@ -60,8 +70,10 @@ void CurseSplitOutput::run(const std::deque<std::string> &inputName, const std::
         subwin.innerWin = subwin.outerWin = nullptr;
         subwin.scrollTop = 0;
         subwin.selectFound = subwin.selectIsLast = false;
-        subwin.outerWin = newwin(screenSize.second +2, screenSize.first, 0, i * (screenSize.first -1));
-        subwin.innerWin = newwin(screenSize.second, screenSize.first -2, 1, i * (screenSize.first -1) +1);
+        subwin.outerWin = newwin(1, 1, 0, 0);
+        subwin.innerWin = newwin(1, 1, 0, 0);
+        placeWindow(subwin.outerWin, screenSize.second +2, screenSize.first, 0, i * (screenSize.first -1));
+        placeWindow(subwin.innerWin, screenSize.second, screenSize.first -2, 1, i * (screenSize.first -1) +1);
         keypad(subwin.outerWin, true);
         wtimeout(subwin.outerWin, 150);
         subWindows.push_back(subwin);
@@ -457,10 +469,8 @@ void CurseSplitOutput::onResizeHandler()
     mvwin(bottomLine, ss.second -1, 0);
     for (t_subWindow &subwin: subWindows)
     {
-        wresize(subwin.outerWin, screenSize.second +2, screenSize.first);
-        wresize(subwin.innerWin, screenSize.second, screenSize.first -2);
-        mvwin(subwin.outerWin, 0, i * (screenSize.first -1));
-        mvwin(subwin.innerWin, 1, i * (screenSize.first -1) +1);
+        placeWindow(subwin.outerWin, screenSize.second +2, screenSize.first, 0, i * (screenSize.first -1));
+        placeWindow(subwin.innerWin, screenSize.second, screenSize.first -2, 1, i * (screenSize.first -1) +1);
         box(subwin.outerWin, 0, 0);
         wrefresh(subwin.outerWin);
         ++i;
-- 
2.43.0


From c5c94a2d1a9b02f619e87781d512a286f3694281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 63/65] fix: SIGINT or SIGTERM only ended the viewer of the
 current input

---
 include/curseOutput.hh | 5 +++++
 src/curseOutput.cpp    | 9 ++++++++-
 src/main.cpp           | 2 ++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/curseOutput.hh b/include/curseOutput.hh
index 58e42f0..c5ff3d1 100644
--- a/include/curseOutput.hh
+++ b/include/curseOutput.hh
@@ -44,6 +44,11 @@ class CurseOutput
         **/
         bool onsig(int signo);
 
+        /**
+         * true once a signal asked the program to end
+        **/
+        static bool isTerminated();
+
     protected:
         /**
          * until kill-input, display data and read user inputs
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index b812f52..59f2f16 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -22,6 +22,7 @@
 #include "streamConsumer.hh"
 
 static CurseOutput *runningInst = nullptr;
+static volatile bool terminated = false;
 
 CurseOutput::CurseOutput(const Params &p): params(p), screen(nullptr), screen_fd(nullptr), breakLoop(false), resized(false), interrupted(false)
 {
@@ -32,6 +33,9 @@ CurseOutput::~CurseOutput()
 {
     struct winsize size;
 
+    // Nothing is displayed anymore: these signals end the program
+    signal(SIGINT, SIG_DFL);
+    signal(SIGTERM, SIG_DFL);
     runningInst = nullptr;
     if (ioctl(fileno(screen_fd ? screen_fd : stdout), TIOCGWINSZ, &size) == 0)
         resize_term(size.ws_row, size.ws_col);
@@ -64,6 +68,9 @@ void CurseOutput::resize()
     onResizeHandler();
 }
 
+bool CurseOutput::isTerminated()
+{ return terminated; }
+
 bool CurseOutput::onsig(int signo)
 {
     struct winsize size;
@@ -88,7 +95,7 @@ bool CurseOutput::onsig(int signo)
     case SIGKILL:
     case SIGINT:
     case SIGTERM:
-        breakLoop = true;
+        breakLoop = terminated = true;
         break;
 
     default:
diff --git a/src/main.cpp b/src/main.cpp
index 6472418..d42c925 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -253,6 +253,8 @@ void run(const Params &params)
             break;
         }
         delete stream;
+        if (CurseOutput::isTerminated())
+            break;
     }
     for (Warning w : warns)
     {
-- 
2.43.0


From 8c63155f8d2686976fd0f5500f1675dc2f6bb09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:50 +0000
Subject: [PATCH 64/65] fix: SIGINT or SIGTERM while the next input was about
 to be viewed left the terminal unusable

---
 src/curseOutput.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 59f2f16..442f01f 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -316,6 +316,9 @@ void CurseOutput::writeBottomLine(const std::wstring &buffer, short color) const
 
 void CurseOutput::init()
 {
+    // Do not end without releasing the terminal
+    signal(SIGINT, _resizeFnc);
+    signal(SIGTERM, _resizeFnc);
     if (!isatty(fileno(stdin)) || !isatty(fileno(stdout))) //TODO remove after v1.2 and #29
     {
         screen_fd = fopen("/dev/tty", "r+");
@@ -369,8 +372,6 @@ void CurseOutput::init()
     }
 
     signal(SIGWINCH, _resizeFnc);
-    signal(SIGINT, _resizeFnc);
-    signal(SIGTERM, _resizeFnc);
     signal(SIGKILL, _resizeFnc);
     signal(SIGCONT, _resizeFnc);
 }
-- 
2.43.0


From b2b066fc307d80a3bf752b7fc959635823ce51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:20 +0000
Subject: [PATCH 65/65] fix: a file named ARGS was replaced by the text after
 --

---
 src/params.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/params.cpp b/src/params.cpp
index 397a8c2..9285bc1 100644
--- a/src/params.cpp
+++ b/src/params.cpp
@@ -46,7 +46,13 @@ bool Params::read()
         if (!input && !inDiff)
         {
             if (tmp == "--")
-                inputs["ARGS"] = input = new std::stringstream();
+            {
+                // Must not replace a file of that name
+                std::string name("ARGS");
+                while (inputs.contains(name))
+                    name += '\'';
+                inputs[name] = input = new std::stringstream();
+            }
             else if (tmp == "-W")
                 strict = false;
             else if (tmp == "--ascii")
-- 
2.43.0

