From e496932da855980873dc20ec9a851e675ad153be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 01/13] fix: endless loop on .po files without a trailing
 newline

When the last line of the input lacks a newline, the next getline() fails
without touching current_line, so the loops that skip comments and collect
continuation strings kept seeing the same line forever.
---
 src/po_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index ff56796..d56f5b4 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -89,7 +89,12 @@ POParser::next_line()
 {
   line_number += 1;
   if (!std::getline(in, current_line))
+  {
+    // getline() leaves the string untouched when the stream is already
+    // at EOF (last line without trailing newline)
+    current_line.clear();
     eof = true;
+  }
 }
 
 void
-- 
2.43.0


From 9765a1ef04c6b167576f4d744eed9aaca3dc830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 02/13] fix: error recovery must not swallow the next entry

When the error is detected on the empty line that ends a broken entry, the
parser is already at the start of the next entry; skipping from there to the
following empty line dropped a well-formed entry.
---
 src/po_parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index d56f5b4..ffb2f32 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -77,9 +77,8 @@ POParser::error(const std::string& msg)
   log_error << filename << ":" << line_number << ": error: " << msg  << ": " << current_line << std::endl;
 
   // Try to recover from an error by searching for start of another entry
-  do
+  while(!eof && !is_empty_line())
     next_line();
-  while(!eof && !is_empty_line());
 
   throw POParserError();
 }
-- 
2.43.0


From b123067e64475494b8a235f91f08663e4aac2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 03/13] fix: Latvian plural forms

The header text lacked its opening parenthesis, so the real header was never
recognised, and three forms were registered as two.
---
 src/plural_forms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index ec3b6a6..60b5cf2 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -76,7 +76,7 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=2;plural=(n>1);"] = PluralForms(2, plural2_2);
     plural_forms["Plural-Forms:nplurals=2;plural=n==1||n%10==1?0:1;"] = PluralForms(2, plural2_mk);
     plural_forms["Plural-Forms:nplurals=2;plural=(n%10==1&&n%100!=11)?0:1;"] = PluralForms(2, plural2_mk_2);
-    plural_forms["Plural-Forms:nplurals=3;plural=n%10==1&&n%100!=11?0:n!=0?1:2);"] = PluralForms(2, plural3_lv);
+    plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n!=0?1:2);"] = PluralForms(3, plural3_lv);
     plural_forms["Plural-Forms:nplurals=3;plural=n==1?0:n==2?1:2;"] = PluralForms(3, plural3_ga);
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_lt);
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_1);
-- 
2.43.0


From 3822f238c16384061445c98aa1aa2d596b47257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 04/13] fix: do not use or close a conversion descriptor that
 failed to open

---
 src/iconv.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index ba110d7..7f17fa9 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -74,6 +74,7 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
     cd = tinygettext::iconv_open(to_charset.c_str(), from_charset.c_str());
     if (cd == reinterpret_cast<iconv_t>(-1))
     {
+      cd = nullptr;
       if(errno == EINVAL)
       {
         std::ostringstream str;
-- 
2.43.0


From a8f60a44c1ebecbcd54e8a83648632e2f8d5f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 05/13] fix: context lookups must not fall back to context-less
 entries

translate_ctxt() of a message missing in a known context asked the fallback
dictionary for the message without its context.
---
 src/dictionary.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index b61d215..c943bc8 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -143,13 +143,15 @@ Dictionary::translate_ctxt(const std::string& msgctxt, const std::string& msgid)
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
   if (i != ctxt_entries.end())
   {
-    return translate(i->second, msgid);
-  }
-  else
-  {
-    log_info << "Couldn't translate: " << msgid << std::endl;
-    return msgid;
+    Entries::const_iterator j = i->second.find(msgid);
+    if (j != i->second.end() && !j->second.empty())
+      return j->second[0];
   }
+
+  log_info << "Couldn't translate: " << msgid << std::endl;
+
+  if (m_has_fallback) return m_fallback->translate_ctxt(msgctxt, msgid);
+  else return msgid;
 }
 
 std::string
-- 
2.43.0


From b280075f22c76502473473469d606f0b518e8f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 06/13] fix: DictionaryManager::set_use_fuzzy() had no effect

---
 include/tinygettext/po_parser.hpp | 5 +++--
 src/dictionary_manager.cpp        | 2 +-
 src/po_parser.cpp                 | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/tinygettext/po_parser.hpp b/include/tinygettext/po_parser.hpp
index 99c03aa..da57cf6 100644
--- a/include/tinygettext/po_parser.hpp
+++ b/include/tinygettext/po_parser.hpp
@@ -65,8 +65,9 @@ private:
 public:
   /** @param filename name of the istream, only used in error messages
       @param in stream from which the PO file is read.
-      @param dict dictionary to which the strings are written */
-  static void parse(const std::string& filename, std::istream& in, Dictionary& dict);
+      @param dict dictionary to which the strings are written
+      @param use_fuzzy if false, entries marked as fuzzy are ignored */
+  static void parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy = true);
   static bool pedantic;
 
 private:
diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6175d76..6b028b5 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -162,7 +162,7 @@ DictionaryManager::get_dictionary(const Language& language)
           }
           else
           {
-            POParser::parse(pofile, *in, *dict);
+            POParser::parse(pofile, *in, *dict, use_fuzzy);
           }
         }
         catch(std::exception& e)
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index ffb2f32..1b7d26f 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -38,9 +38,9 @@ namespace tinygettext {
 bool POParser::pedantic = true;
 
 void
-POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict)
+POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy)
 {
-  POParser parser(filename, in, dict);
+  POParser parser(filename, in, dict, use_fuzzy);
   parser.parse();
 }
 
-- 
2.43.0


From 9d48a800d974adfda6b5d79a90b7555eefb20318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 07/13] fix: out_of_range in convertFilename2Language() on
 short names

---
 src/dictionary_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6b028b5..a586f6a 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -271,7 +271,7 @@ DictionaryManager::remove_directory(const std::string& pathname)
 std::string DictionaryManager::convertFilename2Language(const std::string &s_in) const
 {
     std::string s;
-    if(s_in.substr(s_in.size()-3, 3)==".po")
+    if(has_suffix(s_in, ".po"))
         s = s_in.substr(0, s_in.size()-3);
     else
         s = s_in;
-- 
2.43.0


From 7157db1d9678c10c572300abc691bd54cbe12a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 08/13] fix: get_languages() must list the languages
 get_dictionary() loads

Files of unknown languages were reported as an undefined Language, and lower
case country codes in file names were not recognised.
---
 src/dictionary_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index a586f6a..b2ccd2e 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -195,7 +195,9 @@ DictionaryManager::get_languages()
     {
       if (has_suffix(*file, ".po"))
       {
-        languages.insert(Language::from_env(file->substr(0, file->size()-3)));
+        Language language = Language::from_env(convertFilename2Language(*file));
+        if (language)
+          languages.insert(language);
       }
     }
   }
-- 
2.43.0


From 5754314fbc8956d06d64996a795f70ed29ea2fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 09/13] fix: do not cache a half loaded dictionary when loading
 throws

---
 src/dictionary_manager.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index b2ccd2e..5781cb0 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -114,9 +114,7 @@ DictionaryManager::get_dictionary(const Language& language)
   else // Dictionary for languages lang isn't loaded, so we load it
   {
     //log_debug << "get_dictionary: " << lang << std::endl;
-    Dictionary* dict = new Dictionary(charset);
-
-    dictionaries[language] = dict;
+    std::unique_ptr<Dictionary> dict(new Dictionary(charset));
 
     for (SearchPath::reverse_iterator p = search_path.rbegin(); p != search_path.rend(); ++p)
     {
@@ -178,7 +176,12 @@ DictionaryManager::get_dictionary(const Language& language)
         // printf("Adding language fallback %s\n", language.get_language().c_str());
         dict->addFallback( &get_dictionary(Language::from_spec(language.get_language())) );
     }
-    return *dict;
+
+    // cache the dictionary only once it is complete
+    Dictionary* result = dict.get();
+    dictionaries[language] = result;
+    dict.release();
+    return *result;
   }
 }
 
-- 
2.43.0


From df451211290819215ef9b120fdf5b448521e067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 10/13] fix: an unreadable directory in the search path must
 not throw

DictionaryManager would otherwise be unable to load anything from the other
directories.
---
 src/unix_file_system.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/unix_file_system.cpp b/src/unix_file_system.cpp
index ad3b249..3aa24b4 100644
--- a/src/unix_file_system.cpp
+++ b/src/unix_file_system.cpp
@@ -21,6 +21,7 @@
 
 #include <filesystem>
 #include <fstream>
+#include <system_error>
 
 #ifdef WIN32
 #  include "tinygettext/dirent.h"
@@ -40,9 +41,11 @@ std::vector<std::string>
 UnixFileSystem::open_directory(const std::string& pathname)
 {
   std::vector<std::string> files;
-  for(auto const& p : std::filesystem::directory_iterator(pathname))
+  std::error_code ec;
+  std::filesystem::directory_iterator it(pathname, ec);
+  for(; !ec && it != std::filesystem::directory_iterator(); it.increment(ec))
   {
-    files.push_back(p.path().filename().string());
+    files.push_back(it->path().filename().string());
   }
   return files;
 }
-- 
2.43.0


From 92fffd0f1579f59cb60ea63505f0ec995d14a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 11/13] fix: an underscore in the codeset is not the start of
 the country

Language::from_env("ko.EUC_KR") returned ko_KR instead of ko.
---
 src/language.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/language.cpp b/src/language.cpp
index e672915..0f106fd 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -440,7 +440,7 @@ Language::from_env(const std::string& env)
 
   language = env.substr(0, std::min(std::min(ln, dt), at));
 
-  if (ln != std::string::npos && ln+1 < env.size()) // _
+  if (ln != std::string::npos && ln < std::min(dt, at) && ln+1 < env.size()) // _
   {
     country = env.substr(ln+1, (std::min(dt, at) == std::string::npos) ? std::string::npos : std::min(dt, at) - (ln+1));
   }
-- 
2.43.0


From f478341fcb5ec9294a43239f5f338eae7c4bcb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 12/13] fix: conversions to charsets with byte order mark or
 shift states

The output buffer could be too small (UTF-32, UTF-7), which hit an assertion,
and the shift state was never closed, so it leaked into the next string.
---
 src/iconv.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index 7f17fa9..5fd8ea5 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -109,34 +109,50 @@ IConv::convert(const std::string& text)
     // a std::string
     const char* inbuf = &text[0];
     std::string result(outbytesleft, 'X');
-    char* outbuf = &result[0];
 
-    // Try to convert the text.
-    size_t ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
-    if (ret == static_cast<size_t>(-1))
+    // Try to convert the text, then bring the output back to its
+    // initial shift state
+    bool flush = false;
+    for(;;)
     {
-      if (errno == EILSEQ || errno == EINVAL)
+      char* outbuf = &result[result.size() - outbytesleft];
+      size_t ret = flush ?
+        tinygettext::iconv(cd, nullptr, nullptr, &outbuf, &outbytesleft) :
+        tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+
+      if (ret != static_cast<size_t>(-1))
+      {
+        if (flush)
+          break;
+        flush = true;
+      }
+      else if (errno == EILSEQ || errno == EINVAL)
       { // invalid multibyte sequence
         tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr); // reset state
 
         // FIXME: Could try to skip the invalid byte and continue
         log_error << "error: tinygettext:iconv: invalid multibyte sequence in:  \"" << text << "\"" << std::endl;
+        break;
       }
       else if (errno == E2BIG)
-      { // output buffer to small
-        assert(false && "tinygettext/iconv.cpp: E2BIG: This should never be reached");
+      { // output buffer to small (byte order mark, shift sequences)
+        const size_t grow = result.size() + 16;
+        result.resize(result.size() + grow, 'X');
+        outbytesleft += grow;
       }
       else if (errno == EBADF)
       {
         assert(false && "tinygettext/iconv.cpp: EBADF: This should never be reached");
+        break;
       }
       else
       {
         assert(false && "tinygettext/iconv.cpp: <unknown>: This should never be reached");
+        break;
       }
     }
 
-    result.resize(4*text.size() - outbytesleft);
+    result.resize(result.size() - outbytesleft);
 
     return result;
   }
-- 
2.43.0


From 49defff99d35577519da8d7da1e121f78ecc56e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:57 +0000
Subject: [PATCH 13/13] fix: the lookup tables were filled in a way that is not
 thread-safe

---
 src/language.cpp     | 30 +++++++++++++++++-------------
 src/plural_forms.cpp | 14 ++++++++------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/language.cpp b/src/language.cpp
index 0f106fd..352edc5 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -297,9 +297,11 @@ std::string
 resolve_language_alias(const std::string& name)
 {
   typedef std::unordered_map<std::string, std::string> Aliases;
-  static Aliases language_aliases;
-  if (language_aliases.empty())
+  // Filled by the initialiser: that happens once, even with several threads
+  static const Aliases known_aliases = []
   {
+    Aliases language_aliases;
+
     // FIXME: Many of those are not useful for us, since we leave
     // encoding to the app, not to the language, we could/should
     // also match against all language names, not just aliases from
@@ -353,15 +355,16 @@ resolve_language_alias(const std::string& name)
     language_aliases["swedish"]          = "sv_SE.ISO-8859-1";
     language_aliases["thai"]             = "th_TH.TIS-620";
     language_aliases["turkish"]          = "tr_TR.ISO-8859-9";
-  }
+    return language_aliases;
+  }();
 
   std::string name_lowercase;
   name_lowercase.resize(name.size());
   for(std::string::size_type i = 0; i < name.size(); ++i)
     name_lowercase[i] = static_cast<char>(tolower(name[i]));
 
-  Aliases::iterator i = language_aliases.find(name_lowercase);
-  if (i != language_aliases.end())
+  Aliases::const_iterator i = known_aliases.find(name_lowercase);
+  if (i != known_aliases.end())
   {
     return i->second;
   }
@@ -377,18 +380,19 @@ Language
 Language::from_spec(const std::string& language, const std::string& country, const std::string& modifier)
 {
   typedef std::unordered_map<std::string, std::vector<const LanguageSpec*> > LanguageSpecMap;
-  static LanguageSpecMap language_map;
-
-  if (language_map.empty())
+  // Filled by the initialiser: that happens once, even with several threads
+  static const LanguageSpecMap known_languages = []
   { // Init language_map
+    LanguageSpecMap language_map;
     for(int i = 0; languages[i].language != nullptr; ++i)
       language_map[languages[i].language].push_back(&languages[i]);
-  }
+    return language_map;
+  }();
 
-  LanguageSpecMap::iterator i = language_map.find(language);
-  if (i != language_map.end())
+  LanguageSpecMap::const_iterator i = known_languages.find(language);
+  if (i != known_languages.end())
   {
-    std::vector<const LanguageSpec*>& lst = i->second;
+    const std::vector<const LanguageSpec*>& lst = i->second;
 
     LanguageSpec tmpspec;
     tmpspec.language = language.c_str();
@@ -398,7 +402,7 @@ Language::from_spec(const std::string& language, const std::string& country, con
 
     const LanguageSpec* best_match = nullptr;
     int best_match_score = 0;
-    for(std::vector<const LanguageSpec*>::iterator j = lst.begin(); j != lst.end(); ++j)
+    for(std::vector<const LanguageSpec*>::const_iterator j = lst.begin(); j != lst.end(); ++j)
     { // Search for the language that best matches the given spec, value country more then modifier
       int score = Language::match(Language(*j), tmplang);
 
diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index 60b5cf2..d6e88dd 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -65,10 +65,11 @@ PluralForms
 PluralForms::from_string(const std::string& str)
 {
   typedef std::unordered_map<std::string, PluralForms> PluralFormsMap;
-  static PluralFormsMap plural_forms;
-
-  if (plural_forms.empty())
+  // Filled by the initialiser: that happens once, even with several threads
+  static const PluralFormsMap known_forms = []
   {
+    PluralFormsMap plural_forms;
+
     // Note that the plural forms here shouldn't contain any spaces
     plural_forms["Plural-Forms:nplurals=1;plural=0;"] = PluralForms(1, plural1);
     plural_forms["Plural-Forms:nplurals=2;plural=(n!=1);"] = PluralForms(2, plural2_1);
@@ -95,7 +96,8 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=4;plural=(n==1&&n%1==0)?0:(n==2&&n%1==0)?1:(n%10==0&&n%1==0&&n>10)?2:3;"] = PluralForms(4, plural4_he);
     plural_forms["Plural-Forms:nplurals=5;plural=(n==1?0:n==2?1:n<7?2:n<11?3:4)"] = PluralForms(5, plural5_ga);
     plural_forms["Plural-Forms:nplurals=6;plural=n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5"]=PluralForms(6, plural6_ar);
-  }
+    return plural_forms;
+  }();
 
   // Remove spaces from string before lookup
   std::string space_less_str;
@@ -103,8 +105,8 @@ PluralForms::from_string(const std::string& str)
     if (!isspace(str[i]))
       space_less_str += str[i];
 
-  PluralFormsMap::const_iterator it= plural_forms.find(space_less_str);
-  if (it != plural_forms.end())
+  PluralFormsMap::const_iterator it= known_forms.find(space_less_str);
+  if (it != known_forms.end())
   {
     return it->second;
   }
-- 
2.43.0

