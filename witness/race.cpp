// Several threads use their own objects at the same time; a race detector (or a
// result that differs from the one a single thread obtains) shows interference.
#include <atomic>
#include <cstdio>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "tinygettext/dictionary.hpp"
#include "tinygettext/dictionary_manager.hpp"
#include "tinygettext/file_system.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/language.hpp"
#include "tinygettext/log.hpp"
#include "tinygettext/plural_forms.hpp"
#include "tinygettext/po_parser.hpp"

using namespace tinygettext;

namespace {

struct Sink { void operator()(const std::string&) const {} };

class Files : public FileSystem
{
public:
  std::map<std::string, std::map<std::string, std::string>> m;
  std::vector<std::string> open_directory(const std::string& p) override
  {
    std::vector<std::string> r;
    for (auto& i : m[p]) r.push_back(i.first);
    return r;
  }
  std::unique_ptr<std::istream> open_file(const std::string& f) override
  {
    auto k = f.rfind('/');
    auto& d = m[f.substr(0, k)];
    auto i = d.find(f.substr(k + 1));
    if (i == d.end()) return std::unique_ptr<std::istream>();
    return std::unique_ptr<std::istream>(new std::istringstream(i->second));
  }
};

const char* const kHeader[] = {
  "Plural-Forms: nplurals=2; plural=(n != 1);",
  "Plural-Forms: nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);",
  "Plural-Forms: nplurals=1; plural=0;", "Plural-Forms: nplurals=9; plural=n;", "Plural-Forms: nplurals=2; plural=(n > 1);" };

std::string po(const std::string& cs, const std::string& pf)
{
  return "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=" + cs + "\\n\"\n\"" + pf + "\\n\"\n\n"
    "msgid \"a\"\nmsgstr \"A\\t\\\"x\\\"\"\n\n#, fuzzy\nmsgid \"f\"\nmsgstr \"F\"\n\n"
    "msgctxt \"c\"\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"B\"\nmsgstr[1] \"Bs\"\nmsgstr[2] \"Bss\"\n\n"
    "msgctxt \"c\"\nmsgid \"a\"\nmsgstr \"CA\"\n\nmsgid \"broken\nmsgstr \"x\"\n\nmsgid \"long\"\nmsgstr \"\"\n\"one \"\n\"two\"\n";
}

struct Vis
{
  std::string& o;
  void operator()(const std::string& k, const std::vector<std::string>& l) { o += k; for (auto& s : l) o += "," + s; }
  void operator()(const std::string& c, const std::string& k, const std::vector<std::string>& l) { o += c + "|" + k; for (auto& s : l) o += "," + s; }
};

std::string lang(const Language& l)
{
  return l.str() + "/" + l.get_language() + "/" + l.get_country() + "/" + l.get_modifier() + "/" + l.get_name() + "/" + l.get_localized_name() +
    (l ? "+" : "-") + "\n";
}

std::string work(int me)
{
  std::string o;
  const char* const names[] = { "german", "Deutsch", "de_AT", "de_DE.UTF-8@euro", "sr@latin", "xx", "", "ja_JP.ujis", "pt_BR", "en_US", "zh_TW", "czech",
    "JAPANESE.EUC", "fr_CH@quot", "nds", "sr_RS@latin" };
  for (int r = 0; r < 3; ++r)
  {
    for (auto n : names)
    {
      o += lang(Language::from_name(n));
      o += lang(Language::from_env(n));
      o += lang(Language::from_spec(n));
      for (auto m : names)
        o += std::to_string(Language::match(Language::from_env(n), Language::from_env(m)));
    }
    for (auto h : kHeader)
    {
      PluralForms p = PluralForms::from_string(h);
      o += std::to_string(p.get_nplural());
      for (int n = 0; n < 30 && p; ++n) o += std::to_string(p.get_plural(n));
    }
    Dictionary d("UTF-8"), e("UTF-8");
    std::istringstream i1(po("ISO-8859-1", kHeader[r])), i2(po("UTF-8", kHeader[1])), i3(po("BIG5", kHeader[2]));
    POParser::parse("f1", i1, d, r != 1);
    POParser::parse("f2", i2, e, true);
    try { POParser::parse("f3", i3, e, false); } catch (const std::exception&) { o += "!"; }
    d.addFallback(&e);
    d.add_translation("t" + std::to_string(me % 1), "T");
    for (int n = 0; n < 8; ++n)
      o += d.translate("a") + d.translate("zz") + d.translate_plural("b", "bs", n) + d.translate_ctxt("c", "b") + d.translate_ctxt_plural("c", "b", "bs", n) +
        d.translate_ctxt("q", "b") + d.translate("f") + d.translate("long") + d.get_charset() + "\n";
    std::string v;
    d.foreach(Vis{v}); d.foreach_ctxt(Vis{v});
    o += std::to_string(v.size());
    IConv c("ISO-8859-1", "UTF-8");
    o += c.convert("\xe4\xf6 x");
    std::unique_ptr<Files> fs(new Files);
    fs->m["/a"]["de.po"] = po("UTF-8", kHeader[0]);
    fs->m["/a"]["de_AT.po"] = "msgid \"a\"\nmsgstr \"AT\"\n";
    fs->m["/b"]["fr.po"] = po("ISO-8859-1", kHeader[4]);
    fs->m["/b"]["README"] = "x";
    DictionaryManager m(std::move(fs), "UTF-8");
    m.add_directory("/a"); m.add_directory("/b", true);
    m.set_language(Language::from_env("de_AT"));
    o += m.get_dictionary().translate("a") + m.get_dictionary().translate("long") + m.get_dictionary(Language::from_env("fr")).translate("a");
    o += std::to_string(m.get_languages().size()) + std::to_string(m.get_use_fuzzy());
    m.set_charset("ISO-8859-1"); m.set_use_fuzzy(false);
    o += m.get_dictionary().translate("f");
    m.remove_directory("/a");
    o += m.get_dictionary().translate("a");
    DictionaryManager u("UTF-8");
    u.add_directory("/nonexistent");
    o += std::to_string(u.get_languages().size());
  }
  return o;
}

void sink(const std::string&) {}

} // namespace

int main()
{
  // keep the conversion modules of the C library loaded: its loader is opaque to the race detector
  IConv hold1("ISO-8859-1", "UTF-8"), hold2("UTF-8", "ISO-8859-1"), hold3("BIG5", "UTF-8"), hold4("BIG5", "ISO-8859-1");
  Log::set_log_info_callback(&sink);
  Log::set_log_warning_callback(&sink);
  Log::set_log_error_callback(&sink);
  const int n = 6;
  std::vector<std::string> out(n);
  std::vector<std::thread> th;
  std::atomic<int> ready(0);
  for (int i = 0; i < n; ++i)
    th.emplace_back([&, i] { ++ready; while (ready.load() < n) { } out[static_cast<size_t>(i)] = work(i); });
  for (auto& t : th) t.join();
  std::string alone = work(0);
  for (auto& s : out)
    if (s != alone) { std::puts("RESULT a thread obtained another result than it obtains alone"); return 3; }
  std::puts("same results");
  return 0;
}
