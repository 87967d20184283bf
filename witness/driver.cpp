// Witness driver: runs cases on the real library (compiled from /repo's
// current sources).  Used to replay and to search for failing inputs; it never
// decides a property.  One operation per line, tokens separated by blanks,
// strings in hex ('.' is the empty string), one result line per operation.
#include <algorithm>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <vector>
#include <set>

#include "tinygettext/dictionary.hpp"
#include "tinygettext/dictionary_manager.hpp"
#include "tinygettext/file_system.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/language.hpp"
#include "tinygettext/log.hpp"
#include "tinygettext/log_stream.hpp"
#include "tinygettext/plural_forms.hpp"
#include "tinygettext/po_parser.hpp"
#include "tinygettext/tinygettext.hpp"
#include "tinygettext/unix_file_system.hpp"

using namespace tinygettext;

static std::string unhex(const std::string& s)
{
  std::string r;
  if (s == ".") return r;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}

static std::string hex(const std::string& s)
{
  static const char* d = "0123456789abcdef";
  if (s.empty()) return ".";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}

static std::vector<std::string> g_log;
static void cb_info(const std::string& s)  { g_log.push_back("i" + hex(s)); }
static void cb_warn(const std::string& s)  { g_log.push_back("w" + hex(s)); }
static void cb_err(const std::string& s)   { g_log.push_back("e" + hex(s)); }
static void cb_alt(const std::string& s)   { g_log.push_back("x" + hex(s)); }
static Log::log_callback_t cbs(const std::string& n, Log::log_callback_t own)
{
  if (n == "0") return nullptr;
  if (n == "x") return &cb_alt;
  return own;
}

static std::map<std::string, std::map<std::string, std::string>> g_fs;   // dir -> file -> content
static std::map<std::string, std::vector<std::string>> g_order;
static std::set<std::string> g_unopenable, g_throwing;
static std::vector<std::string> g_opened;

class MemFS : public FileSystem
{
public:
  std::vector<std::string> open_directory(const std::string& p) override
  {
    auto i = g_order.find(p);
    return i == g_order.end() ? std::vector<std::string>() : i->second;
  }
  std::unique_ptr<std::istream> open_file(const std::string& f) override
  {
    g_opened.push_back(f);
    auto k = f.rfind('/');
    std::string d = f.substr(0, k), n = f.substr(k + 1);
    if (g_throwing.count(f)) throw std::runtime_error("cannot open");
    if (g_unopenable.count(f) || !g_fs.count(d) || !g_fs[d].count(n)) return std::unique_ptr<std::istream>();
    return std::unique_ptr<std::istream>(new std::istringstream(g_fs[d][n]));
  }
};

static std::vector<std::unique_ptr<Dictionary>> g_dicts;
static std::vector<std::unique_ptr<DictionaryManager>> g_mgrs;
static std::map<const void*, int> g_ids;

static std::string langstr(const Language& l)
{
  return std::string(l ? "1" : "0") + " " + hex(l.get_language()) + " " + hex(l.get_country()) + " " + hex(l.get_modifier()) + " "
    + hex(l.str()) + " " + hex(l.get_name()) + " " + hex(l.get_localized_name());
}

struct Visit
{
  std::vector<std::string>* out;
  int n;
  void operator()(const std::string& a, const std::vector<std::string>& v)
  {
    std::string s = "m " + hex(a);
    for (auto& x : v) s += " " + hex(x);
    out->push_back(s); n++;
  }
  void operator()(const std::string& c, const std::string& a, const std::vector<std::string>& v)
  {
    std::string s = "c " + hex(c) + " " + hex(a);
    for (auto& x : v) s += " " + hex(x);
    out->push_back(s); n++;
  }
};

static std::string dump(Dictionary& d)
{
  std::vector<std::string> v;
  Visit f1 = d.foreach(Visit{&v, 0});
  int k = static_cast<int>(v.size());
  Visit f2 = d.foreach_ctxt(Visit{&v, 0});
  std::sort(v.begin(), v.end());
  std::string r = std::to_string(f1.n == k && f1.n + f2.n == static_cast<int>(v.size())) + " " + std::to_string(k);
  for (auto& s : v) r += " | " + s;
  PluralForms p = d.get_plural_forms();
  r += " # " + std::to_string(p.get_nplural()) + " " + (p ? "1" : "0");
  for (int n : {0, 1, 2, 3, 5, 11, 12, 21, 22, 100, 101, 102, 1000}) r += " " + std::to_string(p.get_plural(n));
  return r;
}

static std::string logs()
{
  std::string r;
  for (auto& s : g_log) r += " " + s;
  g_log.clear();
  return r;
}

static std::string run(const std::vector<std::string>& t)
{
  const std::string& v = t[0];
  auto H = [&](size_t i) { return unhex(t.at(i)); };
  auto I = [&](size_t i) { return std::stol(t.at(i)); };
  auto D = [&](size_t i) -> Dictionary& { return *g_dicts.at(static_cast<size_t>(I(i))); };
  auto M = [&](size_t i) -> DictionaryManager& { return *g_mgrs.at(static_cast<size_t>(I(i))); };
  auto rest = [&](size_t i) { std::vector<std::string> r; for (; i < t.size(); ++i) r.push_back(unhex(t[i])); return r; };
  auto L = [&](size_t i) { return Language::from_spec(H(i), H(i + 1), H(i + 2)); };

  if (v == "dict") { g_dicts.emplace_back(new Dictionary(H(1))); return std::to_string(g_dicts.size() - 1); }
  if (v == "charset") return hex(D(1).get_charset());
  if (v == "pf") { D(1).set_plural_forms(PluralForms::from_string(H(2))); return "ok"; }
  if (v == "fb") { D(1).addFallback(&D(2)); return "ok"; }
  if (v == "add") { D(1).add_translation(H(2), H(3)); return "ok"; }
  if (v == "addc") { D(1).add_translation(H(2), H(3), H(4)); return "ok"; }
  if (v == "addl") { D(1).add_translation(H(2), H(3), rest(4)); return "ok"; }
  if (v == "addcl") { D(1).add_translation(H(2), H(3), H(4), rest(5)); return "ok"; }
  if (v == "tr") return hex(D(1).translate(H(2)));
  if (v == "trc") return hex(D(1).translate_ctxt(H(2), H(3)));
  if (v == "trp") return hex(D(1).translate_plural(H(2), H(3), static_cast<int>(I(4))));
  if (v == "trcp") return hex(D(1).translate_ctxt_plural(H(2), H(3), H(4), static_cast<int>(I(5))));
  if (v == "dump") return dump(D(1));
  if (v == "plural")
  {
    PluralForms p = PluralForms::from_string(H(1));
    std::string r = std::to_string(p.get_nplural()) + (p ? " 1" : " 0");
    for (size_t i = 2; i < t.size(); ++i) r += " " + std::to_string(p.get_plural(static_cast<int>(I(i))));
    return r;
  }
  if (v == "env") return langstr(Language::from_env(H(1)));
  if (v == "name") return langstr(Language::from_name(H(1)));
  if (v == "spec") return langstr(Language::from_spec(H(1), H(2), H(3)));
  if (v == "undef") return langstr(Language());
  if (v == "match") return std::to_string(Language::match(L(1), L(4)));
  if (v == "ident")
  {
    Language a = L(1), b = L(4);
    Language_hash h;
    return std::to_string(a == b) + std::to_string(a != b) + std::to_string(a < b) + std::to_string(b < a)
      + std::to_string(h(a) == h(b)) + std::to_string(static_cast<bool>(a)) + std::to_string(static_cast<bool>(b));
  }
  if (v == "conv" || v == "convl")
  {
    std::string r;
    try
    {
      IConv c;
      if (v == "convl") { c.set_charsets(H(1), H(2)); }
      else { IConv d(H(1), H(2)); for (size_t i = 3; i < t.size(); ++i) r += " " + hex(d.convert(H(i))); return r; }
      for (size_t i = 3; i < t.size(); ++i) r += " " + hex(c.convert(H(i)));
      return r;
    }
    catch (const std::exception& e) { return r + " !exc"; }
  }
  if (v == "conv2")    // one object, several pairs: from to text ...
  {
    IConv c; std::string r;
    for (size_t i = 1; i + 2 < t.size(); i += 3)
    {
      try { c.set_charsets(H(i), H(i + 1)); r += " " + hex(c.convert(H(i + 2))); }
      catch (const std::exception&) { r += " !exc"; }
    }
    return r;
  }
  if (v == "po")       // dict fuzzy text
  {
    std::istringstream in(H(3));
    g_log.clear();
    std::string x = "ok";
    try { POParser::parse("f.po", in, D(1), t[2] == "1"); }
    catch (const std::runtime_error& e) { x = "runtime_error"; }
    catch (const std::exception& e) { x = "exception"; }
    std::string l = std::to_string(g_log.size());
    std::string first = "-";
    bool bad = false;
    for (auto& s : g_log) { if (s[0] != 'e' && s[0] != 'w') bad = true; }
    g_log.clear();
    return x + " " + (bad ? "badlog" : "log");
  }
  if (v == "polog")    // like po, prints the messages
  {
    std::istringstream in(H(3));
    g_log.clear();
    try { POParser::parse("f.po", in, D(1), t[2] == "1"); }
    catch (const std::exception& e) { return "exc" + logs(); }
    return "ok" + logs();
  }
  if (v == "podef")    // default arguments
  {
    std::istringstream in(H(2));
    g_log.clear();
    std::string x = "ok";
    try { POParser::parse("f.po", in, D(1)); } catch (const std::runtime_error&) { x = "runtime_error"; } catch (const std::exception& e) { x = "exception"; }
    g_log.clear();
    return x;
  }
  if (v == "fs") { auto d = H(1), f = H(2); g_order[d].push_back(f); g_fs[d][f] = H(3); return "ok"; }
  if (v == "fsno") { auto d = H(1), f = H(2); g_order[d].push_back(f); g_unopenable.insert(d + "/" + f); return "ok"; }
  if (v == "fsthrow") { auto d = H(1), f = H(2); g_order[d].push_back(f); g_throwing.insert(d + "/" + f); return "ok"; }
  if (v == "fsset") { g_fs[H(1)][H(2)] = H(3); return "ok"; }
  if (v == "ufile")    // a real file below the working directory (a scratch directory of the check)
  {
    std::filesystem::create_directories(H(1));
    std::ofstream(H(1) + "/" + H(2)) << H(3);
    return "ok";
  }
  if (v == "mgr") { g_mgrs.emplace_back(new DictionaryManager(std::unique_ptr<FileSystem>(new MemFS), H(1))); return std::to_string(g_mgrs.size() - 1); }
  if (v == "unixmgr") { g_mgrs.emplace_back(new DictionaryManager(H(1))); return std::to_string(g_mgrs.size() - 1); }
  if (v == "delmgr") { g_mgrs.at(static_cast<size_t>(I(1))).reset(); return "ok"; }
  if (v == "mdir") { M(1).add_directory(H(2), t[3] == "1"); return "ok"; }
  if (v == "mrm") { M(1).remove_directory(H(2)); return "ok"; }
  if (v == "mcs") { M(1).set_charset(H(2)); return "ok"; }
  if (v == "mfz") { M(1).set_use_fuzzy(t[2] == "1"); return std::to_string(M(1).get_use_fuzzy()); }
  if (v == "mlang") { M(1).set_language(t[2] == "0" ? Language() : L(3)); return langstr(M(1).get_language()); }
  if (v == "mget" || v == "mgetl")
  {
    g_opened.clear();
    try
    {
      Dictionary& d = v == "mget" ? M(1).get_dictionary() : M(1).get_dictionary(L(2));
      g_log.clear();
      std::string o;
      for (auto& s : g_opened) o += " " + hex(s);
      return dump(d) + " @ " + hex(d.get_charset()) + " @" + o;
    }
    catch (const std::exception& e) { g_log.clear(); return "!exc"; }
  }
  if (v == "msame")   // two requests give the same object?
  {
    try { return std::to_string(&M(1).get_dictionary(L(2)) == &M(1).get_dictionary(L(2))); } catch (const std::exception&) { return "!exc"; }
  }
  if (v == "mcur")
  {
    try { return std::to_string(&M(1).get_dictionary() == &M(1).get_dictionary(L(2))); } catch (const std::exception&) { return "!exc"; }
  }
  if (v == "mtr")     // translation through the manager's dictionary: id
  {
    try { auto r = hex(M(1).get_dictionary().translate(H(2))); g_log.clear(); return r; } catch (const std::exception&) { g_log.clear(); return "!exc"; }
  }
  if (v == "mtrl")
  {
    try { auto r = hex(M(1).get_dictionary(L(2)).translate(H(5))); g_log.clear(); return r; } catch (const std::exception&) { g_log.clear(); return "!exc"; }
  }
  if (v == "mlangs")
  {
    std::vector<std::string> r;
    try { for (auto& l : M(1).get_languages()) r.push_back(hex(l.str()) + (l ? "" : "!")); } catch (const std::exception&) { return "!exc"; }
    g_log.clear();
    std::sort(r.begin(), r.end());
    std::string s;
    for (auto& x : r) s += " " + x;
    return s;
  }
  if (v == "mconv") return hex(M(1).convertFilename2Language(H(2)));
  if (v == "cb")       // severity callback
  {
    if (t[1] == "i") Log::set_log_info_callback(cbs(t[2], &cb_info));
    if (t[1] == "w") Log::set_log_warning_callback(cbs(t[2], &cb_warn));
    if (t[1] == "e") Log::set_log_error_callback(cbs(t[2], &cb_err));
    return "ok";
  }
  if (v == "log")
  {
    g_log.clear();
    std::string s = H(2);
    if (t[1] == "i") { log_info << s << 42; }
    if (t[1] == "w") { log_warning << s << 42; }
    if (t[1] == "e") { log_error << s << 42; }
    return "ok" + logs();
  }
  if (v == "unixdir")
  {
    UnixFileSystem u;
    try { auto r = u.open_directory(H(1)); std::sort(r.begin(), r.end()); std::string s; for (auto& x : r) s += " " + hex(x); return s; }
    catch (const std::exception&) { return "!exc"; }
  }
  if (v == "unixopen")
  {
    UnixFileSystem u;
    try { auto in = u.open_file(H(1)); std::string r = in ? (in->good() ? "1" : "0") : "null"; if (in) { std::stringstream ss; ss << in->rdbuf(); r += " " + hex(ss.str()); } return r; }
    catch (const std::exception&) { return "!exc"; }
  }
  if (v == "reset")
  {
    { std::error_code ec; std::filesystem::remove_all("scratch", ec); }
    g_mgrs.clear(); g_dicts.clear(); g_fs.clear(); g_order.clear(); g_unopenable.clear(); g_throwing.clear(); g_log.clear();
    Log::set_log_info_callback(&cb_info); Log::set_log_warning_callback(&cb_warn); Log::set_log_error_callback(&cb_err);
    return "ok";
  }
  return "?" + v;
}

int main()
{
  std::string line;
  run({"reset"});
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    std::vector<std::string> t;
    std::string w;
    while (is >> w) t.push_back(w);
    if (t.empty()) continue;
    if (t[0] == "#") { std::cout << line << std::endl; continue; }
    if (t[0] == "limit") { alarm(static_cast<unsigned>(std::stoul(t[1]))); continue; }
    std::cout << "> " << std::flush;
    std::cout << run(t) << "\n" << std::flush;
  }
  return 0;
}
