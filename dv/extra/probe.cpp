// Uses of the header-only parts of tinygettext, so that clang instantiates
// them: the macros of log_stream.hpp and the enumeration templates.
#include "tinygettext/log_stream.hpp"
#include "tinygettext/dictionary.hpp"

namespace tinygettext {

void probe_log_info(const std::string& text)    { log_info << text; }
void probe_log_warning(const std::string& text) { log_warning << text; }
void probe_log_error(const std::string& text)   { log_error << text; }

/** A visitor that remembers what it was called with.  foreach() and
    foreach_ctxt() are templates that know nothing about their visitor, so what
    they do with this one they do with every one. */
struct ProbeVisitor
{
  std::unordered_map<std::string, std::vector<std::string> > plain;
  std::unordered_map<std::string, std::unordered_map<std::string, std::vector<std::string> > > ctxt;
  bool twice;
  ProbeVisitor() : plain(), ctxt(), twice(false) {}

  void operator()(const std::string& msgid, const std::vector<std::string>& msgstrs)
  {
    if (plain.find(msgid) != plain.end())
      twice = true;
    plain[msgid] = msgstrs;
  }

  void operator()(const std::string& msgctxt, const std::string& msgid, const std::vector<std::string>& msgstrs)
  {
    if (ctxt[msgctxt].find(msgid) != ctxt[msgctxt].end())
      twice = true;
    ctxt[msgctxt][msgid] = msgstrs;
  }
};

ProbeVisitor probe_foreach(Dictionary& dict)      { return dict.foreach(ProbeVisitor()); }
ProbeVisitor probe_foreach_ctxt(Dictionary& dict) { return dict.foreach_ctxt(ProbeVisitor()); }

} // namespace tinygettext
