// Stand-in for lttoolbox's FSTProcessor::biltransWithQueue, whose installed
// version (3.7.6) returns mangled results: looks the word up in a table that
// the check wrote (VERIF_BIDIX: word TAB translation TAB queue length).
#include <lttoolbox/fst_processor.h>
#include <fstream>
#include <string>
#include <map>
#include <cstdlib>
#include <cstdio>

static UString u16(const std::string& s) { return to_ustring(s.c_str()); }

static const std::map<UString, std::pair<UString, int>>& table()
{
  static std::map<UString, std::pair<UString, int>> t;
  static bool done = false;
  if (!done) {
    done = true;
    const char* p = getenv("VERIF_BIDIX");
    std::ifstream in(p ? p : "");
    std::string l;
    while (std::getline(in, l)) {
      size_t a = l.find('\t'), b = l.rfind('\t');
      if (a == std::string::npos || a == b) continue;
      t[u16(l.substr(0, a))] = {u16(l.substr(a + 1, b - a - 1)), atoi(l.c_str() + b + 1)};
    }
  }
  return t;
}

std::pair<UString, int>
FSTProcessor::biltransWithQueue(UStringView w, bool)
{
  UString word(w);
  if (!word.empty() && word[0] == '*') return {word, 0};
  auto it = table().find(word);
  if (it != table().end()) return it->second;
  UString r = u"@";
  r += word;
  return {r, 0};
}
