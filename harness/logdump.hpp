// Reading of the event log. Included before everything else when LOGOUT is
// defined: numbers are then written with 17 digits, if the log writes them with
// to_string (the record says whether it did).
#ifdef LOGOUT
#include <cstdio>
#include <iomanip>
#include <iostream>
#include <list>
#include <sstream>
#include <string>
namespace std {
static int g17_calls = 0;
inline string g17str(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); ++g17_calls; return b; }
inline string g17str(int v) { return to_string(v); }
inline string g17str(unsigned v) { return to_string(v); }
inline string g17str(long v) { return to_string(v); }
inline string g17str(unsigned long v) { return to_string(v); }
}
#define to_string g17str
#include "logger.hpp"
#undef to_string
#include "probe.hpp"
static std::string one_line(const std::string &s) {
  std::string r;
  for (char c : s) r += c == '\n' ? '|' : (c == '"' || c == '\\' || (unsigned char)c < 32) ? '?' : c;
  return r;
}
static void log_record(const odes::logger &L, bool cleared) {
  std::g17_calls = 0;
  std::ostringstream a, b;
  std::string all = L.tostring();
  jbegin("log"); js("all", one_line(all).c_str()); jb("exact", std::g17_calls > 0); jb("cleared", cleared);
  fprintf(OUT, ",\"by\":[");
  const odes::eventType k[6] = {odes::success, odes::rejectedStep, odes::NewtonFailed, odes::NewtonWillNotConverge, odes::changedH, odes::all};
  for (int i = 0; i < 6; i++) fprintf(OUT, "%s\"%s\"", i ? "," : "", one_line(L.tostring(k[i])).c_str());
  fprintf(OUT, "]");
  a << L; b << L;
  jb("same", a.str() == all && b.str() == all && L.tostring() == all);
  jend();
}
#else
#include "probe.hpp"
#endif
