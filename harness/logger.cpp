// Uses of the event log. usage: logger OUT SCRIPTS
// a script: a line "id", then lines "put t n k v", "read k", "stream", "clear", then "end"
#include <sstream>
#include <fstream>
#include "probe.hpp"
#include "logger.hpp"
using namespace odes;
static std::string one_line(const std::string &s) {
  std::string r;
  for (char c : s) r += c == '\n' ? '|' : (c == '"' || c == '\\' || (unsigned char)c < 32) ? '?' : c;
  return r;
}
int main(int argc, char **argv) {
  probe_open(argv[1]);
  std::ifstream in(argv[2]);
  const eventType kinds[6] = {success, rejectedStep, NewtonFailed, NewtonWillNotConverge, changedH, all};
  int id;
  while (in >> id) {
    jbegin("trace"); ji("id", id); jend();
    logger L;
    std::string op;
    long t = 0, v = 0; int n = 0, k0 = 1;
    alarm(20);
    while (in >> op && op != "end") {
      if (op == "put") {
        int k;
        in >> t >> n >> k >> v; k0 = k;
        L.put(t / 64., n, kinds[k - 1], v / 64.);
        jbegin("put"); jd("t", t / 64.); ji("n", n); ji("k", k); jd("v", v / 64.); jend();
      } else if (op == "again") {
        L.put(t / 64., n, kinds[k0 - 1], v / 64.);
        jbegin("again"); jend();
      } else if (op == "burst") {
        int c, k;
        in >> c >> k;
        for (int i = 1; i <= c; i++) L.put(i, i, kinds[k - 1], i);
        t = v = 64L * c; n = c; k0 = k;
        jbegin("burst"); ji("count", c); ji("k", k); jend();
      } else if (op == "clear") {
        L.clear();
        jbegin("clear"); jend();
      } else {
        int k = 6;
        std::string s;
        if (op == "read") { in >> k; s = L.tostring(kinds[k - 1]); }
        else { std::ostringstream o; o << L; s = o.str(); }
        jbegin("read"); ji("k", k); js("text", one_line(s).c_str()); jend();
      }
    }
    alarm(0);
    fflush(OUT);
  }
  fclose(OUT);
  return 0;
}
