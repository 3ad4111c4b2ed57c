#ifndef SX_FILES_H
#define SX_FILES_H
#include <cstdlib>
#include <fstream>
#include <sstream>
#include "common.h"
#ifndef SX_SYMBOLIC
#include <unistd.h>
#endif
namespace files {
// a scratch directory: a table of files in the symbolic build (engine/shadow/fstream), a directory of its own in replays
struct Scratch {
    std::vector<S> used; S dir;
#ifdef SX_SYMBOLIC
    Scratch() : dir("/scratch") { sxfs::files().clear(); }
#else
    Scratch() { char t[] = "/tmp/sxfiles-XXXXXX"; dir = mkdtemp(t); }
    ~Scratch() { for (size_t i = 0; i < used.size(); ++i) ::unlink(used[i].c_str()); ::rmdir(dir.c_str()); }
#endif
    S path(const S& name) { S p = dir + "/" + name; used.push_back(p); return p; }
    S denied() const { return dir + "/missing/file"; }
};
static inline bool exists(const S& p) { std::ifstream f(p.c_str()); return f.is_open(); }
static inline void put(const S& p, const S& text) { std::ofstream f(p.c_str()); f << text; }
static inline S get(const S& p) { std::ifstream f(p.c_str()); S t; char c; while (f.get(c)) t += c; return t; }
// the same characters (printed symbolic numbers are compared char by char)
static inline bool sameText(const S& a, const S& b) { if (a.size() != b.size()) return false; bool ok = true; for (size_t i = 0; i < a.size(); ++i) ok = ok & (a[i] == b[i]); return ok; }
}
#endif
