// forced include of the instrumented build: std::string and the string streams are instantiated in our IR, not taken from libstdc++.so
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
// file streams are replaced by streams over an in-memory table of files (engine/shadow/fstream)
#define SX_SYMBOLIC 1
#include <iosfwd>
namespace std { class sx_ofstream; class sx_ifstream; }
#define ofstream sx_ofstream
#define ifstream sx_ifstream
