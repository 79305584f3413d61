// Log statement sites of every level and macro family, shared by the translation units of P20.
#ifndef VERIF_P20_HPP
#define VERIF_P20_HPP
#include <string>
#include <vector>
namespace p20 {

/// what the next executed site sees and what it must report
struct Ctx {
  std::string text;   ///< message
  std::string name;   ///< stream name argument
  bool cond = true;
  double rate = 1;
  int level = 0;
  unsigned argEvals = 0, condEvals = 0;
  // filled in by the site
  const char* file = nullptr;
  int line = 0;
  std::string function;
};
extern Ctx ctx;
inline const char* argC() { ++ctx.argEvals; return ctx.text.c_str(); }
inline const std::string& argS() { ++ctx.argEvals; return ctx.text; }
inline bool cnd() { ++ctx.condEvals; return ctx.cond; }
inline const std::string& nm() { return ctx.name; }
inline double rt() { return ctx.rate; }

enum Family { Plain, Cond, Once, Throttle };
struct Site {
  const char* macro;
  int level;       ///< -1: given by the context
  Family family;
  bool named;      ///< tagged with "sm." + name instead of "sm"
  bool raw;        ///< the name argument is the full stream name
  int prefix;      ///< 0: text is the whole message, 1: "<i> " and text and "%" surround it
  bool compiledOut;
  void (*run)();
};
std::vector<Site>& sites();
struct Reg { Reg(const Site& s) { sites().push_back(s); } };

}  // namespace p20
#endif
