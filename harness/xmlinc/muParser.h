// Stand-in for muParser: + - * / ^ ( ), numbers, constants; names starting with in_ denote arbitrary (symbolic) values.
#ifndef VF_MUPARSER
#define VF_MUPARSER
#include <string>
#include <vector>
#include <list>
#include <map>
#include <memory>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <fstream>
#include <numeric>
#include <algorithm>
#include <cmath>
#include <limits>
#include "vf.h"
#include "pugixml.hpp"
namespace mu {
typedef double value_type; typedef std::string string_type;
class ParserError { std::string m; public: ParserError() {} ParserError(const char *s) : m(s) {} const std::string &GetMsg() const { return m; } const std::string &GetExpr() const { return m; } const std::string &GetToken() const { return m; } int GetPos() const { return 0; } int GetCode() const { return 1; } };
struct VfConst { std::string n; double v; };
class Parser { std::string ex; std::vector<VfConst> c; const char *p;
  static bool al(char x) { return (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') || x == '_'; } static bool di(char x) { return x >= '0' && x <= '9'; } void sp() { while (*p == ' ') p++; }
  double prim() { sp(); if (*p == '(') { p++; double v = sum(); sp(); if (*p != ')') throw ParserError("missing parenthesis"); p++; return v; } if (*p == '-') { p++; return -pw(); } if (*p == '+') { p++; return pw(); }
    if (di(*p) || *p == '.') { double v = 0; pugi::vf_num(p, v); while (di(*p) || *p == '.') p++; if ((*p == 'e' || *p == 'E') && (di(p[1]) || ((p[1] == '-' || p[1] == '+') && di(p[2])))) { p += 2; while (di(*p)) p++; } return v; }
    if (al(*p)) { const char *b = p; while (al(*p) || di(*p)) p++; std::string n(b, p - b); for (size_t i = 0; i < c.size(); i++) if (c[i].n == n) return c[i].v; if (n.size() > 3 && n[0] == 'i' && n[1] == 'n' && n[2] == '_') return input(n.c_str()); throw ParserError("unexpected token"); }
    throw ParserError("unexpected end of expression"); }
  double pw() { double v = prim(); sp(); if (*p == '^') { p++; double e = prim(); double r = 1; for (int i = 0; i < (int)e; i++) r *= v; return r; } return v; }
  double prod() { double v = pw(); for (;;) { sp(); if (*p == '*') { p++; v *= pw(); } else if (*p == '/') { p++; v /= pw(); } else return v; } }
  double sum() { double v = prod(); for (;;) { sp(); if (*p == '+') { p++; v += prod(); } else if (*p == '-') { p++; v -= prod(); } else return v; } }
public: typedef ParserError exception_type; Parser() : p(0) {} virtual ~Parser() {} static double input(const char *n);
  void SetExpr(const std::string &s) { ex = s; } const std::string &GetExpr() const { return ex; } double Eval() { p = ex.c_str(); double v = sum(); sp(); if (*p) throw ParserError("unexpected token"); return v; }
  void DefineConst(const std::string &n, double v) { for (size_t i = 0; i < c.size(); i++) if (c[i].n == n) { c[i].v = v; return; } VfConst k; k.n = n; k.v = v; c.push_back(k); } void ClearConst() { c.clear(); } void ClearVar() {} };
}
#endif
