// input documents for the real parser: real InputParser, stand-ins of pugixml and muParser
#pragma once
#include "common.h"
#include "pugixml.hpp"
#include "muParser.h"
#include "parser.h"
#include "fakeio.h"
double vf_input(const char *n);     // value of the input symbol of this name, supplied by the harness
double mu::Parser::input(const char *n) { return vf_input(n); }
static pugi::xml_document *xdoc(const char *s) { pugi::xml_document *d = new pugi::xml_document(); if (!d->load_string(s)) vf_fail("harness: bad xml"); return d; }
// small text builder
struct Txt { char b[4096]; int n; Txt() : n(0) { b[0] = 0; } Txt &operator<<(const char *s) { int l = strlen(s); memcpy(b + n, s, l + 1); n += l; return *this; } Txt &operator<<(int v) { char t[12]; int k = 0; if (v < 0) { b[n++] = '-'; v = -v; } do { t[k++] = '0' + v % 10; v /= 10; } while (v); while (k) b[n++] = t[--k]; b[n] = 0; return *this; } };
// attributes x="in_<n>x" ... 
static Txt &xyz(Txt &t, const char *el, const char *n) { return t << "<" << el << " x=\"in_" << n << "x\" y=\"in_" << n << "y\" z=\"in_" << n << "z\" />"; }
