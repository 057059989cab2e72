// Stand-in for pugixml: the document is built from a text by a small parser (elements, attributes, comments), read through the same interface.
#ifndef VF_PUGIXML
#define VF_PUGIXML
#define HEADER_PUGIXML_HPP
#include <cstring>
#include <cstddef>
#include <string>
#include <iterator>
namespace pugi {
typedef char char_t; typedef std::string string_t;
struct xml_attribute_struct { char *name, *value; xml_attribute_struct *next; };
struct xml_node_struct { char *name, *text; xml_node_struct *parent, *first, *next; xml_attribute_struct *att; };
enum xml_node_type { node_null, node_document, node_element, node_pcdata, node_cdata, node_comment, node_pi, node_declaration, node_doctype };
inline bool vf_num(const char *s, double &v) { while (*s == ' ') s++; bool neg = false; if (*s == '-' || *s == '+') neg = *s++ == '-'; if (!((*s >= '0' && *s <= '9') || *s == '.')) return false; v = 0; double f = 1; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); if (*s == '.') { s++; while (*s >= '0' && *s <= '9') { v = v * 10 + (*s++ - '0'); f *= 10; } } int e = 0; if ((*s == 'e' || *s == 'E')) { s++; bool en = false; if (*s == '-' || *s == '+') en = *s++ == '-'; while (*s >= '0' && *s <= '9') e = e * 10 + (*s++ - '0'); for (int i = 0; i < e; i++) if (en) f *= 10; else v *= 10; } v /= f; if (neg) v = -v; return true; }
class xml_attribute { public: xml_attribute_struct *a; xml_attribute() : a(0) {} explicit xml_attribute(xml_attribute_struct *p) : a(p) {}
  typedef void (*unspecified_bool_type)(xml_attribute ***); static void ub(xml_attribute ***) {} operator unspecified_bool_type() const { return a ? ub : 0; } bool operator!() const { return !a; } bool operator==(const xml_attribute &r) const { return a == r.a; } bool operator!=(const xml_attribute &r) const { return a != r.a; }
  bool empty() const { return !a; } const char_t *name() const { return a ? a->name : ""; } const char_t *value() const { return a ? a->value : ""; } const char_t *as_string(const char_t *d = "") const { return a ? a->value : d; }
  // like the library: integers are read from the leading digits
  int as_int(int d = 0) const { if (!a) return d; const char *s = a->value; while (*s == ' ') s++; bool neg = false; if (*s == '-' || *s == '+') neg = *s++ == '-'; int v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); return neg ? -v : v; }
  unsigned as_uint(unsigned d = 0) const { return a ? (unsigned)as_int() : d; } long long as_llong(long long d = 0) const { return a ? as_int() : d; } double as_double(double d = 0) const { double v = 0; return a ? (vf_num(a->value, v) ? v : 0.0) : d; } float as_float(float d = 0) const { return (float)as_double(d); }
  bool as_bool(bool d = false) const { if (!a) return d; char c = *a->value; return c == '1' || c == 't' || c == 'T' || c == 'y' || c == 'Y'; } xml_attribute next_attribute() const { return xml_attribute(a ? a->next : 0); } };
class xml_node_iterator; class xml_attribute_iterator; class xml_named_node_iterator;
template <typename It> class xml_object_range { It b, e; public: typedef It iterator; typedef It const_iterator; xml_object_range(It x, It y) : b(x), e(y) {} It begin() const { return b; } It end() const { return e; } };
class xml_text { public: const char *t; explicit xml_text(const char *s = 0) : t(s) {} bool empty() const { return !t || !*t; } typedef void (*unspecified_bool_type)(xml_text ***); static void ub(xml_text ***) {} operator unspecified_bool_type() const { return empty() ? 0 : ub; } bool operator!() const { return empty(); } const char *get() const { return t ? t : ""; } const char *as_string(const char *d = "") const { return t ? t : d; } double as_double(double d = 0) const { double v = 0; return t && vf_num(t, v) ? v : d; } int as_int(int d = 0) const { return t ? (int)as_double() : d; } };
class xml_node { public: xml_node_struct *_root; xml_node() : _root(0) {} explicit xml_node(xml_node_struct *p) : _root(p) {}
  typedef void (*unspecified_bool_type)(xml_node ***); static void ub(xml_node ***) {} operator unspecified_bool_type() const { return _root ? ub : 0; } bool operator!() const { return !_root; } bool operator==(const xml_node &r) const { return _root == r._root; } bool operator!=(const xml_node &r) const { return _root != r._root; }
  bool empty() const { return !_root; } xml_node_type type() const { return _root ? node_element : node_null; } const char_t *name() const { return _root && _root->name ? _root->name : ""; } const char_t *value() const { return ""; }
  xml_node first_child() const { return xml_node(_root ? _root->first : 0); } xml_node next_sibling() const { return xml_node(_root ? _root->next : 0); } xml_node parent() const { return xml_node(_root ? _root->parent : 0); } xml_attribute first_attribute() const { return xml_attribute(_root ? _root->att : 0); }
  xml_node last_child() const { xml_node_struct *p = _root ? _root->first : 0; while (p && p->next) p = p->next; return xml_node(p); } xml_node previous_sibling() const { if (!_root || !_root->parent) return xml_node(); xml_node_struct *p = _root->parent->first, *q = 0; while (p != _root) { q = p; p = p->next; } return xml_node(q); }
  xml_node child(const char_t *n) const { for (xml_node_struct *p = _root ? _root->first : 0; p; p = p->next) if (p->name && !strcmp(p->name, n)) return xml_node(p); return xml_node(); }
  xml_attribute attribute(const char_t *n) const { for (xml_attribute_struct *p = _root ? _root->att : 0; p; p = p->next) if (!strcmp(p->name, n)) return xml_attribute(p); return xml_attribute(); }
  xml_node next_sibling(const char_t *n) const { for (xml_node_struct *p = _root ? _root->next : 0; p; p = p->next) if (p->name && !strcmp(p->name, n)) return xml_node(p); return xml_node(); }
  template <typename P> xml_node find_child(P pred) const { for (xml_node c = first_child(); c; c = c.next_sibling()) if (pred(c)) return c; return xml_node(); } template <typename P> xml_attribute find_attribute(P pred) const { for (xml_attribute c = first_attribute(); c; c = c.next_attribute()) if (pred(c)) return c; return xml_attribute(); }
  xml_node find_child_by_attribute(const char_t *n, const char_t *a, const char_t *v) const { for (xml_node c = child(n); c; c = c.next_sibling(n)) if (!strcmp(c.attribute(a).value(), v)) return c; return xml_node(); }
  xml_text text() const { return xml_text(_root ? _root->text : 0); } const char_t *child_value() const { return text().get(); } const char_t *child_value(const char_t *n) const { return child(n).child_value(); }
  typedef xml_node_iterator iterator; typedef xml_attribute_iterator attribute_iterator; inline iterator begin() const; inline iterator end() const; inline attribute_iterator attributes_begin() const; inline attribute_iterator attributes_end() const; inline xml_object_range<xml_node_iterator> children() const; inline xml_object_range<xml_named_node_iterator> children(const char_t *n) const; inline xml_object_range<xml_attribute_iterator> attributes() const; };
class xml_node_iterator { public: xml_node w; typedef ptrdiff_t difference_type; typedef xml_node value_type; typedef xml_node *pointer; typedef xml_node &reference; typedef std::forward_iterator_tag iterator_category;
  xml_node_iterator() {} xml_node_iterator(const xml_node &n) : w(n) {} bool operator==(const xml_node_iterator &r) const { return w._root == r.w._root; } bool operator!=(const xml_node_iterator &r) const { return w._root != r.w._root; } xml_node &operator*() const { return const_cast<xml_node &>(w); } xml_node *operator->() const { return const_cast<xml_node *>(&w); } xml_node_iterator &operator++() { w = w.next_sibling(); return *this; } xml_node_iterator operator++(int) { xml_node_iterator t = *this; ++*this; return t; } };
class xml_named_node_iterator { public: xml_node w; const char *n; typedef ptrdiff_t difference_type; typedef xml_node value_type; typedef xml_node *pointer; typedef xml_node &reference; typedef std::forward_iterator_tag iterator_category; xml_named_node_iterator() : n("") {} xml_named_node_iterator(const xml_node &x, const char *m) : w(x), n(m) {} bool operator==(const xml_named_node_iterator &r) const { return w._root == r.w._root; } bool operator!=(const xml_named_node_iterator &r) const { return w._root != r.w._root; } xml_node &operator*() const { return const_cast<xml_node &>(w); } xml_node *operator->() const { return const_cast<xml_node *>(&w); } xml_named_node_iterator &operator++() { w = w.next_sibling(n); return *this; } };
class xml_attribute_iterator { public: xml_attribute w; typedef ptrdiff_t difference_type; typedef xml_attribute value_type; typedef xml_attribute *pointer; typedef xml_attribute &reference; typedef std::forward_iterator_tag iterator_category; xml_attribute_iterator() {} xml_attribute_iterator(const xml_attribute &x) : w(x) {} bool operator==(const xml_attribute_iterator &r) const { return w.a == r.w.a; } bool operator!=(const xml_attribute_iterator &r) const { return w.a != r.w.a; } xml_attribute &operator*() const { return const_cast<xml_attribute &>(w); } xml_attribute *operator->() const { return const_cast<xml_attribute *>(&w); } xml_attribute_iterator &operator++() { w = w.next_attribute(); return *this; } };
inline xml_node_iterator xml_node::begin() const { return xml_node_iterator(first_child()); } inline xml_node_iterator xml_node::end() const { return xml_node_iterator(); } inline xml_attribute_iterator xml_node::attributes_begin() const { return xml_attribute_iterator(first_attribute()); } inline xml_attribute_iterator xml_node::attributes_end() const { return xml_attribute_iterator(); }
inline xml_object_range<xml_node_iterator> xml_node::children() const { return xml_object_range<xml_node_iterator>(begin(), end()); } inline xml_object_range<xml_named_node_iterator> xml_node::children(const char_t *n) const { return xml_object_range<xml_named_node_iterator>(xml_named_node_iterator(child(n), n), xml_named_node_iterator()); } inline xml_object_range<xml_attribute_iterator> xml_node::attributes() const { return xml_object_range<xml_attribute_iterator>(attributes_begin(), attributes_end()); }
enum xml_parse_status { status_ok = 0, status_file_not_found, status_io_error, status_bad = 7 };
enum xml_encoding { encoding_auto }; const unsigned parse_default = 0x74;
struct xml_parse_result { xml_parse_status status; ptrdiff_t offset; xml_parse_result() : status(status_bad), offset(0) {} operator bool() const { return status == status_ok; } const char *description() const { return status == status_ok ? "No error" : "error"; } };
class xml_document : public xml_node { public: xml_document() { _root = mk(0); } ~xml_document() {}
  static const char *&file_text() { static const char *t = 0; return t; }   // what the input file contains
  static xml_node_struct *mk(xml_node_struct *p) { xml_node_struct *n = new xml_node_struct; n->name = 0; n->text = 0; n->parent = p; n->first = n->next = 0; n->att = 0; return n; }
  static char *dup(const char *b, const char *e) { char *r = new char[e - b + 1]; memcpy(r, b, e - b); r[e - b] = 0; return r; }
  static const char *ws(const char *s) { while (*s == ' ' || *s == '\n' || *s == '\t') s++; return s; }
  static const char *nameend(const char *s) { while (*s && *s != ' ' && *s != '=' && *s != '>' && *s != '/' && *s != '\n') s++; return s; }
  xml_parse_result load_string(const char *s, unsigned = parse_default) { xml_parse_result r; xml_node_struct *cur = _root; cur->first = 0;
    for (;;) { s = ws(s); if (!*s) break; if (*s != '<') { const char *b = s; while (*s && *s != '<') s++; cur->text = dup(b, s); continue; }
      if (s[1] == '!' || s[1] == '?') { s = strstr(s, ">"); if (!s) return r; s++; continue; }
      if (s[1] == '/') { const char *e = nameend(s + 2); size_t l = e - (s + 2); if (!cur->name || strlen(cur->name) != l || memcmp(cur->name, s + 2, l)) return r; cur = cur->parent; s = ws(e); if (*s != '>') return r; s++; continue; }
      const char *e = nameend(s + 1); xml_node_struct *n = mk(cur); n->name = dup(s + 1, e); if (!cur->first) cur->first = n; else { xml_node_struct *q = cur->first; while (q->next) q = q->next; q->next = n; } s = ws(e); xml_attribute_struct **ap = &n->att;
      while (*s && *s != '>' && *s != '/') { e = nameend(s); if (*e != '=' || e[1] != '"') return r; const char *v = e + 2, *w = v; while (*w && *w != '"') w++; if (!*w) return r; xml_attribute_struct *at = new xml_attribute_struct; at->name = dup(s, e); at->value = dup(v, w); at->next = 0; *ap = at; ap = &at->next; s = ws(w + 1); }
      if (*s == '/') { s++; if (*s != '>') return r; s++; } else { if (*s != '>') return r; cur = n; s++; } }
    if (cur == _root) r.status = status_ok; return r; }
  xml_parse_result load(const char *s, unsigned o = parse_default) { return load_string(s, o); } xml_parse_result load_buffer(const void *s, size_t, unsigned o = parse_default, xml_encoding = encoding_auto) { return load_string((const char *)s, o); }
  xml_parse_result load_file(const char *f, unsigned o = parse_default, xml_encoding = encoding_auto) { (void)f; if (!file_text()) { xml_parse_result r; r.status = status_file_not_found; return r; } return load_string(file_text(), o); }
  xml_node document_element() const { return first_child(); } };
}
#endif
