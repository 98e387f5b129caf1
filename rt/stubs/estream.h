// Stream classes for the symbolic build of the line-ending converter: files are read and written through the
// C library model, text written to cout is discarded.
#pragma once
#include <iosfwd>
#include <cctype>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <algorithm>
#include <bits/stl_iterator_base_types.h>
#include <bits/stl_iterator_base_funcs.h>
#include <bits/stl_iterator.h>
#include <bits/range_access.h>
namespace std {
class ios_base { public: typedef int openmode; typedef int fmtflags; typedef int seekdir; typedef int iostate;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32; static constexpr seekdir beg = 0, cur = 1, end = 2; static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4; };
template<> class basic_ios<char, char_traits<char>> : public ios_base {
public: iostate vs_s = 0; FILE* vs_f = nullptr; string vs_b; size_t vs_p = 0; bool vs_keep = false;
  bool good() const { return vs_s == 0; } bool eof() const { return vs_s & eofbit; } bool fail() const { return (vs_s & (badbit | failbit)) != 0; } bool bad() const { return vs_s & badbit; } bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); } void clear(iostate s = 0) { vs_s = s; } void setstate(iostate s) { vs_s |= s; } iostate rdstate() const { return vs_s; } };
inline ios_base& oct(ios_base& b) { return b; } inline ios_base& hex(ios_base& b) { return b; } inline ios_base& dec(ios_base& b) { return b; } inline ios_base& skipws(ios_base& b) { return b; } inline ios_base& noskipws(ios_base& b) { return b; }
template<> class basic_streambuf<char, char_traits<char>> { public: ios* vs_o = nullptr; };
template<> class basic_istream<char, char_traits<char>> : virtual public ios {
public: size_t vs_n = 0; streambuf vs_rb;
  streambuf* rdbuf() { vs_rb.vs_o = this; return &vs_rb; }
  int vs_get() { if (vs_f) return fgetc(vs_f); if (vs_keep && vs_p < vs_b.size()) return (unsigned char)vs_b[vs_p++]; return -1; }
  int vs_peek() { if (vs_f) { int c = fgetc(vs_f); if (c >= 0) ungetc(c, vs_f); return c; } if (vs_keep && vs_p < vs_b.size()) return (unsigned char)vs_b[vs_p]; return -1; }
  int get() { if (!good()) { vs_n = 0; vs_s |= failbit; return -1; } int c = vs_get(); vs_n = c >= 0; if (c < 0) vs_s |= eofbit | failbit; return c; }
  basic_istream& get(char& c) { int r = get(); if (r >= 0) c = (char)r; return *this; }
  int peek() { if (!good()) return -1; int c = vs_peek(); if (c < 0) vs_s |= eofbit; return c; }
  basic_istream& read(char* p, long n) { vs_n = 0; while ((long)vs_n < n) { int c = vs_get(); if (c < 0) { vs_s |= eofbit | failbit; break; } p[vs_n++] = (char)c; } return *this; }
  long gcount() const { return (long)vs_n; }
  basic_istream& seekg(long o, int w = 0) { vs_s &= ~eofbit; if (vs_f) fseek(vs_f, o, w); else vs_p = w == 0 ? o : w == 1 ? vs_p + o : vs_b.size() + o; return *this; }
  long tellg() { return vs_f ? ftell(vs_f) : (long)vs_p; }
};
template<> class basic_ostream<char, char_traits<char>> : virtual public ios {
public:
  void vs_put(char c) { if (vs_f) fputc((unsigned char)c, vs_f); else if (vs_keep) vs_b.push_back(c); }
  template<class T> basic_ostream& operator<<(const T&) { return *this; }
  basic_ostream& operator<<(char c) { vs_put(c); return *this; } basic_ostream& operator<<(unsigned char c) { vs_put((char)c); return *this; } basic_ostream& operator<<(signed char c) { vs_put((char)c); return *this; }
  basic_ostream& operator<<(const char* s) { while (*s) vs_put(*s++); return *this; } basic_ostream& operator<<(char* s) { return *this << (const char*)s; }
  basic_ostream& operator<<(const string& s) { for (size_t i = 0; i < s.size(); i++) vs_put(s[i]); return *this; }
  basic_ostream& operator<<(streambuf* b) { int c; while ((c = ((basic_istream<char>*)nullptr, dynamic_get(b))) >= 0) vs_put((char)c); return *this; }
  static int dynamic_get(streambuf* b) { ios* o = b->vs_o; if (o->vs_f) return fgetc(o->vs_f); if (o->vs_keep && o->vs_p < o->vs_b.size()) return (unsigned char)o->vs_b[o->vs_p++]; return -1; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(ios_base& (*)(ios_base&)) { return *this; }
  basic_ostream& put(char c) { vs_put(c); return *this; }
  basic_ostream& write(const char* p, long n) { for (long i = 0; i < n; i++) vs_put(p[i]); return *this; }
  basic_ostream& flush() { return *this; }
  basic_ostream& seekp(long o, int w = 0) { if (vs_f) fseek(vs_f, o, w); return *this; }
  long tellp() { return vs_f ? ftell(vs_f) : (long)vs_b.size(); }
};
inline ostream& endl(ostream& o) { return o << '\n'; } inline ostream& flush(ostream& o) { return o; }
template<> class basic_iostream<char, char_traits<char>> : public istream, public ostream {};
#define VS_FILE(C, B, DEF) template<> class C<char, char_traits<char>> : public B { public: C() {} \
  C(const char* n, openmode m = DEF) { open(n, m); } C(const string& n, openmode m = DEF) { open(n.c_str(), m); } \
  template<class P> explicit C(const P& n, openmode m = DEF, decltype(((const P*)0)->vs_path())* = 0) { open(n.c_str(), m); } \
  void open(const char* n, openmode m = DEF) { m |= vs_def; while (*n == '/') n++; vs_f = fopen(n, (m & ios_base::app) ? "ab" : (m & ios_base::in) ? ((m & ios_base::out) ? "r+b" : "rb") : "wb"); if (!vs_f) vs_s |= failbit; else if (m & ios_base::ate) fseek(vs_f, 0, 2); } \
  void open(const string& n, openmode m = DEF) { open(n.c_str(), m); } template<class P> auto open(const P& n, openmode m = DEF) -> decltype(n.vs_path(), void()) { open(n.c_str(), m); } \
  static constexpr openmode vs_def = DEF; bool is_open() const { return vs_f != nullptr; } void close() { if (vs_f) fclose(vs_f); else vs_s |= failbit; vs_f = nullptr; } ~C() { if (vs_f) fclose(vs_f); vs_f = nullptr; } };
VS_FILE(basic_ifstream, istream, ios_base::in)
VS_FILE(basic_ofstream, ostream, ios_base::out)
#define VS_STR(C, B) template<> class C<char, char_traits<char>, allocator<char>> : public B { public: C() { vs_keep = true; } C(int) { vs_keep = true; } explicit C(const string& s, int = 0) { vs_keep = true; vs_b = s; } string str() const { return vs_b; } void str(const string& s) { vs_b = s; vs_p = 0; } };
VS_STR(basic_istringstream, istream) VS_STR(basic_ostringstream, ostream) VS_STR(basic_stringstream, iostream)
template<> class istreambuf_iterator<char, char_traits<char>> {
public: typedef input_iterator_tag iterator_category; typedef char value_type; typedef long difference_type; typedef char* pointer; typedef char reference;
  ios* o = nullptr; istream* s = nullptr; int c = -1;
  istreambuf_iterator() {} istreambuf_iterator(istream& i) : s(&i) { c = i.vs_get(); if (c < 0) s = nullptr; } istreambuf_iterator(streambuf* b) : istreambuf_iterator(*static_cast<istream*>(nullptr)) {}
  char operator*() const { return (char)c; } istreambuf_iterator& operator++() { c = s->vs_get(); if (c < 0) s = nullptr; return *this; } istreambuf_iterator operator++(int) { istreambuf_iterator t = *this; ++*this; return t; }
  bool equal(const istreambuf_iterator& b) const { return (s == nullptr) == (b.s == nullptr); } };
template<class C, class T> istreambuf_iterator(basic_istream<C, T>&) -> istreambuf_iterator<C, T>;
inline bool operator==(const istreambuf_iterator<char>& a, const istreambuf_iterator<char>& b) { return a.equal(b); } inline bool operator!=(const istreambuf_iterator<char>& a, const istreambuf_iterator<char>& b) { return !a.equal(b); }
inline istream& getline(istream& i, string& l, char d = '\n') { l.clear(); int c; bool any = false; while ((c = i.vs_get()) >= 0) { any = true; if (c == d) return i; l.push_back((char)c); } i.vs_s |= ios_base::eofbit; if (!any) i.vs_s |= ios_base::failbit; return i; }
template<> class ostreambuf_iterator<char, char_traits<char>> { public: typedef output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference; ostream* o; ostreambuf_iterator(ostream& s) : o(&s) {} ostreambuf_iterator& operator*() { return *this; } ostreambuf_iterator& operator++() { return *this; } ostreambuf_iterator& operator++(int) { return *this; } ostreambuf_iterator& operator=(char c) { o->put(c); return *this; } };
}
