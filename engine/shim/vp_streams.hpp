/* Stream classes for symbolic execution: every operation is handed to the
 * engine through a small C interface; the state lives in the engine. */
#ifndef VP_STREAMS_HPP
#define VP_STREAMS_HPP
#include <iosfwd>
#include <string>
#include <cstddef>
#include <cstdlib>
extern "C" {
int  vp_s_new(int kind);                       /* 0 file, 1 string */
void vp_s_del(int h);
void vp_s_open(int h, const char *p, size_t n, int mode);
void vp_s_close(int h);
int  vp_s_is_open(int h);
int  vp_s_state(int h);                        /* 1 eof 2 fail 4 bad */
void vp_s_setstate(int h, int s);              /* assign */
void vp_s_dbl(int h, double x);
void vp_s_int(int h, long long x, int bits);
void vp_s_uint(int h, unsigned long long x, int bits);
void vp_s_bool(int h, int x);
void vp_s_str(int h, const char *p, size_t n);
void vp_s_chr(int h, char c);
void vp_s_ptr(int h, const void *p);
void vp_s_raw(int h, const char *p, size_t n);
long vp_s_prec(int h, long p);                 /* sets if p>=0, returns the old value */
long vp_s_width(int h, long p);
int  vp_s_flags(int h, int set, int clr);      /* returns the old flags */
int  vp_s_fill(int h, int c);
int  vp_s_get(int h);                          /* -1 at end */
int  vp_s_peek(int h);
long vp_s_tell(int h);
void vp_s_seek(int h, long p, int whence);
long vp_s_strsize(int h);
int  vp_s_strget(int h, long i);
void vp_s_strset(int h, const char *p, size_t n);
void vp_s_flush(int h);
}
namespace std {
typedef ptrdiff_t streamsize_vp;
class ios_base {
public:
   int _h;
   typedef int openmode; typedef int fmtflags; typedef int iostate; typedef int seekdir;
   static const openmode app=1, ate=2, binary=4, in=8, out=16, trunc=32;
   static const iostate goodbit=0, badbit=4, eofbit=1, failbit=2;
   static const seekdir beg=0, cur=1, end=2;
   static const fmtflags fixed=1, scientific=2, boolalpha=4, dec=8, hex=16, oct=32,
      left=64, right=128, internal=256, showpos=512, showpoint=1024, skipws=2048,
      uppercase=4096, unitbuf=8192, showbase=16384,
      floatfield=3, basefield=56, adjustfield=448;
   ptrdiff_t precision() const { return vp_s_prec(_h,-1); }
   ptrdiff_t precision(ptrdiff_t p) { return vp_s_prec(_h,p); }
   ptrdiff_t width() const { return vp_s_width(_h,-1); }
   ptrdiff_t width(ptrdiff_t p) { return vp_s_width(_h,p); }
   fmtflags flags() const { return vp_s_flags(_h,0,0); }
   fmtflags flags(fmtflags f) { return vp_s_flags(_h,f,~f); }
   fmtflags setf(fmtflags f) { return vp_s_flags(_h,f,0); }
   fmtflags setf(fmtflags f, fmtflags m) { return vp_s_flags(_h,f&m,m); }
   void unsetf(fmtflags f) { vp_s_flags(_h,0,f); }
   static bool sync_with_stdio(bool=true) { return true; }
};
template<class C, class T> class basic_ios : public ios_base {
public:
   bool good() const { return vp_s_state(_h)==0; }
   bool eof() const { return vp_s_state(_h)&1; }
   bool fail() const { return vp_s_state(_h)&6; }
   bool bad() const { return vp_s_state(_h)&4; }
   explicit operator bool() const { return !fail(); }
   bool operator!() const { return fail(); }
   iostate rdstate() const { return vp_s_state(_h); }
   void clear(iostate s=0) { vp_s_setstate(_h,s); }
   void setstate(iostate s) { vp_s_setstate(_h,s|vp_s_state(_h)); }
   C fill() const { return C(vp_s_fill(_h,-1)); }
   C fill(C c) { return C(vp_s_fill(_h,(unsigned char)c)); }
   void exceptions(iostate) {}
};
inline ios_base& fixed(ios_base&b){ b.setf(ios_base::fixed,ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base&b){ b.setf(ios_base::scientific,ios_base::floatfield); return b; }
inline ios_base& hexfloat(ios_base&b){ b.setf(3,ios_base::floatfield); return b; }
inline ios_base& defaultfloat(ios_base&b){ b.setf(0,ios_base::floatfield); return b; }
inline ios_base& boolalpha(ios_base&b){ b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base&b){ b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& left(ios_base&b){ b.setf(ios_base::left,ios_base::adjustfield); return b; }
inline ios_base& right(ios_base&b){ b.setf(ios_base::right,ios_base::adjustfield); return b; }
inline ios_base& internal(ios_base&b){ b.setf(ios_base::internal,ios_base::adjustfield); return b; }
inline ios_base& showpos(ios_base&b){ b.setf(ios_base::showpos); return b; }
inline ios_base& showpoint(ios_base&b){ b.setf(ios_base::showpoint); return b; }
inline ios_base& dec(ios_base&b){ b.setf(ios_base::dec,ios_base::basefield); return b; }
inline ios_base& hex(ios_base&b){ b.setf(ios_base::hex,ios_base::basefield); return b; }
inline ios_base& skipws(ios_base&b){ b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base&b){ b.unsetf(ios_base::skipws); return b; }

template<class C, class T> class basic_ostream : public basic_ios<C,T> {
public:
   typedef basic_ostream<C,T> S;
   basic_ostream() {}
   S& operator<<(S&(*f)(S&)) { return f(*this); }
   S& operator<<(basic_ios<C,T>&(*f)(basic_ios<C,T>&)) { f(*this); return *this; }
   S& operator<<(ios_base&(*f)(ios_base&)) { f(*this); return *this; }
   S& operator<<(double x) { vp_s_dbl(this->_h,x); return *this; }
   S& operator<<(float x) { vp_s_dbl(this->_h,x); return *this; }
   S& operator<<(long double x) { vp_s_dbl(this->_h,(double)x); return *this; }
   S& operator<<(int x) { vp_s_int(this->_h,x,32); return *this; }
   S& operator<<(short x) { vp_s_int(this->_h,x,16); return *this; }
   S& operator<<(long x) { vp_s_int(this->_h,x,64); return *this; }
   S& operator<<(long long x) { vp_s_int(this->_h,x,64); return *this; }
   S& operator<<(unsigned x) { vp_s_uint(this->_h,x,32); return *this; }
   S& operator<<(unsigned short x) { vp_s_uint(this->_h,x,16); return *this; }
   S& operator<<(unsigned long x) { vp_s_uint(this->_h,x,64); return *this; }
   S& operator<<(unsigned long long x) { vp_s_uint(this->_h,x,64); return *this; }
   S& operator<<(bool x) { vp_s_bool(this->_h,x); return *this; }
   S& operator<<(const void *x) { vp_s_ptr(this->_h,x); return *this; }
   S& put(C c) { vp_s_raw(this->_h,&c,1); return *this; }
   S& write(const C *p, ptrdiff_t n) { vp_s_raw(this->_h,p,n); return *this; }
   S& flush() { vp_s_flush(this->_h); return *this; }
};
inline ostream& operator<<(ostream&o, const char *s) { vp_s_str(o._h,s,char_traits<char>::length(s)); return o; }
inline ostream& operator<<(ostream&o, char c) { vp_s_chr(o._h,c); return o; }
inline ostream& operator<<(ostream&o, signed char c) { vp_s_chr(o._h,c); return o; }
inline ostream& operator<<(ostream&o, unsigned char c) { vp_s_chr(o._h,c); return o; }
inline ostream& operator<<(ostream&o, const string &s) { vp_s_str(o._h,s.data(),s.size()); return o; }
inline ostream& endl(ostream&o) { char c='\n'; vp_s_raw(o._h,&c,1); vp_s_flush(o._h); return o; }
inline ostream& ends(ostream&o) { char c=0; vp_s_raw(o._h,&c,1); return o; }
inline ostream& flush(ostream&o) { vp_s_flush(o._h); return o; }
struct _Setp { long n; }; struct _Setw { long n; }; struct _Setf { int c; }; struct _SetI { int f; }; struct _RstI { int f; };
inline _Setp setprecision(int n) { _Setp r; r.n=n; return r; }
inline _Setw setw(int n) { _Setw r; r.n=n; return r; }
inline _Setf setfill(char c) { _Setf r; r.c=(unsigned char)c; return r; }
inline _SetI setiosflags(int f) { _SetI r; r.f=f; return r; }
inline _RstI resetiosflags(int f) { _RstI r; r.f=f; return r; }
inline ostream& operator<<(ostream&o, _Setp s) { vp_s_prec(o._h,s.n); return o; }
inline ostream& operator<<(ostream&o, _Setw s) { vp_s_width(o._h,s.n); return o; }
inline ostream& operator<<(ostream&o, _Setf s) { vp_s_fill(o._h,s.c); return o; }
inline ostream& operator<<(ostream&o, _SetI s) { vp_s_flags(o._h,s.f,0); return o; }
inline ostream& operator<<(ostream&o, _RstI s) { vp_s_flags(o._h,0,s.f); return o; }

inline bool vp_isspace(int c) { return c==' '||c=='\n'||c=='\t'||c=='\r'||c=='\v'||c=='\f'; }
template<class C, class T> class basic_istream : public basic_ios<C,T> {
public:
   typedef basic_istream<C,T> S;
   long _gc;
   basic_istream() : _gc(0) {}
   S& operator>>(S&(*f)(S&)) { return f(*this); }
   S& operator>>(ios_base&(*f)(ios_base&)) { f(*this); return *this; }
   int get() { if (!this->good()) { this->setstate(2); _gc=0; return -1; } int c=vp_s_get(this->_h); _gc=(c>=0); if (c<0) this->setstate(3); return c; }
   S& get(C&o) { int c=get(); if (c>=0) o=C(c); return *this; }
   int peek() { if (!this->good()) return -1; int c=vp_s_peek(this->_h); if (c<0) this->setstate(1); return c; }
   ptrdiff_t gcount() const { return _gc; }
   S& ignore(ptrdiff_t n=1, int delim=-2) {
      for (ptrdiff_t i=0;i<n;i++) { int c=vp_s_get(this->_h); if (c<0) { this->setstate(1); break; } if (c==delim) break; }
      return *this; }
   long tellg() { return vp_s_tell(this->_h); }
   S& seekg(long p) { vp_s_setstate(this->_h, vp_s_state(this->_h)&~1); vp_s_seek(this->_h,p,0); return *this; }
   S& seekg(long p, int w) { vp_s_setstate(this->_h, vp_s_state(this->_h)&~1); vp_s_seek(this->_h,p,w); return *this; }
   bool _skip() {
      if (!this->good()) { this->setstate(2); return false; }
      if (vp_s_flags(this->_h,0,0)&ios_base::skipws)
         for (;;) { int c=vp_s_peek(this->_h); if (c<0) { this->setstate(3); return false; } if (!vp_isspace(c)) break; vp_s_get(this->_h); }
      return true; }
   size_t _num(char *b, size_t cap, bool fl) {
      size_t n=0;
      if (!_skip()) { b[0]=0; return 0; }
      for (;;) { int c=vp_s_peek(this->_h);
         if (c<0) { this->setstate(1); break; }
         bool ok = (c>='0'&&c<='9')||((c=='-'||c=='+')&&(n==0||(fl&&(b[n-1]=='e'||b[n-1]=='E'))))||(fl&&(c=='.'||c=='e'||c=='E'))||c==1||c==2;
         if (!ok||n+1>=cap) break;
         b[n++]=char(c); vp_s_get(this->_h); }
      b[n]=0;
      return n; }
   S& operator>>(double &x) { char b[64]; size_t n=_num(b,64,true); char *e; if (!n) { if (!this->fail()) this->setstate(2); x=0; return *this; } x=strtod(b,&e); if (*e||e==b) this->setstate(2); return *this; }
   S& operator>>(long &x) { char b[64]; size_t n=_num(b,64,false); char *e; if (!n) { if (!this->fail()) this->setstate(2); x=0; return *this; } x=strtol(b,&e,10); if (*e||e==b) this->setstate(2); return *this; }
   S& operator>>(int &x) { long y=0; *this>>y; x=int(y); return *this; }
   S& operator>>(unsigned long &x) { long y=0; *this>>y; x=(unsigned long)y; return *this; }
   S& operator>>(unsigned &x) { long y=0; *this>>y; x=(unsigned)y; return *this; }
};
inline istream& ws(istream&i) { for (;;) { int c=vp_s_peek(i._h); if (c<0) { i.setstate(1); break; } if (!vp_isspace(c)) break; vp_s_get(i._h); } return i; }
inline istream& getline(istream&i, string&s, char d) {
   if (!i.good()) { i.setstate(2); return i; }
   s.clear(); bool any=false;
   for (;;) { int c=vp_s_get(i._h); if (c<0) { i.setstate(any?1:3); break; } any=true; if (c==(unsigned char)d) break; s.push_back(char(c)); }
   return i; }
inline istream& getline(istream&i, string&s) { return getline(i,s,'\n'); }
inline istream& operator>>(istream&i, string&s) {
   if (!i._skip()) return i;
   s.clear();
   for (;;) { int c=vp_s_peek(i._h); if (c<0) { i.setstate(1); break; } if (vp_isspace(c)) break; s.push_back(char(c)); vp_s_get(i._h); }
   if (s.empty()) i.setstate(2);
   return i; }
inline istream& operator>>(istream&i, char&o) { if (!i._skip()) return i; int c=vp_s_get(i._h); if (c<0) i.setstate(3); else o=char(c); return i; }

#define VP_BOTH(B) \
   using B::good; using B::eof; using B::fail; using B::bad; using B::operator!; using B::rdstate; using B::clear; using B::setstate; \
   using B::precision; using B::width; using B::flags; using B::setf; using B::unsetf; using B::fill; \
   explicit operator bool() const { return !B::fail(); }
template<class C, class T> class basic_iostream : public basic_istream<C,T>, public basic_ostream<C,T> {
public:
   typedef basic_istream<C,T> I; typedef basic_ostream<C,T> O;
   using I::operator>>; using O::operator<<;
   VP_BOTH(I)
   void _set(int h) { static_cast<I*>(this)->_h=h; static_cast<O*>(this)->_h=h; }
   int _hh() const { return static_cast<const I*>(this)->_h; }
};
#define VP_FILE(NAME,BASE,DEF,SETH,GETH) \
template<class C, class T> class NAME : public BASE<C,T> { \
   NAME(const NAME&); void operator=(const NAME&); \
public: \
   NAME() { SETH(vp_s_new(0)); } \
   explicit NAME(const char *n, int m=DEF) { SETH(vp_s_new(0)); open(n,m); } \
   explicit NAME(const string &n, int m=DEF) { SETH(vp_s_new(0)); open(n,m); } \
   ~NAME() { vp_s_del(GETH); } \
   void open(const char *n, int m=DEF) { vp_s_open(GETH,n,char_traits<char>::length(n),m|(DEF)); } \
   void open(const string &n, int m=DEF) { vp_s_open(GETH,n.data(),n.size(),m|(DEF)); } \
   bool is_open() const { return vp_s_is_open(GETH); } \
   void close() { vp_s_close(GETH); } };
VP_FILE(basic_ofstream,basic_ostream,16,this->_h=,this->_h)
VP_FILE(basic_ifstream,basic_istream,8,this->_h=,this->_h)
template<class C, class T> class basic_fstream : public basic_iostream<C,T> {
   basic_fstream(const basic_fstream&); void operator=(const basic_fstream&);
public:
   basic_fstream() { this->_set(vp_s_new(0)); }
   explicit basic_fstream(const string &n, int m=24) { this->_set(vp_s_new(0)); open(n,m); }
   ~basic_fstream() { vp_s_del(this->_hh()); }
   void open(const string &n, int m=24) { vp_s_open(this->_hh(),n.data(),n.size(),m); }
   bool is_open() const { return vp_s_is_open(this->_hh()); }
   void close() { vp_s_close(this->_hh()); } };
inline string vp_get_str(int h) { string s; long n=vp_s_strsize(h); for (long i=0;i<n;i++) s.push_back(char(vp_s_strget(h,i))); return s; }
#define VP_SS(NAME,BASE,SETH,GETH) \
template<class C, class T, class A> class NAME : public BASE<C,T> { \
   NAME(const NAME&); void operator=(const NAME&); \
public: \
   NAME() { SETH(vp_s_new(1)); } \
   explicit NAME(int) { SETH(vp_s_new(1)); } \
   explicit NAME(const string &s, int=24) { SETH(vp_s_new(1)); vp_s_strset(GETH,s.data(),s.size()); } \
   ~NAME() { vp_s_del(GETH); } \
   string str() const { return vp_get_str(GETH); } \
   void str(const string &s) { vp_s_strset(GETH,s.data(),s.size()); } };
inline namespace __cxx11 {
VP_SS(basic_ostringstream,basic_ostream,this->_h=,this->_h)
VP_SS(basic_istringstream,basic_istream,this->_h=,this->_h)
VP_SS(basic_stringstream,basic_iostream,this->_set,this->_hh())
}
extern ostream cout, cerr, clog;
extern istream cin;
}
#endif
