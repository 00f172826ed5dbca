// Stand-in for <ostream>/<sstream>/<iostream> used only for symbolic execution: the same overloads, writing into a
// std::string.  Doubles/ids are formatted by the engine (symbolic value -> sign + unique token).
#ifndef SE_OSTREAM_H
#define SE_OSTREAM_H
#define _GLIBCXX_OSTREAM 1
#define _GLIBCXX_SSTREAM 1
#define _GLIBCXX_IOSTREAM 1
#define _GLIBCXX_IOMANIP 1
#define _GLIBCXX_ISTREAM 1
#define _GLIBCXX_FSTREAM 1
#define _GLIBCXX_IOS 1
#define _GLIBXX_STREAMBUF 1
#define _IOS_BASE_H 1
#define _STREAMBUF_ITERATOR_H 1
#include <iosfwd>
#include <string>
extern "C" { int se_fmt_double(double v, int prec, char *buf); int se_fmt_i64(long v, char *buf); int se_fmt_u64(unsigned long v, char *buf); }
namespace std {
  class ios_base {
  public:
    typedef int fmtflags; typedef int openmode; typedef int iostate;
    static const openmode in = 1, out = 2, app = 4, ate = 8; static const openmode trunc = 16, binary = 32; static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4; static const fmtflags fixed_ = 1;
    static const fmtflags fixed = 1, scientific = 2, floatfield = 3, boolalpha = 4, dec = 8, hex = 16, oct = 32, basefield = 24, left = 64, right = 128, internal = 256, adjustfield = 448, showpoint = 512, showpos = 1024, showbase = 2048, uppercase = 4096, skipws = 8192, unitbuf = 16384;
    int prec_; int flags_;
    ios_base() : prec_(6), flags_(0) {}
    streamsize precision() const { return prec_; }
    streamsize precision(streamsize p) { int o = prec_; prec_ = (int)p; return o; }
    fmtflags flags() const { return flags_; } fmtflags flags(fmtflags f) { int o = flags_; flags_ = f; return o; }
    fmtflags setf(fmtflags f) { int o = flags_; flags_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { int o = flags_; flags_ = (flags_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { flags_ &= ~f; }
    int se_mode() const { int p = prec_ < 0 ? 6 : prec_ > 40 ? 40 : prec_; int m = flags_ & floatfield; return p | (m == fixed ? 256 : m == scientific ? 512 : 0); }
    streamsize width() const { return 0; } streamsize width(streamsize) { return 0; }
  };
  template <> class basic_ostream<char, char_traits<char> > : public ios_base {
  protected: std::string *sink_;
  public:
    typedef char char_type; typedef char_traits<char> traits_type;
    explicit basic_ostream(std::string *s) : sink_(s) {}
    virtual ~basic_ostream() {}
    basic_ostream &se_put(const char *s, size_t n) { if (sink_) sink_->append(s, n); return *this; }
    basic_ostream &write(const char *s, streamsize n) { return se_put(s, n); }
    basic_ostream &put(char c) { return se_put(&c, 1); }
    basic_ostream &flush() { return *this; }
    basic_ostream &operator<<(bool v) { return put(v ? '1' : '0'); }
    basic_ostream &operator<<(int v) { return *this << (long)v; }
    basic_ostream &operator<<(short v) { return *this << (long)v; }
    basic_ostream &operator<<(unsigned short v) { return *this << (unsigned long)v; }
    basic_ostream &operator<<(unsigned v) { return *this << (unsigned long)v; }
    basic_ostream &operator<<(long long v) { return *this << (long)v; }
    basic_ostream &operator<<(unsigned long long v) { return *this << (unsigned long)v; }
    basic_ostream &operator<<(long v) { if (!sink_) return *this; char b[64]; int n = se_fmt_i64(v, b); return se_put(b, n); }
    basic_ostream &operator<<(unsigned long v) { if (!sink_) return *this; int b_ = flags_ & basefield; if ((b_ == hex && v > 9) || (b_ == oct && v > 7)) put('x'); char b[64]; int n = se_fmt_u64(v, b); return se_put(b, n); }
    basic_ostream &operator<<(double v) { if (!sink_) return *this; char b[400]; int n = se_fmt_double(v, se_mode(), b); return se_put(b, n); }
    basic_ostream &operator<<(float v) { return *this << (double)v; }
    basic_ostream &operator<<(long double v) { return *this << (double)v; }
    basic_ostream &operator<<(const void *) { return se_put("0xptr", 5); }
    basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
    basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
    void clear(iostate = 0) {} void setstate(iostate) {} iostate rdstate() const { return 0; } bool good() const { return true; } bool bad() const { return false; } bool eof() const { return false; } bool operator!() const { return false; } bool fail() const { return false; } operator bool() const { return true; }
  };
  typedef basic_ostream<char, char_traits<char> > ostream;
  inline ostream &operator<<(ostream &o, const char *s) { return o.se_put(s, char_traits<char>::length(s)); }
  inline ostream &operator<<(ostream &o, char c) { return o.se_put(&c, 1); }
  inline ostream &operator<<(ostream &o, const std::string &s) { return o.se_put(s.data(), s.size()); }
  inline ostream &endl(ostream &o) { return o.put('\n'); }
  inline ostream &ends(ostream &o) { return o; }
  inline ostream &flush(ostream &o) { return o; }
  inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
  inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
  inline ios_base &boolalpha(ios_base &b) { return b; } inline ios_base &noboolalpha(ios_base &b) { return b; } inline ios_base &showpoint(ios_base &b) { return b; } inline ios_base &noshowpoint(ios_base &b) { return b; }
  inline ios_base &noshowpos(ios_base &b) { return b; } inline ios_base &left(ios_base &b) { return b; } inline ios_base &right(ios_base &b) { return b; } inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; } inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
  inline ostream &operator<<(ostream &o, signed char c) { return o << (char)c; } inline ostream &operator<<(ostream &o, unsigned char c) { return o << (char)c; }
  template<typename T> inline auto operator<<(ostream &&o, const T &v) -> decltype(o << v) { return o << v; }
  struct _SePrec { int n; };
  inline _SePrec setprecision(int n) { _SePrec p = {n}; return p; }
  inline ostream &operator<<(ostream &o, _SePrec p) { o.precision(p.n); return o; }
  struct _SeW { int n; }; inline _SeW setw(int n) { _SeW w = {n}; return w; } inline ostream &operator<<(ostream &o, _SeW) { return o; } inline _SeW setfill(char) { _SeW w = {0}; return w; }
  template <> class basic_ostringstream<char, char_traits<char>, allocator<char> > : public ostream {
    std::string buf_; basic_ostringstream(const basic_ostringstream &); void operator=(const basic_ostringstream &);
  public:
    basic_ostringstream() : ostream(&buf_) {} explicit basic_ostringstream(const std::string &s) : ostream(&buf_), buf_(s) {}
    std::string str() const { return buf_; } void str(const std::string &s) { buf_ = s; } };
  template <> class basic_stringstream<char, char_traits<char>, allocator<char> > : public ostream {
    std::string buf_; basic_stringstream(const basic_stringstream &); void operator=(const basic_stringstream &);
  public:
    basic_stringstream() : ostream(&buf_) {} explicit basic_stringstream(const std::string &s) : ostream(&buf_), buf_(s) {}
    std::string str() const { return buf_; } void str(const std::string &s) { buf_ = s; } };
  inline string se_to_string(double v) { char b[400]; int n = se_fmt_double(v, 6 | 256, b); return string(b, n); } inline string se_to_string(float v) { return se_to_string((double)v); }
  template <class T> inline string se_to_string(T v) { return to_string(v); }
  typedef basic_ostringstream<char, char_traits<char>, allocator<char> > ostringstream;
  typedef basic_stringstream<char, char_traits<char>, allocator<char> > stringstream;
  static ostream cout(0); static ostream cerr(0); static ostream clog(0);
}
#define to_string se_to_string
#endif
