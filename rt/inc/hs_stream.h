// Stream classes used when the library is compiled for symbolic execution (replaces libstdc++'s <iostream> family,
// whose implementation lives in a shared library and cannot be executed symbolically).
#pragma once
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <ctime>
#include <cstdlib>
#include <cstdint>
#include <iosfwd>
#include <string>
#include <string_view>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <ios>
#include <locale>
extern "C" {
int __hs_fopen(const char *name, int mode); // 1 read 2 write(trunc) 4 append
long __hs_fsize(const char *name);
long __hs_fread(const char *name, long pos, void *buf, long n);
long __hs_fwrite(const char *name, long pos, const void *buf, long n);
int __hs_fexists(const char *name);
int __hs_fremove(const char *name);
int __hs_frename(const char *a, const char *b);
void __hs_stdout(const char *buf, long n);
int __hs_scan_num(const char *s, long n, int kind, void *out); // returns consumed characters, 0 if none
}
namespace std {
class ios_base {
  public:
    typedef unsigned openmode;
    typedef unsigned fmtflags;
    typedef unsigned iostate;
    typedef int seekdir;
    static constexpr openmode in = 1, out = 2, app = 4, trunc = 8, binary = 16, ate = 32;
    static constexpr fmtflags dec = 1, hex = 2, oct = 4, fixed = 8, scientific = 16, left = 32, right = 64, boolalpha = 128, showpoint = 256,
                              internal = 512, skipws = 1024, showpos = 2048, basefield = 7, floatfield = 24, adjustfield = 32 + 64 + 512, showbase = 4096,
                              unitbuf = 8192, uppercase = 16384;
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static constexpr seekdir beg = 0, cur = 1, end = 2;
    class Init { public: Init() {} };
    struct failure {};
    fmtflags fl = dec | skipws;
    long prec = 6, wid = 0;
    long precision() const { return prec; }
    long precision(long p) { long o = prec; prec = p; return o; }
    long width() const { return wid; }
    long width(long p) { long o = wid; wid = p; return o; }
    fmtflags flags() const { return fl; }
    fmtflags flags(fmtflags f) { fmtflags o = fl; fl = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = fl; fl |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl; fl = (fl & ~m) | (f & m); return o; }
    void unsetf(fmtflags f) { fl &= ~f; }
    static bool sync_with_stdio(bool = true) { return true; }
};
template <> class basic_streambuf<char, char_traits<char>> {
  public:
    enum { NONE, STDOUT, STRING, FILE_ };
    int kind = NONE;
    std::string s;    // string content
    std::string name; // file
    long rpos = 0, wpos = 0;
    bool open = false;
    unsigned mode = 0;
    void put(const char *p, long n) {
        if (kind == STRING) s.append(p, n);
        else if (kind == STDOUT) __hs_stdout(p, n);
        else if (kind == FILE_ && open && n > 0) {
            if (mode & 4) wpos = __hs_fsize(name.c_str());
            __hs_fwrite(name.c_str(), wpos, p, n);
            wpos += n;
        }
    }
    long get(char *p, long n) {
        if (kind == STRING) {
            long m = (long)s.size() - rpos;
            if (m > n) m = n;
            if (m > 0) memcpy(p, s.data() + rpos, m);
            else m = 0;
            rpos += m;
            return m;
        }
        if (kind == FILE_ && open) {
            long m = __hs_fread(name.c_str(), rpos, p, n);
            rpos += m;
            return m;
        }
        return 0;
    }
};
template <> class basic_ios<char, char_traits<char>> : public ios_base {
  public:
    basic_streambuf<char> *sb = nullptr;
    iostate st = 0;
    char fillc = ' ';
    basic_ios() {}
    iostate rdstate() const { return st; }
    void clear(iostate s = 0) { st = s; }
    void setstate(iostate s) { st |= s; }
    bool good() const { return st == 0; }
    bool eof() const { return st & eofbit; }
    bool fail() const { return st & (failbit | badbit); }
    bool bad() const { return st & badbit; }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    basic_streambuf<char> *rdbuf() const { return sb; }
    basic_streambuf<char> *rdbuf(basic_streambuf<char> *b) {
        auto o = sb;
        sb = b;
        st = b ? 0 : badbit;
        return o;
    }
    char fill() const { return fillc; }
    char fill(char c) { char o = fillc; fillc = c; return o; }
    basic_ios &copyfmt(const basic_ios &o) {
        fl = o.fl; prec = o.prec; wid = o.wid; fillc = o.fillc;
        return *this;
    }
    void exceptions(iostate) {}
};
template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char> {
  public:
    basic_ostream(basic_streambuf<char> *b = nullptr) {
        sb = b;
        if (!b) st = badbit;
    }
    basic_ostream(const basic_ostream &o) : basic_ios<char>() { sb = o.sb; st = o.st; }
    basic_ostream &write(const char *p, long n) {
        if (!fail() && sb) sb->put(p, n);
        return *this;
    }
    basic_ostream &put(char c) { return write(&c, 1); }
    basic_ostream &flush() { return *this; }
    long tellp() { return sb ? sb->wpos : -1; }
    basic_ostream &seekp(long p) { if (sb) sb->wpos = p; return *this; }
    void emit(const char *p, long n) {
        if (fail() || !sb) return;
        if (wid > n) {
            std::string t;
            long k = wid - n;
            if (fl & left) { t.assign(p, n); t.append(k, fillc); }
            else { t.assign(k, fillc); t.append(p, n); }
            sb->put(t.data(), t.size());
        } else
            sb->put(p, n);
        wid = 0;
    }
    basic_ostream &num(long v) {
        char b[64];
        int n = snprintf(b, 64, fl & hex ? "%lx" : fl & oct ? "%lo" : fl & showpos ? "%+ld" : "%ld", v);
        emit(b, n);
        return *this;
    }
    basic_ostream &unum(unsigned long v) {
        char b[64];
        int n = snprintf(b, 64, fl & hex ? "%lx" : fl & oct ? "%lo" : "%lu", v);
        emit(b, n);
        return *this;
    }
    basic_ostream &flt(double v) {
        char b[400];
        int n = snprintf(b, 400, (fl & floatfield) == fixed ? "%.*f" : (fl & floatfield) == scientific ? "%.*e" : "%.*g", (int)prec, v);
        emit(b, n);
        return *this;
    }
    basic_ostream &operator<<(bool v) {
        if (fl & boolalpha) { emit(v ? "true" : "false", v ? 4 : 5); return *this; }
        return num(v);
    }
    basic_ostream &operator<<(short v) { return num(v); }
    basic_ostream &operator<<(unsigned short v) { return unum(v); }
    basic_ostream &operator<<(int v) { return num(v); }
    basic_ostream &operator<<(unsigned v) { return unum(v); }
    basic_ostream &operator<<(long v) { return num(v); }
    basic_ostream &operator<<(unsigned long v) { return unum(v); }
    basic_ostream &operator<<(long long v) { return num(v); }
    basic_ostream &operator<<(unsigned long long v) { return unum(v); }
    basic_ostream &operator<<(double v) { return flt(v); }
    basic_ostream &operator<<(float v) { return flt(v); }
    basic_ostream &operator<<(long double v) { return flt((double)v); }
    basic_ostream &operator<<(const void *v) { return unum((unsigned long)v); }
    basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
    basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
    basic_ostream &operator<<(basic_streambuf<char> *b) { if (b) emit(b->s.data(), b->s.size()); return *this; }
};
inline ostream &operator<<(ostream &o, char c) { o.emit(&c, 1); return o; }
inline ostream &operator<<(ostream &o, signed char c) { o.emit((char *)&c, 1); return o; }
inline ostream &operator<<(ostream &o, unsigned char c) { o.emit((char *)&c, 1); return o; }
inline ostream &operator<<(ostream &o, const char *s) { o.emit(s, strlen(s)); return o; }
inline ostream &operator<<(ostream &o, const std::string &s) { o.emit(s.data(), s.size()); return o; }
inline ostream &operator<<(ostream &o, std::string_view s) { o.emit(s.data(), s.size()); return o; }
template <class T> inline enable_if_t<!is_lvalue_reference<T>::value, ostream &> operator<<(ostream &&o, const T &v) { return o << v; }
inline ostream &endl(ostream &o) { char c = '\n'; o.write(&c, 1); return o; }
inline ostream &flush(ostream &o) { return o; }
inline ostream &ends(ostream &o) { return o; }
template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char> {
  public:
    long gc = 0;
    basic_istream(basic_streambuf<char> *b = nullptr) { sb = b; }
    int getc_() {
        char c;
        if (!sb || sb->get(&c, 1) != 1) return -1;
        return (unsigned char)c;
    }
    void unget_() { sb->rpos--; }
    int get() {
        int c = getc_();
        if (c < 0) st |= eofbit | failbit;
        return c;
    }
    basic_istream &get(char &c) {
        int x = get();
        if (x >= 0) c = (char)x;
        return *this;
    }
    int peek() {
        int c = getc_();
        if (c >= 0) unget_();
        else st |= eofbit;
        return c;
    }
    basic_istream &unget() { unget_(); return *this; }
    basic_istream &putback(char) { unget_(); return *this; }
    basic_istream &ignore(long n = 1, int delim = -1) {
        while (n-- > 0) {
            int c = getc_();
            if (c < 0) { st |= eofbit; break; }
            if (c == delim) break;
        }
        return *this;
    }
    basic_istream &read(char *p, long n) {
        if (fail() || !sb) { st |= failbit; gc = 0; return *this; }
        gc = sb->get(p, n);
        if (gc < n) st |= eofbit | failbit;
        return *this;
    }
    long gcount() const { return gc; }
    long tellg() { return sb ? sb->rpos : -1; }
    basic_istream &seekg(long p) { st &= ~eofbit; if (sb) sb->rpos = p; return *this; }
    basic_istream &seekg(long p, seekdir d) {
        if (!sb) return *this;
        st &= ~eofbit;
        long n = sb->kind == basic_streambuf<char>::STRING ? (long)sb->s.size() : __hs_fsize(sb->name.c_str());
        sb->rpos = d == beg ? p : d == cur ? sb->rpos + p : n + p;
        return *this;
    }
    void skip() {
        if (!(fl & skipws)) return;
        for (;;) {
            int c = getc_();
            if (c < 0) { st |= eofbit; return; }
            if (c != ' ' && c != '\t' && c != '\n' && c != '\r' && c != '\v' && c != '\f') { unget_(); return; }
        }
    }
    bool token(std::string &t) {
        t.clear();
        if (fail() || !sb) { st |= failbit; return false; }
        skip();
        for (;;) {
            int c = getc_();
            if (c < 0) { st |= eofbit; break; }
            if (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f') { unget_(); break; }
            t.push_back((char)c);
        }
        if (t.empty()) { st |= failbit; return false; }
        return true;
    }
    template <class T> basic_istream &number(T &v, int kind) {
        std::string t;
        if (!token(t)) { v = 0; return *this; }
        int k = __hs_scan_num(t.c_str(), t.size(), kind, &v);
        if (k <= 0) { st |= failbit; v = 0; sb->rpos -= (long)t.size(); st &= ~eofbit; return *this; }
        if (k < (long)t.size()) { st &= ~eofbit; sb->rpos -= (long)t.size() - k; }
        return *this;
    }
    basic_istream &operator>>(short &v) { return number(v, 0); }
    basic_istream &operator>>(int &v) { return number(v, 1); }
    basic_istream &operator>>(long &v) { return number(v, 2); }
    basic_istream &operator>>(long long &v) { return number(v, 2); }
    basic_istream &operator>>(unsigned short &v) { return number(v, 3); }
    basic_istream &operator>>(unsigned &v) { return number(v, 4); }
    basic_istream &operator>>(unsigned long &v) { return number(v, 5); }
    basic_istream &operator>>(unsigned long long &v) { return number(v, 5); }
    basic_istream &operator>>(float &v) { return number(v, 6); }
    basic_istream &operator>>(double &v) { return number(v, 7); }
    basic_istream &operator>>(long double &v) { double d = 0; number(d, 7); v = d; return *this; }
    basic_istream &operator>>(bool &v) { int i = 0; number(i, 1); v = i != 0; return *this; }
    basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
    basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
    basic_istream &getline(char *p, long n, char d = '\n') {
        long i = 0;
        for (;;) {
            int c = getc_();
            if (c < 0) { st |= eofbit; if (!i) st |= failbit; break; }
            if (c == d) break;
            if (i + 1 >= n) { st |= failbit; break; }
            p[i++] = (char)c;
        }
        p[i] = 0;
        return *this;
    }
};
inline istream &ws(istream &i) { i.skip(); return i; }
inline istream &operator>>(istream &i, char &c) {
    i.skip();
    int x = i.get();
    if (x >= 0) c = (char)x;
    return i;
}
inline istream &operator>>(istream &i, std::string &s) { i.token(s); return i; }
inline istream &getline(istream &i, std::string &s, char d = '\n') {
    s.clear();
    if (i.fail() || !i.sb) { i.st |= ios_base::failbit; return i; }
    bool any = false;
    for (;;) {
        int c = i.getc_();
        if (c < 0) { i.st |= ios_base::eofbit; break; }
        any = true;
        if (c == (unsigned char)d) break;
        s.push_back((char)c);
    }
    if (!any) i.st |= ios_base::failbit;
    return i;
}
inline istream &getline(istream &&i, std::string &s, char d = '\n') { return getline(i, s, d); }
template <class T> inline enable_if_t<!is_lvalue_reference<T>::value, istream &> operator>>(istream &&i, T &v) { return i >> v; }
template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char>, public basic_ostream<char> {
  public:
    basic_iostream(basic_streambuf<char> *b = nullptr) { sb = b; st = 0; }
};
template <> class basic_stringbuf<char, char_traits<char>, allocator<char>> : public basic_streambuf<char> {
  public:
    basic_stringbuf() { kind = STRING; }
};
#define HS_SS(CLS, BASE)                                                                                                                             \
    template <> class CLS<char, char_traits<char>, allocator<char>> : public BASE {                                                                   \
      public:                                                                                                                                        \
        basic_streambuf<char> buf;                                                                                                                   \
        CLS() { buf.kind = basic_streambuf<char>::STRING; sb = &buf; st = 0; }                                                                        \
        explicit CLS(unsigned) : CLS() {}                                                                                                            \
        explicit CLS(const std::string &x, unsigned = 0) : CLS() { buf.s = x; }                                                                      \
        CLS(const CLS &) = delete;                                                                                                                   \
        CLS(CLS &&o) : CLS() { buf.s = o.buf.s; buf.rpos = o.buf.rpos; st = o.st; copyfmt(o); }                                                      \
        std::string str() const { return buf.s; }                                                                                                    \
        std::string_view view() const { return buf.s; }                                                                                              \
        void str(const std::string &x) { buf.s = x; buf.rpos = 0; }                                                                                   \
    }
HS_SS(basic_istringstream, basic_istream<char>);
HS_SS(basic_ostringstream, basic_ostream<char>);
HS_SS(basic_stringstream, basic_iostream<char>);
template <> class basic_filebuf<char, char_traits<char>> : public basic_streambuf<char> {
  public:
    basic_filebuf() { kind = FILE_; }
};
#define HS_FS(CLS, BASE, DEF, FORCE)                                                                                                                 \
    template <> class CLS<char, char_traits<char>> : public BASE {                                                                                    \
      public:                                                                                                                                        \
        basic_streambuf<char> buf;                                                                                                                   \
        CLS() { buf.kind = basic_streambuf<char>::FILE_; sb = &buf; st = 0; }                                                                         \
        explicit CLS(const std::string &n, unsigned m = DEF) : CLS() { open(n, m); }                                                                  \
        explicit CLS(const char *n, unsigned m = DEF) : CLS() { open(n, m); }                                                                         \
        CLS(CLS &&o) : CLS() { buf.name = o.buf.name; buf.open = o.buf.open; buf.rpos = o.buf.rpos; buf.wpos = o.buf.wpos; buf.mode = o.buf.mode; st = o.st; o.buf.open = false; } \
        ~CLS() {}                                                                                                                                    \
        void open(const std::string &n, unsigned m = DEF) { open(n.c_str(), m); }                                                                     \
        void open(const char *n, unsigned m = DEF) {                                                                                                  \
            m |= FORCE;                                                                                                                              \
            unsigned f = 0;                                                                                                                          \
            if (m & in) f |= 1;                                                                                                                      \
            if (m & app) f |= 4;                                                                                                                     \
            else if ((m & out) && ((m & trunc) || !(m & in))) f |= 2;                                                                                 \
            if (buf.open) { st |= failbit; return; }                                                                                                 \
            if (!__hs_fopen(n, f)) { st |= failbit; return; }                                                                                        \
            buf.name = n; buf.open = true; buf.rpos = buf.wpos = 0; buf.mode = f; st = 0;                                                             \
        }                                                                                                                                            \
        void close() { if (!buf.open) st |= failbit; buf.open = false; }                                                                              \
        bool is_open() const { return buf.open; }                                                                                                    \
        basic_filebuf<char> *rdbuf() const { return (basic_filebuf<char> *)(void *)const_cast<basic_streambuf<char> *>(&buf); }                       \
        basic_streambuf<char> *rdbuf(basic_streambuf<char> *b) { return basic_ios<char>::rdbuf(b); }                                                  \
    }
HS_FS(basic_ifstream, basic_istream<char>, 1, 1);
HS_FS(basic_ofstream, basic_ostream<char>, 2, 2);
HS_FS(basic_fstream, basic_iostream<char>, 3, 0);
extern ostream cout, cerr, clog;
extern istream cin;
typedef ios_base::openmode hs_openmode_;
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &showpos(ios_base &b) { b.setf(ios_base::showpos); return b; }
inline ios_base &noshowpos(ios_base &b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base &showpoint(ios_base &b) { b.setf(ios_base::showpoint); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
struct hs_setw { long n; };
struct hs_setp { long n; };
struct hs_setf { char c; };
inline hs_setw setw(long n) { return {n}; }
inline hs_setp setprecision(long n) { return {n}; }
inline hs_setf setfill(char c) { return {c}; }
inline ostream &operator<<(ostream &o, hs_setw w) { o.width(w.n); return o; }
inline ostream &operator<<(ostream &o, hs_setp w) { o.precision(w.n); return o; }
inline ostream &operator<<(ostream &o, hs_setf w) { o.fill(w.c); return o; }
inline istream &operator>>(istream &o, hs_setw w) { o.width(w.n); return o; }
struct hs_puttime { const void *t; const char *f; };
template <class T> inline hs_puttime put_time(const T *t, const char *f) { return {t, f}; }
inline ostream &operator<<(ostream &o, hs_puttime) { o.emit("TIME", 4); return o; }
} // namespace std
