// Parameter files: the value that is written or an error
#include "hv.h"
#include "plumbing/input.h"
#include "plumbing/cmdline.h"
static const char *FN = "hv_input.dat";
static void put(const std::string &s) {
    if (hila::myrank() == 0) {
        std::ofstream o(FN);
        o << s;
    }
    hila::synchronize();
}
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static char draw(int i) {
    static const char set0[] = "07+-.e, #\n(a\"";
    int m = hs_parami("set", 0);
    if (m == 1) { // any character
        long c = hs_int("char", i, 1, 126);
        return (char)c;
    }
    if (m == 2) { static const char set[] = "17-. e"; return set[hs_choose("char", i, 0, 5)]; }
    if (m == 3) { static const char set[] = "1,() 5"; return set[hs_choose("char", i, 0, 5)]; }
    if (m == 4) { static const char set[] = "4, \n#"; return set[hs_choose("char", i, 0, 4)]; }
    if (m == 5) { static const char set[] = "a, \n\""; return set[hs_choose("char", i, 0, 4)]; }
    if (m == 6) { static const char set[] = "ab \t5"; return set[hs_choose("char", i, 0, 4)]; }
    return set0[hs_choose("char", i, 0, 12)];
}
static std::string drawn() {
    std::string s;
    for (int i = 0; i < hs_parami("n", 3); i++) s.push_back(draw(i));
    return s;
}
// the file as the documentation describes it
struct text {
    std::string t; // without comments
    size_t at = 0;
    bool quotes = true;
    text(const std::string &s) {
        bool comment = false;
        for (char c : s) {
            if (c == '#') comment = true;
            if (c == '\n') comment = false;
            if (!comment) t.push_back(c);
        }
    }
    void blanks() { while (at < t.size() && space(t[at])) at++; }
    // words of the key, then a blank, a comma or the end
    bool key(const char *k) {
        blanks();
        size_t a = at;
        for (; *k; k++) {
            if (a >= t.size()) return false;
            if (*k == ' ') {
                if (!space(t[a]) || t[a] == '\n') return false;
                while (a < t.size() && space(t[a]) && t[a] != '\n') a++;
            } else if (t[a++] != *k) return false;
        }
        if (a < t.size() && !space(t[a]) && t[a] != ',') return false;
        at = a;
        return true;
    }
    bool token(std::string &tok) {
        blanks();
        tok.clear();
        bool q = false;
        while (at < t.size() && t[at] != '\n' && (q || (!space(t[at]) && t[at] != ','))) {
            if (t[at] == '"') q = !q;
            tok.push_back(t[at++]);
        }
        if (q) quotes = false;
        return !tok.empty() && quotes;
    }
    bool comma() {
        blanks();
        if (at < t.size() && t[at] == ',') { at++; return true; }
        return false;
    }
    bool end() { blanks(); return at == t.size(); }
};
static bool integer(const std::string &s, long &v) {
    size_t i = s[0] == '+' || s[0] == '-', n = 0;
    for (v = 0; i < s.size(); i++, n++) {
        if (!digit(s[i])) return false;
        v = 10 * v + (s[i] - '0');
    }
    if (s[0] == '-') v = -v;
    return n > 0;
}
static bool real(const std::string &s, double &v) {
    size_t i = s[0] == '+' || s[0] == '-', n = 0;
    double m = 0, scale = 1;
    for (; i < s.size() && digit(s[i]); i++, n++) m = 10 * m + (s[i] - '0');
    if (i < s.size() && s[i] == '.') for (i++; i < s.size() && digit(s[i]); i++, n++) m = 10 * m + (s[i] - '0'), scale *= 10;
    if (!n) return false;
    int e = 0;
    if (i < s.size() && s[i] == 'e') {
        i++;
        bool neg = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
        size_t k = 0;
        for (; i < s.size() && digit(s[i]); i++, k++) e = 10 * e + (s[i] - '0');
        if (!k) return false;
        if (neg) e = -e;
    }
    v = m / scale;
    for (; e > 0; e--) v *= 10;
    for (; e < 0; e++) v /= 10;
    if (s[0] == '-') v = -v;
    return i == s.size();
}
static void follow(hila::input &f, text &t) { // what comes next is still to be read
    int x;
    bool ok = f.get_value(x, "next");
    std::string tok;
    long v = 0;
    bool good = t.key("next") && t.token(tok) && integer(tok, v);
    hs_check(ok == good, "the line after it");
    if (good) hs_check(x == v, "the value after it");
}
static void any_end(text &t) { if (!t.quotes) hs_reach("quotes"), hs_allow_exit(); } // unpaired quotes end the program
template <typename T> static void number_value(bool whole) {
    std::string s = drawn(), tok;
    text t("key" + s + "\nnext 5\n");
    put("# start\n\n  key" + s + "\nnext 5\n");
    long v = 0;
    double d = 0;
    bool key = t.key("key"), good = key && t.token(tok) && (whole ? integer(tok, v) : real(tok, d));
    any_end(t);
    hila::input f;
    f.quiet(hs_parami("quiet", 0));
    f.open(FN);
    T x;
    bool ok = f.get_value(x, "key");
    hs_check(t.quotes, "unpaired quotes are refused");
    hs_check(ok == good, "a number is read if and only if there is one");
    if (good) {
        if (whole) hs_check(x == (T)v, "the number that is written");
        else hs_check(x - d < 1e-12 && d - x < 1e-12, "the real number that is written");
        hs_reach("number");
        text u = t;
        std::string w;
        if (u.key("next")) u.token(w);
        any_end(u);
        follow(f, t);
    } else hs_reach("error");
}
static void string_value() {
    std::string s = drawn(), tok, want;
    text t("key" + s + "\nnext 5\n");
    put("key" + s + "\nnext 5\n");
    bool good = t.key("key") && t.token(tok);
    any_end(t);
    for (char c : tok) if (c != '"') want.push_back(c);
    hila::input f;
    f.quiet(hs_parami("quiet", 0));
    f.open(FN);
    std::string x;
    bool ok = f.get_value(x, "key");
    hs_check(t.quotes, "unpaired quotes are refused");
    hs_check(ok == good, "a string is read if and only if there is one");
    if (good) {
        hs_check(x == want, "the string that is written");
        hs_reach("string");
        text u = t;
        std::string w;
        if (u.key("next")) u.token(w);
        any_end(u);
        follow(f, t);
    } else hs_reach("error");
}
// "<blank>x<blank>" in every place
static void complex_value() {
    static const char *blank[3] = {"", " ", "\n"};
    static const char *re[3] = {"0.5", "-2", "x"}, *im[3] = {"1.25", "3", ""};
    int a = hs_choose("re", 0, 0, 2), b = hs_choose("im", 0, 0, 2), miss = hs_choose("missing", 0, 0, 3);
    std::string s = "key ";
    for (int i = 0; i < 5; i++) {
        const char *p[5] = {miss == 1 ? "" : "(", re[a], miss == 2 ? "" : ",", im[b], miss == 3 ? "" : ")"};
        s += p[i];
        if (i < 4) s += blank[hs_choose("blank", i, 0, 2)];
    }
    put(s + "\nnext 5\n");
    hila::input f;
    f.quiet(hs_parami("quiet", 0));
    f.open(FN);
    Complex<double> x(7, 7);
    bool ok = f.get_value(x, "key"), good = a < 2 && b < 2 && miss == 0;
    hs_check(ok == good, "a complex number is read if and only if there is one");
    if (good) {
        hs_check(x.re == (a ? -2 : 0.5) && x.im == (b ? 3 : 1.25), "the complex number that is written");
        text t("next 5\n");
        follow(f, t);
        hs_reach("complex");
    }
}
template <typename V, typename T> static void fixed_list(int n, const char *key) {
    std::string s = drawn(), tok;
    std::string all = std::string(key) + " " + s + "\nnext 5\n";
    text t(all);
    put(all);
    long v[8];
    bool good = t.key(key);
    for (int i = 0; good && i < n; i++) good = (i == 0 || t.comma()) && t.token(tok) && integer(tok, v[i]);
    any_end(t);
    hila::input f;
    f.quiet(hs_parami("quiet", 0));
    f.open(FN);
    V x;
    bool ok = f.get_value(x, key);
    hs_check(ok == good, "a vector is read if and only if there is one");
    if (good) {
        for (int i = 0; i < n; i++) hs_check(x[i] == (T)v[i], "the vector that is written");
        hs_reach("vector");
        follow(f, t);
    } else hs_reach("error");
}
template <typename T> static bool element(text &t, T &x) {
    std::string tok;
    if (!t.token(tok)) return false;
    long v;
    if (!integer(tok, v)) return false;
    x = v;
    return true;
}
static bool element(text &t, std::string &x) {
    std::string tok;
    if (!t.token(tok)) return false;
    x.clear();
    for (char c : tok) if (c != '"') x.push_back(c);
    return true;
}
template <typename T> static void list_value() {
    std::string s = drawn();
    std::string all = "key " + s + "\nnext 5\n";
    text t(all);
    put(all);
    std::vector<T> want;
    T v;
    bool good = t.key("key") && element(t, v);
    if (good) want.push_back(v);
    while (good && t.comma()) {
        good = element(t, v);
        if (good) want.push_back(v);
    }
    if (t.quotes) { // the parser looks at what follows the list
        text u = t;
        std::string w;
        u.token(w);
        any_end(u);
    }
    any_end(t);
    hila::input f;
    f.quiet(hs_parami("quiet", 0));
    f.open(FN);
    std::vector<T> x;
    bool ok = f.get_value(x, "key");
    hs_check(t.quotes, "unpaired quotes are refused");
    hs_check(ok == good, "a list is read if and only if there is one");
    if (good) {
        hs_check(x.size() == want.size(), "length of the list");
        for (size_t i = 0; i < want.size(); i++) hs_check(x[i] == want[i], "the list that is written");
        hs_reach(want.size() > 1 ? "list" : "single");
        text u = t;
        std::string w;
        if (u.key("next")) u.token(w);
        any_end(u);
        follow(f, t);
    } else hs_reach("error");
}
// which lines a key of one or two words accepts
static void keys() {
    static const char *keylist[4] = {"a", "a b", "ab", "a  b"};
    static const char *canon[4] = {"a", "a b", "ab", "a b"};
    int k = hs_choose("key", 0, 0, 3);
    std::string s = drawn(), tok, all = s + " 5\n";
    text t(all);
    put(all);
    long v = 0;
    bool good = t.key(canon[k]) && t.token(tok) && integer(tok, v);
    any_end(t);
    hila::input f;
    f.quiet(hs_parami("quiet", 0));
    f.open(FN);
    int x;
    bool ok = f.get_value(x, keylist[k]);
    hs_check(ok == good, "a key is accepted if and only if it is there");
    if (good) hs_check(x == v, "its value"), hs_reach("key");
    else hs_reach("error");
}
static void items() {
    static const char *val[] = {"red", "green", "blue", "1.5", "7", "-2e3", "gre", "greener", "light  green", "7x", ""};
    static const std::vector<std::string> lists[5] = {{"red", "green", "blue"}, {"green", "%f"}, {"red", "%i", "%f", "%s"}, {"light green", "green", "%i"}, {"%i", "blue", "%s"}};
    int v = hs_choose("value", 0, 0, 10), l = hs_choose("items", 0, 0, 4);
    std::string w = val[v], all = "key " + w + "\n";
    put(all + (v == 10 ? "" : "next 5\n"));
    int want = -1;
    double d = 0;
    long n = 0;
    for (int i = 0; i < (int)lists[l].size() && want < 0; i++) {
        const std::string &it = lists[l][i];
        if (w.empty()) break;
        if (it == "%s" || (it == "%f" && real(w, d)) || (it == "%i" && integer(w, n)) || it == w || (it == "light green" && v == 8)) want = i;
    }
    bool bc = hs_choose("broadcast", 0, 0, 1);
    hila::input f;
    f.quiet(hs_parami("quiet", 0));
    f.open(FN);
    if (want < 0 && bc) hs_allow_exit(), hs_reach("none");
    int item = f.get_item("key", lists[l], bc);
    if (bc || hila::myrank() == 0) hs_check(item == want, "the item of the list that is there");
    if (want < 0 || !bc) return;
    if (lists[l][want] == "%f") { double x; hs_check(f.get_value(x, "") && x - d < 1e-9 && d - x < 1e-9, "the number is still to be read"); }
    else if (lists[l][want] == "%i") { long x; hs_check(f.get_value(x, "") && x == n, "the integer is still to be read"); }
    else if (lists[l][want] == "%s") { std::string x; hs_check(f.get_value(x, "") && x == (v == 8 ? "light" : w), "the string is still to be read"); if (v == 8) hs_check(f.get_value(x, "") && x == "green", "and the next"); }
    text t("next 5\n");
    follow(f, t);
    hs_reach("item");
}
// several files with one variable; a file that is not there; get() ends the program when there is no value
static void files() {
    static const char *rest[4] = {"", " 7", ", 7", "\nmore 3"};
    int r = hs_choose("rest", 0, 0, 3), nothing = hs_choose("absent", 0, 0, 1);
    hila::input f;
    if (nothing) hs_check(!f.open("hv_absent.dat", true, false), "a file that is not there is an error");
    put(std::string("a 1") + rest[r] + "\n");
    hs_check(f.open(FN, true, false), "the file is opened");
    int x = f.get("a");
    hs_check(x == 1, "value in the first file");
    if (r == 2) { // a vector that is too short
        Vector<2, int> v;
        hs_check(!f.get_value(v, "c"), "a wrong key is an error");
    }
    f.close();
    put("b 2\nc \"x y\", z\nd (1,-2)\ne 3, 4\n");
    hs_check(f.open(FN, true, false), "another file is opened");
    hs_check(!f.open(FN, true, false), "a variable in use is not opened again");
    long y = f.get("b");
    hs_check(y == 2, "value in the second file");
    std::vector<std::string> s = f.get("c");
    hs_check(s.size() == 2 && s[0] == "x y" && s[1] == "z", "strings in the second file");
    Complex<float> z = f.get("d");
    hs_check(z.re == 1 && z.im == -2, "complex number in the second file");
    Vector<2, int> v = f.get("e");
    hs_check(v[0] == 3 && v[1] == 4, "vector in the second file");
    hs_reach("files");
    hs_allow_exit();
    switch (hs_choose("missing", 0, 0, 4)) {
    case 0: { int i = f.get("g"); (void)i; break; }
    case 1: { std::string i = f.get("g"); break; }
    case 2: { std::vector<double> i = f.get("g"); break; }
    case 3: { Complex<double> i = f.get("g"); break; }
    case 4: { bool i = f.get("g"); (void)i; break; }
    }
    hs_check(0, "get() of a value that is not there ends the program");
}
// -p key value on the command line
static void override() {
    char prog[] = "program", p[] = "-p", k1[] = "b", v1[] = "7", k2[] = "list", v2[] = "4,5", k3[] = "zz";
    int how = hs_choose("how", 0, 0, 4);
    char *a1[] = {prog, p, k1, v1}, *a2[] = {prog, p, k2, v2}, *a3[] = {prog, p, k1, v1, p, k2, v2}, *a4[] = {prog, p, k3, v1};
    if (how == 1) hila::cmdline.initialise_args(4, a1);
    if (how == 2) hila::cmdline.initialise_args(4, a2);
    if (how == 3) hila::cmdline.initialise_args(7, a3);
    if (how == 4) hila::cmdline.initialise_args(4, a4);
    put("a 1\nb 2\nlist 1,2,3\nc 4\n");
    hila::input f;
    f.quiet(hs_parami("quiet", 0));
    f.open(FN);
    int a = f.get("a"), b = f.get("b");
    std::vector<int> l = f.get("list");
    int c = f.get("c");
    hs_check(a == 1 && c == 4, "values that are not overridden");
    hs_check(b == (how == 1 || how == 3 ? 7 : 2), "value given on the command line");
    if (how == 2 || how == 3) hs_check(l.size() == 2 && l[0] == 4 && l[1] == 5, "list given on the command line");
    else hs_check(l.size() == 3 && l[0] == 1 && l[1] == 2 && l[2] == 3, "list in the file");
    if (how == 4) hs_allow_exit(), hs_reach("unused");
    f.close();
    hs_check(how != 4, "an override that is never read is an error");
    // only the first file is overridden
    put("b 3\n");
    hila::input g(FN);
    int d = g.get("b");
    hs_check(d == 3, "the second file is not overridden");
    hs_reach("override");
}
extern "C" void hs_main() {
    CoordinateVector L;
    for (int d = 0; d < NDIM; d++) L[d] = 4;
    hv_init(L);
    switch (hs_parami("what", 0)) {
    case 0: number_value<int>(true); break;
    case 1: number_value<double>(false); break;
    case 2: string_value(); break;
    case 3: complex_value(); break;
    case 4: fixed_list<Vector<3, long>, long>(3, "key"); break;
    case 5: fixed_list<CoordinateVector, int>(NDIM, "key"); break;
    case 6: list_value<int>(); break;
    case 7: list_value<std::string>(); break;
    case 8: keys(); break;
    case 9: items(); break;
    case 10: files(); break;
    case 11: override(); break;
    }
    hs_reach("end");
}
