// Command line: declared flags with their arguments, in any order
#include "hv.h"
#include "plumbing/cmdline.h"
#include <cstring>
static const char *flags[4] = {"-a", "-bb", "-c", "-d1"};
static const int want[4] = {0, 1, 2, -1};
static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static const char *token(int i, int k) {
    static char buf[12][4];
    switch (k) {
    case 0: case 1: case 2: case 3: return flags[k];
    case 4: return "-b"; // not declared
    case 5: return "7";
    case 6: return "-3";
    case 7: return "-";
    case 8: return "a-a";
    case 9: // - and any character
        buf[i][0] = '-', buf[i][1] = (char)hs_int("c", i, 1, 127), buf[i][2] = 0;
        return buf[i];
    case 10: return "-bbb";
    case 11: return "";
    }
    return "";
}
static void parse() {
    int n = hs_parami("n", 3);
    cmdlinearguments &c = *new cmdlinearguments; // its destructor is not usable outside cmdline.cpp
    for (int f = 3; f >= 0; f--) c.add_flag(flags[f], "help", "", want[f]);
    char *argv[16];
    argv[0] = strdup("program");
    for (int i = 1; i <= n; i++) argv[i] = strdup(token(i, hs_choose("k", i, hs_parami("lo", 0), hs_parami("hi", 8))));
    // what the declarations say: -[letter].. is a flag, the others belong to the flag before
    bool refuse = false, present[4] = {false, false, false, false};
    std::vector<std::string> val[4];
    int cur = -1, cnt = 0;
    for (int i = 1; i <= n + 1; i++) {
        bool isflag = i <= n && argv[i][0] == '-' && letter(argv[i][1]);
        if (i > n || isflag) {
            if (cur >= 0 && want[cur] >= 0 && cnt != want[cur]) refuse = true;
            cnt = 0;
        }
        if (i > n) break;
        if (isflag) {
            cur = -1;
            for (int f = 0; f < 4; f++) if (strcmp(argv[i], flags[f]) == 0) cur = f, present[f] = true;
            if (cur < 0) refuse = true;
        } else if (cur < 0) refuse = true;
        else val[cur].push_back(argv[i]), cnt++;
    }
    if (refuse) hs_reach("refused"), hs_allow_exit();
    c.initialise_args(n + 1, argv);
    hs_check(!refuse, "an unknown flag or a wrong number of arguments is refused");
    for (int f = 0; f < 4; f++) {
        hs_check(c.flag_present(flags[f]) == present[f], "presence of a flag");
        hs_check(c.flag_set(flags[f]) == (int)val[f].size(), "number of values");
        auto v = c.values(flags[f]);
        hs_check(v == val[f], "the values are those given");
        for (int i = 0; i < (int)val[f].size(); i++) hs_check(c.get_string(flags[f], i) == val[f][i], "a value");
    }
    hs_check(!c.flag_present("-zz") && c.flag_set("-zz") == 0, "a flag that is not declared");
    if (!refuse) hs_reach("accepted");
}
// the number in a value: digits with a sign, or refused
static void number() {
    int n = hs_parami("n", 3);
    cmdlinearguments &c = *new cmdlinearguments; // its destructor is not usable outside cmdline.cpp
    c.add_flag("-n", "help", "", 1);
    char s[8];
    for (int i = 0; i < n; i++) {
        static const char set[] = "+-0927 x.e";
        s[i] = set[hs_choose("c", i, 0, 9)];
    }
    s[n] = 0;
    bool flag = s[0] == '-' && letter(s[1]);
    char *argv[3] = {strdup("program"), strdup("-n"), s};
    if (flag) hs_allow_exit();
    c.initialise_args(3, argv);
    hs_check(!flag, "not a value");
    int i = s[0] == '+' || s[0] == '-', digits = 0;
    long v = 0;
    bool ok = true;
    for (int k = i; k < n; k++) {
        if (s[k] < '0' || s[k] > '9') ok = false;
        else v = 10 * v + (s[k] - '0'), digits++;
    }
    if (!digits) ok = false;
    if (!ok) hs_reach("refused"), hs_allow_exit();
    long x = c.get_int("-n");
    hs_check(ok, "a value that is not an integer is refused");
    hs_eq_i64(x, s[0] == '-' ? -v : v, "integer value");
    hs_check(c.get_double("-n") == (double)(s[0] == '-' ? -v : v), "value of an integer as a double");
    hs_reach("integer");
}
static void misuse() {
    cmdlinearguments &c = *new cmdlinearguments; // its destructor is not usable outside cmdline.cpp
    c.add_flag("-n", "help", "", 2);
    c.add_flag("-m", "help", "", 2);
    char *argv[4] = {strdup("program"), strdup("-n"), strdup("1"), strdup("2.5")};
    c.initialise_args(4, argv);
    hs_check(c.get_int("-n") == 1 && c.get_double("-n", 1) == 2.5 && c.get_string("-n", 1) == "2.5", "values");
    hs_check(c.get_string("-n", 0, true) == "1" && c.get_string("-n", 0) == "", "a value is cleared on request");
    hs_allow_exit();
    hs_reach("misuse");
    switch (hs_choose("way", 0, 0, 9)) {
    case 0: c.get_int("-n", 2); break;
    case 1: c.get_double("-n", 2); break;
    case 2: c.get_string("-n", 2); break;
    case 3: c.get_int("-m"); break;
    case 4: c.get_double("-m"); break;
    case 5: c.get_string("-m"); break;
    case 6: c.add_flag("-n", "again"); break;
    case 7: c.values("-undeclared"); break;
    case 8: c.get_int("-n", 1); break;
    case 9: c.get_int("-q"); break;
    }
    hs_check(0, "misuse is refused");
}
extern "C" void hs_main() {
    CoordinateVector L;
    for (int d = 0; d < NDIM; d++) L[d] = 4;
    hv_init(L);
    switch (hs_parami("what", 0)) {
    case 0: parse(); break;
    case 1: number(); break;
    case 2: misuse(); break;
    }
    hs_reach("end");
}
