// hsym: symbolic execution of LLVM IR with Z3.
#include "interp.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <pthread.h>
#include <cstring>
#include <cstdio>
#include <cmath>
#include <unistd.h>
#include <fstream>
using namespace llvm;
bool g_printOut = false;
std::map<std::string, std::string> g_params;
extern double elapsed();
static std::string irFile, outFile;
static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static int rc = 0;
static std::string fatal;
static void writeOut() {
    std::string o = "{\n";
    auto kv = [&](const char *k, const std::string &v) { o += std::string(" \"") + k + "\": " + v + ",\n"; };
    kv("fatal", jstr(fatal));
    kv("paths", std::to_string(st.paths));
    kv("forks", std::to_string(st.forks));
    kv("steps", std::to_string(st.steps));
    kv("infeasible", std::to_string(st.infeasible));
    kv("checks", std::to_string(st.checks));
    kv("checks_concrete", std::to_string(st.checksConcrete));
    kv("checks_identical", std::to_string(st.checksIdentical));
    kv("checks_up_to_rounding", std::to_string(st.checksWeak));
    kv("queries", std::to_string(g_smt.queries));
    kv("sat", std::to_string(g_smt.sat));
    kv("unsat", std::to_string(g_smt.unsat));
    kv("unknown", std::to_string(g_smt.unknown));
    kv("cache_hits", std::to_string(g_smt.cacheHits));
    char b[64];
    snprintf(b, 64, "%.3f", g_smt.seconds);
    kv("solver_seconds", b);
    snprintf(b, 64, "%.3f", elapsed());
    kv("seconds", b);
    kv("incomplete", st.incomplete || !fatal.empty() ? "true" : "false");
    kv("incomplete_why", jstr(st.incompleteWhy));
    std::string s = "[";
    for (auto &r : E.reachedEver) s += (s.size() > 1 ? "," : "") + jstr(r);
    kv("reached", s + "]");
    s = "[";
    {
        std::set<const DISubprogram *> sps;
        for (auto &f : E.dfs) {
            if (!f.second->calls_made) continue;
            if (auto *sp = f.first->getSubprogram()) sps.insert(sp);
            for (auto &bb : *f.first)
                for (auto &in : bb)
                    for (const DILocation *l = in.getDebugLoc().get(); l; l = l->getInlinedAt())
                        if (auto *sp = l->getScope()->getSubprogram()) sps.insert(sp);
        }
        std::set<std::string> out;
        for (auto *sp : sps) {
            std::string file = sp->getFile() ? sp->getFile()->getFilename().str() : "";
            if (file.find("/usr/") == 0 || file.find("/rt/") != std::string::npos || file.empty()) continue;
            std::string nm = sp->getLinkageName().str();
            nm = nm.empty() ? sp->getName().str() : demangle(nm);
            out.insert("[" + jstr(nm) + "," + jstr(file) + "," + std::to_string(sp->getLine()) + "]");
        }
        for (auto &x : out) s += (s.size() > 1 ? ",\n" : "") + x;
    }
    kv("functions", s + "]");
    s = "[";
    for (auto &v : E.viols) {
        s += s.size() > 1 ? ",\n" : "\n";
        s += "  {\"kind\": " + jstr(v.kind) + ", \"msg\": " + jstr(v.msg) + ", \"where\": " + jstr(v.where) + ", \"exact\": " + (v.model.exact ? "true" : "false") + ", \"model\": [";
        bool first = true;
        for (auto &m : v.model.bits) {
            auto &si = g_syms[m.first];
            if (si.name[0] == '!') continue;
            char buf[100];
            if (si.sort == S_FP) {
                double d = constF(mkConst(m.second, si.width, S_FP));
                snprintf(buf, sizeof buf, "%.17g", d);
                if (strstr(buf, "nan") || strstr(buf, "inf")) snprintf(buf, sizeof buf, "\"%s\"", std::isnan(d) ? "nan" : d > 0 ? "inf" : "-inf");
            } else
                snprintf(buf, sizeof buf, "%ld", (long)sextw(m.second, si.width));
            s += (first ? "" : ",") + ("[" + jstr(si.name) + "," + std::to_string(si.idx) + "," + buf + "]");
            first = false;
        }
        s += "]}";
    }
    s += "]";
    o += " \"violations\": " + s + "\n}\n";
    if (outFile.empty()) printf("%s", o.c_str());
    else std::ofstream(outFile) << o;
}
static void *body(void *) {
    smtInit();
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(irFile, err, ctx);
    if (!m) {
        err.print("hsym", errs());
        fatal = "cannot read IR";
        rc = 3;
        return nullptr;
    }
    try {
        E.init(m.get());
        E.run();
    } catch (Abort &a) {
        fatal = a.kind + ": " + a.msg;
    }
    writeOut();
    fflush(stdout);
    _exit(!E.viols.empty() ? 1 : !fatal.empty() || st.incomplete ? 2 : 0);
    return nullptr;
}
int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "-n") opt.nranks = std::stoi(nx());
        else if (a == "-o") outFile = nx();
        else if (a == "-t") opt.maxSeconds = std::stod(nx());
        else if (a == "--steps") opt.maxSteps = std::stoull(nx());
        else if (a == "--paths") opt.maxPaths = std::stoull(nx());
        else if (a == "--timeout") g_timeoutMs = std::stoi(nx());
        else if (a == "--viol") opt.maxViolations = std::stoi(nx());
        else if (a == "--threads") opt.ompThreads = std::stoi(nx());
        else if (a == "--forksel") opt.forkSelect = true;
        else if (a == "--fill") opt.fill = (uint8_t)atoi(argv[++i]);
        else if (a == "--exact") g_exact = true;
        else if (a == "--round") g_round = std::stoi(nx()), g_normal = false;
        else if (a == "--nonormal") g_normal = false;
        else if (a == "--branchms") opt.branchMs = std::stoi(nx());
        else if (a == "--ieee") g_fpmode = FP_IEEE;
        else if (a == "--print") g_printOut = true;
        else if (a == "-D") {
            std::string s = nx();
            size_t e = s.find('=');
            g_params[s.substr(0, e)] = e == std::string::npos ? "1" : s.substr(e + 1);
        } else if (a == "--model") {
            g_replay = true;
            FILE *in = fopen(nx().c_str(), "r");
            char kind[16], name[256], val[256];
            long idx;
            while (in && fscanf(in, "%15s %255s %ld %255s", kind, name, &idx, val) == 4) {
                if (!strcmp(kind, "v")) g_fixed[{name, idx}] = val;
                else g_params[name] = val;
            }
        } else if (a == "--arg") opt.argv.push_back(nx());
        else irFile = a;
    }
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, (size_t)1 << 30);
    pthread_t t;
    pthread_create(&t, &at, body, nullptr);
    pthread_join(t, nullptr);
    return rc;
}
