// C23: command lines are read as given or rejected.
#include "vk.hpp"
#include <sys/wait.h>
#include <sys/mman.h>
#include <map>
#include "common/utils/FlagParser.hpp"
using common::utils::FlagParser;
using std::map;
using std::string;
using std::vector;
using vk::Case;

struct Flag {
    char s;
    const char* l;
    int opt, arg;
};
struct Config {
    vector<Flag> flags;
    int params;  // -2: setMinNumParams is not called
};
struct Result {
    bool ok, exits;
    map<char, bool> has;
    map<char, vector<string>> args;
    vector<string> params;
    bool verbose;
};
// what a command line means
static Result meaning(const Config& cf, const vector<string>& argv) {
    vector<Flag> fl = cf.flags;
    fl.push_back({'h', "help", FLAG_OPT, ARG_NONE});
    fl.push_back({'v', "verbose", FLAG_OPT, ARG_NONE});
    fl.push_back({'V', "version", FLAG_OPT, ARG_NONE});
    Result r;
    r.ok = true;
    r.exits = r.verbose = false;
    for (auto& f : fl) r.has[f.s] = false, r.args[f.s];
    auto give = [&](const Flag& f, const string* v) {
        if (f.s == 'h' || f.s == 'V') {
            r.exits = true;
            return false;
        }
        if (f.s == 'v') r.verbose = true;
        r.has[f.s] = true;
        if (v) r.args[f.s].push_back(*v);
        return true;
    };
    size_t i = 0;
    for (; i < argv.size(); i++) {
        const string& a = argv[i];
        if (a == "--") {
            i++;
            break;
        }
        if (a.size() < 2 || a[0] != '-') break;
        if (a[1] == '-') {
            size_t eq = a.find('=');
            string name = a.substr(2, eq == string::npos ? string::npos : eq - 2);
            const Flag* hit = nullptr;
            int cand = 0;
            for (auto& f : fl)
                if (name == f.l) hit = &f;
            if (!hit)
                for (auto& f : fl)
                    if (string(f.l).compare(0, name.size(), name) == 0) {
                        hit = &f;
                        cand++;
                    }
            if (!hit || cand > 1) {
                r.ok = false;
                return r;
            }
            string v;
            bool hasv = eq != string::npos;
            if (hasv) v = a.substr(eq + 1);
            if (hit->arg == ARG_NONE && hasv) {
                r.ok = false;
                return r;
            }
            if (hit->arg == ARG_REQ && !hasv) {
                if (i + 1 >= argv.size()) {
                    r.ok = false;
                    return r;
                }
                v = argv[++i];
                hasv = true;
            }
            if (!give(*hit, hasv ? &v : nullptr)) return r;
        } else {
            for (size_t k = 1; k < a.size(); k++) {
                const Flag* hit = nullptr;
                for (auto& f : fl)
                    if (f.s == a[k]) hit = &f;
                if (!hit) {
                    r.ok = false;
                    return r;
                }
                if (hit->arg == ARG_NONE) {
                    if (!give(*hit, nullptr)) return r;
                    continue;
                }
                string v = a.substr(k + 1);
                bool hasv = !v.empty();
                if (hit->arg == ARG_REQ && !hasv) {
                    if (i + 1 >= argv.size()) {
                        r.ok = false;
                        return r;
                    }
                    v = argv[++i];
                    hasv = true;
                }
                if (!give(*hit, hasv ? &v : nullptr)) return r;
                break;
            }
        }
    }
    for (; i < argv.size(); i++) r.params.push_back(argv[i]);
    for (auto& f : fl)
        if (f.opt == FLAG_REQ && !r.has[f.s]) r.ok = false;
    if (cf.params < 0 && !r.params.empty()) r.ok = false;
    if (cf.params > 0 && (int)r.params.size() < cf.params) r.ok = false;
    return r;
}
static string show(const Result& r, const Config& cf) {
    string s = r.exits ? "exits" : r.ok ? "accepted:" : "rejected";
    if (!r.ok || r.exits) return s;
    for (auto& f : cf.flags) {
        s += vk::fmt(" %c=%d[", f.s, (int)r.has.at(f.s));
        for (auto& v : r.args.at(f.s)) s += vk::jstr(v) + ",";
        s += "]";
    }
    s += vk::fmt(" v=%d", (int)r.has.at('v'));
    s += " params[";
    for (auto& v : r.params) s += vk::jstr(v) + ",";
    return s + "]";
}
extern int verbose;
// the real parser keeps static state: one process per command line
static string real(const Config& cf, const vector<string>& argv, char* buf, size_t n) {
    buf[0] = 0;
    pid_t p = fork();
    if (p == 0) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        dup2(nul, 2);
        for (auto& f : cf.flags) FlagParser::addFlag(f.s, f.l, f.opt, f.arg);
        if (cf.params != -2) FlagParser::setMinNumParams(cf.params);
        vector<char*> av;
        string prog = "prog";
        av.push_back(&prog[0]);
        vector<string> copy = argv;
        for (auto& a : copy) av.push_back(&a[0]);
        av.push_back(nullptr);
        strcpy(buf, "exits");
        int rv = FlagParser::parse((int)argv.size() + 1, av.data());
        Result r;
        r.exits = false;
        r.ok = rv == 0;
        for (auto& f : cf.flags) {
            r.has[f.s] = FlagParser::hasArg(f.s);
            r.args[f.s] = FlagParser::getArgs(f.s);
            string first = FlagParser::getArg(f.s);
            if (r.ok && first != (r.args[f.s].empty() ? "" : r.args[f.s][0])) {
                strcpy(buf, "getArg is not the first of getArgs");
                _exit(0);
            }
            if (r.has[f.s] != FlagParser::hasArg(f.s) && r.args[f.s].size()) {
                strcpy(buf, "asking changes the answer");
                _exit(0);
            }
        }
        r.has['v'] = FlagParser::hasArg('v');
        r.params = FlagParser::getParams();
        snprintf(buf, n, "%s", show(r, cf).c_str());
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) return vk::fmt("killed by signal %d", WTERMSIG(st));
    if (WEXITSTATUS(st) != 0) return vk::fmt("%s (status %d)", buf, WEXITSTATUS(st));
    return buf;
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C23", "model_checking");
    run.declare({"command_lines", "accepted", "rejected"});
    run.transitionsCounter = "command_lines";
    run.tracesCounter = "command_lines";
    run.rule = "state = distinct (declared flags, outcome); transition = one argument vector parsed by the real "
               "FlagParser in a process of its own and compared with the definition of POSIX/GNU option parsing";
    const bool th = run.thorough;
    const vector<Config> cfgs = {
        {{{'a', "alpha", FLAG_OPT, ARG_NONE}, {'b', "beta", FLAG_OPT, ARG_REQ}, {'c', "gamma", FLAG_OPT, ARG_OPT}}, -2},
        {{{'a', "alpha", FLAG_REQ, ARG_NONE}, {'b', "beta", FLAG_OPT, ARG_REQ}, {'c', "gamma", FLAG_REQ, ARG_OPT}}, 0},
        {{{'a', "alpha", FLAG_OPT, ARG_NONE}, {'b', "beta", FLAG_REQ, ARG_REQ}, {'c', "alphabet", FLAG_OPT, ARG_OPT}}, 2},
        {{{'a', "alpha", FLAG_REQ, ARG_REQ}, {'b', "beta", FLAG_REQ, ARG_REQ}}, -1},
        {{}, -2}, {{}, 1}};
    const vector<string> TOK = {"-a",     "-b",        "-c",      "-bX",       "-cX",      "-ab",   "-ca",    "--alpha", "--beta",
                                "--beta=X", "--gamma", "--gamma=X", "--beta=", "--alpha=X", "--alph", "--bet=Y", "X", "--", "-x",
                                "",       "-",         "-v",      "--verbose", "-abX",     "-h",    "--version", "--unknown", "-b=X"};
    const uint64_t NT = TOK.size();
    auto go = [&](Case& c, const Config& cf, const vector<string>& av, char* buf, size_t n) {
        string d;
        for (auto& f : cf.flags) d += vk::fmt("%c|%s%s%s ", f.s, f.l, f.opt == FLAG_REQ ? "!" : "", f.arg == ARG_REQ ? "=" : f.arg == ARG_OPT ? "[=]" : "");
        d += vk::fmt("params %d:", cf.params);
        for (auto& a : av) d += " " + vk::jstr(a);
        c.desc(d);
        c.beat();
        c.add("command_lines");
        Result m = meaning(cf, av);
        string want = show(m, cf), got = real(cf, av, buf, n);
        c.add(m.ok ? "accepted" : "rejected");
        if (got != want) {
            c.fail("read as: %s\nmeans:   %s", got.c_str(), want.c_str());
            return false;
        }
        c.state(d.substr(0, d.find(':')) + want);
        return true;
    };
    static char* buf = nullptr;
    const size_t BUF = 8192;
    auto getbuf = [&]() {
        if (!buf) buf = (char*)mmap(nullptr, BUF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        return buf;
    };
    const int depth = th ? 4 : 3;
    for (int len = 0; len <= depth; len++) {
        uint64_t n = 1;
        for (int i = 0; i < len; i++) n *= NT;
        uint64_t ncf = len >= 4 ? 1 : cfgs.size();
        run.forall(vk::fmt("%d arguments", len), n * ncf, [&](Case& c) {
            const Config& cf = cfgs[c.index % ncf];
            vk::Digits d(c.index / ncf);
            vector<string> av;
            for (int i = 0; i < len; i++) av.push_back(TOK[d.next(NT)]);
            go(c, cf, av, getbuf(), BUF);
        });
    }
    // values of every kind, in every spelling, repeated
    {
        vector<string> vals = {"", "x", "-a", "--", "-", "=", "a=b", "--beta", " ", "\xce\xb1", "x y", string(1000, 'q'), "-b", "0"};
        uint64_t V = vals.size();
        run.forall("values", V * V * 9, [&](Case& c) {
            vk::Digits d(c.index);
            const string &x = vals[d.next(V)], &y = vals[d.next(V)];
            int how = d.next(9);
            vector<string> av;
            for (int k = 0; k < 2; k++) {
                const string& v = k ? y : x;
                switch (k ? how / 3 : how % 3) {
                    case 0:
                        av.push_back("-b");
                        av.push_back(v);
                        break;
                    case 1:
                        av.push_back("--beta=" + v);
                        break;
                    case 2:
                        av.push_back(k ? "--beta" : "-ab");
                        av.push_back(v);
                        break;
                }
            }
            go(c, cfgs[0], av, getbuf(), BUF);
        });
    }
    return run.finish();
}
