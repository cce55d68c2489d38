// C06: identifier renaming = equality up to consistent one-to-one renaming.
#include "mwsh.hpp"
using namespace mwsh;
using vk::Case;

// canonical name up to renaming: single-character identifiers that are not the
// first child of an apply are numbered by first appearance
static size_t chars(const string& s) {
    size_t n = 0;
    for (unsigned char c : s) n += (c & 0xC0) != 0x80;
    return n;
}
static void alphaTo(const T& t, bool op, map<string, int>& m, string& o) {
    string tag = t.tag.compare(0, 2, "m:") == 0 ? t.tag.substr(2) : t.tag;
    string l = label(t);
    if (tag == "ci" && !op && chars(l) == 4) {
        auto it = m.find(l);
        if (it == m.end()) it = m.insert({l, (int)m.size() + 1}).first;
        l = vk::fmt("~%d", it->second);
    }
    o += l + vk::fmt("(%zu)[", t.kids.size());
    for (size_t i = 0; i < t.kids.size(); i++)
        alphaTo(t.kids[i], i == 0 && tag == "apply", m, o);
    o += "]";
}
static string alpha(const T& t) {
    map<string, int> m;
    string o;
    alphaTo(t, false, m, o);
    return o;
}
static void check(Case& c, mws::daemon::QueryHandler* q, const Harvest& h, const T& p, bool renamed) {
    string qx = queryXml(p);
    c.beat();
    Ans a = ask(q, qx);
    c.add("queries");
    std::set<string> want, got;
    for (auto& e : h.exprs)
        if (renamed ? alpha(e.t) == alpha(p) : key(e.t) == key(p)) want.insert(e.url);
    size_t dup = 0;
    for (auto& x : a.hits)
        if (x.xpath == "/*[1]" && !got.insert(x.url).second) dup++;
    c.state(alpha(p) + vk::fmt("|%d|%zu|%zu", (int)renamed, want.size(), h.exprs.size()));
    if (!want.empty()) c.add("found");
    if (want != got || dup) {
        string w, g;
        for (auto& x : want) w += " " + x;
        for (auto& x : got) g += " " + x;
        string shown;
        for (auto& e : h.exprs)
            if (h.exprs.size() < 30 || want.count(e.url) || got.count(e.url)) shown += e.url + ": " + xml(e.t) + "\n";
        c.desc(shown + qx);
        c.fail("renaming %s: whole expressions expected:%s\ngot:%s (%zu repeated)", renamed ? "on" : "off",
               w.c_str(), g.c_str(), dup);
    }
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C06", "model_checking");
    run.declare({"queries", "found", "indexes"});
    run.transitionsCounter = "queries";
    run.tracesCounter = "indexes";
    run.rule = "state = (query up to renaming, mode, number of whole-expression hits); transition = "
               "one variable-free query whose whole-expression hits were compared with equality up "
               "to renaming; trace = one index loaded";
    run.assumptions = {"a character is a code point: combining characters count for themselves"};
    const bool th = run.thorough;
    auto load = [&](Case& c, const Harvest& h, bool disk, bool ren) {
        freshDir(c.scratch + "/h");
        vk::writeFile(c.scratch + "/h/a.harvest", harvestXml(h));
        c.desc(h.exprs.size() < 100 ? harvestXml(h) : string("(all terms)"));
        c.add("indexes");
        if (!disk) return memHandler(c.scratch + "/h", ren);
        vk::rmTree(c.scratch + "/idx");
        if (buildIndex(c.scratch + "/h", c.scratch + "/idx", ren)) {
            c.fail("index creation failed");
            return std::unique_ptr<mws::daemon::QueryHandler>();
        }
        return idxHandler(c.scratch + "/idx", ren);
    };
    auto space = [&](vector<T> leaves, unsigned n) {
        TermGen g(leaves, {app({}), T("vector", "")}, 3);
        return g.upTo(n);
    };
    vector<T> all = space({ci("a"), ci("b"), ci("ab")}, th ? 5 : 4);
    vector<T> deep = space({ci("a"), ci("b"), ci("c"), cn("1")}, 4);
    // every expression alone against every query
    for (int disk = 0; disk < 2; disk++)
        for (int ren = 0; ren < 2; ren++)
            run.forall(vk::fmt("pairs-%s-%s", disk ? "disk" : "memory", ren ? "renamed" : "literal"), all.size(),
                       [&, disk, ren](Case& c) {
                           Harvest h;
                           h.exprs.push_back({"u", "", all[c.index]});
                           auto q = load(c, h, disk, ren);
                           if (!q) return;
                           for (auto& p : all) {
                               if (disk && p.size() != all[c.index].size() && !th) continue;
                               check(c, q.get(), h, p, ren);
                               if (c.failed) return;
                           }
                       });
    // all expressions together, loaded forwards and backwards, asked both ways
    run.forall("whole-space", 8 * 16, [&](Case& c) {
        vk::Digits d(c.index);
        bool rev = d.next(2), disk = d.next(2), ren = d.next(2);
        unsigned stripe = d.i;
        Harvest h;
        for (size_t i = 0; i < deep.size(); i++) {
            size_t k = rev ? deep.size() - 1 - i : i;
            h.exprs.push_back({vk::fmt("u%zu", k), "", deep[k]});
        }
        auto q = load(c, h, disk, ren);
        if (!q) return;
        for (size_t i = stripe; i < deep.size(); i += 16) {
            check(c, q.get(), h, deep[rev ? deep.size() - 1 - i : i], ren);
            if (c.failed) return;
        }
    }, 1);
    // order of loading: all permutations of four expressions sharing names
    run.forall("orders", 24 * 24 * 2, [&](Case& c) {
        vk::Digits d(c.index);
        bool disk = d.next(2);
        const T E[4] = {app({ci("f"), ci("x"), ci("y")}), app({ci("f"), ci("y"), ci("x")}),
                        app({ci("f"), ci("x"), ci("x")}), app({ci("g"), app({ci("f"), ci("y"), ci("x")}), ci("y")})};
        int perm[4] = {0, 1, 2, 3}, perm2[4] = {0, 1, 2, 3};
        int k = d.next(24), k2 = d.next(24);
        while (k--) std::next_permutation(perm, perm + 4);
        while (k2--) std::next_permutation(perm2, perm2 + 4);
        Harvest h;
        for (int i = 0; i < 4; i++) h.exprs.push_back({vk::fmt("u%d", perm[i]), "", E[perm[i]]});
        auto q = load(c, h, disk, true);
        if (!q) return;
        for (int r = 0; r < 2; r++)
            for (int i = 0; i < 4; i++) {
                check(c, q.get(), h, E[perm2[i]], true);
                if (c.failed) return;
            }
        check(c, q.get(), h, app({ci("f"), ci("b"), ci("a")}), true);
        if (!c.failed) check(c, q.get(), h, app({ci("g"), app({ci("f"), ci("s"), ci("t")}), ci("s")}), true);
        if (!c.failed) check(c, q.get(), h, app({ci("g"), app({ci("f"), ci("s"), ci("t")}), ci("t")}), true);
        if (!c.failed) check(c, q.get(), h, app({ci("h"), ci("s"), ci("t")}), true);
    });
    // which nodes take part: names of every length/kind in every role
    vector<string> NM = {"a", "z", "1", "ab", "~1", "P", "p", "", "\xCE\xB1", "\xCE\xB2", "\xE2\x84\xB5", "\xF0\x9D\x94\xB8",
                         "\xCE\xB1\xCE\xB2", "a\xCC\x81"};
    if (th) for (const char* x : {"A", "+", "ac", "abc", "~2", "a1", "#", "ci#a"}) NM.push_back(x);
    const int NN = NM.size();
    run.forall("roles", NN * NN * 6, [&](Case& c) {
        vk::Digits d(c.index);
        string n1 = NM[d.next(NN)], n2 = NM[d.next(NN)];
        auto mk = [&](int role, const string& a, const string& b) -> T {
            switch (role) {
                case 0: return ci(a);
                case 1: return app({ci(a), ci(b)});
                case 2: return app({ci("f"), ci(a), ci(b)});
                case 3: return T("vector", "", {ci(a), ci(b)});
                case 4: return app({app({ci(a), ci(b)}), ci(a), cn(b)});
                default: return T("m:apply", "", {T("m:ci", a), T("m:ci", b), T("mi", a)});
            }
        };
        int role = d.i;
        Harvest h;
        h.exprs.push_back({"u", "", mk(role, n1, n2)});
        auto q = load(c, h, c.index % 2, true);
        if (!q) return;
        for (int i = 0; i < NN; i++)
            for (int j = 0; j < NN; j++) {
                check(c, q.get(), h, mk(role, NM[i], NM[j]), true);
                if (c.failed) return;
            }
    });
    // more identifiers than one digit can number
    auto name = [](unsigned i) {  // the letters, then two-byte ones
        if (i < 26) return string(1, 'A' + i);
        unsigned u = 0x391 + i - 26;
        return string(1, (char)(0xC0 | u >> 6)) + string(1, (char)(0x80 | (u & 0x3F)));
    };
    auto name2 = [&](unsigned i) { return i < 26 ? string(1, 'z' - i) : name(i + 150); };
    run.forall("many-identifiers", 60, [&](Case& c) {
        static const unsigned MORE[] = {27, 30, 32, 33, 40, 63, 64, 65, 80, 99, 100, 101, 110, 120};
        unsigned n = c.index < 26 ? c.index + 1 : c.index < 40 ? MORE[c.index - 26] : 121 + (c.index - 40) * 6;
        vector<T> k = {ci("f")}, k2 = k, k3 = k, k4 = k, k5 = k;
        for (unsigned i = 0; i < n; i++) {
            k.push_back(ci(name(i)));
            k2.push_back(ci(name((i * 7 + 3) % (n < 26 ? 26 : 241))));
            k3.push_back(ci(name(i == n - 1 ? 0 : i)));
            k4.push_back(ci(name2(i)));
            k5.push_back(ci(name(i == n - 1 && n > 1 ? n - 2 : i)));
        }
        Harvest h;
        h.exprs.push_back({"u1", "", app(k)});
        h.exprs.push_back({"u3", "", app(k3)});
        auto q = load(c, h, c.index % 2, true);
        if (!q) return;
        for (auto* v : {&k, &k2, &k3, &k4, &k5}) {
            check(c, q.get(), h, app(*v), true);
            if (c.failed) return;
        }
    });
    return run.finish();
}
