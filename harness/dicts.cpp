// C20: dictionaries, ordered maps and records.
#include "vk.hpp"
#include <map>
#include <sstream>
#include <memory>
using std::make_pair;
#include "common/utils/compiler_defs.h"
#include "common/types/IdDictionary.hpp"
#include "common/types/Parcelable.hpp"
#include "mws/index/MeaningDictionary.hpp"
#include "mws/index/encoded_token.h"
#include "mws/types/FormulaPath.hpp"
#include "mws/types/VectorMap.hpp"
using std::string;
using std::vector;
using vk::Case;
using mws::index::MeaningDictionary;
using namespace common::types;

static const vector<string> KEYS = {"a", "b", "ab", "a#b", "\n", " ", "\xce\xb1", "1", "-1", "0 0", "A", "\xff\x01"};

static bool sameDict(Case& c, MeaningDictionary& d, const vector<string>& order, const char* when) {
    std::map<string, MeaningId> seen;
    std::map<MeaningId, string> taken;
    MeaningDictionary::ReverseLookupTable t = d.getReverseLookupTable();
    for (size_t i = 0; i < order.size(); i++) {
        MeaningId v = d.get(order[i]);
        c.add("lookups");
        if (v == MeaningDictionary::KEY_NOT_FOUND) {
            c.fail("%s: key %s is lost", when, vk::jstr(order[i]).c_str());
            return false;
        }
        if (taken.count(v)) {
            c.fail("%s: keys %s and %s share the number %u", when, vk::jstr(taken[v]).c_str(), vk::jstr(order[i]).c_str(), v);
            return false;
        }
        taken[v] = order[i];
        seen[order[i]] = v;
        string back;
        try {
            back = t.get(v);
        } catch (const std::exception& e) {
            c.fail("%s: number %u of key %s cannot be looked up", when, v, vk::jstr(order[i]).c_str());
            return false;
        }
        if (back != order[i]) {
            c.fail("%s: number %u belongs to %s, the table says %s", when, v, vk::jstr(order[i]).c_str(), vk::jstr(back).c_str());
            return false;
        }
    }
    for (auto& k : KEYS)
        if (!seen.count(k) && d.get(k) != MeaningDictionary::KEY_NOT_FOUND) {
            c.fail("%s: key %s which was never put is found", when, vk::jstr(k).c_str());
            return false;
        }
    for (uint64_t bad : {uint64_t(0), uint64_t(order.size() + 1), uint64_t(4294967295u)}) {
        if (taken.count(bad)) continue;
        try {
            t.get(bad);
            c.fail("%s: number %llu which was never given can be looked up", when, (unsigned long long)bad);
            return false;
        } catch (const std::exception& e) {
        }
    }
    return true;
}
static std::unique_ptr<MeaningDictionary> reload(Case& c, const MeaningDictionary& d, const string& path, string* bytes) {
    std::ofstream o(path.c_str());
    if (d.save(o) != 0) {
        c.fail("saving failed");
        return nullptr;
    }
    o.close();
    {
        std::ifstream in(path.c_str());
        std::stringstream ss;
        ss << in.rdbuf();
        if (bytes) *bytes = ss.str();
    }
    try {
        return std::unique_ptr<MeaningDictionary>(new MeaningDictionary(path));
    } catch (const std::exception& e) {
        c.fail("a saved dictionary cannot be loaded: %s", e.what());
        return nullptr;
    }
}

template <class K>
struct ByteLess {
    bool operator()(const K& a, const K& b) const { return memcmp(&a, &b, sizeof(K)) < 0; }
};
template <class K>
static bool mapOps(Case& c, const vector<K>& keys, const vector<int>& ops, const vector<K>& absent) {
    typedef mws::types::VectorMap<K, int> M;
    M m;
    std::map<K, int, ByteLess<K>> ref;
    int step = 0;
    for (int op : ops) {
        step++;
        const K& k = keys[op / 3];
        c.add("operations");
        if (op % 3 == 0) {
            auto r = m.insert(std::make_pair(k, step));
            auto e = ref.insert(std::make_pair(k, step));
            if (r.second != e.second || r.first == m.end() || memcmp(&r.first->first, &k, sizeof(K)) || r.first->second != e.first->second) {
                c.fail("step %d: insert reports another result than a map", step);
                return false;
            }
        } else if (op % 3 == 1) {
            m[k] = step;
            ref[k] = step;
        } else {
            int a = m[k], b = ref[k];
            if (a != b) {
                c.fail("step %d: [] returns %d instead of %d", step, a, b);
                return false;
            }
        }
        if (m.size() != ref.size()) {
            c.fail("step %d: size %zu instead of %zu", step, m.size(), ref.size());
            return false;
        }
        const M& cm = m;
        auto it = cm.begin();
        for (auto& x : ref) {
            if (it == cm.end() || memcmp(&it->first, &x.first, sizeof(K)) || it->second != x.second) {
                c.fail("step %d: iteration differs from an ordered map", step);
                return false;
            }
            ++it;
        }
        if (it != cm.end()) {
            c.fail("step %d: iteration does not end", step);
            return false;
        }
        for (auto* list : {&keys, &absent})
            for (auto& q : *list) {
                auto f = m.find(q);
                auto g = cm.find(q);
                auto e = ref.find(q);
                c.add("lookups");
                if ((f == m.end()) != (e == ref.end()) || (g == cm.end()) != (e == ref.end()) ||
                    (e != ref.end() && (f->second != e->second || g->second != e->second))) {
                    c.fail("step %d: find differs from a map", step);
                    return false;
                }
            }
    }
    return true;
}
struct Pair : public Parcelable {
    string a, b;
    mws::types::FormulaPath p;
    size_t getParcelableSize() const {
        ParcelAllocator x;
        x.reserve(a);
        x.reserve(p);
        x.reserve(b);
        return x.getSize();
    }
    void writeToParcel(ParcelEncoder* e) const {
        e->encode(a);
        e->encode(p);
        e->encode(b);
    }
    void readFromParcel(ParcelDecoder* d) {
        d->decode(&a);
        d->decode(&p);
        d->decode(&b);
    }
};

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C20", "model_checking");
    run.declare({"sequences", "operations", "lookups", "damaged"});
    run.transitionsCounter = "operations";
    run.tracesCounter = "sequences";
    run.rule = "state = distinct content of the abstract map, dictionary or record; transition = one operation on the "
               "real container compared with the abstract one; after each operation every key is looked up, present or not";
    run.assumptions = {"symbols are never empty and contain no NUL (they come from XML: tag, '#', text)"};
    const bool th = run.thorough;

    // dictionary: all sequences of put/get/reload
    {
        const int NK = 4, depth = th ? 8 : 6;
        const int NOPS = NK + 2;  // put each, get all, reload
        uint64_t n = 1;
        for (int i = 0; i < depth; i++) n *= NOPS;
        run.forall("dictionary operations", n, [&](Case& c) {
            vk::Digits d(c.index);
            std::unique_ptr<MeaningDictionary> m(new MeaningDictionary());
            vector<string> order;
            std::map<string, MeaningId> given;
            string desc;
            c.add("sequences");
            for (int s = 0; s < depth; s++) {
                int op = d.next(NOPS);
                c.add("operations");
                if (op < NK) {
                    const string& k = KEYS[(op + s % 3 * NK) % KEYS.size()];
                    desc += "put " + vk::jstr(k) + "; ";
                    c.desc(desc);
                    MeaningId v = m->put(k);
                    if (given.count(k) ? given[k] != v : false) {
                        c.fail("key %s changes its number from %u to %u", vk::jstr(k).c_str(), given[k], v);
                        return;
                    }
                    if (!given.count(k)) order.push_back(k);
                    given[k] = v;
                } else if (op == NK) {
                    for (auto& x : given)
                        if (m->get(x.first) != x.second || m->put(x.first) != x.second) {
                            c.fail("key %s changed its number", vk::jstr(x.first).c_str());
                            return;
                        }
                } else {
                    desc += "save and load; ";
                    c.desc(desc);
                    auto l = reload(c, *m, c.scratch + "/d", nullptr);
                    if (!l) return;
                    m = std::move(l);
                }
            }
            if (!sameDict(c, *m, order, "in the end")) return;
            for (auto& x : given)
                if (m->get(x.first) != x.second) {
                    c.fail("key %s changed its number", vk::jstr(x.first).c_str());
                    return;
                }
            string s;
            for (auto& k : order) s += k + "|";
            c.state("d" + s);
        });
        run.forall("dictionary sizes", th ? 300 : 100, [&](Case& c) {
            unsigned n = c.index < 40 ? c.index : c.index * c.index / 8;
            MeaningDictionary m;
            vector<string> order;
            c.add("sequences");
            c.desc(vk::fmt("%u keys", n));
            for (unsigned i = 0; i < n; i++) {
                order.push_back(vk::fmt("k%u", (i * 7919u) % 1000003u) + string(i % 67, 'x'));
                m.put(order.back());
                c.add("operations");
            }
            auto l = reload(c, m, c.scratch + "/d", nullptr);
            if (!l) return;
            for (auto& k : order)
                if (l->get(k) != m.get(k)) {
                    c.fail("key %s changed its number by saving and loading", k.c_str());
                    return;
                }
            if (!sameDict(c, *l, order, "after loading")) return;
            // goes on numbering without reusing a number
            MeaningId a = l->put("new key"), b = m.put("new key");
            if (a != b) {
                c.fail("a key added after loading gets the number %u, without saving and loading %u", a, b);
                return;
            }
            c.state(vk::fmt("n%u", n));
        });
        // contents of keys: every byte
        run.forall("dictionary keys", 255 * 3, [&](Case& c) {
            char b = (char)(c.index / 3 + 1);
            string k = c.index % 3 == 0 ? string(1, b) : c.index % 3 == 1 ? string("ci#") + b : string(1, b) + "#x" + b;
            MeaningDictionary m;
            c.add("sequences");
            c.add("operations", 3);
            c.desc("key " + vk::jstr(k));
            vector<string> order = {"first", k, "last"};
            for (auto& x : order) m.put(x);
            auto l = reload(c, m, c.scratch + "/d", nullptr);
            if (!l || !sameDict(c, *l, order, "after loading")) return;
            c.state("k" + k);
        });
        // damaged: refused, or the same dictionary
        run.forall("damaged dictionary", 6, [&](Case& c) {
            MeaningDictionary m;
            for (unsigned i = 0; i < c.index; i++) m.put(KEYS[i]);
            string bytes;
            c.add("sequences");
            auto l = reload(c, m, c.scratch + "/d", &bytes);
            if (!l) return;
            auto judge = [&](const string& b, const string& what) {
                vk::writeFile(c.scratch + "/e", b);
                c.add("damaged");
                c.beat();
                c.desc(vk::fmt("%u keys, ", (unsigned)c.index) + what);
                try {
                    MeaningDictionary x(c.scratch + "/e");
                    for (unsigned i = 0; i < KEYS.size(); i++)
                        if (x.get(KEYS[i]) != m.get(KEYS[i])) {
                            c.fail("a damaged dictionary is loaded with another content");
                            return false;
                        }
                } catch (const std::exception& e) {
                }
                return true;
            };
            for (size_t i = 0; i < bytes.size(); i++) {
                if (!judge(bytes.substr(0, i), vk::fmt("cut after %zu", i))) return;
                if (!judge(bytes.substr(0, i) + bytes.substr(i + 1), vk::fmt("without byte %zu", i))) return;
                for (int x = 1; x < 256; x += th ? 1 : 5) {
                    string t = bytes;
                    t[i] ^= x;
                    if (!judge(t, vk::fmt("byte %zu ^ %d", i, x))) return;
                }
                for (int x : vector<int>{0, 1, 97, 48, 255})
                    if (!judge(bytes.substr(0, i) + string(1, (char)x) + bytes.substr(i), vk::fmt("%d inserted at %zu", x, i))) return;
            }
            c.state(vk::fmt("dam%llu", (unsigned long long)c.index));
        }, 1);
    }
    // ordered map
    {
        vector<encoded_token_t> tk, tabs;
        for (auto x : {std::make_pair(161u, 0u), {161u, 1u}, {417u, 0u}, {16777215u, 255u}, {1u, 0u}}) tk.push_back(encoded_token(x.first, x.second));
        for (auto x : {std::make_pair(160u, 0u), {162u, 0u}, {161u, 2u}, {417u, 1u}}) tabs.push_back(encoded_token(x.first, x.second));
        vector<int> ik = {-1, 0, 1, 256, 2147483647}, iabs = {2, -2, 255, 257, 65536};
        const int depth = th ? 6 : 5;
        uint64_t n = 1;
        for (int i = 0; i < depth; i++) n *= 15;
        const unsigned part = 64;
        run.forall("map operations", (n + part - 1) / part * 2, [&](Case& c) {
            for (uint64_t k = c.index / 2 * part; k < n && k < (c.index / 2 + 1) * part; k++) {
                vk::Digits d(k);
                vector<int> ops;
                string s;
                for (int i = 0; i < depth; i++) {
                    ops.push_back(d.next(15));
                    s += vk::fmt("%s key %d; ", ops.back() % 3 == 0 ? "insert" : ops.back() % 3 == 1 ? "set" : "get", ops.back() / 3);
                }
                c.add("sequences");
                c.desc(s);
                bool ok = c.index % 2 ? mapOps<int>(c, ik, ops, iabs) : mapOps<encoded_token_t>(c, tk, ops, tabs);
                if (!ok) return;
                c.state("m" + s);
            }
        });
        // insertion orders of larger maps: permutations given by all strides and rotations
        run.forall("map orders", th ? 64 : 24, [&](Case& c) {
            unsigned n = c.index + 1;
            for (unsigned stride = 1; stride <= n; stride++) {
                unsigned a = stride, b = n;
                while (b) {
                    unsigned t = a % b;
                    a = b;
                    b = t;
                }
                if (a != 1) continue;
                for (unsigned rot = 0; rot < n; rot++)
                    for (int rev = 0; rev < 2; rev++) {
                        c.add("sequences");
                        c.add("operations", n);
                        c.beat();
                        c.desc(vk::fmt("%u keys, stride %u, rotation %u", n, stride, rot));
                        mws::types::VectorMap<encoded_token_t, unsigned> m;
                        std::map<encoded_token_t, unsigned, ByteLess<encoded_token_t>> ref;
                        for (unsigned i = 0; i < n; i++) {
                            unsigned v = (i * stride + rot) % n;
                            encoded_token_t t = encoded_token(161 + (rev ? n - v : v) * 131, v % 4);
                            m.insert(std::make_pair(t, v));
                            ref.insert(std::make_pair(t, v));
                        }
                        auto it = m.begin();
                        for (auto& x : ref) {
                            if (it == m.end() || it->second != x.second || m.find(x.first) == m.end() || m.find(x.first)->second != x.second) {
                                c.fail("differs from an ordered map");
                                return;
                            }
                            ++it;
                            encoded_token_t t = x.first;
                            t.arity += 4;
                            if (m.find(t) != m.end()) {
                                c.fail("an absent key is found");
                                return;
                            }
                        }
                    }
            }
            c.state(vk::fmt("o%u", n));
        }, 1);
    }
    // records
    {
        vector<string> vals = {"", "a", string(1, '\0'), "ab", string("\0\0\0\0\0\0\0\0", 8), "\xff\xff\xff\xff\xff\xff\xff\xff", string(300, 'q'), "\n\xce\xb1"};
        uint64_t V = vals.size();
        run.forall("records", V * V * V * V, [&](Case& c) {
            vk::Digits d(c.index);
            Pair p, q;
            p.a = vals[d.next(V)];
            p.b = vals[d.next(V)];
            p.p.xmlId = vals[d.next(V)];
            p.p.xpath = vals[d.next(V)];
            c.add("sequences");
            c.add("operations", 2);
            c.desc(vk::jstr(p.a) + "," + vk::jstr(p.b) + "," + vk::jstr(p.p.xmlId) + "," + vk::jstr(p.p.xpath));
            ParcelAllocator al;
            al.reserve(p);
            ParcelEncoder en(al);
            en.encode(p);
            string bytes(en.getData(), en.getSize());
            auto decode = [&](const string& b, bool* ok) {
                std::unique_ptr<char[]> buf(new char[b.size() ? b.size() : 1]);  // exact size: asan sees any overrun
                memcpy(buf.get(), b.data(), b.size());
                Pair r;
                try {
                    ParcelDecoder de(buf.get(), b.size());
                    de.decode(&r);
                    *ok = true;
                } catch (const std::exception& e) {
                    *ok = false;
                }
                return r;
            };
            bool ok;
            q = decode(bytes, &ok);
            if (!ok || q.a != p.a || q.b != p.b || q.p != p.p) {
                c.fail("a record does not decode to what was encoded");
                return;
            }
            c.state("r" + c.description);
            // every truncation fails, every change is read within bounds
            for (size_t i = 0; i < bytes.size(); i += bytes.size() > 200 ? 17 : 1) {
                decode(bytes.substr(0, i), &ok);
                c.add("damaged");
                if (ok) {
                    c.fail("a record cut after %zu of %zu bytes is decoded", i, bytes.size());
                    return;
                }
                for (int x : {1, 0x80, 0xff}) {
                    string t = bytes;
                    t[i] ^= x;
                    decode(t, &ok);
                    c.add("damaged");
                }
            }
        });
    }
    return run.finish();
}
