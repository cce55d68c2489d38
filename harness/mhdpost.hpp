// Model of the HTTP library's post processor for urlencoded bodies: the pieces
// of a value are handed out as they arrive, except for incomplete escapes. C27
// compares it with the real library.
#ifndef MHDPOST_HPP
#define MHDPOST_HPP
#include <microhttpd.h>
#include <stdint.h>
#include <string>

namespace mhdpost {
typedef int (*Iterator)(void*, MHD_ValueKind, const char*, const char*, const char*, const char*, const char*, uint64_t, size_t);
struct Processor {
    Iterator it;
    void* cls;
    std::string key, escape;
    bool inValue, told;
    uint64_t off;
};
inline Processor* create(Iterator it, void* cls) {
    Processor* p = new Processor();
    p->it = it;
    p->cls = cls;
    p->inValue = p->told = false;
    p->off = 0;
    return p;
}
inline bool hand(Processor* p, std::string& chunk) {
    if (chunk.empty() && p->told) return true;
    int r = p->it(p->cls, MHD_POSTDATA_KIND, p->key.c_str(), nullptr, nullptr, nullptr, chunk.c_str(), p->off, chunk.size());
    p->told = true;
    p->off += chunk.size();
    chunk.clear();
    return r == MHD_YES;
}
inline int hexValue(char c) {
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
inline bool process(Processor* p, const char* d, size_t n) {
    std::string chunk;
    bool seen = false;  // of the value, in this piece
    for (size_t i = 0; i < n; i++) {
        char c = d[i];
        if (!p->inValue) {
            if (c == '=') p->inValue = true, p->told = false, p->off = 0;
            else if (c != '&') p->key += c;
            else if (!p->key.empty()) {
                p->told = false, p->off = 0;
                if (!hand(p, chunk)) return false;
                p->key.clear();
            }
            continue;
        }
        if (c == '&') {
            if (!hand(p, chunk)) return false;
            p->key.clear();
            p->escape.clear();
            p->inValue = seen = false;
            continue;
        }
        seen = true;
        if (!p->escape.empty()) {
            p->escape += c;
            if (p->escape.size() == 3) {
                chunk += (char)(hexValue(p->escape[1]) * 16 + hexValue(p->escape[2]));
                p->escape.clear();
            }
            continue;
        }
        if (c == '%')
            p->escape = "%";
        else
            chunk += c == '+' ? ' ' : c;
    }
    return !p->inValue || !seen || hand(p, chunk);
}
inline void destroy(Processor* p) {
    std::string none;
    if (p->inValue) hand(p, none);
    delete p;
}
}  // namespace mhdpost
#endif
