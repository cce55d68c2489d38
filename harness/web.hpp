// A web of pages in memory behind the interface of libcurl.
#pragma once
#include <cstdarg>
#include <cstring>
#include <map>
#include <string>
#include <vector>
namespace web {
struct Page {
    std::string header, body;
    long failAfter = -1;  // the download breaks after this many bytes of the body
};
struct State {
    std::map<std::string, Page> site;
    std::vector<std::string> log;  // the addresses requested, without fragments
    size_t piece = 0;              // the size of the pieces the body arrives in, 0: all at once
    bool offline = false;          // no handle can be created
    void (*onFetch)(const std::string&) = nullptr;
    void clear() {
        site.clear();
        log.clear();
        piece = 0;
        offline = false;
    }
};
inline State& state() {
    static State s;
    return s;
}
inline std::string header(const std::string& type) {
    return "HTTP/1.1 200 OK\r\nServer: test\r\nContent-Type: " + type + "\r\nConnection: close\r\n\r\n";
}
inline void put(const std::string& url, const std::string& body, const std::string& type = "text/html") {
    Page p;
    p.header = header(type);
    p.body = body;
    state().site[url] = p;
}
typedef size_t (*Writer)(char*, size_t, size_t, void*);
struct Handle {
    std::string url;
    Writer body = nullptr, head = nullptr;
    void *bodyData = nullptr, *headData = nullptr;
    char* error = nullptr;
    bool nobody = false, failOnError = false;
};
inline bool send(Writer w, void* d, const std::string& s, size_t piece) {
    if (!w || s.empty()) return true;
    if (!piece) piece = s.size();
    for (size_t p = 0; p < s.size(); p += piece) {
        std::string t = s.substr(p, piece);
        if (w((char*)t.data(), 1, t.size(), d) != t.size()) return false;
    }
    return true;
}
inline int perform(Handle* h) {
    State& s = state();
    std::string u = h->url.substr(0, h->url.find('#'));
    s.log.push_back(u);
    if (s.onFetch) s.onFetch(u);
    auto it = s.site.find(u);
    Page p;
    if (it != s.site.end()) {
        p = it->second;
    } else {
        p.header = "HTTP/1.1 404 Not Found\r\nContent-Type: text/plain\r\n\r\n";
        p.body = "there is nothing here";
        if (h->failOnError) return 22;
    }
    // header lines arrive one by one
    for (size_t a = 0; a < p.header.size();) {
        size_t b = p.header.find('\n', a);
        b = b == std::string::npos ? p.header.size() : b + 1;
        if (!send(h->head, h->headData, p.header.substr(a, b - a), 0)) return 23;
        a = b;
    }
    if (h->nobody) return 0;
    std::string body = p.failAfter >= 0 ? p.body.substr(0, p.failAfter) : p.body;
    if (!send(h->body, h->bodyData, body, s.piece)) return 23;
    if (p.failAfter >= 0) {
        if (h->error) strcpy(h->error, "transfer closed with bytes remaining");
        return 18;
    }
    return 0;
}
}  // namespace web

extern "C" {
void* curl_easy_init() { return web::state().offline ? nullptr : new web::Handle; }
void curl_easy_cleanup(void* h) { delete (web::Handle*)h; }
void curl_easy_reset(void* h) { *(web::Handle*)h = web::Handle(); }
int curl_easy_setopt(void* hv, int opt, ...) {
    web::Handle* h = (web::Handle*)hv;
    va_list ap;
    va_start(ap, opt);
    switch (opt) {
        case 10002: h->url = va_arg(ap, const char*); break;
        case 20011: h->body = va_arg(ap, web::Writer); break;
        case 10001: h->bodyData = va_arg(ap, void*); break;
        case 20079: h->head = va_arg(ap, web::Writer); break;
        case 10029: h->headData = va_arg(ap, void*); break;
        case 10010: h->error = va_arg(ap, char*); break;
        case 44: h->nobody = va_arg(ap, long) != 0; break;
        case 45: h->failOnError = va_arg(ap, long) != 0; break;
        default: break;
    }
    va_end(ap);
    return 0;
}
int curl_easy_perform(void* h) { return web::perform((web::Handle*)h); }
int curl_easy_getinfo(void* hv, int info, ...) {
    web::Handle* h = (web::Handle*)hv;
    std::string u = h->url.substr(0, h->url.find('#'));
    auto it = web::state().site.find(u);
    va_list ap;
    va_start(ap, info);
    int rc = 0;
    if (info == 0x200000 + 2) {  // response code
        *va_arg(ap, long*) = it == web::state().site.end() ? 404 : 200;
    } else if (info == 0x100000 + 1) {  // effective url
        *va_arg(ap, const char**) = h->url.c_str();
    } else
        rc = 48;
    va_end(ap);
    return rc;
}
const char* curl_easy_strerror(int) { return "error"; }
int curl_global_init(long) { return 0; }
void curl_global_cleanup() {}
}
