// The HTTP library replaced for scheduled executions: requests are delivered
// by the scheduler's threads, and what is queued is kept with the connection.
#ifndef MHDSCHED_HPP
#define MHDSCHED_HPP
#include "sched.hpp"
#include <microhttpd.h>
#include <stdarg.h>

struct MHD_Connection {
    int responses;
    unsigned status;
    std::string body;
    std::string headers;
};
struct MHD_Response {
    std::string body, headers;
    void* toFree;
    int refs;
};
namespace mhd {
struct Registered {
    MHD_AccessHandlerCallback dh = nullptr;
    void* cls = nullptr;
    MHD_RequestCompletedCallback done = nullptr;
    void* doneCls = nullptr;
    unsigned flags = 0;
    bool threadPerConnection() const { return flags & MHD_USE_THREAD_PER_CONNECTION; }
};
static Registered reg;
static std::function<void()> onStart, onStop;

typedef MHD_Result (*DH)(void*, MHD_Connection*, const char*, const char*, const char*, const char*, size_t*, void**);

// delivers one request the way the library does; returns what the client sees
static std::string deliver(const std::string& method, const std::string& url, const std::vector<std::string>& pieces,
                           int abortAfter = -1) {
    MHD_Connection c;
    c.responses = 0;
    c.status = 0;
    void* ptr = nullptr;
    DH dh = (DH)reg.dh;
    int calls = 0;
    MHD_RequestTerminationCode code = MHD_REQUEST_TERMINATED_COMPLETED_OK;
    auto aborted = [&] { return abortAfter >= 0 && calls >= abortAfter; };
    size_t zero = 0;
    bool over = false;
    schedrt_point('h');
    calls++;
    if (dh(reg.cls, &c, url.c_str(), method.c_str(), "HTTP/1.1", nullptr, &zero, &ptr) != MHD_YES) over = true;
    if (c.responses) over = true;
    for (size_t i = 0; i < pieces.size() && !over && !aborted(); i++) {
        const char* p = pieces[i].data();
        size_t n = pieces[i].size();
        while (n && !over) {
            size_t k = n;
            schedrt_point('h');
            calls++;
            if (dh(reg.cls, &c, url.c_str(), method.c_str(), "HTTP/1.1", p, &k, &ptr) != MHD_YES) over = true;
            p += n - k;
            n = k;
        }
    }
    if (!over && !aborted()) {
        zero = 0;
        schedrt_point('h');
        calls++;
        dh(reg.cls, &c, url.c_str(), method.c_str(), "HTTP/1.1", nullptr, &zero, &ptr);
    } else if (aborted()) {
        code = MHD_REQUEST_TERMINATED_CLIENT_ABORT;
    }
    schedrt_point('h');
    if (reg.done) reg.done(reg.doneCls, &c, &ptr, code);
    return vk::fmt("%d response(s), status %u\n", c.responses, c.status) + c.headers + c.body;
}
}  // namespace mhd

extern "C" {
MHD_Daemon* MHD_start_daemon(unsigned flags, uint16_t port, MHD_AcceptPolicyCallback apc, void* apcCls,
                             MHD_AccessHandlerCallback dh, void* cls, ...) {
    mhd::reg = mhd::Registered();
    mhd::reg.dh = dh;
    mhd::reg.cls = cls;
    mhd::reg.flags = flags;
    va_list ap;
    va_start(ap, cls);
    for (bool more = true; more;) {
        switch (va_arg(ap, int)) {
        case MHD_OPTION_NOTIFY_COMPLETED:
            mhd::reg.done = va_arg(ap, MHD_RequestCompletedCallback);
            mhd::reg.doneCls = va_arg(ap, void*);
            break;
        case MHD_OPTION_CONNECTION_LIMIT:
        case MHD_OPTION_CONNECTION_TIMEOUT:
        case MHD_OPTION_PER_IP_CONNECTION_LIMIT:
        case MHD_OPTION_THREAD_POOL_SIZE:
        case MHD_OPTION_LISTENING_ADDRESS_REUSE: (void)va_arg(ap, unsigned); break;
        case MHD_OPTION_CONNECTION_MEMORY_LIMIT:
        case MHD_OPTION_CONNECTION_MEMORY_INCREMENT:
        case MHD_OPTION_THREAD_STACK_SIZE: (void)va_arg(ap, size_t); break;
        default: more = false;
        }
    }
    va_end(ap);
    static int token;
    if (mhd::onStart) mhd::onStart();
    return (MHD_Daemon*)&token;
}
void MHD_stop_daemon(MHD_Daemon*) {
    if (mhd::onStop) mhd::onStop();
}
static MHD_Response* newResponse(size_t n, void* d, bool mustFree) {
    MHD_Response* r = new MHD_Response;
    r->body.assign((const char*)d, n);
    r->toFree = mustFree ? d : nullptr;
    r->refs = 1;
    return r;
}
MHD_Response* MHD_create_response_from_buffer(size_t n, void* d, MHD_ResponseMemoryMode m) {
    return newResponse(n, d, m == MHD_RESPMEM_MUST_FREE);
}
MHD_Response* MHD_create_response_from_data(size_t n, void* d, int mustFree, int) { return newResponse(n, d, mustFree); }
MHD_Response* MHD_create_response_from_buffer_static(size_t n, const void* d) { return newResponse(n, (void*)d, false); }
MHD_Response* MHD_create_response_from_buffer_copy(size_t n, const void* d) { return newResponse(n, (void*)d, false); }
MHD_Result MHD_add_response_header(MHD_Response* r, const char* k, const char* v) {
    if (!r || !k || !v) return MHD_NO;
    r->headers += std::string(k) + ": " + v + "\n";
    return MHD_YES;
}
MHD_Result MHD_queue_response(MHD_Connection* c, unsigned status, MHD_Response* r) {
    if (!c || !r) return MHD_NO;
    if (c->responses++) return MHD_NO;
    c->status = status;
    c->body = r->body;
    c->headers = r->headers;
    return MHD_YES;
}
void MHD_destroy_response(MHD_Response* r) {
    if (--r->refs == 0) {
        free(r->toFree);
        delete r;
    }
}
}
#endif
