// The transport of a simulated rank process: every call is a request to the simulator (sim/py/ranks.py), which decides
// when it is answered.  While a request is pending the simulator may read this process's memory (send buffers).
#include "../stub/boost/mpi/simhub.hpp"
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
namespace {
int fd = -1, world = 1;
struct Head { char type; char pad[7]; int64_t f[5]; uint64_t n; };
void put(const void *p, size_t n) {
    const char *c = (const char *)p;
    while (n) { ssize_t k = write(fd, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; _exit(90); } c += k; n -= k; }
}
void get(void *p, size_t n) {
    char *c = (char *)p;
    while (n) { ssize_t k = read(fd, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; _exit(91); } c += k; n -= k; }
}
void frame(char t, const int64_t (&f)[5], const void *b, size_t n) {
    Head h{}; h.type = t; memcpy(h.f, f, sizeof f); h.n = n;
    put(&h, sizeof h); if (n) put(b, n);
}
struct Answer { int64_t f[5]; std::string b; };
Answer call(char t, const int64_t (&f)[5], const void *b = nullptr, size_t n = 0) {
    frame(t, f, b, n);
    for (;;) {
        Head h; get(&h, sizeof h);
        if (h.type == 'M') { int64_t z[5] = {}; frame('m', z, (const void *)h.f[0], (size_t)h.f[1]); continue; }
        Answer a; memcpy(a.f, h.f, sizeof a.f); a.b.resize(h.n); if (h.n) get(&a.b[0], h.n);
        return a;
    }
}
struct Remote : simmpi::Hub {
    int size() override { return world; }
    long post_send(int, int dst, int tag, std::string packed, const void *direct, size_t nb, bool blocking) override {
        return call('S', {dst, tag, blocking, (int64_t)direct, (int64_t)nb}, packed.data(), packed.size()).f[0];
    }
    long post_recv(int, int src, int tag) override { return call('R', {src, tag}).f[0]; }
    bool test(int, long req) override { return call('T', {req}).f[0]; }
    void wait(int, long req) override { call('W', {req}); }
    std::string take(int, long req, int *src, int *tag) override { Answer a = call('K', {req}); *src = (int)a.f[0]; *tag = (int)a.f[1]; return a.b; }
    void drop(int, long req) override { call('D', {req}); }
    bool probe(int, int src, int tag, bool block, int *s, int *t) override { Answer a = call('P', {src, tag, block}); *s = (int)a.f[1]; *t = (int)a.f[2]; return a.f[0]; }
    std::vector<std::string> collective(int, const char *kind, int root, std::string mine) override {
        std::string b(kind); int64_t k = (int64_t)b.size(); b += mine;
        Answer a = call('C', {root, k}, b.data(), b.size());
        std::vector<std::string> out; size_t p = 0;
        for (int i = 0; i < world; i++) { uint64_t n; memcpy(&n, a.b.data() + p, 8); out.emplace_back(a.b.data() + p + 8, n); p += 8 + n; }
        return out;
    }
    void note(int, const char *) override {}
};
Remote hub;
} // namespace
namespace simmpi { Hub *g_hub = &hub; int g_rank = 0; }
extern "C" {
__attribute__((visibility("default"))) void pysim_rank(int f, int rank, int size) { fd = f; simmpi::g_rank = rank; world = size; }
__attribute__((visibility("default"))) void pysim_begin() { call('B', {}); }
// for the stand-in of mpi4py: broadcast of bytes.  Returns the length; the bytes stay valid until the next call.
static std::string last;
__attribute__((visibility("default"))) const char *pysim_bcast(const char *b, int64_t n, int root, int64_t *len) {
    auto v = hub.collective(simmpi::g_rank, "broadcast", root, simmpi::g_rank == root ? std::string(b, n) : std::string());
    last = v[root]; *len = (int64_t)last.size(); return last.data();
}
__attribute__((visibility("default"))) void pysim_out(const char *b, int64_t n) { int64_t z[5] = {}; frame('O', z, b, n); }
}
