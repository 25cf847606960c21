#include <cstdarg>
#include "simcore.hpp"
#include <sys/mman.h>
#include <malloc.h>

namespace sim {
Run *g_run = nullptr;

static void put(std::string &b, const void *p, size_t n) { b.append((const char *)p, n); }
static void put64(std::string &b, u64 v) { put(b, &v, 8); }
static void puts_(std::string &b, const std::string &s) { put64(b, s.size()); b += s; }
struct Rd {
    const std::string &b;
    size_t p = 0;
    bool ok = true;
    u64 g64() { u64 v = 0; if (p + 8 > b.size()) { ok = false; return 0; } memcpy(&v, b.data() + p, 8); p += 8; return v; }
    std::string gs() { u64 n = g64(); if (!ok || p + n > b.size()) { ok = false; return ""; } std::string s = b.substr(p, n); p += n; return s; }
};

// Shared page: lets the parent see how far a crashed/hung child got (ops + choices are regenerated from it).
struct Shared {
    volatile u64 nchoices;
    char ctx[256];
    u32 choices[1 << 20];
};
static Shared *g_shared;
void mirror_choice(u32 v) {
    if (g_shared && g_shared->nchoices < (1 << 20)) { g_shared->choices[g_shared->nchoices] = v; g_shared->nchoices = g_shared->nchoices + 1; }
}
void crash_context(const char *what) {
    if (g_shared) { strncpy((char *)g_shared->ctx, what, sizeof g_shared->ctx - 1); }
}

static std::string enc(const Outcome &o) {
    std::string b;
    put64(b, o.status); puts_(b, o.cls); puts_(b, o.msg);
    put64(b, o.ops.size()); for (auto &x : o.ops) puts_(b, x.str());
    put64(b, o.choices.size()); for (u32 c : o.choices) put64(b, c);
    put64(b, o.h); put64(b, o.steps);
    put64(b, o.cnt.size()); for (auto &kv : o.cnt) { puts_(b, kv.first); put64(b, kv.second); }
    put64(b, o.states.size()); for (u64 v : o.states) put64(b, v);
    puts_(b, o.sample);
    put64(b, 0xE0F);
    return b;
}
static bool dec(const std::string &b, Outcome &o) {
    Rd r{b};
    o.status = (int)r.g64(); o.cls = r.gs(); o.msg = r.gs();
    u64 n = r.g64(); for (u64 i = 0; i < n && r.ok; i++) o.ops.push_back(Op::parse(r.gs()));
    n = r.g64(); for (u64 i = 0; i < n && r.ok; i++) o.choices.push_back((u32)r.g64());
    o.h = r.g64(); o.steps = r.g64();
    n = r.g64(); for (u64 i = 0; i < n && r.ok; i++) { auto k = r.gs(); o.cnt[k] = r.g64(); }
    n = r.g64(); for (u64 i = 0; i < n && r.ok; i++) o.states.push_back(r.g64());
    o.sample = r.gs();
    return r.g64() == 0xE0F && r.ok;
}

static int g_outfd = -1;
static void send_outcome(Outcome &o, Run &run) {
    o.ops = run.ops; o.choices = run.taken; o.h = run.h; o.steps = run.steps; o.cnt = run.cnt; o.sample = run.sample;
    o.states.assign(run.states.begin(), run.states.end());
    std::string b = enc(o);
    size_t p = 0;
    while (p < b.size()) { ssize_t k = write(g_outfd, b.data() + p, b.size() - p); if (k <= 0) break; p += k; }
}
void child_fail(const char *cls, const std::string &msg) {
    Outcome o;
    o.status = 1; o.cls = cls; o.msg = msg + std::string(" (while: ") + g_shared->ctx + ")";
    if (g_run) send_outcome(o, *g_run);
    _exit(0);
}

// Executes one run in a forked child. ops==nullptr: generate from the seed.
static Outcome run_child(Sim &s, u64 seed, const std::vector<Op> *ops, const std::vector<u32> *choices, bool verbose) {
    int fd[2];
    if (pipe(fd)) { perror("pipe"); _exit(2); }
    fflush(stdout); fflush(stderr);
    g_shared->nchoices = 0; g_shared->ctx[0] = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (pid == 0) {
        close(fd[0]);
        struct rlimit rl;
        rl.rlim_cur = (rlim_t)ceil(s.cpu_limit); rl.rlim_max = rl.rlim_cur + 2;
        setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        g_outfd = fd[1];
        Run run;
        run.seed = seed; run.verbose = verbose;
        Outcome o;
        if (ops) run.ops = *ops; else s.gen(seed, run.ops);
        if (choices) { run.replay = true; run.given = *choices; }
        run.crng = Rng(seed ^ 0xC0FFEE1234ULL);
        g_run = &run;
        if (!verbose) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); }
        try { s.exec(run); }
        catch (Violation &v) { o.status = 1; o.cls = v.cls; o.msg = v.what(); }
        catch (std::exception &e) { o.status = 1; o.cls = "uncaught-exception"; o.msg = std::string("the engine threw: ") + e.what() + " while: " + g_shared->ctx; }
        send_outcome(o, run);
        _exit(0);
    }
    close(fd[1]);
    std::string b;
    char buf[65536];
    // wall-clock backstop far above anything a healthy run needs; the CPU limit is what normally ends a runaway run
    time_t t0 = time(nullptr);
    bool walled = false;
    for (;;) {
        struct pollfd pf = {fd[0], POLLIN, 0};
        int pr = poll(&pf, 1, 1000);
        if (pr == 0) { if (time(nullptr) - t0 > (time_t)(s.cpu_limit * 10 + 60)) { kill(pid, SIGKILL); walled = true; break; } continue; }
        if (pr < 0) { if (errno == EINTR) continue; break; }
        ssize_t n = read(fd[0], buf, sizeof buf);
        if (n < 0) { if (errno == EINTR) continue; break; }
        if (n == 0) break;
        b.append(buf, n);
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    if (!walled && WIFEXITED(st) && WEXITSTATUS(st) == 0 && dec(b, o)) return o;
    Outcome c;
    c.status = 1;
    if (ops) c.ops = *ops; else s.gen(seed, c.ops);
    if (choices) c.choices = *choices;
    else for (u64 i = 0; i < g_shared->nchoices && i < (1 << 20); i++) c.choices.push_back(g_shared->choices[i]);
    char m[400];
    if (walled) { c.cls = "hang"; snprintf(m, sizeof m, "the run did not finish (wall-clock backstop) while: %s", (char *)g_shared->ctx); }
    else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) { c.cls = "hang"; snprintf(m, sizeof m, "the run did not finish within %.0f s of CPU while: %s", s.cpu_limit, (char *)g_shared->ctx); }
    else if (WIFSIGNALED(st)) { c.cls = "crash"; snprintf(m, sizeof m, "the engine crashed with signal %d (%s) while: %s", WTERMSIG(st), strsignal(WTERMSIG(st)), (char *)g_shared->ctx); }
    else { c.cls = "exit"; snprintf(m, sizeof m, "the engine ended the process with status %d while: %s", WIFEXITED(st) ? WEXITSTATUS(st) : -1, (char *)g_shared->ctx); }
    c.msg = m;
    return c;
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (char ch : s) {
        unsigned char c = ch;
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static std::string replay_text(const Sim &s, u64 seed, const Outcome &o) {
    std::string t = "# deterministic-simulation replay: simulator, seed, operations, scheduling/fault choices\n";
    t += std::string("sim ") + s.name + "\nseed " + std::to_string(seed) + "\nclass " + o.cls + "\n";
    std::string m = o.msg; for (char &c : m) if (c == '\n') c = ' ';
    t += "violation " + m + "\n";
    for (auto &x : o.ops) t += "op " + x.str() + "\n";
    t += "choices";
    for (u32 c : o.choices) t += " " + std::to_string(c);
    t += "\nhash " + std::to_string(o.h) + "\n";
    return t;
}

static Outcome minimise(Sim &s, u64 seed, Outcome o, double budget_s) {
    double t0 = (double)time(nullptr);
    auto over = [&] { return (double)time(nullptr) - t0 > budget_s; };
    auto trial = [&](const std::vector<Op> &ops, const std::vector<u32> &ch) {
        Outcome r = run_child(s, seed, &ops, &ch, false);
        if (r.status == 1 && r.cls == o.cls) {
            if (r.choices.empty()) r.choices = ch;
            o = r;
            return true;
        }
        return false;
    };
    // drop operations (ddmin style)
    for (size_t chunk = std::max<size_t>(1, o.ops.size() / 2); chunk >= 1 && !over(); chunk /= 2) {
        for (size_t i = 0; i < o.ops.size() && !over();) {
            std::vector<Op> ops = o.ops;
            if (ops[i].k == "cfg" && chunk == 1) { i++; continue; }
            size_t e = std::min(ops.size(), i + chunk);
            std::vector<Op> keep;
            for (size_t j = 0; j < ops.size(); j++) if (j < i || j >= e || ops[j].k == "cfg") keep.push_back(ops[j]);
            if (keep.size() == ops.size() || !trial(keep, o.choices)) i += chunk;
        }
        if (chunk == 1) break;
    }
    if (s.simpler)
        for (size_t i = 0; i < o.ops.size() && !over(); i++)
            for (auto &c : s.simpler(o.ops[i])) {
                if (i >= o.ops.size()) break;
                auto ops = o.ops; ops[i] = c;
                if (trial(ops, o.choices)) break;
            }
    // default choices: truncate, then zero
    for (size_t keep = o.choices.size() / 2; !o.choices.empty() && !over();) {
        std::vector<u32> ch(o.choices.begin(), o.choices.begin() + std::min(keep, o.choices.size()));
        size_t before = o.choices.size();
        Outcome save = o;
        if (trial(o.ops, ch)) { o.choices = ch; keep = ch.size() / 2; if (ch.empty()) break; }
        else { size_t nk = keep + std::max<size_t>(1, (before - keep) / 2); if (nk >= before || nk == keep) break; keep = nk; }
        (void)save;
    }
    for (size_t chunk = std::max<size_t>(1, o.choices.size() / 2); !o.choices.empty() && !over(); chunk /= 2) {
        for (size_t i = 0; i < o.choices.size() && !over(); i += chunk) {
            std::vector<u32> ch = o.choices;
            bool any = false;
            for (size_t j = i; j < std::min(ch.size(), i + chunk); j++) if (ch[j]) { ch[j] = 0; any = true; }
            if (any && trial(o.ops, ch)) o.choices = ch;
        }
        if (chunk <= 1) break;
    }
    // canonical: what a replay of exactly this file records
    Outcome r = run_child(s, seed, &o.ops, &o.choices, false);
    if (r.status == 1 && r.cls == o.cls) { auto ch = o.choices; o = r; o.choices = ch; }
    return o;
}

// SIM_KNOWN: lines "class<tab>part of the message" of recorded, unrepaired defects: counted, not reported
static bool known(const std::string &cls, const std::string &msg) {
    static std::vector<std::pair<std::string, std::string>> k;
    static bool read;
    if (!read) {
        read = true;
        std::string e = getenv("SIM_KNOWN") ? getenv("SIM_KNOWN") : "";
        size_t p = 0;
        while (p < e.size()) {
            size_t q = e.find('\n', p); if (q == std::string::npos) q = e.size();
            std::string l = e.substr(p, q - p);
            size_t t = l.find('\t');
            if (t != std::string::npos) k.push_back({l.substr(0, t), l.substr(t + 1)});
            p = q + 1;
        }
    }
    for (auto &x : k) if (x.first == cls && msg.find(x.second) != std::string::npos) return true;
    return false;
}

int sim_main(int argc, char **argv, Sim &s) {
    // fixed address-space layout: part of making one seed one execution
    if (!getenv("QDD_SIM_NOASLR")) {
        setenv("QDD_SIM_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if (p >= 0 && personality((unsigned long)p | ADDR_NO_RANDOMIZE) >= 0) { execv("/proc/self/exe", argv); }
    }
    mallopt(M_MMAP_THRESHOLD, 1 << 30); // the address-space layout of a run must not depend on what the worker allocated before
    mallopt(M_ARENA_MAX, 1);
    g_shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::map<std::string, std::string> opt;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    if (mode == "replay") { // replay FILE: exit 1 if it fails the recorded way, 0 if it passes, 3 if it fails differently
        FILE *f = fopen(opt["--file"].c_str(), "r");
        if (!f) { perror("replay file"); return 2; }
        std::vector<Op> ops; std::vector<u32> ch; u64 seed = 0, hash = 0; std::string cls;
        static char line[1 << 20];
        bool havech = false;
        while (fgets(line, sizeof line, f)) {
            std::string l = line; while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
            if (l.rfind("seed ", 0) == 0) seed = strtoull(l.c_str() + 5, nullptr, 10);
            else if (l.rfind("class ", 0) == 0) cls = l.substr(6);
            else if (l.rfind("op ", 0) == 0) ops.push_back(Op::parse(l.substr(3)));
            else if (l.rfind("hash ", 0) == 0) hash = strtoull(l.c_str() + 5, nullptr, 10);
            else if (l.rfind("choices", 0) == 0) { havech = true; Op o = Op::parse(l); for (double d : o.a) ch.push_back((u32)d); }
        }
        fclose(f);
        (void)havech;
        Outcome r = run_child(s, seed, &ops, &ch, opt["--verbose"] == "1");
        printf("{\"status\":%d,\"class\":%s,\"msg\":%s,\"hash\":\"%llu\",\"same\":%s}\n", r.status, jstr(r.cls).c_str(), jstr(r.msg).c_str(),
               (unsigned long long)r.h, (r.status == 1 && r.cls == cls && (r.h == hash || r.cls == "crash" || r.cls == "hang" || r.cls == "exit")) ? "true" : "false");
        if (r.status == 0) return 0;
        return (r.cls == cls && (hash == r.h || r.cls == "crash" || r.cls == "hang" || r.cls == "exit")) ? 1 : 3;
    }
    if (mode == "one") { // one --seed S [--verbose 1]
        u64 seed = strtoull(opt["--seed"].c_str(), nullptr, 10);
        Outcome r = run_child(s, seed, nullptr, nullptr, opt["--verbose"] == "1");
        for (auto &o : r.ops) printf("op %s\n", o.str().c_str());
        printf("status %d class %s msg %s\nhash %llu steps %llu choices %zu\n", r.status, r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.h,
               (unsigned long long)r.steps, r.choices.size());
        for (auto &kv : r.cnt) printf("  %s = %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
        return r.status;
    }
    if (mode != "worker") { fprintf(stderr, "usage: worker|replay|one\n"); return 2; }
    // worker --first A --stride B --max N --time T --out DIR --id I --audit K [--stop 1]
    u64 first = strtoull(opt["--first"].c_str(), nullptr, 10), stride = opt.count("--stride") ? strtoull(opt["--stride"].c_str(), nullptr, 10) : 1;
    u64 maxn = strtoull(opt["--max"].c_str(), nullptr, 10);
    double T = atof(opt["--time"].c_str());
    u64 audit = opt.count("--audit") ? strtoull(opt["--audit"].c_str(), nullptr, 10) : 0;
    std::string out = opt["--out"], id = opt["--id"];
    struct timespec ts0; clock_gettime(CLOCK_MONOTONIC, &ts0);
    auto el = [&] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - ts0.tv_sec) + 1e-9 * (t.tv_nsec - ts0.tv_nsec); };
    u64 runs = 0, steps = 0, audited = 0, diverged = 0, nviol = 0;
    std::map<std::string, u64> cnt;
    std::set<u64> hashes, states;
    std::vector<std::string> samples;
    std::string divseeds;
    std::set<std::string> seencls;
    std::string viol = "[";
    for (u64 i = 0; i < maxn && el() < T; i++) {
        u64 seed = first + i * stride;
        Outcome r = run_child(s, seed, nullptr, nullptr, false);
        runs++; steps += r.steps;
        for (auto &kv : r.cnt) { u64 &c = cnt[kv.first]; c = kv.first.rfind("max_", 0) == 0 ? std::max(c, kv.second) : c + kv.second; }
        if (hashes.size() < 2000000) hashes.insert(r.h);
        for (u64 v : r.states) if (states.size() < 2000000) states.insert(v);
        if (samples.size() < 2 && !r.sample.empty()) samples.push_back(r.sample);
        if (i < audit && r.status == 0) {
            Outcome r2 = run_child(s, seed, nullptr, nullptr, false);
            audited++;
            if (r2.h != r.h || r2.choices != r.choices) { diverged++; divseeds += " " + std::to_string(seed); }
            Outcome r3 = run_child(s, seed, &r.ops, &r.choices, false);
            if (r3.h != r.h) { diverged++; divseeds += " r" + std::to_string(seed); }
        }
        if (r.status && known(r.cls, r.msg)) { cnt["known_finding_hits"]++; continue; }
        if (r.status) {
            nviol++;
            if (seencls.count(r.cls) || seencls.size() >= 3) { if (nviol > 40) break; continue; }
            // gate: the same seed must fail the same way again before anything is reported
            Outcome r2 = run_child(s, seed, nullptr, nullptr, false);
            bool again = r2.status == 1 && r2.cls == r.cls;
            cnt[again ? "gate_confirmed" : "gate_unconfirmed"]++;
            if (!again) { diverged++; divseeds += " v" + std::to_string(seed); continue; }
            seencls.insert(r.cls);
            Outcome m = minimise(s, seed, r, 45);
            std::string path = out + "/" + s.name + "-" + std::to_string(seed) + ".replay";
            FILE *f = fopen(path.c_str(), "w");
            if (f) { std::string t = replay_text(s, seed, m); fwrite(t.data(), 1, t.size(), f); fclose(f); }
            if (viol.size() > 1) viol += ",";
            viol += "{\"seed\":" + std::to_string(seed) + ",\"class\":" + jstr(m.cls) + ",\"msg\":" + jstr(m.msg) + ",\"replay\":" + jstr(path) +
                    ",\"ops_before\":" + std::to_string(r.ops.size()) + ",\"ops_after\":" + std::to_string(m.ops.size()) +
                    ",\"choices_before\":" + std::to_string(r.choices.size()) + ",\"choices_after\":" + std::to_string(m.choices.size()) + "}";
            if (opt["--stop"] == "1") break;
        }
    }
    viol += "]";
    auto dump = [&](const std::string &p, const std::set<u64> &v) {
        FILE *f = fopen(p.c_str(), "wb");
        if (!f) return;
        std::vector<u64> a(v.begin(), v.end());
        fwrite(a.data(), 8, a.size(), f);
        fclose(f);
    };
    dump(out + "/hashes-" + id, hashes);
    dump(out + "/states-" + id, states);
    std::string c = "{";
    for (auto &kv : cnt) { if (c.size() > 1) c += ","; c += jstr(kv.first) + ":" + std::to_string(kv.second); }
    c += "}";
    std::string sm = "[";
    for (auto &x : samples) { if (sm.size() > 1) sm += ","; sm += jstr(x); }
    sm += "]";
    printf("{\"runs\":%llu,\"steps\":%llu,\"audited\":%llu,\"diverged\":%llu,\"divseeds\":%s,\"wall\":%.3f,\"nviol\":%llu,\"counters\":%s,\"samples\":%s,\"violations\":%s}\n",
           (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)audited, (unsigned long long)diverged, jstr(divseeds).c_str(), el(),
           (unsigned long long)nviol, c.c_str(), sm.c_str(), viol.c_str());
    return 0;
}

} // namespace sim
