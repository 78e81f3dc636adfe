#include "common.hpp"
#include "gen.hpp"
#include <fcntl.h>
#include <map>
#include <mutex>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

bool g_trace = false;
__thread u64 g_checks = 0, g_ops = 0;
u64 g_case = 0, g_seed = 1;
int g_tier = 0;
unsigned g_cpu_budget = 40;
bool g_digest_on = false;
static u64 g_dig = 0;
// Counters live per thread and are merged when a thread ends, so that counting
// adds no synchronization between the threads being watched.
struct Ctx { std::map<std::string, u64> cov; std::unordered_set<u64> sigs; u64 evals = 0; };
static Ctx g_main;
static __thread Ctx *t_ctx;
static std::mutex g_mu;
static u64 g_checks_other = 0, g_ops_other = 0;
static Ctx &ctx() { if (!t_ctx) t_ctx = new Ctx; return *t_ctx; }
void thread_flush() {
    std::lock_guard<std::mutex> l(g_mu);
    g_checks_other += g_checks; g_ops_other += g_ops; g_checks = g_ops = 0;
    if (!t_ctx) return;
    for (auto &p : t_ctx->cov) g_main.cov[p.first] += p.second;
    g_main.sigs.insert(t_ctx->sigs.begin(), t_ctx->sigs.end());
    g_main.evals += t_ctx->evals;
    delete t_ctx; t_ctx = nullptr;
}
static std::vector<std::string> g_samples;
static u64 *g_status = nullptr;  // mmap'd: [0]=case+1 being run

const char *g_only = nullptr;
void fail(const char *fmt, ...) {
    fflush(stdout);
    if (g_only && strncmp(fmt, g_only, strlen(g_only))) {
        if (g_trace) { va_list ap; va_start(ap, fmt); printf("  abandoned: "); vprintf(fmt, ap); printf("\n"); va_end(ap); }
        throw Abandon();
    }
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "FAIL property=%s seed=%llu case=%llu: ", PROP, (unsigned long long)g_seed, (unsigned long long)g_case);
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
    fflush(stderr);
    _exit(99);
}
static std::string g_known;  // ",name,name,"
bool known(const char *name) { return g_known.find("," + std::string(name) + ",") != std::string::npos; }
void finding(const char *name, const char *fmt, ...) {
    if (known(name)) { cov2("known-finding", name); return; }
    char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fail("[%s] %s", name, b);
}
void internal_error(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "HARNESS-ERROR: ");
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    fflush(stderr);
    _exit(3);
}
void log_line(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vfprintf(stdout, fmt, ap);
    fputc('\n', stdout);
    va_end(ap);
    fflush(stdout);
}
void cov(const char *key, u64 n) { ctx().cov[key] += n; }
void cov2(const char *a, const char *b, u64 n) {
    char k[128]; snprintf(k, sizeof k, "%s/%s", a, b); ctx().cov[k] += n;
}
void eval_sig(u64 s, bool nontrivial) {
    Ctx &x = ctx();
    x.evals++;
    if (nontrivial && x.sigs.size() < 4000000) x.sigs.insert(s);
}
void sample(const char *fmt, ...) {
    if (g_samples.size() >= 3) return;
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    g_samples.push_back(b);
}
void digest(u64 x) { if (g_digest_on) { g_dig = mix(g_dig, x); LOG("  digest %016llx after %llx", (unsigned long long)g_dig, (unsigned long long)x); } }
void digest_bytes(const void *p, size_t n) {
    if (!g_digest_on) return;
    u64 h = 14695981039346656037ull;
    for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211ull;
    digest(h); digest(n);
}
static void on_prof(int) {
    static const char m[] = "HANG: per-case CPU budget exhausted\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(97);
}
static void arm(unsigned sec) {
    itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, nullptr);
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

Buf::Buf(size_t n_, size_t align, size_t mis) : n(n_) {
    if (align) { if (posix_memalign(&base, align, n + mis)) internal_error("oom"); p = (char *)base + mis; }
    else { base = malloc(n + mis ? n + mis : 1); if (!base) internal_error("oom"); p = (char *)base + mis; }
}
Buf::~Buf() { free(base); }
RoMap::RoMap(const char *src, size_t n_, size_t align) : n(n_) {
    size_t pg = 4096, body = (n + align + pg - 1) / pg * pg;
    total = body + 2 * pg;
    base = mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) internal_error("mmap");
    size_t off = pg + body - n;
    off -= off % align;
    p = (char *)base + off;
    if (n) memcpy(p, src, n);
    mprotect((char *)base, pg, PROT_NONE);
    mprotect((char *)base + pg, body, PROT_READ);
    mprotect((char *)base + pg + body, pg, PROT_NONE);
}
RoMap::~RoMap() { munmap(base, total); }

static void json_str(FILE *f, const std::string &s) {
    fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

extern "C" __attribute__((weak)) void __lsan_disable(void);

int main(int argc, char **argv) {
    u64 cases = 100, worker = 0, workers = 1, from = 0, replay = UINT64_MAX;
    double tmax = 60;
    std::string out, status, digests;
    bool hooks = true;
    t_ctx = &g_main;
    unsigned budget = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> const char * { if (i + 1 >= argc) internal_error("missing value for %s", a.c_str()); return argv[++i]; };
        if (a == "--seed") g_seed = strtoull(val(), 0, 0);
        else if (a == "--cases") cases = strtoull(val(), 0, 0);
        else if (a == "--worker") worker = strtoull(val(), 0, 0);
        else if (a == "--workers") workers = strtoull(val(), 0, 0);
        else if (a == "--time") tmax = atof(val());
        else if (a == "--out") out = val();
        else if (a == "--status") status = val();
        else if (a == "--digests") { digests = val(); g_digest_on = true; }
        else if (a == "--case") replay = strtoull(val(), 0, 0);
        else if (a == "--trace") g_trace = true;
        else if (a == "--from") from = strtoull(val(), 0, 0);
        else if (a == "--fill") hooks_fill(atoi(val()));
        else if (a == "--tier") g_tier = atoi(val());
        else if (a == "--known") g_known = "," + std::string(val()) + ",";
        else if (a == "--budget") budget = atoi(val());
        else if (a == "--nohooks") hooks = false;
        else internal_error("unknown argument %s", a.c_str());
    }
    if (budget) g_cpu_budget = budget;
    if (!status.empty()) {
        int fd = open(status.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 16)) internal_error("status file");
        g_status = (u64 *)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    FILE *df = nullptr;
    if (!digests.empty()) df = fopen(digests.c_str(), "a");
    signal(SIGPROF, on_prof);
    if (hooks) hooks_install();
    harness_init();
    double t0 = now();
    u64 done = 0; bool timed_out = false;
    double worst = 0; u64 worst_case = 0;
    auto one = [&](u64 c) {
        g_case = c;
        g_dig = 0;
        if (g_status) g_status[0] = c + 1;
        arm(g_cpu_budget);
        Rng r(mix(mix(g_seed, hstr(PROP)), c));
        double a = now();
        gen_reset();
        run_case(r, c);
        double d = now() - a;
        if (d > worst) { worst = d; worst_case = c; }
        arm(0);
        if (df) fprintf(df, "%llu %016llx\n", (unsigned long long)c, (unsigned long long)g_dig), fflush(df);
        done++;
    };
    if (replay != UINT64_MAX) one(replay);
    else
        for (u64 c = worker; c < cases; c += workers) {
            if (c < from) continue;
            if (now() - t0 > tmax) { timed_out = true; break; }
            one(c);
        }
    if (g_status) g_status[0] = 0;
    if (df) fclose(df);
    if (!out.empty()) {
        FILE *f = fopen(out.c_str(), "w");
        if (!f) internal_error("cannot write %s", out.c_str());
        fprintf(f, "{\"cases\":%llu,\"evals\":%llu,\"checks\":%llu,\"ops\":%llu,\"timed_out\":%s,\"secs\":%.2f,\"worst\":%.2f,\"worst_case\":%llu,\"cov\":{",
                (unsigned long long)done, (unsigned long long)g_main.evals, (unsigned long long)(g_checks + g_checks_other), (unsigned long long)(g_ops + g_ops_other), timed_out ? "true" : "false", now() - t0, worst, (unsigned long long)worst_case);
        bool first = true;
        for (auto &p : g_main.cov) { if (!first) fputc(',', f); first = false; json_str(f, p.first); fprintf(f, ":%llu", (unsigned long long)p.second); }
        fprintf(f, "},\"rule\":"); json_str(f, RULE);
        fprintf(f, ",\"samples\":[");
        for (size_t i = 0; i < g_samples.size(); i++) { if (i) fputc(',', f); json_str(f, g_samples[i]); }
        fprintf(f, "]}\n");
        fclose(f);
        f = fopen((out + ".sigs").c_str(), "wb");
        std::vector<u64> v(g_main.sigs.begin(), g_main.sigs.end());
        if (!v.empty()) fwrite(v.data(), 8, v.size(), f);
        fclose(f);
    }
    return 0;
}
