// Graph algorithms of the reference semantics and the worker framework.
#include "core.hh"
#include <cmath>
#include <csignal>
#include <fstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace core {

char const *const OPS[6] = {"<=", ">=", "<", ">", "=", "!="};

bool has_negative_cycle(std::vector<REdge> const &edges, int n) {
    double d[64] = {0};
    for (int i = 0; i <= n; ++i) {
        bool ch = false;
        for (auto &e : edges) {
            if (d[e.u] + e.w < d[e.v]) { d[e.v] = d[e.u] + e.w; ch = true; }
        }
        if (!ch) { return false; }
    }
    return true;
}

std::vector<double> least_solution(std::vector<REdge> const &edges, int n) {
    // u - v <= w  means  v >= u - w
    std::vector<double> val(n, 0);
    for (int i = 0; i <= n + 1; ++i) {
        bool ch = false;
        for (auto &e : edges) {
            if (val[e.u] - e.w > val[e.v]) { val[e.v] = val[e.u] - e.w; ch = true; }
        }
        if (!ch) { break; }
    }
    return val;
}

std::vector<std::vector<double>> floyd(std::vector<REdge> const &edges, int n) {
    double inf = HUGE_VAL;
    std::vector<std::vector<double>> d(n, std::vector<double>(n, inf));
    for (int i = 0; i < n; ++i) { d[i][i] = 0; }
    for (auto &e : edges) { d[e.u][e.v] = std::min(d[e.u][e.v], e.w); }
    for (int k = 0; k < n; ++k) {
        for (int i = 0; i < n; ++i) {
            if (d[i][k] == inf) { continue; }
            for (int j = 0; j < n; ++j) { d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]); }
        }
    }
    return d;
}

// ------------------------------------------------------------------ workers
namespace {
constexpr size_t SLOT = 1 << 14;
char *g_slot = nullptr;
volatile char *g_stop = nullptr;
std::string json_escape(std::string const &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') { r += "\\n"; }
        else if (c < 32) { r += ' '; }
        else { r += c; }
    }
    return r;
}
} // namespace

void set_current(std::string const &s) {
    if (g_slot != nullptr) {
        size_t n = std::min(s.size(), SLOT - 1);
        memcpy(g_slot, s.data(), n);
        g_slot[n] = 0;
    }
    alarm(60); // a single scenario must never take this long
}

bool stop_requested() { return g_stop != nullptr && *g_stop != 0; }

int run_workers(Args const &args, std::function<void(int, int, Results &)> const &run) {
    int nw = args.workers;
    char *mem = static_cast<char *>(mmap(nullptr, SLOT * nw + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_stop = mem + SLOT * nw;
    std::vector<pid_t> pids;
    std::string base = args.out + ".w";
    for (int i = 0; i < nw; ++i) {
        if (args.only >= 0 && i != args.only) { pids.push_back(-1); continue; }
        pid_t p = fork();
        if (p == 0) {
            g_slot = mem + i * SLOT;
            Results res;
            int rc = 0;
            std::string viol;
            try {
                run(i, nw, res);
            } catch (Violation const &v) {
                rc = 1;
                viol = "{\"kind\":\"" + json_escape(v.kind) + "\",\"msg\":\"" + json_escape(v.msg) + "\",\"replay\":\"" +
                       json_escape(v.replay.empty() ? g_slot : v.replay) + "\"}";
            } catch (std::exception const &e) {
                rc = 3;
                viol = "{\"kind\":\"exception\",\"msg\":\"" + json_escape(e.what()) + "\",\"replay\":\"" + json_escape(g_slot) + "\"}";
            }
            alarm(0);
            if (rc != 0) { *g_stop = 1; }
            std::ofstream f(base + std::to_string(i));
            f << "{\"n\":{";
            bool first = true;
            for (auto &[k, v] : res.n) { f << (first ? "" : ",") << "\"" << k << "\":" << v; first = false; }
            f << "},\"samples\":[";
            for (size_t j = 0; j < res.samples.size(); ++j) { f << (j ? "," : "") << "\"" << json_escape(res.samples[j]) << "\""; }
            f << "],\"outcomes\":[";
            first = true;
            size_t cnt = 0;
            for (auto h : res.outcomes) { if (++cnt > 20000) { break; } f << (first ? "" : ",") << h; first = false; }
            f << "],\"distinct\":" << res.outcomes.size() << ",\"violation\":" << (viol.empty() ? "null" : viol) << "}";
            f.close();
            _exit(40 + rc); // not confused with exits in the code under test
        }
        pids.push_back(p);
    }
    int rc = 0;
    for (size_t left = std::count_if(pids.begin(), pids.end(), [](pid_t p) { return p > 0; }); left > 0; --left) {
        int st = 0;
        pid_t p = waitpid(-1, &st, 0);
        int i = std::find(pids.begin(), pids.end(), p) - pids.begin();
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 40 || WEXITSTATUS(st) == 41 || WEXITSTATUS(st) == 43)) {
            rc = std::max(rc, WEXITSTATUS(st) != 40 ? 1 : 0);
        } else {
            rc = 1;
            *g_stop = 1;
            std::ofstream f(base + std::to_string(i));
            bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
            std::string what = hang ? std::string("no progress within the time limit (hang)")
                                    : WIFSIGNALED(st) ? "terminated by signal " + std::to_string(WTERMSIG(st))
                                                      : "exit status " + std::to_string(WEXITSTATUS(st));
            f << "{\"n\":{},\"samples\":[],\"outcomes\":[],\"distinct\":0,\"violation\":{\"kind\":\"" << (hang ? "hang" : "crash")
              << "\",\"msg\":\"" << json_escape(what) << "\",\"replay\":\"" << json_escape(mem + i * SLOT) << "\"}}";
        }
    }
    return rc;
}

} // namespace core
