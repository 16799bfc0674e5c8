// C29: whole programs, from the construction of the application object to its end.  The generator process never starts
// MPI; each case writes a script, runs this binary as a separate program (alone or under mpirun) that carries it out,
// and judges what that program printed, the state it recorded and how it ended.
#include "problem.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace vf;
using rig::Ctx; using rig::Src; using rig::fail;
using std::string; using std::to_string; using std::vector;
using Clock = std::chrono::steady_clock;

static string slurpFile(const string& f) { std::ifstream is(f, std::ios::binary); std::ostringstream o; o << is.rdbuf(); return o.str(); }
static string inQuotes(const string& t) { string o = "'"; for (char c : t) if (c == '\n') o += "\\n"; else o += c; return o + "'"; }

// ---- the program under test ----------------------------------------------------------------
static int child(int argc, char** argv) {
    vector<string> script; { std::ifstream is(getenv("LIFE_SCRIPT")); string l; while (std::getline(is, l)) script.push_back(l); }
    auto has = [&](const string& w) { for (auto& l : script) if (l == w) return true; return false; };
    int flag; if (has("mpi-first")) MPI_Init(&argc, &argv);
    int argc0 = argc; vector<string> args0(argv, argv + argc); auto t0 = Clock::now(); double inner = 0; int rank = 0, size = 0; std::ofstream st;
    {
        auto t1 = Clock::now(); EF::EllipticForestApp app(&argc, &argv); auto t2 = Clock::now();
        MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size); st.open(string(getenv("LIFE_OUT")) + "." + to_string(rank)); st.precision(17);
        MPI_Initialized(&flag); PetscBool pi; PetscInitialized(&pi); st << "started " << flag << " " << int(pi) << " " << size << "\n";
        st << "same " << (&EF::EllipticForestApp::getInstance() == &app) << " " << (argc == argc0 && vector<string>(argv, argv + argc) == args0) << "\n";
        for (auto& [k, v] : app.options.optionsMap) { st << "option " << v.index() << " " << inQuotes(k) << " "; std::visit([&](auto&& x) { using T = std::decay_t<decltype(x)>; if constexpr (std::is_same_v<T, string>) st << inQuotes(x); else st << x; }, v); st << "\n"; }
        for (auto& [k, t] : app.timers) st << "timer0 " << k << "\n";
        for (auto& l : script) {
            std::istringstream is(l); string op; is >> op;
            if (op == "timer") { string k; int n, us; is >> k >> n >> us; auto b0 = Clock::now(); app.addTimer(k); for (int i = 0; i < n; i++) { auto& t = EF::EllipticForestApp::getInstance().timers[k]; t.start(); auto a = Clock::now(); while (std::chrono::duration<double>(Clock::now() - a).count()*1e6 < us) {} t.stop(); } st << "block " << k << " " << std::chrono::duration<double>(Clock::now() - b0).count() << "\n"; }
            else if (op == "log") { string w; int n; is >> w >> n; app.log(w + " %i", n); } else if (op == "logHead") { string w; int n; is >> w >> n; app.logHead(w + " %i", n); }
            else if (op == "set") { string k; int n; is >> k >> n; app.options.setOption(k, n); }
            else if (op == "sleep") { int n; is >> n; auto a = Clock::now(); app.sleep(n); double e = std::chrono::duration<double>(Clock::now() - a).count(); st << "slept " << n << " " << e << "\n"; }
            else if (op == "solve") {
                int nx, lmin, lmax; double a, b, c; is >> nx >> lmin >> lmax >> a >> b >> c; Problem q; q.nx = nx; q.lmin = lmin; q.lmax = lmax; q.refine = [](double x, double y) { return x + y < 0.7; }; q.alpha = q.beta = [](double, double) { return 1.0; }; q.lambda = q.f = [](double, double) { return 0.0; };
                auto u = [=](double x, double y) { return a + b*x + c*y; }; q.bc = [=](int, double x, double y, double* al, double* be) { *al = 1; *be = 0; return u(x, y); };
                auto a0 = Clock::now(); Solution s = solveFresh(q); double e = std::chrono::duration<double>(Clock::now() - a0).count(), worst = 0, sum = 0; for (auto& [k, v] : s) { Box bx{0, 1, 0, 1}; for (size_t d = 1; d < k.size(); d++) { double w = bx.w()/2, h = bx.h()/2; int z = k[d] - '0'; bx = {bx.xl + (z & 1)*w, bx.xl + ((z & 1) + 1)*w, bx.yl + (z >> 1)*h, bx.yl + ((z >> 1) + 1)*h}; } int n = nx; if (v.size() != size_t(n*n)) worst = INFINITY; else for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) worst = std::max(worst, std::fabs(v[j + i*n] - u(bx.xl + (i + 0.5)*bx.w()/n, bx.yl + (j + 0.5)*bx.h()/n))); }
                for (string k : {"setup-stage", "build-stage", "upwards-stage", "solve-stage"}) { if (!app.timers.count(k)) { st << "nostage " << k << "\n"; continue; } sum += app.timers[k].time(); if (!(app.timers[k].time() > 0)) st << "zerostage " << k << "\n"; }
                st << "solved " << s.size() << " " << worst << " " << e << " " << sum << "\n";
            }
        }
        for (auto& [k, t] : app.timers) if (k != "app-lifetime") st << "timer " << k << " " << t.time() << "\n";
        for (auto& [k, v] : app.options.optionsMap) st << "key " << inQuotes(k) << "\n";
        if (has("mpi-last")) { fflush(stdout); std::cout.flush(); PetscFinalize(); MPI_Finalize(); }
        inner = std::chrono::duration<double>(Clock::now() - t2).count(); (void) t1;
    }
    int fin; MPI_Finalized(&fin); PetscBool pf; PetscFinalized(&pf); st << "life " << inner << " " << std::chrono::duration<double>(Clock::now() - t0).count() << "\nended " << fin << " " << int(pf) << "\n"; st.close();
    return 0;
}

// ---- generation and judgement ---------------------------------------------------------------
static int seq = 0; static string self;
struct Arg { string text, key, want; };
static string typed(const string& v) {  // what the documented types make of a long option's text, with its type index
    char* e; if (v == "true") return "1 1"; if (v == "false") return "1 0"; if (!v.empty() && v.find_first_not_of("0123456789", v[0] == '-') == string::npos && v != "-") return "2 " + to_string(atoi(v.c_str()));
    if (!v.empty() && v.find('.') != string::npos && v.find_first_not_of("0123456789.-") == string::npos) { double d = strtod(v.c_str(), &e); if (!*e) { std::ostringstream o; o.precision(17); o << d; return "3 " + o.str(); } } return "0 " + inQuotes(v);
}
static void life(Src& s, Ctx& c) {
    int np = s.range(1, 4); bool alone = np == 1 && s.chance(60); string base = "life" + to_string(getpid()) + "-" + to_string(seq++); std::map<string, string> opt; vector<string> args, script;
    if (s.chance(30)) { script.push_back("mpi-first"); c.tag("MPI started before"); } bool last = np == 1 && s.chance(12); if (last) { script.push_back("mpi-last"); c.tag("MPI ended before"); }
    int na = s.range(0, 6); vector<string> keys = {"vq-a", "vq-b", "vq.c", "vqD", "vq_e"}; for (int i = 0; i < na; i++) {
        string k = s.pick(keys); vector<string> vals = {"true", "false", to_string(s.sint(5000)), to_string(s.sint(500)) + "." + to_string(s.range(0, 99)), "word", "a=b", "", "two words", "file.ini"}; string v = s.pick(vals); int form = s.range(0, 5);
        if (form <= 2) { args.push_back("--" + k + "=" + v); opt[k] = typed(v); } else if (form == 3) { args.push_back("--" + k); opt[k] = "0 ''"; } else if (form == 4) { args.push_back("-" + k + "=" + v); opt[k] = "0 " + inQuotes(v); } else args.push_back(s.chance(50) ? "plain" + to_string(i) : "");
    }
    bool solve = s.chance(40); if (solve) { bool ca = s.chance(50), ho = s.chance(20); args.push_back(string("--cache-operators=") + (ca ? "true" : "false")); args.push_back(string("--homogeneous-rhs=") + (ho ? "true" : "false")); opt["cache-operators"] = ca ? "1 1" : "1 0"; opt["homogeneous-rhs"] = ho ? "1 1" : "1 0"; }
    int no = s.range(0, 6); std::map<string, int> logs; std::set<string> timers; std::map<string, double> atLeast; std::set<string> final; for (auto& [k, v] : opt) final.insert(k);
    for (int i = 0; i < no; i++) { int op = s.range(0, 9);
        if (op < 4) { string k = "t" + to_string(s.range(0, 3)); int n = s.range(0, 3), us = s.range(0, 900); script.push_back("timer " + k + " " + to_string(n) + " " + to_string(us)); timers.insert(k); atLeast[k] = n*us*1e-6; }
        else if (op < 6) { string w = "msg" + to_string(i); int n = s.sint(100); script.push_back("log " + w + " " + to_string(n)); for (int r = 0; r < np; r++) logs["[EllipticForest " + to_string(r) + "] " + w + " " + to_string(n)]++; }
        else if (op < 8) { string w = "head" + to_string(i); int n = s.sint(100); script.push_back("logHead " + w + " " + to_string(n)); logs["[EllipticForest 0] " + w + " " + to_string(n)]++; }
        else if (op == 8 || !s.chance(15)) { string k = s.pick(keys); script.push_back("set " + k + " " + to_string(s.sint(9))); final.insert(k); } else { script.push_back("sleep " + to_string(s.range(0, 1))); c.tag("sleep"); } }
    int solves = solve ? (s.chance(30) ? s.range(2, 3) : 1) : 0; for (int q = 0; q < solves; q++) { script.push_back("solve " + to_string(2*s.range(1, 3)) + " 1 " + to_string(s.range(1, 3)) + " " + to_string(s.sint(5)) + " " + to_string(s.sint(5)) + " " + to_string(s.sint(5))); c.tag(q ? "solve again" : "solve"); }
    c.tag(alone ? "no mpirun" : "ranks " + to_string(np)); c.nontrivial = !opt.empty() && script.size() > 1; c.desc << np << " ranks" << (alone ? " (no mpirun)" : "") << ", arguments"; for (auto& a : args) c.desc << " " << inQuotes(a); c.desc << ", script:"; for (auto& l : script) c.desc << " " << l << ";";
    // run
    { std::ofstream o(base + ".script"); for (auto& l : script) o << l << "\n"; } for (int r = 0; r < np; r++) unlink((base + ".state." + to_string(r)).c_str());
    vector<string> cmd; if (!alone) cmd = {"mpirun", "--oversubscribe", "--bind-to", "none", "-np", to_string(np)}; cmd.push_back(self); for (auto& a : args) cmd.push_back(a); vector<char*> av; for (auto& a : cmd) av.push_back(const_cast<char*>(a.c_str())); av.push_back(nullptr);
    pid_t p = fork(); if (p == 0) {
        setpgid(0, 0); setenv("LIFE_SCRIPT", (base + ".script").c_str(), 1); setenv("LIFE_OUT", (base + ".state").c_str(), 1); int o = open((base + ".out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), e = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), z = open("/dev/null", O_RDONLY); dup2(z, 0); dup2(o, 1); dup2(e, 2); execvp(av[0], av.data()); _exit(126);
    }
    setpgid(p, p); int status = 0; bool done = false; auto a = Clock::now(); while (!done) { if (waitpid(p, &status, WNOHANG) == p) done = true; else { usleep(2000); if (std::chrono::duration<double>(Clock::now() - a).count() > 120) break; } } if (!done) { kill(-p, SIGKILL); waitpid(p, &status, 0); }
    string out = slurpFile(base + ".out"), err = slurpFile(base + ".err"); vector<string> st; for (int r = 0; r < np; r++) st.push_back(slurpFile(base + ".state." + to_string(r))); for (string f : {".script", ".out", ".err"}) unlink((base + f).c_str()); for (int r = 0; r < np; r++) unlink((base + ".state." + to_string(r)).c_str());
    if (!done) fail("hang", "the program did not end within 120 s"); if (WIFEXITED(status) && WEXITSTATUS(status) == 126) fail("start", "the program could not be started");
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) fail("exit", string("the program ended with ") + (WIFEXITED(status) ? "status " + to_string(WEXITSTATUS(status)) : "signal " + to_string(WTERMSIG(status))) + ": " + (err + out).substr(0, 300));
    // state recorded by each rank
    std::map<string, vector<double>> total; double life = 0, all = 0; int leaves = 0;
    for (int r = 0; r < np; r++) {
        std::istringstream is(st[r]); string l, who = "rank " + to_string(r) + ": "; std::map<string, string> got; std::set<string> end, t0; std::map<string, double> atMost; bool started = false, ended = false;
        while (std::getline(is, l)) { std::istringstream ls(l); string w; ls >> w;
            if (w == "started") { started = true; if (l != "started 1 1 " + to_string(np)) fail("start-state", who + "MPI, PETSc initialised, ranks: " + l); }
            else if (w == "same") { if (l != "same 1 1") fail("instance", who + "instance is the application, arguments unchanged: " + l); }
            else if (w == "option") { int ix; ls >> ix; string rest; std::getline(ls, rest); size_t q = rest.find("' "); string k = rest.substr(2, q - 2); got[k] = to_string(ix) + " " + rest.substr(q + 2); }
            else if (w == "timer0") { string k; ls >> k; t0.insert(k); } else if (w == "key") { string k = l.substr(5); end.insert(k.substr(0, k.size() - 1)); }
            else if (w == "slept") { int n; double e; ls >> n >> e; if (!(e >= n*0.999)) fail("sleep", who + "slept " + num(e) + " s instead of " + to_string(n)); }
            else if (w == "nostage" || w == "zerostage") fail("stage-timer", who + l);
            else if (w == "solved") { int n; double worst, e, sum; ls >> n >> worst >> e >> sum; leaves += n; if (!(worst <= 1e-8)) fail("solve", who + "linear solution off by " + num(worst)); if (!(sum <= e*1.0001 + 1e-4)) fail("stage-timer", who + "stage timers add up to " + num(sum) + " of " + num(e) + " s"); }
            else if (w == "block") { string k; double e; ls >> k >> e; atMost[k] += e; }
            else if (w == "timer") { string k; double t; ls >> k >> t; if (!r) total[k] = {t}; if (atMost.count(k) && !(t <= atMost[k]*1.001 + 1e-6)) fail("timer", who + "timer " + k + " shows " + num(t) + " of at most " + num(atMost[k])); if (atLeast.count(k) && !(t >= atLeast[k]*0.999)) fail("timer", who + "timer " + k + " shows " + num(t) + " of at least " + num(atLeast[k])); }
            else if (w == "life") { double x, y; ls >> x >> y; if (!r) { life = x; all = y; } } else if (w == "ended") { ended = true; if (l != "ended 1 1") fail("end-state", who + "MPI, PETSc finalised after the application ended: " + l); } }
        if (!started || !ended) fail("state", who + "recorded no complete state: " + st[r].substr(0, 200)); if (got.size() != opt.size()) fail("arguments", who + to_string(got.size()) + " options instead of " + to_string(opt.size())); for (auto& [k, v] : opt) if (!got.count(k) || got[k] != v) fail("arguments", who + "option " + k + " is " + (got.count(k) ? got[k] : "missing") + " instead of " + v);
        if (t0 != std::set<string>{"app-lifetime"}) fail("timers", who + "a new application has " + to_string(t0.size()) + " timers"); if (end != final) fail("options", who + "options at the end differ");
    }
    if (solve && leaves < 4) fail("solve", "only " + to_string(leaves) + " leaves solved");
    // text printed
    std::istringstream is(out); string l; std::map<string, int> seen, tm; int welcome = 0, bye = 0; bool inTimers = false;
    while (std::getline(is, l)) {
        if (l.find("Welcome to EllipticForest") != string::npos) welcome++; else if (l.find("End of app life cycle") != string::npos) bye++; else if (l == "[EllipticForest] Timers: ") inTimers = true; else if (l == "[EllipticForest] Done!") inTimers = false;
        else if (inTimers && l.rfind("[EllipticForest]   ", 0) == 0) {
            size_t q = l.find(" : "); if (q == string::npos || l.size() < 6 || l.substr(l.size() - 6) != " [sec]") fail("timer-line", "timer is listed as '" + l + "'"); string k = l.substr(19, q - 19), v = l.substr(q + 3, l.size() - q - 9); char* e; double t = strtod(v.c_str(), &e); if (*e) fail("timer-line", "timer is listed as '" + l + "'"); tm[k]++;
            if (k == "app-lifetime") { if (!(t >= life*0.999 - 1e-4 && t <= all*1.001 + 1e-4)) fail("lifetime", "life time shown as " + num(t) + ", measured between " + num(life) + " and " + num(all)); } else if (!total.count(k)) fail("timer-line", "unknown timer '" + l + "'"); else if (!(std::fabs(t - total[k][0]) <= 2e-5*std::fabs(t) + 1e-12)) fail("timer-line", "timer " + k + " shows " + num(t) + " instead of " + num(total[k][0]));
        } else if (l.rfind("[EllipticForest ", 0) == 0 && (l.find("] msg") != string::npos || l.find("] head") != string::npos)) seen[l]++; }
    if (welcome != 1 || bye != 1) fail("banner", to_string(welcome) + " welcome and " + to_string(bye) + " end messages from " + to_string(np) + " ranks"); if (seen != logs) { string d; for (auto& [k, n] : logs) if (seen[k] != n) d += " " + to_string(seen[k]) + "x'" + k + "'"; fail("log", "messages printed: " + to_string(seen.size()) + " different instead of " + to_string(logs.size()) + ";" + d); }
    total["app-lifetime"]; for (auto& [k, v] : total) if (tm[k] != 1) fail("timer-line", "timer " + k + " is listed " + to_string(tm[k]) + " times");
}

int main(int argc, char** argv) {
    if (getenv("LIFE_SCRIPT")) return child(argc, argv);
    char buf[4096]; ssize_t n = readlink("/proc/self/exe", buf, sizeof buf); self.assign(buf, n > 0 ? n : 0);
    return rig::run(argc, argv, {{"life", 60, life, "options given and at least two operations"}});
}
