#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
Case::Case(uint64_t seed, const std::vector<uint64_t>* replay, uint64_t* shared, size_t c) : rep(replay), rec(shared), cap(c)
{
    for (auto& x : s) x = splitmix(seed);
    text.precision(17);
    if (rec) rec[0] = 0;
}
uint64_t Case::next()
{
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
uint64_t Case::below(uint64_t m)
{
    if (m <= 1) m = 1;
    uint64_t v;
    if (rep) v = n < rep->size() ? (*rep)[n] % m : 0;
    else v = m == 1 ? 0 : next() % m;
    n++;
    if (rec && n < cap) { rec[n] = v; rec[0] = n; }
    h = (h ^ (v + 0x51ull)) * 1099511628211ull;
    h ^= h >> 29;
    return v;
}
std::vector<int> Case::permutation(int k)
{
    std::vector<int> p(k);
    for (int i = 0; i < k; i++) p[i] = i;
    // swapping with itself is the zero choice
    for (int i = 0; i + 1 < k; i++) std::swap(p[i], p[i + (int)below(k - i)]);
    return p;
}
double Case::gauss()
{
    double x = 0;
    for (int i = 0; i < 4; i++) x += unit();
    return (x - 2.0) * std::sqrt(3.0);
}
std::string str(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
void Case::close(double a, double b, double rel, double abs, const std::string& what)
{
    checks++;
    if (a == b) return;
    double tol = abs + rel * std::max(std::abs(a), std::abs(b));
    if (!(std::abs(a - b) <= tol)) throw Failure(what + ": " + str(a) + " and " + str(b) + " differ by " + str(std::abs(a - b)) + ", allowed " + str(tol));
}
/// key -> description of the findings listed for the property being checked
static std::map<std::string, std::string>& findings() { static std::map<std::string, std::string> f; return f; }
static void readFindings(const std::string& prop)
{
    const char* d = getenv("VERIF_DIR");
    std::ifstream in(std::string(d ? d : ".") + "/known_findings.txt");
    std::string line, head = "known: property=" + prop + " key=";
    while (std::getline(in, line))
        if (line.compare(0, head.size(), head) == 0) {
            size_t sp = line.find(' ', head.size());
            findings()[line.substr(head.size(), sp == std::string::npos ? sp : sp - head.size())] = sp == std::string::npos ? "" : line.substr(sp + 1);
        }
}
void Case::known(const std::string& key, const std::string& m)
{
    if (!findings().count(key)) throw Failure(m);
    labels.insert("known:" + key);
}
std::vector<Facet>& facets() { static std::vector<Facet> f; return f; }
Info& info() { static Info i; return i; }

namespace {

using Clock = std::chrono::steady_clock;
double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

constexpr size_t CAP = 1 << 20;
constexpr size_t MSG = 1 << 14;
struct Shared { volatile int done; volatile long index; volatile int facet; char msg[MSG]; char textBuf[MSG]; uint64_t choices[CAP]; };
Shared* newShared() { return (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

uint64_t caseSeed(uint64_t seed, const std::string& prop, const std::string& facet, long i)
{
    uint64_t h = 1469598103934665603ull;
    for (char ch : prop + "/" + facet) h = (h ^ (unsigned char)ch) * 1099511628211ull;
    uint64_t x = h ^ (seed * 0x9e3779b97f4a7c15ull) ^ ((uint64_t)i * 0xd1342543de82ef95ull);
    return splitmix(x);
}
std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch == '\t') o += "\\t";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}
void put(char* dst, const std::string& s) { size_t k = std::min(s.size(), MSG - 1); memcpy(dst, s.data(), k); dst[k] = 0; }

std::string scratchRoot;
void enterScratch(const std::string& tag)
{
    if (!info().scratch) return;
    std::string d = scratchRoot + "/" + tag;
    std::error_code ec;
    std::filesystem::remove_all(d, ec);
    std::filesystem::create_directories(d);
    if (chdir(d.c_str()) != 0) _exit(97);
}
void quiet()
{
    int f = open("/dev/null", O_RDWR);
    dup2(f, 0); dup2(f, 1); dup2(f, 2);
    struct rlimit r{ (rlim_t)4 << 30, (rlim_t)4 << 30 };
#ifndef PBT_NO_AS_LIMIT
    setrlimit(RLIMIT_AS, &r);
#endif
    struct rlimit core{ 0, 0 };
    setrlimit(RLIMIT_CORE, &core);
    struct rlimit fs{ (rlim_t)2 << 30, (rlim_t)2 << 30 };
    setrlimit(RLIMIT_FSIZE, &fs);
}
/// Processor time does not depend on the load of the machine, so only that limit (SIGPROF) can be a failure.
void limits(bool on)
{
    struct itimerval t{ { 0, 0 }, { on ? info().caseSeconds : 0, 0 } };
    setitimer(ITIMER_PROF, &t, nullptr);
    alarm(on ? info().wallSeconds : 0);
}
std::string signalText(int s)
{
    return s == SIGALRM ? "no result within the time limit"
         : s == SIGPROF ? "the case did not finish in " + std::to_string(info().caseSeconds) + " s of processor time"
         : "crashed with signal " + std::to_string(s);
}
/// 0 passed, 1 failed, 2 discarded
int runBody(const Facet& f, Case& c, std::string& msg)
{
    try { f.body(c); return 0; }
    catch (const Discard&) { return 2; }
    catch (const std::exception& e) { msg = dynamic_cast<const Failure*>(&e) ? e.what() : std::string("uncaught exception: ") + e.what(); return 1; }
    catch (...) { msg = "uncaught exception of unknown type"; return 1; }
}
/// Runs one case from its choices in a child process. Returns 0/1/2, 3 for too much processor time, 4 for no result.
int runOnce(const Facet& f, const std::vector<uint64_t>& ch, std::string& msg, std::string& text, std::vector<uint64_t>& used, bool loud = false)
{
    static Shared* sh = newShared();
    sh->done = 0; sh->msg[0] = 0; sh->textBuf[0] = 0; sh->choices[0] = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        if (!loud) quiet();
        limits(true);
        enterScratch("one" + std::to_string(getpid()));
        Case c(1, &ch, sh->choices, CAP);
        std::string m;
        int r = runBody(f, c, m);
        put(sh->msg, m);
        put(sh->textBuf, c.text.str());
        sh->done = 1;
        _exit(r);
    }
    int st = 0;
    waitpid(p, &st, 0);
    std::error_code ec;
    if (info().scratch) std::filesystem::remove_all(scratchRoot + "/one" + std::to_string(p), ec);
    used.assign(sh->choices + 1, sh->choices + 1 + sh->choices[0]);
    msg = sh->msg; text = sh->textBuf;
    if (WIFEXITED(st) && sh->done) return WEXITSTATUS(st);
    if (WIFSIGNALED(st)) msg = signalText(WTERMSIG(st));
    else msg = "the process ended early with status " + std::to_string(WEXITSTATUS(st));
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) return 3;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return 4;
    return 1;
}
std::vector<uint64_t> shrink(const Facet& f, std::vector<uint64_t> best, double seconds, long& attempts)
{
    auto t0 = Clock::now();
    std::string m, t;
    std::vector<uint64_t> u;
    attempts = 0;
    auto fails = [&](const std::vector<uint64_t>& c) { attempts++; return runOnce(f, c, m, t, u) == 1; };
    auto out = [&] { return since(t0) > seconds || attempts > 4000; };
    auto less = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; };
    bool progress = true;
    auto accept = [&](std::vector<uint64_t> c) {
        while (!c.empty() && c.back() == 0) c.pop_back();
        if (!less(c, best)) return false;
        if (!fails(c)) return false;
        best = c; progress = true;
        return true;
    };
    while (progress && !out()) {
        progress = false;
        for (size_t k = best.size() / 2; k >= 1 && !out(); k /= 2)
            for (size_t i = best.size(); i > 0 && !out();) {
                i = i > k ? i - k : 0;
                if (i >= best.size()) continue;
                auto c = best;
                c.erase(c.begin() + i, c.begin() + std::min(best.size(), i + k));
                accept(c);
            }
        for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && !out(); k /= 2)
            for (size_t i = 0; i < best.size() && !out(); i += k) {
                auto c = best;
                std::fill(c.begin() + i, c.begin() + std::min(best.size(), i + k), 0);
                if (c != best) accept(c);
            }
        for (size_t i = 0; i < best.size() && !out(); i++) {
            uint64_t lo = 0, hi = best[i];
            // smallest value that still fails, by bisection
            while (lo < hi && !out()) {
                uint64_t mid = lo + (hi - lo) / 2;
                auto c = best;
                c[i] = mid;
                if (accept(c)) { if (i >= best.size()) break; hi = best[i] < mid ? best[i] : mid; }
                else lo = mid + 1;
            }
        }
    }
    return best;
}
/// Runs a list of generated cases in one child process; true if the last one fails.
bool runHistory(const std::string& prop, uint64_t seed, const std::vector<std::pair<int, long>>& hist, std::string& msg)
{
    static Shared* sh = newShared();
    sh->done = 0; sh->msg[0] = 0; sh->index = -1;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        quiet();
        enterScratch("hist" + std::to_string(getpid()));
        int r = 0;
        for (size_t k = 0; k < hist.size(); k++) {
            auto& f = facets()[hist[k].first];
            sh->index = (long)k;
            limits(true);
            Case c(caseSeed(seed, prop, f.name, hist[k].second), nullptr, sh->choices, CAP);
            std::string m;
            r = runBody(f, c, m);
            if (r == 1) { put(sh->msg, m); break; }
        }
        sh->done = 1;
        _exit(r);
    }
    int st = 0;
    waitpid(p, &st, 0);
    std::error_code ec;
    if (info().scratch) std::filesystem::remove_all(scratchRoot + "/hist" + std::to_string(p), ec);
    msg = sh->done ? sh->msg : "crashed";
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM)) return false;
    return sh->index + 1 == (long)hist.size() && (!sh->done || (WIFEXITED(st) && WEXITSTATUS(st) == 1));
}
struct Stat { long cases = 0, nontrivial = 0, discarded = 0, checks = 0; std::set<uint64_t> distinct; std::map<std::string, long> labels; std::vector<std::string> samples; };

std::vector<uint64_t> readReplay(const std::string& path, std::string& facet, uint64_t& seed, std::vector<std::pair<std::string, long>>& hist)
{
    std::ifstream in(path);
    std::string w;
    std::vector<uint64_t> ch;
    while (in >> w) {
        if (w == "facet") in >> facet;
        else if (w == "seed") { long long v; in >> v; seed = (uint64_t)v; }
        else if (w == "history") { std::string n; long i; while (in >> n >> i) hist.push_back({ n, i }); in.clear(); }
        else if (w == "choices") { uint64_t v; while (in >> v) ch.push_back(v); in.clear(); }
        else { std::string rest; std::getline(in, rest); }
    }
    return ch;
}

} // namespace

int run(int argc, char** argv)
{
    std::map<std::string, std::string> o;
    for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    auto opt = [&](const char* k, const char* d) { return o.count(k) ? o[k] : std::string(d); };
    const std::string prop = opt("--property", "X00"), tier = opt("--tier", "quick"), out = opt("--evidence", ""), only = opt("--facet", "");
    const long long seedIn = std::stoll(opt("--seed", "1"));
    const uint64_t seed = (uint64_t)seedIn;
    const double budget = std::stod(opt("--seconds", tier == "quick" ? "420" : "3000"));
    const int jobs = std::max(1, std::stoi(opt("--jobs", "8")));
    const double scale = std::stod(opt("--scale", "1"));
    const std::string replayOut = opt("--replay-out", "/tmp/replay.txt");
    setenv("OMP_NUM_THREADS", "1", 1);
    auto t0 = Clock::now();
    readFindings(prop);

    {
        const char* td = getenv("TMPDIR");
        std::string tmpl = std::string(td && *td ? td : "/tmp") + "/pbt-" + prop + "-XXXXXX";
        std::vector<char> b(tmpl.begin(), tmpl.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); return 3; }
        scratchRoot = b.data();
    }
    struct Cleanup { ~Cleanup() { std::error_code ec; std::filesystem::remove_all(scratchRoot, ec); } } cleanup;

    if (o.count("--replay")) {
        std::string fn;
        uint64_t rseed = seed;
        std::vector<std::pair<std::string, long>> names;
        auto ch = readReplay(o["--replay"], fn, rseed, names);
        if (!names.empty()) {
            std::vector<std::pair<int, long>> hist;
            for (auto& [n, i] : names) for (size_t k = 0; k < facets().size(); k++) if (facets()[k].name == n) hist.push_back({ (int)k, i });
            std::string m;
            bool bad = runHistory(prop, rseed, hist, m);
            std::cout << (bad ? "FAILS: " + m : std::string("passes")) << "\n";
            return bad ? 1 : 0;
        }
        for (auto& f : facets()) if (f.name == fn) {
            std::string m, t;
            std::vector<uint64_t> u;
            int r = runOnce(f, ch, m, t, u, o.count("--loud"));
            std::cout << "facet " << fn << "\ninput: " << t << "\n" << (r == 1 || r == 3 ? "FAILS: " + m : r == 4 ? m : std::string("passes")) << "\n";
            return r == 1 || r == 3 ? 1 : r == 4 ? 3 : 0;
        }
        std::cout << "no facet named " << fn << "\n";
        return 3;
    }

    std::vector<int> todo;
    std::vector<long> target;
    for (size_t i = 0; i < facets().size(); i++) {
        target.push_back(std::max(1L, (long)(scale * (tier == "quick" ? facets()[i].quick : facets()[i].thorough))));
        if (only.empty() || facets()[i].name == only) todo.push_back((int)i);
    }
    // facets share the workers; the work list interleaves them so that a time limit cuts all evenly
    std::vector<std::pair<double, std::pair<int, long>>> order;
    for (int f : todo) for (long i = 0; i < target[f]; i++) order.push_back({ (i + 0.5) / target[f], { f, i } });
    std::stable_sort(order.begin(), order.end());

    std::vector<Stat> stat(facets().size());
    std::vector<Shared*> sh(jobs);
    std::vector<pid_t> pid(jobs, -1);
    std::vector<size_t> pos(jobs), first0(jobs);
    std::vector<std::pair<int, long>> failHistory;
    bool found = false, cut = false, failSlow = false;
    long undecided = 0;
    int failFacet = -1; long failIndex = -1;
    std::string failMsg;
    std::vector<uint64_t> failChoices;
    auto consume = [&](int w) {
        std::ifstream in(scratchRoot + "/w" + std::to_string(w) + ".log");
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream l(line);
            int f, st; uint64_t h; int nt; long ck;
            l >> f >> st >> h >> nt >> ck;
            if (!l) continue;
            auto& s = stat[f];
            s.cases++;
            if (st == 2) { s.discarded++; continue; }
            s.checks += ck;
            if (nt) { s.nontrivial++; s.distinct.insert(h); }
            std::string rest; std::getline(l, rest);
            size_t tab = rest.find('\t');
            std::istringstream lab(rest.substr(0, tab));
            std::string x;
            while (lab >> x) s.labels[x]++;
            if (tab != std::string::npos && s.samples.size() < 4 && rest.size() > tab + 1) s.samples.push_back(rest.substr(tab + 1));
        }
        in.close();
        std::error_code ec;
        std::filesystem::remove(scratchRoot + "/w" + std::to_string(w) + ".log", ec);
    };
    auto start = [&](int w) {
        sh[w]->done = 0; sh[w]->index = -1; sh[w]->msg[0] = 0;
        fflush(nullptr);
        pid_t p = fork();
        if (p != 0) { pid[w] = p; return; }
        quiet();
        std::ofstream log(scratchRoot + "/w" + std::to_string(w) + ".log", std::ios::app);
        enterScratch("w" + std::to_string(w));
        for (size_t k = pos[w]; k < order.size(); k += jobs) {
            if (since(t0) > budget) { sh[w]->done = 3; break; }
            auto [f, i] = order[k].second;
            sh[w]->facet = f; sh[w]->index = (long)k;
            limits(true);
            Case c(caseSeed(seed, prop, facets()[f].name, i), nullptr, sh[w]->choices, CAP);
            std::string m;
            int r = runBody(facets()[f], c, m);
            limits(false);
            if (r == 1) { put(sh[w]->msg, m); sh[w]->done = 2; log.flush(); _exit(0); }
            log << f << ' ' << r << ' ' << c.hash() << ' ' << (int)c.isNontrivial << ' ' << c.checks << ' ';
            for (auto& l : c.labels) log << l << ' ';
            if (i < 3) {
                std::string t = c.text.str();
                for (auto& ch : t) if (ch == '\n' || ch == '\t') ch = ' ';
                if (t.size() > 700) t = t.substr(0, 700) + "...";
                log << '\t' << t;
            }
            log << '\n';
            log.flush();
        }
        if (!sh[w]->done) sh[w]->done = 1;
        log.flush();
        _exit(0);
    };
    for (int w = 0; w < jobs; w++) { sh[w] = newShared(); pos[w] = w; first0[w] = w; start(w); }
    int live = jobs;
    while (live > 0) {
        int st = 0;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        int w = -1;
        for (int i = 0; i < jobs; i++) if (pid[i] == p) w = i;
        if (w < 0) continue;
        live--;
        pid[w] = -1;
        consume(w);
        if (sh[w]->done == 1) continue;
        if (sh[w]->done == 3) { cut = true; continue; }
        if (found || sh[w]->index < 0) continue;
        // a failure of the case this worker was on
        auto [f, i] = order[sh[w]->index].second;
        std::string m = sh[w]->done == 2 ? std::string(sh[w]->msg) : WIFSIGNALED(st) ? signalText(WTERMSIG(st)) : "ended early";
        std::vector<uint64_t> ch(sh[w]->choices + 1, sh[w]->choices + 1 + sh[w]->choices[0]), u;
        std::string m2, t2;
        int again = 0;
        const bool wall = !sh[w]->done && WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM, slow = !sh[w]->done && WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF;
        if (wall) {
            std::cout << "note: no result within the time limit: facet " << facets()[f].name << " case " << i << std::endl;
            undecided++;
            pos[w] = first0[w] = (size_t)sh[w]->index + jobs;
            start(w);
            live++;
            continue;
        }
        for (int k = 0; k < 3; k++) again += runOnce(facets()[f], ch, m2, t2, u) == (slow ? 3 : 1);
        if (again == 3) {
            found = true; failSlow = slow; failFacet = f; failIndex = i; failMsg = m; failChoices = ch;
            for (int q = 0; q < jobs; q++) if (pid[q] > 0) kill(pid[q], SIGKILL);
        }
        else {
            // the failure may need the cases the same process ran before
            std::vector<std::pair<int, long>> hist;
            for (size_t k = first0[w]; k <= (size_t)sh[w]->index; k += jobs) hist.push_back(order[k].second);
            std::string hm;
            bool held = true;
            for (size_t len = 2; len / 2 < hist.size() && held; len *= 4) {
                std::vector<std::pair<int, long>> tail(hist.end() - std::min(len, hist.size()), hist.end());
                bool all = true;
                for (int k = 0; k < 3 && all; k++) all = runHistory(prop, seed, tail, hm);
                if (all) { held = false; found = true; failFacet = f; failIndex = i; failMsg = hm; failHistory = tail; }
            }
            if (found) {
                for (int q = 0; q < jobs; q++) if (pid[q] > 0) kill(pid[q], SIGKILL);
                continue;
            }
            std::cout << "note: a failure did not reproduce (" << again << " of 3): facet " << facets()[f].name << " case " << i << ": " << m << std::endl;
            pos[w] = first0[w] = (size_t)sh[w]->index + jobs;
            start(w);
            live++;
        }
    }
    long shrinkAttempts = 0;
    std::string finalMsg, finalText;
    if (found && !failHistory.empty()) {
        finalMsg = "after " + std::to_string(failHistory.size() - 1) + " earlier cases in the same process: " + failMsg;
        std::ofstream r(replayOut);
        r << "# Replay with: python3 tools/check.py " << prop << " --replay " << replayOut << "\n"
          << "message " << finalMsg << "\nseed " << seedIn << "\nhistory";
        for (auto& [hf, hi] : failHistory) { r << ' ' << facets()[hf].name << ' ' << hi; finalText += facets()[hf].name + " " + std::to_string(hi) + "; "; }
        r << "\n";
    }
    else if (found) {
        auto& f = facets()[failFacet];
        // a case that does not end is reported as it is: every attempt at a smaller one would cost the whole limit
        auto small = failSlow ? failChoices : shrink(f, failChoices, 90, shrinkAttempts);
        std::vector<uint64_t> u;
        int ok = 0;
        if (failSlow) { ok = 3; runOnce(f, small, finalMsg, finalText, u); }
        else for (int k = 0; k < 3; k++) ok += runOnce(f, small, finalMsg, finalText, u) == 1;
        if (ok != 3) { small = failChoices; runOnce(f, small, finalMsg, finalText, u); }
        std::ofstream r(replayOut);
        r << "# Replay with: python3 tools/check.py " << prop << " --replay " << replayOut << "\n"
          << "facet " << f.name << "\nseed " << seedIn << "\ncase " << failIndex << "\nmessage " << finalMsg << "\ninput ";
        for (char ch : finalText) r << (ch == '\n' ? ' ' : ch);
        r << "\nchoices";
        for (auto v : small) r << ' ' << v;
        r << "\n";
    }
    long cases = 0, checks = 0, distinct = 0, disc = 0;
    for (auto& s : stat) { cases += s.cases; checks += s.checks; distinct += (long)s.distinct.size(); disc += s.discarded; }
    if (!out.empty()) {
        std::ofstream e(out);
        e << "{\n  \"property\": \"" << prop << "\",\n  \"tier\": \"" << tier << "\",\n  \"seed\": " << seedIn << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n"
          << "    \"evaluations\": " << cases - disc << ",\n    \"distinct_nontrivial\": " << distinct << ",\n    \"rule\": \"" << esc(info().rule) << "\",\n"
          << "    \"discarded\": " << disc << ",\n    \"comparisons\": " << checks << ",\n    \"undecided\": " << undecided << ",\n    \"time_limit_hit\": " << (cut ? "true" : "false") << ",\n    \"facets\": {";
        bool first = true;
        for (int f : todo) {
            auto& s = stat[f];
            e << (first ? "" : ",") << "\n      \"" << facets()[f].name << "\": {\"checks\": \"" << esc(facets()[f].what) << "\", \"planned\": " << target[f] << ", \"cases\": " << s.cases << ", \"discarded\": " << s.discarded
              << ", \"nontrivial\": " << s.nontrivial << ", \"distinct_nontrivial\": " << s.distinct.size() << ", \"comparisons\": " << s.checks << ", \"classes\": {";
            bool fl = true;
            for (auto& [l, k] : s.labels) { e << (fl ? "" : ", ") << "\"" << esc(l) << "\": " << k; fl = false; }
            e << "}}";
            first = false;
        }
        e << "\n    },\n    \"samples\": [";
        first = true;
        for (int f : todo) {
            int k = 0;
            for (auto& s : stat[f].samples) { if (k++ >= 2) break; e << (first ? "" : ",") << "\n      \"" << esc(facets()[f].name + ": " + s) << "\""; first = false; }
        }
        e << "\n    ]\n  },\n  \"wall_s\": " << since(t0) << ",\n  \"assumptions\": [";
        first = true;
        for (auto& a : info().assumptions) { e << (first ? "" : ", ") << "\"" << esc(a) << "\""; first = false; }
        e << "],\n  \"violations\": [";
        if (found) e << "{\"facet\": \"" << facets()[failFacet].name << "\", \"message\": \"" << esc(finalMsg) << "\", \"input\": \"" << esc(finalText) << "\", \"replay\": \"" << esc(replayOut) << "\", \"shrink_attempts\": " << shrinkAttempts << "}";
        e << "]\n}\n";
    }
    for (int f : todo) {
        auto& s = stat[f];
        std::cout << prop << " " << facets()[f].name << ": " << s.cases << " cases, " << s.distinct.size() << " distinct non-trivial, " << s.checks << " comparisons";
        if (s.discarded) std::cout << ", " << s.discarded << " discarded";
        std::cout << "\n";
    }
    for (auto& [key, text] : findings()) {
        long k = 0;
        for (auto& s : stat) { auto l = s.labels.find("known:" + key); if (l != s.labels.end()) k += l->second; }
        if (k) std::cout << "KNOWN-FINDING: property=" << prop << " " << text << " (" << k << " cases)" << std::endl;
    }
    if (found) {
        std::cout << "facet " << facets()[failFacet].name << ": " << finalMsg << "\n  input: " << finalText << "\n"
                  << "VIOLATION property=" << prop << " replay=" << replayOut << std::endl;
        return 1;
    }
    if (undecided) {
        std::cout << "ERROR: " << undecided << " cases gave no result within the time limit" << std::endl;
        return 3;
    }
    std::cout << prop << " held on " << cases << " cases in " << since(t0) << " s" << (cut ? " (time limit hit)" : "") << std::endl;
    return 0;
}

} // namespace pbt
