// Property-based testing engine used by every check.
//
// A facet is a generator plus an oracle: a function that draws its input from
// the Case it is given and fails through it. Every draw is a bounded integer
// choice, so an input is the sequence of its choices; the sequence is what gets
// shrunk and what a replay file holds. Cases run in forked workers, so a crash,
// an uncaught exception or a hang of the code under test is a failure of that
// case and never of the check.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

class Case {
public:
    Case(uint64_t seed, const std::vector<uint64_t>* replay, uint64_t* shared, size_t cap);

    // ---- draws
    /// uniform in [0, n)
    uint64_t below(uint64_t n);
    /// uniform in [lo, hi]
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo) + 1); }
    /// true with probability num/den; shrinks to false
    bool flip(int num = 1, int den = 2) { return (int)below(den) >= den - num; }
    double unit() { return below(1u << 24) / double(1u << 24); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    /// log-uniform, both bounds positive
    double logreal(double lo, double hi) { return lo * std::pow(hi / lo, unit()); }
    /// a value with few digits, for inputs that are written as text
    double grid(double lo, double hi, int steps) { return lo + (hi - lo) * (double)below((uint64_t)steps + 1) / steps; }
    double sign() { return flip() ? -1.0 : 1.0; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template <class T> const T& pick(const std::vector<T>& l) { return l[below(l.size())]; }
    std::vector<int> permutation(int n);
    double gauss();

    // ---- classification
    void label(const std::string& l) { labels.insert(l); }
    void nontrivial(bool b = true) { isNontrivial |= b; }
    /// how many elementary comparisons the oracle made
    void count(long n = 1) { checks += n; }
    std::ostringstream& note() { return text; }

    // ---- verdicts
    [[noreturn]] void fail(const std::string& m) { throw Failure(m); }
    [[noreturn]] void discard() { throw Discard(); }
    void expect(bool ok, const std::string& m) { checks++; if (!ok) throw Failure(m); }
    /// A failure that known_findings.txt may list under this key for the property; fails when it does not.
    void known(const std::string& key, const std::string& m);
    /// |a - b| <= abs + rel * max(|a|, |b|), NaN never close
    void close(double a, double b, double rel, double abs, const std::string& what);

    uint64_t hash() const { return h; }
    std::set<std::string> labels;
    bool isNontrivial = false;
    long checks = 0;
    std::ostringstream text;
    size_t used() const { return n; }
private:
    uint64_t s[4];
    const std::vector<uint64_t>* rep;
    uint64_t* rec;
    size_t cap, n = 0;
    uint64_t h = 1469598103934665603ull;
    uint64_t next();
};

std::string str(double v);
template <class... A> std::string cat(const A&... a) { std::ostringstream o; o.precision(17); (void)std::initializer_list<int>{ ((o << a), 0)... }; return o.str(); }

struct Facet { std::string name; long quick, thorough; std::function<void(Case&)> body; std::string what; };
std::vector<Facet>& facets();
struct Register { Register(const char* n, long q, long t, void (*f)(Case&), const char* what) { facets().push_back({ n, q, t, f, what }); } };

/// Fixed facts about a check, printed in its evidence.
struct Info {
    std::string rule;                        // what makes a case non-trivial
    std::vector<std::string> assumptions;
    int caseSeconds = 120;                   // a case that uses more processor time, three times, is a failure
    int wallSeconds = 180;                   // a case that takes longer than this decides nothing
    bool scratch = true;                     // run in an empty scratch directory
};
Info& info();

int run(int argc, char** argv);

} // namespace pbt

#define FACET(name, quick, thorough, what)                                              \
    static void facet_##name(pbt::Case& c);                                             \
    static pbt::Register reg_##name(#name, quick, thorough, facet_##name, what);        \
    static void facet_##name(pbt::Case& c)

#define PBT_MAIN(...)                                                                 \
    int main(int argc, char** argv) { __VA_ARGS__; return pbt::run(argc, argv); }
