// A small property-based testing engine: every random choice of a case is drawn from one recorded
// choice sequence, so that any failure can be replayed and shrunk by editing that sequence.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure {
    std::string msg;
};
struct Discard { };

/// The choice sequence. draw(n) yields a number in [0, n); 0 is the "simplest" choice.
class Src {
public:
    std::uint32_t draw32(std::uint32_t n); // n >= 1
    std::uint64_t draw64();                // any 64-bit value
    /// uniform in [lo, hi]
    long long range(long long lo, long long hi);
    int upto(int hi) { return int(range(0, hi)); }
    /// true with probability percent/100; shrinks to false
    bool chance(int percent) { return draw32(100) >= std::uint32_t(100 - percent); }
    bool flag() { return draw32(2) == 1; }
    /// index with the given weights; shrinks to 0
    int weighted(std::initializer_list<int> weights);
    template <class T>
    const T& pick(const std::vector<T>& v)
    {
        return v.at(draw32(std::uint32_t(v.size())));
    }
    std::string_view pick(std::initializer_list<std::string_view> v)
    {
        return *(v.begin() + draw32(std::uint32_t(v.size())));
    }
    char pick_char(std::string_view v) { return v.at(draw32(std::uint32_t(v.size()))); }

    // engine interface
    bool replaying = false;
    const std::uint32_t* replay = nullptr;
    std::size_t replay_size = 0;
    std::size_t pos = 0;
    std::uint64_t rng_state[4] = {};
    void seed(std::uint64_t s);
    std::uint64_t next();
};

/// Per-case context.
class Ctx {
public:
    bool thorough = false;
    bool verbose = false; // replaying: print what happens
    /// Marks this case as non-trivial; `key` identifies it for the distinct count.
    void nontrivial(std::string_view key);
    /// Counts a class of cases.
    void label(std::string_view l);
    /// Text that shows what this case is (rendered lazily by caller; set early so crashes show it).
    void show(std::string_view text);
    [[noreturn]] void fail(std::string msg) { throw Failure { std::move(msg) }; }
    void check(bool ok, const std::string& msg)
    {
        if (!ok)
            fail(msg);
    }
    [[noreturn]] void discard() { throw Discard {}; }

    // engine
    std::string shown;
    bool is_nontrivial = false;
    std::uint64_t key = 0;
    std::map<std::string, std::uint64_t, std::less<>> labels;
};

struct Target {
    std::string name;
    std::function<void(Src&, Ctx&)> run;
    int quick_cases;
    int thorough_cases;
};

/// Fixed cases: run first, deterministic, one per index.
struct Fixed {
    std::string name;
    std::function<void(Ctx&)> run;
};

/// A recorded, unrepaired defect: `manifests` runs the specific failing input (in a child process)
/// and throws Failure (or crashes) while the defect is present.
struct Known {
    std::string id;
    std::function<void(Ctx&)> run;
};

struct Property {
    std::string id;
    std::string rule; // evidence: how cases are made and what makes one non-trivial
    std::vector<Target> targets;
    std::vector<Fixed> fixed;
    std::vector<Known> known;
    std::vector<std::string> assumptions;
};

Property make_property(); // defined by each check

std::uint64_t hash(std::string_view s);
std::string quote(std::string_view s, std::size_t max = 2000);

} // namespace pbt
#endif
