#include "pbt.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include "common/assert.hpp"

namespace pbt {
namespace {

constexpr std::size_t max_choices = 1 << 16;
constexpr int cpu_limit_s = 20;

// Shared between the engine and one worker: what the worker is doing right now.
struct Slot {
    std::uint32_t choices[max_choices];
    std::size_t count;
    int target;        // index of target or -1-index of fixed case
    int state;         // 0 running, 1 finished all, 2 failed
    char msg[8192];    // failure message
    char shown[16384]; // rendered case
    std::uint64_t evaluations;
    std::uint64_t discards;
};

Slot* g_slot = nullptr;
volatile int* g_stop = nullptr;

void record(std::uint32_t v)
{
    if (g_slot->count >= max_choices)
        throw Discard {};
    g_slot->choices[g_slot->count++] = v;
}

template <std::size_t N>
void put(char (&dst)[N], std::string_view s)
{
    const auto n = std::min(s.size(), N - 1);
    std::memcpy(dst, s.data(), n);
    dst[n] = 0;
}

void on_prof(int)
{
    const char m[] = "hang: more than 20 s of CPU time on one case";
    std::memcpy(g_slot->msg, m, sizeof m);
    g_slot->state = 2;
    _exit(97);
}

void arm(int s)
{
    itimerval t {};
    t.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &t, nullptr);
}

double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

std::string json(std::string_view s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += char(c);
        }
        else if (c == '\n')
            r += "\\n";
        else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += char(c);
    }
    return r + '"';
}

enum class Outcome { pass, discard, fail };

// Runs one case in this process. Exceptions escaping the code under test are failures.
Outcome run_one(const std::function<void(Ctx&)>& f, Ctx& ctx)
{
    g_slot->shown[0] = 0;
    arm(cpu_limit_s);
    auto fail = [&](std::string m) {
        put(g_slot->msg, m);
        put(g_slot->shown, ctx.shown);
        arm(0);
        return Outcome::fail;
    };
    try {
        f(ctx);
    } catch (const Discard&) {
        arm(0);
        return Outcome::discard;
    } catch (const Failure& e) {
        return fail(e.msg);
    } catch (const bit_manipulation::Assertion_Error& e) {
        return fail("internal assertion: " + std::string(e.message) + " at "
                    + e.location.file_name() + ":" + std::to_string(e.location.line()));
    } catch (const std::exception& e) {
        return fail(std::string("exception: ") + e.what());
    } catch (...) {
        return fail("exception: unknown");
    }
    arm(0);
    return Outcome::pass;
}

struct Runner {
    Property prop;
    std::string tier;
    bool thorough = false;
    std::uint64_t seed = 1;
    int jobs = 8;
    double time_cap = 0;
    std::string out_dir, evidence_dir, known_file;

    std::function<void(Ctx&)> case_fn(int target, Src& src)
    {
        if (target < 0)
            return prop.fixed.at(-1 - target).run;
        auto& t = prop.targets.at(target);
        return [&t, &src](Ctx& c) { t.run(src, c); };
    }
    std::string target_name(int target)
    {
        return target < 0 ? "fixed:" + prop.fixed.at(-1 - target).name
                          : prop.targets.at(target).name;
    }

    static void child_setup(const std::string& errfile)
    {
        std::signal(SIGPROF, on_prof);
        int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) {
            dup2(fd, 2);
            close(fd);
        }
        fd = open("/dev/null", O_WRONLY);
        if (fd >= 0) {
            dup2(fd, 1);
            close(fd);
        }
    }

    static std::string crash_message(int status, const std::string& errfile)
    {
        std::ifstream in(errfile);
        std::stringstream ss;
        ss << in.rdbuf();
        std::string err = ss.str(), line, first;
        std::istringstream ls(err);
        while (std::getline(ls, line)) {
            if (line.find("runtime error:") != std::string::npos
                || line.find("ERROR: AddressSanitizer") != std::string::npos
                || line.find("terminate called") != std::string::npos
                || line.find("Assertion") != std::string::npos) {
                first = line;
                break;
            }
        }
        std::string where;
        auto at = err.find("/repo/src");
        if (first.find("/repo/src") == std::string::npos && at != std::string::npos)
            where = " at " + err.substr(at, err.find('\n', at) - at);
        if (WIFSIGNALED(status))
            return "crash: signal " + std::to_string(WTERMSIG(status)) + " " + first + where;
        return "crash: exit " + std::to_string(WEXITSTATUS(status)) + " " + first + where;
    }

    // Runs a case given by its choices in a child. Returns outcome and message.
    Outcome attempt(int target, const std::vector<std::uint32_t>& choices, std::string& msg,
                    std::string& shown, std::vector<std::uint32_t>* used = nullptr,
                    const std::function<void(Ctx&)>* direct = nullptr)
    {
        Slot* s = shared_slot();
        s->state = 0;
        s->count = 0;
        s->msg[0] = s->shown[0] = 0;
        g_slot = s;
        const std::string errfile = out_dir + "/attempt.err";
        std::cout.flush();
        pid_t pid = fork();
        if (pid == 0) {
            child_setup(errfile);
            Src src;
            src.replaying = true;
            src.replay = choices.data();
            src.replay_size = choices.size();
            Ctx ctx;
            ctx.thorough = thorough;
            auto o = run_one(direct ? *direct : case_fn(target, src), ctx);
            s->state = o == Outcome::fail ? 2 : 1;
            _exit(o == Outcome::fail ? 95 : o == Outcome::discard ? 94 : 0);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) { }
        if (used)
            used->assign(s->choices, s->choices + s->count);
        msg = s->msg;
        shown = s->shown;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
            return Outcome::pass;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 94)
            return Outcome::discard;
        if (s->state != 2)
            msg = crash_message(status, errfile);
        return Outcome::fail;
    }

    Slot* m_slot = nullptr;
    Slot* shared_slot()
    {
        if (!m_slot)
            m_slot = new_slot();
        return m_slot;
    }
    static Slot* new_slot()
    {
        void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
                       -1, 0);
        if (p == MAP_FAILED) {
            std::perror("mmap");
            std::exit(3);
        }
        return static_cast<Slot*>(p);
    }

    static std::string kind_of(const std::string& msg) { return msg.substr(0, msg.find(':')); }

    void shrink(int target, std::vector<std::uint32_t>& best, std::string& msg, std::string& shown)
    {
        const double deadline = now() + (thorough ? 180 : 60);
        const std::string kind = kind_of(msg);
        int tries = 0;
        auto better = [](const std::vector<std::uint32_t>& a, const std::vector<std::uint32_t>& b) {
            return a.size() != b.size() ? a.size() < b.size() : a < b;
        };
        auto test = [&](const std::vector<std::uint32_t>& c) {
            if (now() > deadline || ++tries > 6000)
                return false;
            std::string m, sh;
            std::vector<std::uint32_t> used;
            if (attempt(target, c, m, sh, &used) != Outcome::fail || kind_of(m) != kind)
                return false;
            auto& cand = used.size() < c.size() ? used : c;
            if (!better(cand, best))
                return false;
            best = cand;
            msg = m;
            shown = sh;
            return true;
        };
        bool improved = true;
        while (improved && now() < deadline) {
            improved = false;
            for (std::size_t len : { 64, 32, 16, 8, 4, 3, 2, 1 }) {
                for (std::size_t i = best.size(); i-- > 0;) {
                    if (i + len > best.size())
                        continue;
                    auto c = best;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (test(c)) {
                        improved = true;
                        continue;
                    }
                    // deletion together with decrementing an earlier count
                    if (len <= 4 && i > 0 && c.size() > i - 1 && c[i - 1] > 0) {
                        --c[i - 1];
                        improved |= test(c);
                    }
                }
            }
            for (std::size_t i = 0; i < best.size(); ++i) {
                if (best[i] == 0)
                    continue;
                auto c = best;
                c[i] = 0;
                if (test(c)) {
                    improved = true;
                    continue;
                }
                std::uint32_t lo = 0, hi = i < best.size() ? best[i] : 0;
                while (lo + 1 < hi && i < best.size()) {
                    std::uint32_t mid = lo + (hi - lo) / 2;
                    c = best;
                    c[i] = mid;
                    if (test(c)) {
                        hi = mid;
                        improved = true;
                    }
                    else
                        lo = mid;
                }
            }
        }
    }

    struct Stats {
        std::uint64_t evaluations = 0, discards = 0;
        std::unordered_set<std::uint64_t> keys;
        std::map<std::string, std::uint64_t> labels;
        std::vector<std::string> samples;
        std::map<std::string, std::uint64_t> per_target;
    } stats;

    struct Found {
        bool any = false;
        int target = 0;
        std::vector<std::uint32_t> choices;
        std::string msg, shown;
    };

    void worker(int w, Slot* slot, const std::string& stat_file)
    {
        g_slot = slot;
        child_setup(out_dir + "/worker" + std::to_string(w) + ".err");
        Stats st;
        auto dump = [&] {
            std::ofstream o(stat_file, std::ios::binary);
            auto str = [&](const std::string& s) {
                std::uint64_t n = s.size();
                o.write((char*)&n, 8);
                o.write(s.data(), n);
            };
            auto num = [&](std::uint64_t n) { o.write((char*)&n, 8); };
            num(st.evaluations);
            num(st.discards);
            num(st.keys.size());
            for (auto k : st.keys)
                num(k);
            num(st.labels.size());
            for (auto& [k, v] : st.labels) {
                str(k);
                num(v);
            }
            num(st.samples.size());
            for (auto& s : st.samples)
                str(s);
            num(st.per_target.size());
            for (auto& [k, v] : st.per_target) {
                str(k);
                num(v);
            }
        };
        const double start = now();
        auto one = [&](int target, Src& src) {
            slot->target = target;
            slot->count = 0;
            Ctx ctx;
            ctx.thorough = thorough;
            auto o = run_one(case_fn(target, src), ctx);
            if (o == Outcome::fail) {
                slot->state = 2;
                *g_stop = 1;
                dump();
                _exit(95);
            }
            if (o == Outcome::discard) {
                ++st.discards;
                return;
            }
            ++st.evaluations;
            ++st.per_target[target_name(target)];
            for (auto& [k, v] : ctx.labels)
                st.labels[k] += v;
            if (ctx.is_nontrivial) {
                const bool fresh = st.keys.insert(ctx.key).second;
                if (fresh && st.samples.size() < 6 && !ctx.shown.empty()
                    && (st.keys.size() % 37 == 1))
                    st.samples.push_back(target_name(target) + ": " + ctx.shown.substr(0, 600));
            }
        };
        Src dummy;
        for (std::size_t i = w; i < prop.fixed.size(); i += jobs)
            one(-1 - int(i), dummy);
        // Interleave targets so that a time cap would cut all of them evenly.
        std::vector<int> left;
        int total = 0;
        for (auto& t : prop.targets) {
            int n = thorough ? t.thorough_cases : t.quick_cases;
            if (const char* s = std::getenv("VERIF_SCALE"))
                n = int(n * std::atof(s));
            n = n / jobs + (w < n % jobs ? 1 : 0);
            left.push_back(n);
            total = std::max(total, n);
        }
        std::vector<int> done(left.size());
        for (int step = 0; step < 1000; ++step) {
            for (std::size_t t = 0; t < left.size(); ++t) {
                const int goal = int((long long)left[t] * (step + 1) / 1000);
                for (; done[t] < goal; ++done[t]) {
                    if (*g_stop)
                        goto end;
                    if (time_cap > 0 && (done[t] & 15) == 0 && now() - start > time_cap)
                        goto end;
                    Src src;
                    src.seed(seed * 0x9E3779B97F4A7C15ull
                             + hash(prop.id + "/" + prop.targets[t].name) * 31 + std::uint64_t(w) * 0xD1B54A32D192ED03ull
                             + std::uint64_t(done[t]) * 0x8CB92BA72F3D8DD7ull);
                    one(int(t), src);
                }
            }
        }
    end:
        dump();
        slot->state = 1;
        _exit(0);
    }

    void load(const std::string& file)
    {
        std::ifstream in(file, std::ios::binary);
        if (!in)
            return;
        auto num = [&] {
            std::uint64_t n = 0;
            in.read((char*)&n, 8);
            return n;
        };
        auto str = [&] {
            std::string s(num(), 0);
            in.read(s.data(), s.size());
            return s;
        };
        stats.evaluations += num();
        stats.discards += num();
        for (auto n = num(); n > 0; --n)
            stats.keys.insert(num());
        for (auto n = num(); n > 0; --n) {
            auto k = str();
            stats.labels[k] += num();
        }
        for (auto n = num(); n > 0; --n)
            stats.samples.push_back(str());
        for (auto n = num(); n > 0; --n) {
            auto k = str();
            stats.per_target[k] += num();
        }
    }

    Found search()
    {
        Found f;
        g_stop = static_cast<int*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        std::vector<Slot*> slots;
        std::vector<pid_t> pids;
        std::cout.flush();
        for (int w = 0; w < jobs; ++w) {
            Slot* s = new_slot();
            slots.push_back(s);
            const std::string sf = out_dir + "/stat" + std::to_string(w);
            unlink(sf.c_str());
            pid_t pid = fork();
            if (pid == 0) {
                worker(w, s, sf);
                _exit(0);
            }
            pids.push_back(pid);
        }
        for (int n = 0; n < jobs; ++n) {
            int status = 0;
            pid_t pid = 0;
            while ((pid = wait(&status)) < 0 && errno == EINTR) { }
            const auto w = std::find(pids.begin(), pids.end(), pid) - pids.begin();
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
                continue;
            *g_stop = 1;
            Slot* s = slots.at(w);
            Found cand;
            cand.any = true;
            cand.target = s->target;
            cand.choices.assign(s->choices, s->choices + s->count);
            cand.msg = s->state == 2
                ? std::string(s->msg)
                : crash_message(status, out_dir + "/worker" + std::to_string(w) + ".err");
            cand.shown = s->shown;
            if (!f.any || cand.choices.size() < f.choices.size())
                f = cand;
        }
        for (int w = 0; w < jobs; ++w) {
            load(out_dir + "/stat" + std::to_string(w));
            munmap(slots[w], sizeof(Slot));
        }
        return f;
    }

    void evidence(double wall, int violations)
    {
        mkdir(evidence_dir.c_str(), 0755);
        std::ofstream o(evidence_dir + "/" + prop.id + ".json");
        o << "{\n \"property\": " << json(prop.id) << ",\n \"tier\": " << json(tier)
          << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
          << "  \"evaluations\": " << stats.evaluations
          << ",\n  \"distinct_nontrivial\": " << stats.keys.size()
          << ",\n  \"discarded\": " << stats.discards << ",\n  \"rule\": " << json(prop.rule)
          << ",\n  \"cases_per_target\": {";
        bool first = true;
        for (auto& [k, v] : stats.per_target) {
            o << (first ? "" : ", ") << json(k) << ": " << v;
            first = false;
        }
        o << "},\n  \"classes\": {";
        first = true;
        for (auto& [k, v] : stats.labels) {
            o << (first ? "" : ", ") << json(k) << ": " << v;
            first = false;
        }
        o << "},\n  \"samples\": [";
        first = true;
        for (std::size_t i = 0; i < stats.samples.size() && i < 24; ++i) {
            o << (first ? "" : ",") << "\n   " << json(stats.samples[i]);
            first = false;
        }
        o << "\n  ]\n },\n \"assumptions\": [";
        first = true;
        for (auto& a : prop.assumptions) {
            o << (first ? "" : ", ") << json(a);
            first = false;
        }
        o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    }

    std::string write_replay(const Found& f)
    {
        std::string text = "property " + prop.id + "\ntarget " + target_name(f.target)
            + "\nchoices";
        for (auto c : f.choices)
            text += ' ' + std::to_string(c);
        text += "\nmessage " + quote(f.msg) + "\n---\n" + f.shown + "\n";
        char name[64];
        std::snprintf(name, sizeof name, "/%s-%08x.replay", prop.id.c_str(),
                      unsigned(hash(text) & 0xffffffff));
        const std::string dir = out_dir + "/../../replays";
        mkdir(dir.c_str(), 0755);
        char real[4096];
        std::string path = (realpath(dir.c_str(), real) ? std::string(real) : dir) + name;
        std::ofstream(path, std::ios::binary) << text;
        return path;
    }

    int replay(const std::string& path)
    {
        std::ifstream in(path);
        std::string line, target;
        std::vector<std::uint32_t> choices;
        while (std::getline(in, line) && line != "---") {
            if (line.rfind("target ", 0) == 0)
                target = line.substr(7);
            if (line.rfind("choices", 0) == 0) {
                std::istringstream ss(line.substr(7));
                std::uint32_t c;
                while (ss >> c)
                    choices.push_back(c);
            }
        }
        int t = 1 << 30;
        for (std::size_t i = 0; i < prop.targets.size(); ++i)
            if (prop.targets[i].name == target)
                t = int(i);
        for (std::size_t i = 0; i < prop.fixed.size(); ++i)
            if ("fixed:" + prop.fixed[i].name == target)
                t = -1 - int(i);
        if (t == 1 << 30) {
            std::cerr << "unknown target " << target << "\n";
            return 2;
        }
        std::string msg, shown;
        auto o = attempt(t, choices, msg, shown);
        std::cout << (o == Outcome::fail ? "FAIL" : o == Outcome::discard ? "DISCARD" : "PASS")
                  << "\n" << msg << "\n---\n" << shown << "\n";
        return o == Outcome::fail ? 1 : 0;
    }

    int main(int argc, char** argv)
    {
        prop = make_property();
        auto env = [](const char* n, const char* d) {
            const char* s = std::getenv(n);
            return std::string(s && *s ? s : d);
        };
        tier = env("VERIF_TIER", "quick");
        if (tier != "thorough")
            tier = "quick";
        thorough = tier == "thorough";
        seed = std::strtoull(env("VERIF_SEED", "1").c_str(), nullptr, 10);
        jobs = std::max(1, std::atoi(env("VERIF_JOBS", "8").c_str()));
        time_cap = std::atof(env("VERIF_TIME_CAP", thorough ? "5400" : "400").c_str());
        out_dir = env("VERIF_OUT", "/verif/.build/run") + "/" + prop.id;
        evidence_dir = env("VERIF_EVIDENCE", "/verif/evidence");
        known_file = env("VERIF_KNOWN", "/verif/known_findings.txt");
        std::string cmd = "mkdir -p '" + out_dir + "'";
        if (std::system(cmd.c_str()) != 0)
            return 3;
        if (argc == 3 && std::string(argv[1]) == "--replay")
            return replay(argv[2]);

        const double start = now();
        // Known findings.
        std::set<std::string> listed;
        std::map<std::string, std::string> listed_text;
        {
            std::ifstream in(known_file);
            std::string line;
            const std::string pre = "known: property=" + prop.id + " ";
            while (std::getline(in, line))
                if (line.rfind(pre, 0) == 0) {
                    auto rest = line.substr(pre.size());
                    auto id = rest.substr(0, rest.find(' '));
                    listed.insert(id);
                    listed_text[id] = rest;
                }
        }
        int violations = 0;
        for (auto& k : prop.known) {
            std::string msg, shown;
            std::function<void(Ctx&)> fn = k.run;
            if (attempt(0, {}, msg, shown, nullptr, &fn) != Outcome::fail)
                continue;
            if (listed.count(k.id)) {
                std::cout << "KNOWN-FINDING: property=" << prop.id << " " << listed_text[k.id]
                          << "\n";
            }
            else {
                Found f;
                f.any = true;
                f.target = 0;
                f.msg = k.id + ": " + msg;
                f.shown = shown;
                std::string path = write_replay(f);
                std::cout << "unlisted finding " << k.id << ": " << msg << "\n"
                          << "VIOLATION property=" << prop.id << " replay=" << path << std::endl;
                violations = 1;
            }
        }
        if (!violations) {
            Found f = search();
            if (f.any) {
                std::string m, sh;
                // Confirm before shrinking: the recorded choices must fail on their own.
                int confirmed = 0;
                for (int i = 0; i < 3; ++i)
                    confirmed += attempt(f.target, f.choices, m, sh) == Outcome::fail;
                if (confirmed == 3) {
                    f.msg = m;
                    f.shown = sh;
                    if (f.target >= 0) {
                        auto saved = f;
                        shrink(f.target, f.choices, f.msg, f.shown);
                        int again = 0;
                        for (int i = 0; i < 3; ++i)
                            again += attempt(f.target, f.choices, m, sh) == Outcome::fail;
                        if (again != 3)
                            f = saved;
                    }
                    std::string path = write_replay(f);
                    std::cout << "target " << target_name(f.target) << "\n" << f.msg << "\n"
                              << f.shown << "\n"
                              << "VIOLATION property=" << prop.id << " replay=" << path
                              << std::endl;
                    violations = 1;
                }
                else {
                    std::cout << "note: a failure did not reproduce on replay (" << confirmed
                              << "/3) and is not reported: " << f.msg << "\n";
                }
            }
        }
        evidence(now() - start, violations);
        std::cout << prop.id << " " << tier << " seed=" << seed << ": " << stats.evaluations
                  << " cases, " << stats.keys.size() << " distinct non-trivial, " << stats.discards
                  << " discarded, " << (now() - start) << " s\n";
        if (std::getenv("VERIF_VERBOSE"))
            for (auto& [k, v] : stats.labels)
                std::cout << "  " << k << ": " << v << "\n";
        return violations ? 1 : 0;
    }
};

} // namespace

void Src::seed(std::uint64_t s)
{
    for (auto& x : rng_state) {
        s += 0x9E3779B97F4A7C15ull;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        x = z ^ (z >> 31);
    }
}

std::uint64_t Src::next()
{
    auto rotl = [](std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    auto* s = rng_state;
    const std::uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
}

std::uint32_t Src::draw32(std::uint32_t n)
{
    if (n <= 1)
        return 0;
    std::uint32_t v;
    if (replaying) {
        v = pos < replay_size ? replay[pos] : 0;
        ++pos;
        v = std::min(v, n - 1);
    }
    else {
        v = std::uint32_t((std::uint64_t(std::uint32_t(next() >> 32)) * n) >> 32);
    }
    record(v);
    return v;
}

std::uint64_t Src::draw64()
{
    const std::uint64_t hi = draw32(0xffffffffu);
    return (hi << 32) | draw32(0xffffffffu);
}

long long Src::range(long long lo, long long hi)
{
    if (hi <= lo)
        return lo;
    return lo + (long long)draw32(std::uint32_t(hi - lo + 1));
}

int Src::weighted(std::initializer_list<int> weights)
{
    int sum = 0;
    for (int w : weights)
        sum += w;
    int r = int(draw32(std::uint32_t(sum)));
    int i = 0;
    for (int w : weights) {
        if (r < w)
            return i;
        r -= w;
        ++i;
    }
    return 0;
}

void Ctx::nontrivial(std::string_view k)
{
    is_nontrivial = true;
    key = hash(k);
}
void Ctx::label(std::string_view l)
{
    auto it = labels.find(l);
    if (it == labels.end())
        labels.emplace(std::string(l), 1);
    else
        ++it->second;
}
void Ctx::show(std::string_view text)
{
    shown = text;
    put(g_slot->shown, text);
}

std::uint64_t hash(std::string_view s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h ^ (h >> 29);
}

std::string quote(std::string_view s, std::size_t max)
{
    std::string r;
    for (unsigned char c : s.substr(0, max)) {
        if (c == '\n')
            r += "\\n";
        else if (c == '\t')
            r += "\\t";
        else if (c == '\r')
            r += "\\r";
        else if (c == '\\')
            r += "\\\\";
        else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
        else
            r += char(c);
    }
    return r;
}

} // namespace pbt

int main(int argc, char** argv)
{
    pbt::Runner r;
    return r.main(argc, argv);
}
