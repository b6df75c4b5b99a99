// Runs the command line tool built from the tree under test, inside of a scratch directory.
#ifndef VERIF_CLI_HPP
#define VERIF_CLI_HPP
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace cli {

namespace fs = std::filesystem;

inline std::string slurp(const fs::path& p)
{
    std::ifstream in(p, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
}

/// A directory which is removed at the end.
struct Scratch {
    fs::path path;
    Scratch()
    {
        const char* base = std::getenv("VERIF_BUILD_DIR");
        const fs::path parent = fs::path(base ? base : "/tmp") / "scratch";
        fs::create_directories(parent);
        std::string name = (parent / "cliXXXXXX").string();
        if (!mkdtemp(name.data()))
            throw std::runtime_error("cannot create a scratch directory");
        path = name;
    }
    ~Scratch()
    {
        std::error_code ignored;
        fs::permissions(path, fs::perms::owner_all, ignored);
        fs::remove_all(path, ignored);
    }
    Scratch(const Scratch&) = delete;
    void write(const std::string& name, std::string_view text) const
    {
        std::ofstream(path / name, std::ios::binary) << text;
    }
};

struct Result {
    bool exited = false;
    int status = -1, signal = 0;
    std::string out, err;

    /// Why the run is not a regular end of the tool, or an empty string.
    std::string irregular() const
    {
        if (!exited)
            return "ended by signal " + std::to_string(signal) + "\n" + err;
        for (std::string_view sign : { "internal error", "Assertion failed!", "Unhandled exception", "Sanitizer", "runtime error:",
                                       "terminate called" })
            for (const std::string* text : { &out, &err })
                if (const auto at = text->find(sign); at != text->npos)
                    return std::string(sign) + ": ..." + text->substr(at > 200 ? at - 200 : 0, 1200);
        if (status != 0 && status != 1)
            return "exit status " + std::to_string(status) + "\n" + err;
        return "";
    }
};

inline std::string tool()
{
    const char* dir = std::getenv("VERIF_BUILD_DIR");
    return std::string(dir ? dir : ".") + "/bm-cli";
}

inline Result run(const Scratch& dir, const std::vector<std::string>& args, const std::string& stdout_to = "")
{
    const auto out = dir.path / ".stdout", err = dir.path / ".stderr";
    // Everything is prepared before vfork(), since copying this process takes much longer than the tool.
    static const std::string path = tool();
    static const std::vector<std::string> variables = [] {
        std::vector<std::string> v;
        for (char** e = environ; *e; ++e)
            if (std::string_view x = *e; !x.starts_with("ASAN_OPTIONS=") && !x.starts_with("UBSAN_OPTIONS="))
                v.emplace_back(x);
        v.push_back("ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=86:detect_stack_use_after_return=1");
        v.push_back("UBSAN_OPTIONS=exitcode=86:halt_on_error=1");
        return v;
    }();
    std::vector<char*> envp, argv { const_cast<char*>("bm-cli") };
    for (auto& v : variables)
        envp.push_back(const_cast<char*>(v.c_str()));
    for (auto& a : args)
        argv.push_back(const_cast<char*>(a.c_str()));
    envp.push_back(nullptr);
    argv.push_back(nullptr);
    const char *directory = dir.path.c_str(), *out_name = stdout_to.empty() ? out.c_str() : stdout_to.c_str(), *err_name = err.c_str();
    const rlimit cpu { 15, 20 };
    const pid_t pid = vfork();
    if (pid == 0) {
        if (chdir(directory) != 0)
            _exit(99);
        const int o = open(out_name, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        const int e = open(err_name, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        const int i = open("/dev/null", O_RDONLY);
        dup2(i, 0);
        dup2(o, 1);
        dup2(e, 2);
        for (int fd = 3; fd < 64; ++fd)
            close(fd);
        setrlimit(RLIMIT_CPU, &cpu);
        execve(path.c_str(), argv.data(), envp.data());
        _exit(99);
    }
    if (pid < 0)
        throw std::runtime_error("cannot start the tool");
    int st = 0;
    waitpid(pid, &st, 0);
    Result r;
    r.exited = WIFEXITED(st);
    r.status = r.exited ? WEXITSTATUS(st) : -1;
    r.signal = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    r.out = slurp(out);
    r.err = slurp(err);
    fs::remove(out);
    fs::remove(err);
    return r;
}

} // namespace cli
#endif
