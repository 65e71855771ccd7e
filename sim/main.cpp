// sim plan PROFILE SEED          print the plan of a seed
// sim tags PROFILE -             print the kinds of failure that the profile judges
// sim run PROFILE FIRST COUNT    run seeds; one JSON line each
// sim exec PROFILE FILE          run the plan in FILE; one JSON line
#include "exec.hpp"
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pybind11/embed.h>

extern char *step_board;

namespace
{
    std::string quote(const std::string &s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
            if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char)c;
        return r + "\"";
    }
    std::string episode(const std::vector<std::string> &plan, const std::set<std::string> &tags)
    {
        Counters c;
        uint64_t digest = 0;
        std::vector<uint64_t> states;
        std::string v;
        try { run_plan(plan, tags, c, digest, states); }
        catch (Found &f)
        {
            std::string t;
            for (auto &x : f.v.tags) t += (t.empty() ? "" : ",") + x;
            v = ",\"violation\":" + quote(f.v.text) + ",\"tags\":" + quote(t) + ",\"step\":" + quote(f.v.step);
        }
        catch (std::exception &e) { v = std::string(",\"broken\":") + quote(e.what()); }
        std::string r = "{\"digest\":\"" + std::to_string(digest) + "\"" + v + ",\"counters\":{";
        bool first = true;
        for (auto &[k, n] : c.n) { r += (first ? "" : ",") + quote(k) + ":" + std::to_string(n); first = false; }
        r += "},\"states\":[";
        for (size_t i = 0; i < states.size(); i++) { char b[24]; snprintf(b, sizeof b, "%s%llu", i ? "," : "", (unsigned long long)(states[i] & 0xffffffffffffull)); r += b; }
        return r + "]}";
    }
    bool run_one(const std::string &label, const std::vector<std::string> &plan, const std::set<std::string> &tags, int seconds)
    {
        int fd[2], ed[2];
        if (pipe(fd)) { perror("pipe"); exit(97); }
        char name[] = "/tmp/sim_err_XXXXXX";
        ed[0] = mkstemp(name);
        if (ed[0] < 0) { perror("mkstemp"); exit(97); }
        unlink(name);
        step_board[0] = 0;
        fflush(stdout);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(97); }
        if (!pid)
        {
            close(fd[0]);
            dup2(ed[0], 2);
            int nul = open("/dev/null", O_WRONLY);
            if (nul >= 0) dup2(nul, 1);
            setpgid(0, 0);
            struct itimerval cpu = {{0, 0}, {seconds, 0}}; // time of its own; on the wall three times as much
            setitimer(ITIMER_PROF, &cpu, nullptr);
            alarm((unsigned)seconds * 3);
            std::string r = episode(plan, tags);
            size_t off = 0;
            while (off < r.size()) { ssize_t n = write(fd[1], r.data() + off, r.size() - off); if (n <= 0) break; off += (size_t)n; }
            _exit(0);
        }
        close(fd[1]);
        std::string r;
        char b[65536];
        ssize_t n;
        while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, (size_t)n);
        close(fd[0]);
        int status = 0;
        bool hang = false;
        waitpid(pid, &status, 0);
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !r.empty())
            std::cout << "{\"label\":" << quote(label) << "," << r.substr(1) << std::endl;
        else
        {
            hang = WIFSIGNALED(status) && (WTERMSIG(status) == SIGALRM || WTERMSIG(status) == SIGPROF);
            std::string how = WIFSIGNALED(status) ? (hang ? std::string("hang: no end within ") + std::to_string(seconds) + " s" : "signal " + std::to_string(WTERMSIG(status))) : "exit " + std::to_string(WEXITSTATUS(status));
            off_t size = lseek(ed[0], 0, SEEK_END);
            std::string err(size > 6000 ? 6000 : (size_t)size, 0);
            lseek(ed[0], 0, SEEK_SET);
            n = read(ed[0], err.data(), err.size());
            std::cout << "{\"label\":" << quote(label) << ",\"crash\":" << quote(how) << ",\"code\":" << (WIFEXITED(status) ? WEXITSTATUS(status) : hang ? 1999 : 1000 + WTERMSIG(status)) << ",\"stderr\":" << quote(err) << ",\"step\":" << quote(step_board) << "}" << std::endl;
        }
        close(ed[0]);
        return hang;
    }
}

int main(int argc, char **argv)
{
    if (argc < 4) { fprintf(stderr, "usage\n"); return 2; }
    if (!getenv("SIM_NO_PERSONALITY") && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE))
    {
        setenv("SIM_NO_PERSONALITY", "1", 1);
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::string cmd = argv[1];
    gen::Profile p = gen::profile(argv[2]);
    if (const char *t = getenv("SIM_TAGS")) { p.tags.clear(); std::string s = t, x; std::stringstream ss(s); while (std::getline(ss, x, ',')) p.tags.insert(x); }
    if (cmd == "plan")
    {
        gen::Gen g(strtoull(argv[3], nullptr, 10), p);
        g.plan();
        for (auto &l : g.out) std::cout << l << "\n";
        return 0;
    }
    if (cmd == "tags")
    {
        for (auto &t : p.tags) std::cout << t << "\n";
        return 0;
    }
    step_board = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    int seconds = getenv("SIM_SECONDS") ? atoi(getenv("SIM_SECONDS")) : 25;
    if (p.py) python_up();
    if (cmd == "run")
    {
        uint64_t first = strtoull(argv[3], nullptr, 10), count = argc > 4 ? strtoull(argv[4], nullptr, 10) : 1;
        for (uint64_t s = first; s < first + count; s++)
        {
            gen::Gen g(s, p);
            g.plan();
            if (run_one(std::to_string(s), g.out, p.tags, seconds)) break; // one that hangs is enough
        }
    }
    else if (cmd == "exec")
    {
        for (int i = 3; i < argc; i++)
        {
            std::ifstream f(argv[i]);
            std::vector<std::string> plan;
            std::string l;
            while (std::getline(f, l)) plan.push_back(l);
            run_one(argv[i], plan, p.tags, seconds);
        }
    }
    return 0;
}
