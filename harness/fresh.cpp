// P39: results do not depend on uninitialised memory, addresses or earlier use.
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>
#include "workout.hpp"

extern char** environ;

namespace {

// Leaves stack and heap full of the byte.
__attribute__((noinline)) void dirty_stack(uint8_t b, unsigned kb) {
    volatile uint8_t a[1024];
    for (unsigned i = 0; i < sizeof a; ++i) { a[i] = b; }
    if (kb > 0) { dirty_stack(b, kb - 1); }
    asm volatile("" : : "r"(a) : "memory");
}
void dirty_heap(uint8_t b) {
    std::vector<void*> v;
    for (size_t n : {8, 16, 24, 32, 40, 48, 64, 80, 96, 112, 128, 160, 200, 256, 320, 400, 512, 640, 800, 1024, 2048, 4096, 70000}) {
        for (unsigned k = 0; k < (n < 600 ? 24u : 4u); ++k) { void* p = std::malloc(n); std::memset(p, b, n); v.push_back(p); }
    }
    for (void* p : v) { std::free(p); }
}

}

// Fresh objects, memory that held something else each time, other work in between.
GROUP("P39", "repeated", 13 * 1400, 13 * 100000) {
    auto& t = work::tasks()[c.idx % work::tasks().size()];
    uint64_t seed = c.rng.u64();
    uint64_t first = 0;
    unsigned k = 0;
    std::vector<std::unique_ptr<char[]>> keep; // other addresses
    for (uint8_t b : {0x00, 0xff, 0x5a, 0x01}) {
        if (k == 3) { auto& o = c.rng.pick(work::tasks()); o.fn(c.rng.u64()); }
        dirty_heap(b);
        dirty_stack(b, 48);
        uint64_t h = t.fn(seed);
        if (k == 0) { first = h; }
        CHECK(h == first, "differs", t.name << " gives other results when repeated with memory full of " << (unsigned)b << " (run " << k << ")");
        keep.emplace_back(new char[1 + c.rng.below(3000)]);
        ++k;
        EV("runs compared");
    }
    vf::ev(std::string("work: ") + t.name);
    c.distinct(vf::Hash().add(first).add(c.idx % work::tasks().size()));
    if (c.idx < 24) { c.sample(std::string(t.name) + " digest " + std::to_string(first)); }
}
// Other processes: addresses of code, data, heap and stack are others, and so is
// what ran before.
GROUP("P39", "processes", 13 * 20, 13 * 1000) {
    auto& t = work::tasks()[c.idx % work::tasks().size()];
    uint64_t seed = c.rng.u64();
    constexpr unsigned N = 6;
    uint64_t here = 0;
    if (const char* out = std::getenv("FRESH_CHILD")) {
        // Child: digests of the same work into the pipe
        if (out[0] == '1') { auto& o = c.rng.pick(work::tasks()); o.fn(c.rng.u64()); }
        uint64_t h = 0;
        for (unsigned i = 0; i < N; ++i) { h = h * 1099511628211ull + t.fn(seed + i); }
        std::string s = std::to_string(h) + "\n";
        int fd = std::atoi(std::getenv("FRESH_FD"));
        if (::write(fd, s.data(), s.size()) < 0) { _exit(3); }
        _exit(0);
    }
    for (unsigned i = 0; i < N; ++i) { here = here * 1099511628211ull + t.fn(seed + i); }
    for (unsigned k = 0; k < 2; ++k) {
        int fd[2];
        CHECK(::pipe(fd) == 0, "harness", "pipe");
        std::vector<std::string> env{"FRESH_CHILD=" + std::to_string(k), "FRESH_FD=" + std::to_string(fd[1]), "PADDING=" + std::string(c.rng.below(5000), 'x')};
        for (char** e = environ; *e != nullptr; ++e) { env.push_back(*e); }
        std::vector<char*> envp;
        for (auto& e : env) { envp.push_back(e.data()); }
        envp.push_back(nullptr);
        std::vector<std::string> args{"fresh", "--prop", "P39", "--seed", std::to_string(c.seed), "--group", "processes", "--idx", std::to_string(c.idx)};
        if (c.thorough) { args.push_back("--thorough"); }
        std::vector<char*> argv;
        for (auto& a : args) { argv.push_back(a.data()); }
        argv.push_back(nullptr);
        std::fflush(nullptr);
        pid_t pid = 0;
        int rc = ::posix_spawn(&pid, "/proc/self/exe", nullptr, nullptr, argv.data(), envp.data());
        ::close(fd[1]);
        CHECK(rc == 0, "harness", "posix_spawn");
        std::string text;
        char buf[100];
        for (ssize_t n; (n = ::read(fd[0], buf, sizeof buf)) > 0;) { text.append(buf, size_t(n)); }
        ::close(fd[0]);
        int status = 0;
        ::waitpid(pid, &status, 0);
        CHECK(status == 0 && !text.empty(), "process.ended", "a process that does only " << t.name << " ended with status " << status);
        uint64_t there = std::strtoull(text.c_str(), nullptr, 10);
        CHECK(here == there, "process.differs", t.name << " gives other results in another process");
        EV("processes compared");
        vf::ev(std::string("in a process: ") + t.name);
    }
    c.distinct(vf::Hash().add(here).add(c.idx % work::tasks().size()).add(2));
}
// Under memcheck every decision and every output must be defined.
GROUP("P39", "definedness", 13 * 6, 13 * 400) {
    auto& t = work::tasks()[c.idx % work::tasks().size()];
    for (unsigned k = 0; k < 2; ++k) {
        uint64_t seed = c.rng.u64();
        uint64_t h = t.fn(seed);
        CHECK((h & 1) == 0 || (h & 1) == 1, "undefined", t.name);
        CHECK(h == t.fn(seed), "differs", t.name << " gives other results when repeated");
        c.distinct(vf::Hash().add(h).add(c.idx % work::tasks().size()).add(1));
        EV("outputs examined");
    }
}
