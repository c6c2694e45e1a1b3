// P47: the library depends on its arguments and keeps to itself.
#include <cfenv>
#include <csignal>
#include <cstddef>
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <iostream>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <malloc.h>
#include <pthread.h>
#include <random>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <xmmintrin.h>
#include "ambient.hpp"
#include "workout.hpp"

extern char** environ;

namespace {

// What a child says; in shared memory, so that saying it needs no system call.
struct Report {
    volatile int stage;     // 0 preparing, 1 in the work, 2 done
    volatile long syscall;  // refused system call, -1: none
    volatile unsigned long calls;
    volatile uint64_t digest;
    char called[64];        // function of the environment that was called
    void* frames[24];       // where that was
    int depth;
    char changed[200];      // what is not as it was
};
Report* report;
thread_local bool in_work = false;
bool clock_allowed = false;

void note(const char* name) {
    if (!in_work) { return; }
    if (report->called[0] == 0) { report->depth = ::backtrace(report->frames, 24); std::strncpy(report->called, name, sizeof report->called - 1); }
}

}

// Doors to the surroundings, instead of those of libc and libstdc++.
extern "C" {
#define DOOR(ret, name, params, args) \
    ret name params { note(#name); static auto real = (ret(*) params)dlsym(RTLD_NEXT, #name); return real args; }
DOOR(int, rand, (), ())
DOOR(void, srand, (unsigned s), (s))
DOOR(long, random, (), ())
DOOR(char*, secure_getenv, (const char* n), (n))
DOOR(int, setenv, (const char* n, const char* v, int o), (n, v, o))
DOOR(char*, setlocale, (int c, const char* n), (c, n))
DOOR(struct lconv*, localeconv, (), ())
DOOR(double, drand48, (), ())
DOOR(long, lrand48, (), ())
DOOR(clock_t, clock, (), ())
DOOR(int, gettimeofday, (struct timeval* t, void* z), (t, z))
DOOR(time_t, time, (time_t* t), (t))
DOOR(struct tm*, localtime, (const time_t* t), (t))
DOOR(struct tm*, gmtime, (const time_t* t), (t))
DOOR(ssize_t, getrandom, (void* b, size_t n, unsigned f), (b, n, f))
DOOR(int, getentropy, (void* b, size_t n), (b, n))
DOOR(uint32_t, arc4random, (), ())
DOOR(int, pthread_create, (pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x), (t, a, f, x))
DOOR(int, fesetround, (int m), (m))
char* getenv(const char* n) {
    note("getenv");
    size_t k = std::strlen(n);
    for (char** e = environ; e != nullptr && *e != nullptr; ++e) { if (std::strncmp(*e, n, k) == 0 && (*e)[k] == '=') { return *e + k + 1; } }
    return nullptr;
}
int clock_gettime(clockid_t id, struct timespec* t) {
    if (!clock_allowed) { note("clock_gettime"); }
    return (int)syscall(SYS_clock_gettime, id, t);
}
}
// std::random_device
extern "C" {
unsigned _ZNSt13random_device9_M_getvalEv(void*) { note("std::random_device"); return 4; }
void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const std::string&) { note("std::random_device"); }
void _ZNSt13random_device7_M_finiEv(void*) {}
}

namespace {

using namespace cl;
namespace ic = freewebrtc::ice::candidate;

void on_refused(int, siginfo_t* i, void*) {
    report->syscall = i->si_syscall;
    report->depth = ::backtrace(report->frames, 24);
    _exit(9);
}
// From here on: memory, locks, the end.
bool only_memory() {
    struct sigaction sa {};
    sa.sa_sigaction = on_refused;
    sa.sa_flags = SA_SIGINFO;
    if (::sigaction(SIGSYS, &sa, nullptr) != 0) { return false; }
#define ALLOW(n) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (n), 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)
    struct sock_filter f[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
        ALLOW(SYS_brk), ALLOW(SYS_mmap), ALLOW(SYS_munmap), ALLOW(SYS_mremap), ALLOW(SYS_mprotect), ALLOW(SYS_madvise), ALLOW(SYS_futex),
        ALLOW(SYS_exit_group), ALLOW(SYS_exit), ALLOW(SYS_rt_sigreturn), ALLOW(SYS_sched_yield), ALLOW(SYS_gettid), ALLOW(SYS_getpid), ALLOW(SYS_clock_gettime),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
    };
#undef ALLOW
    struct sock_fprog p { (unsigned short)(sizeof f / sizeof f[0]), f };
    return ::prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && ::prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0;
}

struct Job { const char* name; uint64_t (*task)(uint64_t); std::unique_ptr<work::Relay> (*relay)(uint64_t); };
uint64_t joined_texts(uint64_t seed) { // beyond what texts() does
    Rng r(seed);
    vf::Hash h;
    std::vector<std::string> parts;
    for (unsigned k = 0; k < 6; ++k) { parts.push_back(tref::random_text(r, r.below(20), "abcI i\xdd\xfd\xc7")); }
    h.add(util::string_view::join(parts, "; "));
    std::string all = "IiCANDIDATEcandidate\xdd\xfd\xc7\xe7\xd6\xf6";
    for (char a : all) { for (char b : all) { h.add(abnf::eq_string(std::string_view(&a, 1), std::string_view(&b, 1))); } }
    for (unsigned c = 0; c < 256; ++c) {
        char ch = (char)c;
        h.add(net::Fqdn::from_string(std::string{'a', ch, 'b'}).is_ok()).add(net::Port::from_string(std::string{'1', ch}).is_ok()).add(ic::Foundation::from_string(std::string{ch}).is_ok());
        h.add(ic::TransportType::from_string(std::string{'u', 'd', ch}).is_ok()).add(net::ip::Address::from_string(std::string{'1', ch, ':', ':', ch}).is_ok());
    }
    for (const char* t : {"HOST", "SRFLX", "PRFLX", "RELAY", "hOsT", "relaY", "srfl\xd8", "rel\xe1y"}) { auto x = ic::Type::from_string(t); h.add(x.is_ok()); if (x.is_ok()) { h.add(x.unwrap().to_string()); } }
    for (auto w : {0ull, 1000ull, 65535ull}) { h.add(net::Port((uint16_t)w).value()); auto p = net::Port::from_string(std::to_string(w)); h.add(p.is_ok()); }
    return h.get();
}
const std::vector<Job>& jobs() {
    static const std::vector<Job> v = [] {
        std::vector<Job> o;
        for (auto& t : work::tasks()) { o.push_back({t.name, t.fn, nullptr}); }
        for (auto& r : work::relays()) { o.push_back({r.name, nullptr, r.make}); }
        o.push_back({"texts in other locales", joined_texts, nullptr});
        return o;
    }();
    return v;
}
uint64_t do_job(const Job& j, uint64_t seed) {
    if (j.task != nullptr) { return j.task(seed); }
    auto r = j.relay(seed);
    for (unsigned k = 0; k < 3; ++k) { r->step(); }
    return r->h.get();
}

// The surroundings. Each is prepared in the child before the work.
enum { Plain, Turkish, German, OddCpp, TurkishOdd, RoundUp, RoundDown, RoundZero, FlushToZero, NoEnvironment, OddEnvironment, NoFiles, OtherDirectory, OtherErrno, OtherUser, OtherThread, OddStreams, SignalsBlocked, Kinds };
const char* const names[] = {"plain", "Turkish C locale", "German C locale", "odd C++ locale", "Turkish C and odd C++ locale", "rounding up", "rounding down", "rounding to zero", "denormals flushed", "no environment", "odd environment",
                             "no open files", "other directory and umask", "other errno", "other user", "other thread", "odd streams", "signals blocked"};
bool prepare(int kind, Rng& r) {
    switch (kind) {
    case Turkish: return ambient::enter("tr");
    case German: return ambient::enter("de");
    case OddCpp: return ambient::enter("odd");
    case TurkishOdd: return ambient::enter("odd") && ambient::enter("tr");
    case RoundUp: return std::fesetround(FE_UPWARD) == 0;
    case RoundDown: return std::fesetround(FE_DOWNWARD) == 0;
    case RoundZero: return std::fesetround(FE_TOWARDZERO) == 0;
    case FlushToZero: _mm_setcsr(_mm_getcsr() | 0x8040); return true;
    case NoEnvironment: return ::clearenv() == 0;
    case OddEnvironment:
        for (const char* n : {"LC_ALL", "LC_CTYPE", "LANG", "LANGUAGE", "TZ", "DEBUG", "VERBOSE", "HOME", "PATH", "STUN_RTO", "STUN_DEBUG", "FREEWEBRTC_DEBUG", "FREEWEBRTC_LOG", "FREEWEBRTC_SEED"}) { ::setenv(n, r.coin() ? "1" : "tr", 1); }
        return true;
    case NoFiles: { for (int i = 0; i < 3; ++i) { ::close(i); } struct rlimit l {0, 0}; return ::setrlimit(RLIMIT_NOFILE, &l) == 0; }
    case OtherDirectory: ::umask(0777); return ::chdir("/") == 0;
    case OtherErrno: errno = r.one_of<int>({ERANGE, EINVAL, ENOSPC, EAGAIN, ENOMEM, EINTR, 9999}); return true;
    case OtherUser: return ::getuid() != 0 || (::setresgid(65534, 65534, 65534) == 0 && ::setresuid(65534, 65534, 65534) == 0);
    case OddStreams:
        std::cout.setstate(std::ios::failbit);
        std::cerr << std::hex << std::showbase << std::uppercase;
        std::clog.setf(std::ios::boolalpha);
        return true;
    case SignalsBlocked: { sigset_t s; sigfillset(&s); sigdelset(&s, SIGSYS); return ::sigprocmask(SIG_BLOCK, &s, nullptr) == 0; }
    default: return true;
    }
}

struct State { // of the surroundings, as far as it can be seen without system calls
    std::string c_locale, vars;
    std::locale cpp = std::locale();
    unsigned csr = _mm_getcsr() & 0xffc0u;
    int round = std::fegetround();
    std::terminate_handler term = std::get_terminate();
    std::new_handler nh = std::get_new_handler();
    std::ios_base::fmtflags f[3] = {std::cout.flags(), std::cerr.flags(), std::clog.flags()};
    std::ios_base::iostate st[3] = {std::cout.rdstate(), std::cerr.rdstate(), std::clog.rdstate()};
    std::streamsize width[3] = {std::cout.width(), std::cerr.width(), std::clog.width()}, prec[3] = {std::cout.precision(), std::cerr.precision(), std::clog.precision()};
    std::streambuf* buf[3] = {std::cout.rdbuf(), std::cerr.rdbuf(), std::clog.rdbuf()};
    char fill[3] = {std::cout.fill(), std::cerr.fill(), std::clog.fill()};
    State() {
        c_locale = std::setlocale(LC_ALL, nullptr);
        for (char** e = environ; e != nullptr && *e != nullptr; ++e) { vars += *e; vars += '\n'; }
    }
    const char* difference(const State& o) const {
        if (c_locale != o.c_locale) { return "the C locale"; }
        if (!(cpp == o.cpp)) { return "the C++ locale"; }
        if (vars != o.vars) { return "the environment"; }
        if (csr != o.csr || round != o.round) { return "the floating-point environment"; }
        if (term != o.term) { return "the terminate handler"; }
        if (nh != o.nh) { return "the new handler"; }
        for (int i = 0; i < 3; ++i) {
            if (f[i] != o.f[i] || st[i] != o.st[i] || width[i] != o.width[i] || prec[i] != o.prec[i] || buf[i] != o.buf[i] || fill[i] != o.fill[i]) { return "the state of a standard stream"; }
        }
        return nullptr;
    }
};

// OpenSSL reads its configuration at the first use, whoever makes it.
void warm_openssl() {
    static bool done = false;
    if (done) { return; }
    done = true;
    ::mallopt(M_ARENA_MAX, 1); // the arenas of other threads read files of the system as they shrink
    unsigned char d[64];
    unsigned n = 0;
    for (auto md : {EVP_sha1(), EVP_md5(), EVP_sha256()}) {
        EVP_MD_CTX* x = EVP_MD_CTX_new();
        EVP_DigestInit_ex(x, md, nullptr);
        EVP_DigestUpdate(x, "a", 1);
        EVP_DigestFinal_ex(x, d, &n);
        EVP_MD_CTX_free(x);
    }
    ref::hmac_sha1({1}, {2});
    void* f[4];
    ::backtrace(f, 4); // loads the unwinder
}
std::string frames() {
    std::string o;
    for (int i = 1; i < report->depth; ++i) {
        Dl_info d {};
        if (::dladdr(report->frames[i], &d) == 0 || d.dli_fname == nullptr) { continue; }
        std::string name = d.dli_sname != nullptr ? d.dli_sname : "";
        int bad = 0;
        if (char* x = abi::__cxa_demangle(name.c_str(), nullptr, nullptr, &bad); x != nullptr) { name = x; std::free(x); }
        const char* file = std::strrchr(d.dli_fname, '/');
        if (name.empty()) { char b[40]; std::snprintf(b, sizeof b, "+0x%lx", (unsigned long)((char*)report->frames[i] - (char*)d.dli_fbase)); name = b; }
        o += std::string(o.empty() ? "" : " < ") + name.substr(0, 90) + " (" + (file != nullptr ? file + 1 : d.dli_fname) + ")";
    }
    return o;
}

void child(const Job& j, uint64_t seed, int kind, uint64_t env_seed) {
    Rng r(env_seed);
    clock_allowed = std::string(j.name).find("clock") != std::string::npos;
    if (!prepare(kind, r)) { _exit(5); }
    auto work = [&] {
        State before;
        if (!only_memory()) { _exit(6); }
        report->stage = 1;
        in_work = true;
        if (kind == OtherErrno) { prepare(kind, r); }
        uint64_t d = do_job(j, seed);
        // What was kept in buffers of streams shows now.
        std::fflush(stdout); std::fflush(stderr);
        std::cout.flush(); std::cerr.flush(); std::clog.flush();
        in_work = false;
        report->digest = d;
        State after;
        if (const char* x = before.difference(after)) { std::strncpy(report->changed, x, sizeof report->changed - 1); }
        report->stage = 2;
    };
    if (kind == OtherThread) { std::thread t([&] { work(); ::_exit(0); }); t.join(); } else { work(); }
    ::_exit(0);
}

}

GROUP("P47", "surroundings", 19 * 150, 19 * 5000) {
    if (report == nullptr) { report = (Report*)::mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
    warm_openssl();
    auto& j = jobs()[c.idx % jobs().size()];
    uint64_t seed = c.rng.u64(), plain = 0;
    std::vector<int> kinds{Plain};
    for (unsigned k = 0; k < 3; ++k) { kinds.push_back(1 + (int)((c.idx / jobs().size() * 3 + k) % (Kinds - 1))); }
    for (int kind : kinds) {
        *report = Report{0, -1, 0, 0, "", {}, 0, ""};
        uint64_t env_seed = c.rng.u64();
        std::fflush(nullptr);
        pid_t pid = ::fork();
        CHECK(pid >= 0, "harness", "fork");
        if (pid == 0) {
            struct itimerval off {};
            ::setitimer(ITIMER_PROF, &off, nullptr);
            child(j, seed, kind, env_seed);
        }
        int status = 0;
        while (::waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        auto where = [&] { return std::string(j.name) + " (" + names[kind] + ")"; };
        if (report->stage == 0) { EV("surroundings that could not be made"); vf::ev(std::string("could not be made: ") + names[kind]); continue; } // the required minimum will not be met
        CHECK(report->syscall < 0, "system-call", where() << " makes system call number " << report->syscall << " in " << frames());
        CHECK(report->called[0] == 0, "surroundings", where() << " calls " << report->called << " in " << frames());
        CHECK(report->stage == 2 && WIFEXITED(status) && WEXITSTATUS(status) == 0, "ended", where() << " ends the process: " << status);
        CHECK(report->changed[0] == 0, "changed", where() << " changes " << report->changed);
        if (kind == Plain) { plain = report->digest; }
        CHECK(report->digest == plain, "differs", where() << " gives other results than in plain surroundings");
        EV("pieces of work watched");
        vf::ev(std::string("surroundings: ") + names[kind]);
    }
    vf::ev(std::string("work: ") + j.name);
    c.distinct(vf::Hash().add(plain).add(c.idx % jobs().size()));
    if (c.idx < 40) { c.sample(std::string(j.name) + " in " + names[kinds[1]] + ", " + names[kinds[2]] + ", " + names[kinds[3]] + " digest " + std::to_string(plain)); }
}

// The doors are closed: what the monitor forbids it does see.
GROUP("P47", "monitor", 14, 14) {
    if (report == nullptr) { report = (Report*)::mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
    struct Bad { const char* name; uint64_t (*fn)(uint64_t); };
    static const Bad bad[] = {
        {"getenv", [](uint64_t) -> uint64_t { return ::getenv("HOME") != nullptr; }},
        {"rand", [](uint64_t) -> uint64_t { return (uint64_t)::rand(); }},
        {"std::random_device", [](uint64_t) -> uint64_t { std::random_device d; return d(); }},
        {"std steady time", [](uint64_t) -> uint64_t { return (uint64_t)std::chrono::steady_clock::now().time_since_epoch().count(); }},
        {"std system time", [](uint64_t) -> uint64_t { return (uint64_t)std::chrono::system_clock::now().time_since_epoch().count(); }},
        {"time", [](uint64_t) -> uint64_t { return (uint64_t)::time(nullptr); }},
        {"std::cout", [](uint64_t) -> uint64_t { std::cout << "x"; return 1; }},
        {"printf", [](uint64_t) -> uint64_t { std::printf("x"); return 1; }},
        {"std::cerr", [](uint64_t) -> uint64_t { std::cerr << "x"; return 1; }},
        {"open", [](uint64_t) -> uint64_t { return (uint64_t)::open("/dev/null", O_RDONLY); }},
        {"std::thread", [](uint64_t) -> uint64_t { std::thread([] {}).join(); return 1; }},
        {"std::locale::global", [](uint64_t) -> uint64_t { std::locale::global(ambient::odd_locale()); return 1; }},
        {"stream flags", [](uint64_t) -> uint64_t { std::cout << std::hex; return 1; }},
        {"signal", [](uint64_t) -> uint64_t { std::signal(SIGINT, SIG_IGN); return 1; }},
    };
    auto& b = bad[c.idx % 14];
    *report = Report{0, -1, 0, 0, "", {}, 0, ""};
    std::fflush(nullptr);
    pid_t pid = ::fork();
    CHECK(pid >= 0, "harness", "fork");
    if (pid == 0) {
        struct itimerval off {};
        ::setitimer(ITIMER_PROF, &off, nullptr);
        child(Job{b.name, b.fn, nullptr}, 1, Plain, 1);
    }
    int status = 0;
    while (::waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if (report->syscall >= 0 || report->called[0] != 0 || report->changed[0] != 0) { EV("forbidden acts seen"); vf::ev(std::string("seen: ") + b.name); }
    c.distinct(vf::Hash().add(std::string(b.name)));
}
