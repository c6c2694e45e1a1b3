// P38: threads that use their own objects, under ThreadSanitizer; results are
// compared with the same work done alone.
#include <sys/wait.h>
#include <atomic>
#include <barrier>
#include <thread>
#include "workout.hpp"

namespace {

struct Job { unsigned task; uint64_t seed; uint64_t result = 0; };

// All jobs of one thread one after another; threads start each round together.
void together(std::vector<std::vector<Job>>& work, bool lockstep) {
    std::barrier start((std::ptrdiff_t)work.size());
    std::vector<std::thread> threads;
    for (auto& mine : work) {
        threads.emplace_back([&] {
            start.arrive_and_wait();
            for (auto& j : mine) {
                // No barrier between rounds unless wanted: it would order the threads.
                if (lockstep) { start.arrive_and_wait(); }
                j.result = work::tasks()[j.task].fn(j.seed);
            }
        });
    }
    for (auto& t : threads) { t.join(); }
}
std::string compare(const std::vector<std::vector<Job>>& work, unsigned& n) {
    for (auto& mine : work) {
        for (auto& j : mine) {
            ++n;
            if (work::tasks()[j.task].fn(j.seed) != j.result) { return std::string(work::tasks()[j.task].name) + " gives other results next to other threads"; }
        }
    }
    return "";
}

}

// Later uses.
GROUP("P38", "together", 400, 8000) {
    unsigned threads = 2 + (unsigned)c.rng.below(5), rounds = 2 + (unsigned)c.rng.below(5);
    bool same = c.rng.coin(); // all do the same kind of work at a time
    std::vector<std::vector<Job>> work(threads);
    for (unsigned k = 0; k < rounds; ++k) {
        unsigned t = (unsigned)c.rng.below(work::tasks().size());
        uint64_t s = c.rng.u64();
        for (auto& w : work) { w.push_back({same ? t : (unsigned)c.rng.below(work::tasks().size()), same && c.rng.coin() ? s : c.rng.u64()}); }
    }
    together(work, same);
    unsigned n = 0;
    std::string why = compare(work, n);
    CHECK(why.empty(), "differs", why);
    EVN("jobs done next to other threads", n);
    EVN("threads", threads);
    vf::Hash h;
    for (auto& w : work) { for (auto& j : w) { h.add(j.task).add(j.result); vf::ev(std::string("work: ") + work::tasks()[j.task].name); } }
    c.distinct(h);
    c.sample(std::to_string(threads) + " threads, " + std::to_string(rounds) + " rounds, " + (same ? "the same kind of work" : "different kinds of work"));
}
// First use of everything, in a process of its own: nothing of the library was
// touched before the threads start.
GROUP("P38", "first use", 13 * 8 + 40, 13 * 200) {
    unsigned threads = 2 + (unsigned)c.rng.below(4);
    unsigned kinds = (unsigned)work::tasks().size();
    std::vector<std::vector<Job>> work(threads);
    for (auto& w : work) {
        w.push_back({c.idx < 13 * 8 ? (unsigned)(c.idx % kinds) : (unsigned)c.rng.below(kinds), c.rng.u64()});
        if (c.rng.coin()) { w.push_back({(unsigned)c.rng.below(kinds), c.rng.u64()}); }
    }
    std::fflush(nullptr);
    pid_t pid = ::fork();
    if (pid == 0) {
        together(work, false);
        unsigned n = 0;
        std::string why = compare(work, n);
        if (!why.empty()) { std::fprintf(stderr, "%s\n", why.c_str()); }
        std::fflush(nullptr);
        _exit(why.empty() ? 0 : 78);
    }
    CHECK(pid > 0, "harness", "fork");
    int status = 0;
    ::waitpid(pid, &status, 0);
    CHECK(!(WIFEXITED(status) && WEXITSTATUS(status) == 78), "differs", "first use of " << work::tasks()[work[0][0].task].name << " by several threads gives other results");
    CHECK(status == 0, "first.use", "first use of " << work::tasks()[work[0][0].task].name << " by several threads: process ended with status " << status << " (report of ThreadSanitizer above)");
    EV("processes with concurrent first use");
    c.distinct(vf::Hash().add(c.idx).add(threads).add(work[0][0].seed));
}

// Objects that pass from thread to thread, while other threads do the same with
// theirs; the thread that made an object is gone when the next one uses it.
GROUP("P38", "handed over", 160, 4000) {
    unsigned n = 2 + (unsigned)c.rng.below(4), steps = 2 + (unsigned)c.rng.below(5);
    std::vector<std::unique_ptr<work::Relay>> objects(n);
    std::vector<unsigned> kinds(n);
    std::vector<uint64_t> seeds(n);
    bool same = c.rng.coin();
    for (unsigned i = 0; i < n; ++i) { kinds[i] = same && i ? kinds[0] : (unsigned)c.rng.below(work::relays().size()); seeds[i] = c.rng.u64(); }
    for (unsigned k = 0; k <= steps; ++k) {
        std::vector<std::thread> threads;
        for (unsigned i = 0; i < n; ++i) {
            threads.emplace_back([&, i] {
                auto& o = objects[i];
                if (!o) { o = work::relays()[kinds[i]].make(seeds[i]); }
                if (k < steps) { o->step(); }
            });
        }
        for (auto& t : threads) { t.join(); }
        if (c.rng.coin()) { std::swap(objects[0], objects[n - 1]); std::swap(kinds[0], kinds[n - 1]); std::swap(seeds[0], seeds[n - 1]); }
    }
    for (unsigned i = 0; i < n; ++i) {
        auto alone = work::relays()[kinds[i]].make(seeds[i]);
        for (unsigned k = 0; k < steps; ++k) { alone->step(); }
        CHECK(alone->h.get() == objects[i]->h.get(), "handed", work::relays()[kinds[i]].name << " handed over from thread to thread gives other results than on one thread");
        vf::ev(std::string("handed over: ") + work::relays()[kinds[i]].name);
    }
    std::thread([&] { objects.clear(); }).join();
    EVN("objects handed over", n * steps);
    c.distinct(vf::Hash().add(seeds[0]).add(n).add(steps));
}
