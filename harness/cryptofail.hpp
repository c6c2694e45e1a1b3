// Digest steps and allocations of OpenSSL that fail on demand. Include in one
// translation unit of a program.
#pragma once
#include <dlfcn.h>
#include <openssl/crypto.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <cstdlib>
#include "common.hpp"

namespace cryptofail {

// Calls of EVP_Digest{Init_ex,Update,Final_ex} until one fails; -1: none fails.
inline long step = -1;
inline unsigned reason = 0;   // the failing step raises it (0: raises nothing)
inline unsigned long raised = 0;

inline bool fails() {
    if (step < 0) { return false; }
    if (step-- > 0) { return false; }
    raised = 0;
    if (reason != 0) {
        ERR_raise(ERR_LIB_EVP, (int)reason);
        raised = ERR_peek_last_error();
    }
    return true;
}

// Allocations until one fails.
inline long fail_at = -1;
inline bool fail_all_after = false, hooks = false;
inline bool refuse() {
    if (fail_at < 0) { return false; }
    if (fail_at == 0) { if (!fail_all_after) { fail_at = -1; } return true; }
    --fail_at;
    return false;
}
inline void* my_malloc(size_t n, const char*, int) { return refuse() ? nullptr : std::malloc(n); }
inline void* my_realloc(void* p, size_t n, const char*, int) { return refuse() ? nullptr : std::realloc(p, n); }
inline void my_free(void* p, const char*, int) { std::free(p); }
struct Hooks { Hooks() { hooks = CRYPTO_set_mem_functions(my_malloc, my_realloc, my_free) == 1; } };
inline Hooks install;

template<typename F> F* real(const char* name) { return reinterpret_cast<F*>(dlsym(RTLD_NEXT, name)); }

// A failing step is reported with the error that it raised, whatever errors other
// code has left behind; nothing is left of it in a later call.
template<typename Call, typename Want>
void failing_steps(vf::Ctx& c, const char* who, size_t steps, Call&& call, Want&& want) {
    ERR_clear_error();
    for (unsigned n = (unsigned)c.rng.below(4); n; --n) { ERR_raise(ERR_LIB_RSA, 100 + (int)c.rng.below(50)); EV("stale errors"); }
    long at = (long)c.rng.below(steps + 1);
    step = at;
    reason = c.rng.chance(1, 8) ? 0 : 100 + (unsigned)c.rng.below(60);
    auto r = call();
    bool hit = step < 0;
    step = -1;
    if (hit) {
        CHECK(r.is_err(), "hash.failure", who << ": failed step " << at << " of " << steps << " is not reported");
        if (reason != 0) {
            auto code = r.unwrap_err().code();
            CHECK(code.value() == (int)raised, "hash.failure.code", who << ": step " << at << " failed with " << raised << ", reported is " << code.value() << " '" << code.message() << "'");
        }
        EV("hash failures reported");
    } else {
        CHECK((size_t)at == steps, "model", who << ": step " << at << " of " << steps << " was not reached");
        CHECK(r.is_ok() && want(r), "hash.value", who << ": wrong digest after errors of others");
    }
    ERR_clear_error();
    auto again = call();
    CHECK(again.is_ok() && want(again), "hash.after", who << ": wrong digest after a failure");
}

// Allocations fail: an error or the right value.
template<typename Call, typename Want>
void failing_allocations(vf::Ctx& c, const char* who, Call&& call, Want&& want) {
    CHECK(hooks, "model", "allocation hooks are not installed");
    (void)call(); // whatever is cached is cached now
    fail_all_after = c.rng.coin();
    fail_at = (long)c.rng.below(6);
    auto r = call();
    fail_at = -1;
    if (r.is_ok()) { CHECK(want(r), "oom.value", who << ": wrong digest after a failed allocation"); EV("survived out of memory"); }
    else { CHECK(!r.unwrap_err().message().empty(), "oom.error", who << ": error without message"); EV("out of memory reported"); }
    auto again = call();
    CHECK(again.is_ok() && want(again), "oom.after", who << ": hash does not work after a failure");
}

}

extern "C" int EVP_DigestInit_ex(EVP_MD_CTX* ctx, const EVP_MD* md, ENGINE* e) {
    static auto f = cryptofail::real<int(EVP_MD_CTX*, const EVP_MD*, ENGINE*)>("EVP_DigestInit_ex");
    return cryptofail::fails() ? 0 : f(ctx, md, e);
}
extern "C" int EVP_DigestUpdate(EVP_MD_CTX* ctx, const void* d, size_t n) {
    static auto f = cryptofail::real<int(EVP_MD_CTX*, const void*, size_t)>("EVP_DigestUpdate");
    return cryptofail::fails() ? 0 : f(ctx, d, n);
}
extern "C" int EVP_DigestFinal_ex(EVP_MD_CTX* ctx, unsigned char* md, unsigned* n) {
    static auto f = cryptofail::real<int(EVP_MD_CTX*, unsigned char*, unsigned*)>("EVP_DigestFinal_ex");
    return cryptofail::fails() ? 0 : f(ctx, md, n);
}
