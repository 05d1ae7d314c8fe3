// Native back end of sym.h: executes a harness concretely with the inputs of a replay file, so that
// a counterexample (or a sampled path) of the engine runs against the real compiled code.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fstream>
#include <new>
#include <sstream>
#include <string>
#include <ucontext.h>
#include <vector>
#include <unistd.h>
#include <fcntl.h>

namespace
{
struct In { std::string name; std::vector<unsigned char> data; };
std::vector<In>* inputs;
size_t nextIn = 0;
FILE* out;      // results channel
FILE* trc;
long liveCount = 0;
[[noreturn]] void stop(int code) { fflush(out); if (trc) fflush(trc); _exit(code); }
}

extern "C" {
void sym_make(void* p, size_t n, char const* name)
{
    if (!n) return;
    memset(p, 0, n);
    if (nextIn >= inputs->size()) { fprintf(out, "NOTE input %s beyond the replay file\n", name); return; }
    In& i = (*inputs)[nextIn++];
    if (i.name != name || i.data.size() != n) { fprintf(out, "MISMATCH input %s/%zu, file has %s/%zu\n", name, n, i.name.c_str(), i.data.size()); stop(79); }
    memcpy(p, i.data.data(), n);
}
void sym_assume_(int c) { if (!c) { fprintf(out, "ASSUME-FAILED\n"); stop(78); } }
void sym_assert_(int c, char const* msg) { if (!c) { fprintf(out, "ASSERT-FAILED %s\n", msg); stop(77); } }
void sym_reach(char const*) {}
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_native() { return 1; }
void sym_end_path() { fprintf(out, "END\n"); stop(0); }
void sym_check_read(void const* p, size_t n) { volatile unsigned char s = 0; for (size_t i = 0; i < n; ++i) s = s + ((unsigned char const volatile*)p)[i]; }
void sym_check_write(void* p, size_t n) { for (size_t i = 0; i < n; ++i) { auto q = (unsigned char volatile*)p; q[i] = q[i]; } }
uint64_t sym_live_heap() { return (uint64_t)liveCount; }
void sym_trace(uint64_t v) { if (trc) fprintf(trc, "%lu\n", (unsigned long)v); }
void sym_print(char const* m, uint64_t v) { fprintf(out, "PRINT %s %lu\n", m, (unsigned long)v); }
}

// cooperative threads
namespace
{
struct Th { ucontext_t uc; void (*fn)(void*); void* arg; };
std::vector<Th*>* ths;
int curTh = 0;
void tramp(int t) { Th* h = (*ths)[t]; h->fn(h->arg); fprintf(out, "THREAD-RETURNED\n"); stop(76); }
void initTh() { if (!ths) { ths = new std::vector<Th*>; ths->push_back(new Th{}); } }
}
extern "C" {
int sym_thread_spawn(void (*fn)(void*), void* arg)
{
    initTh();
    Th* t = new Th{}; t->fn = fn; t->arg = arg;
    getcontext(&t->uc);
    t->uc.uc_stack.ss_sp = malloc(1 << 20); t->uc.uc_stack.ss_size = 1 << 20; t->uc.uc_link = nullptr;
    ths->push_back(t);
    int id = (int)ths->size() - 1;
    makecontext(&t->uc, (void (*)())tramp, 1, id);
    return id;
}
void sym_switch_to(int t) { initTh(); int o = curTh; if (o == t) return; curTh = t; swapcontext(&(*ths)[o]->uc, &(*ths)[t]->uc); }
int sym_self() { return curTh; }
}

extern "C" __attribute__((weak)) void sym_on_alloc(size_t);
static void* allocN(size_t n)
{
    if (sym_on_alloc) sym_on_alloc(n);
    static size_t lim = getenv("SYM_ALLOC_MAX") ? strtoul(getenv("SYM_ALLOC_MAX"), nullptr, 10) : (8u << 20);
    if (n > lim) { fprintf(out ? out : stderr, "ALLOC %zu\n", n); if (out) stop(75); }
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    memset(p, 0xAA, n);
    ++liveCount;
    return p;
}
void* operator new(size_t n) { return allocN(n); }
void* operator new[](size_t n) { return allocN(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return allocN(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return allocN(n); }
void operator delete(void* p, std::nothrow_t const&) noexcept { if (p) { --liveCount; free(p); } }
void operator delete[](void* p, std::nothrow_t const&) noexcept { if (p) { --liveCount; free(p); } }
void operator delete(void* p) noexcept { if (p) { --liveCount; free(p); } }
void operator delete[](void* p) noexcept { if (p) { --liveCount; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --liveCount; free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { --liveCount; free(p); } }

// usage: replay ENTRY INPUTS RESULT TRACE
int main(int argc, char** argv)
{
    if (argc < 5) return 74;
    out = fopen(argv[3], "w"); trc = fopen(argv[4], "w");
    setvbuf(out, nullptr, _IONBF, 0); setvbuf(trc, nullptr, _IOLBF, 0);
    int dn = open("/dev/null", O_WRONLY); if (dn >= 0) dup2(dn, 1);
    inputs = new std::vector<In>;
    {
        std::ifstream f(argv[2]); std::string line;
        while (std::getline(f, line))
        {
            std::istringstream is(line); In i; size_t n; std::string hex; is >> i.name >> n >> hex;
            for (size_t k = 0; k + 1 < hex.size(); k += 2) i.data.push_back((unsigned char)std::stoul(hex.substr(k, 2), nullptr, 16));
            inputs->push_back(i);
        }
    }
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(out, "NO-ENTRY %s\n", argv[1]); stop(74); }
    liveCount = 0;
    fn();
    fprintf(out, "END\n");
    stop(0);
}
