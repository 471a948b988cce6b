#include "c28_runtime.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <type_traits>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace {

constexpr uintptr_t BASE = 0x200000000000;
constexpr uintptr_t REGION = 256u << 20;
constexpr uintptr_t STACK = 16u << 20;
constexpr size_t GRANULES = REGION / 8;
constexpr size_t CONFLICTS = 1u << 20;   // hash table of granules that are conflicted on
constexpr size_t CELLS = 1u << 19;       // hash table of granules that are watched in a run
constexpr size_t TEXT = 1u << 21;

/// kept between the runs
struct Learned {
    uint64_t shared[2][GRANULES / 64];
    uintptr_t conflict[CONFLICTS];
    size_t conflicts;
};

/// from the process of a run to the one that started it
struct Report {
    char result[2][TEXT];
    size_t length[2];
    char race[4096], stuck[1024];
    int finished, learned;
    uint64_t steps, next, accesses;
};

struct Byte {
    uint32_t write = 0, read[2] = { 0, 0 };  // clocks; 0: never
    uint8_t writer = 0;
    bool atomic_write = false, atomic_read[2] = { false, false };
    uintptr_t at_write = 0, at_read[2] = { 0, 0 };
};
struct Cell {
    uintptr_t granule = 0;
    Byte bytes[8];
    bool touched[2] = { false, false }, written = false;
    bool read_since = false, written_since = false;  // by the other thread, since the last switch that was asked for
};

Learned* learned;
Report* report;
Cell* cells;
char* zone;

__thread int me __attribute__((tls_model("initial-exec"))) = -1;  // 0, 1: a thread under the scheduler
__thread int quiet __attribute__((tls_model("initial-exec"))) = 0;

// --- of the run (only one thread at a time touches them)
uintptr_t next_free[2];
uint32_t clocks[2][2];  // what each thread knows of each
sem_t turn[2];
bool finished[2], blocked[2];
const void* waits_for[2];
bool controlled = false;
std::vector<uint64_t>* switches;
size_t next_switch;
uint64_t own_steps[2], offset_of_next;
int switched = -1;  // the thread that made the last switch that was asked for
uint64_t spins;
uintptr_t exe_lo[16], exe_hi[16], lib_lo[128], lib_hi[128];
size_t exes, libs;

struct Sync {
    const void* object;
    uint32_t clocks[2];
};
Sync syncs[1 << 16];

Sync& sync_of(const void* p) {
    size_t k = (reinterpret_cast<uintptr_t>(p) * 0x9e3779b97f4a7c15ull) >> 48;
    while (syncs[k].object && syncs[k].object != p) k = (k + 1) & 0xffff;
    syncs[k].object = p;
    return syncs[k];
}

void acquire(const void* p) {
    if (me < 0) return;
    auto& s = sync_of(p);
    for (int t = 0; t < 2; ++t) {
        if (s.clocks[t] > clocks[me][t]) clocks[me][t] = s.clocks[t];
    }
}

void release(const void* p) {
    if (me < 0) return;
    auto& s = sync_of(p);
    for (int t = 0; t < 2; ++t) {
        if (clocks[me][t] > s.clocks[t]) s.clocks[t] = clocks[me][t];
    }
    ++clocks[me][me];
}

[[noreturn]] void give_up(const char* why) {
    std::snprintf(report->stuck, sizeof report->stuck, "%s", why);
    _exit(0);
}

void hand_over() {
    const int other = 1 - me;
    spins = 0;
    const int self = me;
    sem_post(&turn[other]);
    while (sem_wait(&turn[self]) != 0) {}
}

/// lets the other one go on, if it can
void yield() {
    const int other = 1 - me;
    if (finished[other] || blocked[other]) return;
    hand_over();
}

/// until the other one has released the object
void wait_for(const void* object) {
    const int other = 1 - me;
    if (finished[other] || (blocked[other] && waits_for[other] != nullptr)) give_up("a thread waits for ever");
    blocked[me] = true;
    waits_for[me] = object;
    hand_over();
}

void released(const void* object) {
    const int other = 1 - me;
    if (blocked[other] && waits_for[other] == object) {
        blocked[other] = false;
        waits_for[other] = nullptr;
    }
}

bool conflicted(uintptr_t granule) {
    size_t k = (granule * 0x9e3779b97f4a7c15ull) >> 44;
    while (learned->conflict[k]) {
        if (learned->conflict[k] == granule) return true;
        k = (k + 1) & (CONFLICTS - 1);
    }
    return false;
}

void conflict(uintptr_t granule) {
    size_t k = (granule * 0x9e3779b97f4a7c15ull) >> 44;
    while (learned->conflict[k]) {
        if (learned->conflict[k] == granule) return;
        k = (k + 1) & (CONFLICTS - 1);
    }
    if (learned->conflicts > CONFLICTS / 2) give_up("(check) too much shared memory");
    learned->conflict[k] = granule;
    ++learned->conflicts;
    report->learned = 1;
}

size_t used_cells;
Cell& cell(uintptr_t granule) {
    size_t k = (granule * 0x9e3779b97f4a7c15ull) >> 45;
    while (cells[k].granule && cells[k].granule != granule) k = (k + 1) & (CELLS - 1);
    if (!cells[k].granule && ++used_cells > CELLS / 2) give_up("(check) too much memory is watched");
    cells[k].granule = granule;
    return cells[k];
}

void name(char* out, size_t n, uintptr_t a) {
    Dl_info i{};
    if (a >= BASE && a < BASE + 2 * REGION) {
        std::snprintf(out, n, "memory of thread %d", static_cast<int>((a - BASE) / REGION) + 1);
    } else if (dladdr(reinterpret_cast<void*>(a), &i) && i.dli_sname) {
        int status = 0;
        char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &status);
        std::snprintf(out, n, "%s", status == 0 && d ? d : i.dli_sname);
    } else {
        std::snprintf(out, n, "something else");
    }
}

void race(uintptr_t address, const char* what, uintptr_t here, const char* what_before, uintptr_t before) {
    if (report->race[0]) return;
    ++quiet;
    char object[800], now[800], then[800];
    name(object, sizeof object, address);
    name(now, sizeof now, here);
    name(then, sizeof then, before);
    std::snprintf(report->race, sizeof report->race, "%s in %s and %s in the other thread, in %s, access the same memory (%s) without synchronisation", what, now, what_before, then, object);
    --quiet;
}

bool in(const uintptr_t* lo, const uintptr_t* hi, size_t n, uintptr_t a) {
    for (size_t k = 0; k < n; ++k) {
        if (a >= lo[k] && a < hi[k]) return true;
    }
    return false;
}

void step() {
    ++report->steps;
    ++own_steps[me];
    if (next_switch < switches->size() && (*switches)[next_switch] == report->steps) {
        if (++next_switch == switches->size()) {
            switched = me;
            offset_of_next = own_steps[1 - me];
        }
        yield();
    }
}

void access(uintptr_t a, size_t n, bool write, bool atomic, uintptr_t here) {
    if (me < 0 || !controlled || quiet || n == 0) return;
    const uintptr_t offset = a - BASE;
    if (offset < 2 * REGION) {
        const int owner = static_cast<int>(offset / REGION);
        const size_t g0 = (offset % REGION) / 8, g1 = (offset % REGION + n - 1) / 8;
        if (owner == me) {
            bool any = false;
            for (size_t g = g0; g <= g1 && g < GRANULES; ++g) any = any || (learned->shared[owner][g / 64] >> (g % 64) & 1);
            if (!any) return;
        } else {
            for (size_t g = g0; g <= g1 && g < GRANULES; ++g) {
                if (!(learned->shared[owner][g / 64] >> (g % 64) & 1)) {
                    learned->shared[owner][g / 64] |= 1ull << (g % 64);
                    report->learned = 1;
                }
            }
        }
    } else if (in(lib_lo, lib_hi, libs, a)) {
        return;
    } else if (!write && in(exe_lo, exe_hi, exes, a)) {
        return;
    }
    if (n > 4096) n = 4096;
    ++report->accesses;
    // what the other one may change in between
    bool steps = false;
    for (uintptr_t g = a / 8; g <= (a + n - 1) / 8; ++g) steps = steps || conflicted(g);
    if (steps) step();
    // the order of the steps after a switch and the steps of the other one since makes a difference from here on only
    if (switched == me && !report->next && steps) {
        for (uintptr_t g = a / 8; g <= (a + n - 1) / 8; ++g) {
            const auto& c = cell(g);
            if (c.written_since || (write && c.read_since)) report->next = own_steps[me] + offset_of_next + 1;
        }
    }
    for (uintptr_t x = a; x < a + n; ++x) {
        auto& c = cell(x / 8);
        c.touched[me] = true;
        c.written = c.written || write;
        if (switched == 1 - me) (write ? c.written_since : c.read_since) = true;
        if (c.written && c.touched[0] && c.touched[1]) conflict(x / 8);
        auto& b = c.bytes[x % 8];
        const int other = 1 - me;
        if (b.write && b.writer == other && b.write > clocks[me][other] && !(atomic && b.atomic_write)) race(x, write ? "a write" : "a read", here, "a write", b.at_write);
        if (write && b.read[other] && b.read[other] > clocks[me][other] && !(atomic && b.atomic_read[other])) race(x, "a write", here, "a read", b.at_read[other]);
        if (write) {
            b.write = clocks[me][me];
            b.writer = static_cast<uint8_t>(me);
            b.atomic_write = atomic;
            b.at_write = here;
        } else {
            b.read[me] = clocks[me][me];
            b.atomic_read[me] = atomic;
            b.at_read[me] = here;
        }
    }
}

template <class T>
void atomic_access(const volatile T* p, bool write, bool read, uintptr_t here) {
    if (me < 0 || !controlled || quiet) return;
    access(reinterpret_cast<uintptr_t>(p), sizeof(T), write, true, here);
    // a loop that waits for the other one
    if (++spins > 100000) {
        if (spins > 10000000) give_up("a thread waits for ever");
        const auto before = spins;
        yield();
        spins = before > 200000 ? before : 0;
    }
    if (read) acquire(const_cast<const T*>(p));
    if (write) release(const_cast<const T*>(p));
}

/// the counts of shared pointers: counting up and down commutes, and only going down orders anything
bool counts(const volatile void* p, int64_t v, size_t size) {
    if (size != 4 || (v != 1 && v != -1)) return false;
    if (me < 0 || !controlled || quiet || v == 1) return true;
    acquire(const_cast<const void*>(p));
    release(const_cast<const void*>(p));
    return true;
}

int scan(dl_phdr_info* i, size_t, void* data) {
    int& n = *static_cast<int*>(data);
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        const auto& p = i->dlpi_phdr[k];
        if (p.p_type != PT_LOAD) continue;
        const uintptr_t lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
        if (n == 0) {
            if (!(p.p_flags & PF_W) && exes < 16) {
                exe_lo[exes] = lo;
                exe_hi[exes++] = hi;
            }
        } else if (libs < 128) {
            lib_lo[libs] = lo;
            lib_hi[libs++] = hi;
        }
    }
    ++n;
    return 0;
}

void prepare() {
    if (zone) return;
    auto map = [](void* at, size_t n, int flags) {
        void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_NORESERVE | flags, -1, 0);
        if (p == MAP_FAILED) {
            std::perror("mmap");
            std::abort();
        }
        return p;
    };
    zone = static_cast<char*>(map(reinterpret_cast<void*>(BASE), 2 * REGION, MAP_PRIVATE | MAP_FIXED_NOREPLACE));
    learned = static_cast<Learned*>(map(nullptr, sizeof(Learned), MAP_SHARED));
    report = static_cast<Report*>(map(nullptr, sizeof(Report), MAP_SHARED));
    cells = static_cast<Cell*>(map(nullptr, sizeof(Cell) * CELLS, MAP_PRIVATE));
    int n = 0;
    dl_iterate_phdr(scan, &n);
}

const rt::Job* jobs[2];

void* thread(void* arg) {
    const int t = static_cast<int>(reinterpret_cast<intptr_t>(arg));
    while (sem_wait(&turn[t]) != 0) {}
    me = t;
    {
        const std::string r = (*jobs[t])();
        const size_t n = r.size() < TEXT ? r.size() : TEXT;
        std::memcpy(report->result[t], r.data(), n);
        report->length[t] = n;
    }
    finished[t] = true;
    me = -1;
    if (!finished[1 - t]) {
        if (blocked[1 - t]) give_up("a thread waits for something that is never released");
        sem_post(&turn[1 - t]);
    }
    return nullptr;
}

rt::Outcome start(const rt::Job* a, const rt::Job* b, int first, const std::vector<uint64_t>& at, const std::function<void()>& before) {
    prepare();
    report->finished = report->learned = 0;
    report->race[0] = report->stuck[0] = 0;
    report->steps = report->next = report->accesses = 0;
    report->length[0] = report->length[1] = 0;
    std::fflush(nullptr);
    const pid_t p = fork();
    if (p == 0) {
        alarm(30);
        if (before) before();
        jobs[0] = a;
        jobs[1] = b;
        auto copy = at;
        switches = &copy;
        pthread_t threads[2];
        for (int t = 0; t < 2; ++t) {
            next_free[t] = BASE + REGION * static_cast<uintptr_t>(t) + STACK;
            sem_init(&turn[t], 0, 0);
            clocks[t][t] = 1;
            clocks[t][1 - t] = 0;
            finished[t] = !jobs[t];
        }
        controlled = b != nullptr;
        for (int t = 0; t < 2; ++t) {
            if (!jobs[t]) continue;
            pthread_attr_t attr;
            pthread_attr_init(&attr);
            pthread_attr_setstack(&attr, reinterpret_cast<void*>(BASE + REGION * static_cast<uintptr_t>(t)), STACK);
            if (pthread_create(&threads[t], &attr, thread, reinterpret_cast<void*>(static_cast<intptr_t>(t))) != 0) _exit(9);
        }
        sem_post(&turn[first]);
        for (int t = 0; t < 2; ++t) {
            if (jobs[t]) pthread_join(threads[t], nullptr);
        }
        report->finished = 1;
        _exit(0);
    }
    int status = 0;
    waitpid(p, &status, 0);
    rt::Outcome r;
    for (int t = 0; t < 2; ++t) r.result[t].assign(report->result[t], report->length[t]);
    r.race = report->race;
    r.stuck = report->stuck;
    r.finished = report->finished && status == 0;
    r.status = status;
    r.learned = report->learned;
    r.steps = report->steps;
    r.next = report->next;
    r.accesses = report->accesses;
    return r;
}

}  // namespace

namespace rt {

void forget() {
    prepare();
    madvise(learned, sizeof(Learned), MADV_REMOVE);
    std::memset(learned->conflict, 0, sizeof learned->conflict);
    learned->conflicts = 0;
    if (learned->shared[0][0] || learned->shared[1][0]) std::memset(learned->shared, 0, sizeof learned->shared);
}

Outcome run(const Job& a, const Job& b, int first, const std::vector<uint64_t>& at, const std::function<void()>& before) { return start(&a, &b, first, at, before); }
Outcome alone(const Job& a, const std::function<void()>& before) { return start(&a, nullptr, 0, {}, before); }

}  // namespace rt

// ------------------------------------------------------------------------------------------ memory of the threads

namespace {
void* bump(size_t n, size_t align) {
    uintptr_t& f = next_free[me];
    uintptr_t p = (f + 16 + align - 1) & ~(align - 1);
    reinterpret_cast<size_t*>(p)[-1] = n;
    f = (p + n + 15) & ~uintptr_t{ 15 };
    if (f > BASE + REGION * static_cast<uintptr_t>(me + 1)) give_up("(check) out of memory");
    return reinterpret_cast<void*>(p);
}
bool ours(void* p) { return reinterpret_cast<uintptr_t>(p) - BASE < 2 * REGION; }
}  // namespace

extern "C" {

void* malloc(size_t n) { return me < 0 ? __libc_malloc(n) : bump(n, 16); }
void free(void* p) {
    if (!ours(p)) __libc_free(p);
}
void* calloc(size_t n, size_t m) { return me < 0 ? __libc_calloc(n, m) : bump(n * m, 16); }
void* memalign(size_t a, size_t n) { return me < 0 ? __libc_memalign(a, n) : bump(n, a < 16 ? 16 : a); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) {
    *r = memalign(a, n);
    return *r ? 0 : ENOMEM;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!ours(p) && me < 0) return __libc_realloc(p, n);
    size_t old = 0;
    if (ours(p)) {
        old = static_cast<size_t*>(p)[-1];
    } else {
        old = n;  // (a block from before the threads; not seen)
    }
    void* r = malloc(n);
    std::memcpy(r, p, old < n ? old : n);
    free(p);
    return r;
}

// ------------------------------------------------------------------------------------------ synchronisation

// local statics: byte 0 of the guard is set when it is done, byte 1 while it is being done
int __cxa_guard_acquire(__cxxabiv1::__guard* g) {
    auto* b = reinterpret_cast<volatile char*>(g);
    if (me >= 0 && controlled && !quiet) {
        access(reinterpret_cast<uintptr_t>(g), 1, false, true, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
        while (!b[0] && b[1]) wait_for(g);
        acquire(g);
    }
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(__cxxabiv1::__guard* g) {
    auto* b = reinterpret_cast<volatile char*>(g);
    if (me >= 0 && controlled && !quiet) access(reinterpret_cast<uintptr_t>(g), 1, true, true, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
    b[0] = 1;
    b[1] = 0;
    if (me >= 0 && controlled) {
        release(g);
        released(g);
    }
}
void __cxa_guard_abort(__cxxabiv1::__guard* g) {
    reinterpret_cast<volatile char*>(g)[1] = 0;
    if (me >= 0 && controlled) {
        release(g);
        released(g);
    }
}

#define REAL(name)                                                                        \
    static int (*real_##name)(decltype(m));                                               \
    if (!real_##name) real_##name = reinterpret_cast<int (*)(decltype(m))>(dlsym(RTLD_NEXT, #name))
#define LOCK(name, type, attempt)                                                         \
    int name(type* m) {                                                                   \
        REAL(name);                                                                       \
        if (me < 0 || !controlled) return real_##name(m);                                 \
        access(reinterpret_cast<uintptr_t>(m), 1, true, true, reinterpret_cast<uintptr_t>(__builtin_return_address(0))); \
        int r;                                                                            \
        while ((r = attempt(m)) == EBUSY) wait_for(m);                                    \
        if (r == 0) acquire(m);                                                           \
        return r;                                                                         \
    }
#define TRY(name, type)                                                                   \
    int name(type* m) {                                                                   \
        REAL(name);                                                                       \
        const int r = real_##name(m);                                                     \
        if (me >= 0 && controlled && r == 0) acquire(m);                                  \
        return r;                                                                         \
    }
#define UNLOCK(name, type)                                                                \
    int name(type* m) {                                                                   \
        REAL(name);                                                                       \
        if (me >= 0 && controlled) release(m);                                            \
        const int r = real_##name(m);                                                     \
        if (me >= 0 && controlled) released(m);                                           \
        return r;                                                                         \
    }
TRY(pthread_mutex_trylock, pthread_mutex_t)
LOCK(pthread_mutex_lock, pthread_mutex_t, pthread_mutex_trylock)
UNLOCK(pthread_mutex_unlock, pthread_mutex_t)
TRY(pthread_rwlock_tryrdlock, pthread_rwlock_t)
TRY(pthread_rwlock_trywrlock, pthread_rwlock_t)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_t, pthread_rwlock_tryrdlock)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_t, pthread_rwlock_trywrlock)
UNLOCK(pthread_rwlock_unlock, pthread_rwlock_t)

int pthread_once(pthread_once_t* m, void (*f)()) {
    static int (*real)(pthread_once_t*, void (*)());
    if (!real) real = reinterpret_cast<int (*)(pthread_once_t*, void (*)())>(dlsym(RTLD_NEXT, "pthread_once"));
    // as one step: nobody waits for it
    ++quiet;
    const int r = real(m, f);
    --quiet;
    if (me >= 0 && controlled) {
        release(m);
        acquire(m);
    }
    return r;
}

// ------------------------------------------------------------------------------------------ what the compiler calls

#define HERE reinterpret_cast<uintptr_t>(__builtin_return_address(0))
#define AT(p) reinterpret_cast<uintptr_t>(p)

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PLAIN(n)                                                                          \
    void __tsan_read##n(void* p) { access(AT(p), n, false, false, HERE); }                \
    void __tsan_write##n(void* p) { access(AT(p), n, true, false, HERE); }                \
    void __tsan_unaligned_read##n(void* p) { access(AT(p), n, false, false, HERE); }      \
    void __tsan_unaligned_write##n(void* p) { access(AT(p), n, true, false, HERE); }      \
    void __tsan_volatile_read##n(void* p) { access(AT(p), n, false, false, HERE); }       \
    void __tsan_volatile_write##n(void* p) { access(AT(p), n, true, false, HERE); }
PLAIN(1)
PLAIN(2)
PLAIN(4)
PLAIN(8)
PLAIN(16)
void __tsan_read_range(void* p, size_t n) { access(AT(p), n, false, false, HERE); }
void __tsan_write_range(void* p, size_t n) { access(AT(p), n, true, false, HERE); }
void __tsan_vptr_update(void** p, void* v) {
    if (*p != v) access(AT(p), 8, true, false, HERE);
}
void __tsan_vptr_read(void** p) { access(AT(p), 8, false, false, HERE); }

// what the compiler and the library leave to the C library
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
    access(AT(s), n, false, false, HERE);
    access(AT(d), n, true, false, HERE);
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void* memmove(void* d, const void* s, size_t n) {
    access(AT(s), n, false, false, HERE);
    access(AT(d), n, true, false, HERE);
    void* r = d;
    if (AT(d) - AT(s) >= n) {
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    } else {
        d = static_cast<char*>(d) + n - 1;
        s = static_cast<const char*>(s) + n - 1;
        asm volatile("std; rep movsb; cld" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    }
    return r;
}
void* memset(void* d, int c, size_t n) {
    access(AT(d), n, true, false, HERE);
    void* r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
char* strcpy(char* d, const char* s) {
    size_t n = 0;
    while (*static_cast<const volatile char*>(s + n)) ++n;
    memcpy(d, s, n + 1);
    return d;
}
char* strncpy(char* d, const char* s, size_t n) {
    const size_t l = strnlen(s, n);
    memcpy(d, s, l);
    memset(d + l, 0, n - l);
    return d;
}
char* strcat(char* d, const char* s) {
    strcpy(d + __builtin_strlen(d), s);
    return d;
}
int vsnprintf(char* d, size_t n, const char* f, va_list a) {
    static int (*real)(char*, size_t, const char*, va_list);
    if (!real) real = reinterpret_cast<int (*)(char*, size_t, const char*, va_list)>(dlsym(RTLD_NEXT, "vsnprintf"));
    const int r = real(d, n, f, a);
    if (r >= 0 && n) access(AT(d), static_cast<size_t>(r) + 1 < n ? static_cast<size_t>(r) + 1 : n, true, false, HERE);
    return r;
}
int snprintf(char* d, size_t n, const char* f, ...) {
    va_list a;
    va_start(a, f);
    const int r = vsnprintf(d, n, f, a);
    va_end(a);
    return r;
}
int vsprintf(char* d, const char* f, va_list a) { return vsnprintf(d, 0x7fffffff, f, a); }
int sprintf(char* d, const char* f, ...) {
    va_list a;
    va_start(a, f);
    const int r = vsprintf(d, f, a);
    va_end(a);
    return r;
}

#define RMW(n, T, op)                                                                     \
    T __tsan_atomic##n##_fetch_##op(volatile T* p, T v, int) {                            \
        const bool add = #op[0] == 'a' && #op[1] == 'd', sub = #op[0] == 's';                \
        const auto d = static_cast<std::make_signed_t<T>>(v);                              \
        if (!(add || sub) || !counts(p, add ? d : -d, sizeof(T))) atomic_access(p, true, true, HERE); \
        return __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST);                               \
    }
#define ATOMIC(n, T)                                                                      \
    T __tsan_atomic##n##_load(const volatile T* p, int o) {                               \
        atomic_access(p, false, o != __ATOMIC_RELAXED, HERE);                             \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                      \
    }                                                                                     \
    void __tsan_atomic##n##_store(volatile T* p, T v, int) {                              \
        atomic_access(p, true, false, HERE);                                              \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                     \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int) {                              \
        atomic_access(p, true, true, HERE);                                               \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                               \
    }                                                                                     \
    RMW(n, T, add)                                                                        \
    RMW(n, T, sub)                                                                        \
    RMW(n, T, and)                                                                        \
    RMW(n, T, or)                                                                         \
    RMW(n, T, xor)                                                                        \
    RMW(n, T, nand)                                                                       \
    bool __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { \
        atomic_access(p, true, true, HERE);                                               \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }                                                                                     \
    bool __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) {   \
        atomic_access(p, true, true, HERE);                                               \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }                                                                                     \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) {        \
        atomic_access(p, true, true, HERE);                                               \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        return e;                                                                         \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"
