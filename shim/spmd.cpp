#include "spmd.hpp"
#include "mfem.hpp"

#include <thread>

namespace spmd {

std::function<void(int rank, const std::string& file)> beforeRead;


static thread_local World* tl_world = nullptr;
World* current() { return tl_world; }

void World::abort()
{
    std::lock_guard<std::mutex> l(m_);
    aborted_ = true;
    cv_.notify_all();
}
void World::leave()
{
    std::lock_guard<std::mutex> l(m_);
    left_ = true;
    cv_.notify_all();
}
void World::barrier()
{
    std::unique_lock<std::mutex> l(m_);
    if (aborted_) throw std::runtime_error("another rank failed");
    if (left_) throw std::runtime_error("waiting for a rank that has ended");
    long g = gen_;
    if (++waiting_ == size) { waiting_ = 0; gen_++; cv_.notify_all(); return; }
    cv_.wait(l, [&] { return gen_ != g || aborted_ || left_; });
    if (gen_ == g) throw std::runtime_error(aborted_ ? "another rank failed" : "waiting for a rank that has ended");
}
void run(int n, const std::function<void(int)>& body)
{
    World w(n);
    std::vector<std::thread> t;
    std::exception_ptr first;
    std::mutex m;
    for (int r = 0; r < n; r++)
        t.emplace_back([&, r] {
            tl_world = &w;
            mfem::Mpi::SetForTest(r, n);
            try { body(r); w.leave(); }
            catch (...) {
                { std::lock_guard<std::mutex> l(m); if (!first) first = std::current_exception(); }
                w.abort();
            }
            tl_world = nullptr;
        });
    for (auto& x : t) x.join();
    if (first) std::rethrow_exception(first);
}
void exchange(const void* mine, const std::function<void(const std::vector<const void*>&)>& use)
{
    World* w = current();
    if (!w) { use({ mine }); return; }
    w->slot[mfem::Mpi::WorldRank()] = mine;
    w->barrier();
    use(w->slot);
    w->barrier();
}

} // namespace spmd

using spmd::exchange;

static size_t sizeOf(MPI_Datatype t)
{
    switch (t) {
        case MPI_CHAR: case MPI_BYTE: case MPI_C_BOOL: return 1;
        case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4;
        default: return 8;
    }
}
template <class T> static void combine(T* a, const T* b, int n, MPI_Op op)
{
    for (int i = 0; i < n; i++) switch (op) {
        case MPI_MAX: a[i] = std::max(a[i], b[i]); break;
        case MPI_MIN: a[i] = std::min(a[i], b[i]); break;
        case MPI_SUM: a[i] = T(a[i] + b[i]); break;
        case MPI_PROD: a[i] = T(a[i] * b[i]); break;
        case MPI_LAND: a[i] = T(a[i] && b[i]); break;
        case MPI_LOR: a[i] = T(a[i] || b[i]); break;
        case MPI_BAND: if constexpr (std::is_integral<T>::value) a[i] = T(a[i] & b[i]); break;
        case MPI_BOR: if constexpr (std::is_integral<T>::value) a[i] = T(a[i] | b[i]); break;
    }
}
static void combineAny(void* a, const void* b, int n, MPI_Datatype t, MPI_Op op)
{
    switch (t) {
        case MPI_CHAR: case MPI_BYTE: case MPI_C_BOOL: combine((char*)a, (const char*)b, n, op); break;
        case MPI_INT: combine((int*)a, (const int*)b, n, op); break;
        case MPI_UNSIGNED: combine((unsigned*)a, (const unsigned*)b, n, op); break;
        case MPI_FLOAT: combine((float*)a, (const float*)b, n, op); break;
        case MPI_DOUBLE: combine((double*)a, (const double*)b, n, op); break;
        case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: combine((unsigned long*)a, (const unsigned long*)b, n, op); break;
        default: combine((long*)a, (const long*)b, n, op);
    }
}
static bool solo(MPI_Comm c) { return c == MPI_COMM_SELF || !spmd::current(); }

int MPI_Init(int*, char***) { return MPI_SUCCESS; }
int MPI_Init_thread(int*, char***, int r, int* p) { if (p) *p = r; return MPI_SUCCESS; }
int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
int MPI_Finalize() { return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int code) { throw mfem::ErrorException("MPI_Abort " + std::to_string(code)); }
int MPI_Barrier(MPI_Comm c) { if (!solo(c)) spmd::current()->barrier(); return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = c == MPI_COMM_SELF ? 0 : mfem::Mpi::WorldRank(); return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = c == MPI_COMM_SELF ? 1 : mfem::Mpi::WorldSize(); return MPI_SUCCESS; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { *o = c; return MPI_SUCCESS; }
int MPI_Comm_split(MPI_Comm c, int, int, MPI_Comm* o) { *o = c; return MPI_SUCCESS; }
int MPI_Comm_split_type(MPI_Comm c, int, int, MPI_Info, MPI_Comm* o) { *o = c; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return MPI_SUCCESS; }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    const size_t bytes = n * sizeOf(t);
    if (s == MPI_IN_PLACE) s = r;
    if (solo(c)) { if (s != r) std::memmove(r, s, bytes); return MPI_SUCCESS; }
    std::vector<char> acc(bytes);
    exchange(s, [&](auto& p) {
        std::memcpy(acc.data(), p[0], bytes);
        for (size_t k = 1; k < p.size(); k++) combineAny(acc.data(), p[k], n, t, op);
    });
    std::memcpy(r, acc.data(), bytes);
    return MPI_SUCCESS;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
    std::vector<char> tmp(n * sizeOf(t));
    if (s == MPI_IN_PLACE) s = r;
    MPI_Allreduce(s, tmp.data(), n, t, op, c);
    int me; MPI_Comm_rank(c, &me);
    if (me == root) std::memcpy(r, tmp.data(), tmp.size());
    return MPI_SUCCESS;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    if (solo(c)) return MPI_SUCCESS;
    std::vector<char> tmp(n * sizeOf(t));
    exchange(b, [&](auto& p) { std::memcpy(tmp.data(), p[root], tmp.size()); });
    std::memcpy(b, tmp.data(), tmp.size());
    return MPI_SUCCESS;
}
int MPI_Gather(const void* s, int ns, MPI_Datatype t, void* r, int, MPI_Datatype, int root, MPI_Comm c)
{
    const size_t bytes = ns * sizeOf(t);
    if (solo(c)) { if (s != MPI_IN_PLACE) std::memmove(r, s, bytes); return MPI_SUCCESS; }
    const int me = mfem::Mpi::WorldRank();
    const void* mine = s == MPI_IN_PLACE ? (char*)r + me * bytes : s;
    exchange(mine, [&](auto& p) { if (me == root) for (size_t k = 0; k < p.size(); k++) std::memmove((char*)r + k * bytes, p[k], bytes); });
    return MPI_SUCCESS;
}
int MPI_Allgather(const void* s, int ns, MPI_Datatype t, void* r, int, MPI_Datatype, MPI_Comm c)
{
    const size_t bytes = ns * sizeOf(t);
    if (solo(c)) { if (s != MPI_IN_PLACE) std::memmove(r, s, bytes); return MPI_SUCCESS; }
    std::vector<char> mine((const char*)s, (const char*)s + bytes);
    exchange(mine.data(), [&](auto& p) { for (size_t k = 0; k < p.size(); k++) std::memcpy((char*)r + k * bytes, p[k], bytes); });
    return MPI_SUCCESS;
}
int MPI_Gatherv(const void* s, int ns, MPI_Datatype t, void* r, const int* nr, const int* displs, MPI_Datatype, int root, MPI_Comm c)
{
    const size_t sz = sizeOf(t);
    if (solo(c)) { std::memmove((char*)r + (displs ? displs[0] : 0) * sz, s, ns * sz); return MPI_SUCCESS; }
    const int me = mfem::Mpi::WorldRank();
    exchange(s, [&](auto& p) { if (me == root) for (size_t k = 0; k < p.size(); k++) std::memcpy((char*)r + displs[k] * sz, p[k], nr[k] * sz); });
    return MPI_SUCCESS;
}
int MPI_Allgatherv(const void* s, int ns, MPI_Datatype t, void* r, const int* nr, const int* displs, MPI_Datatype, MPI_Comm c)
{
    const size_t sz = sizeOf(t);
    if (solo(c)) { std::memmove((char*)r + (displs ? displs[0] : 0) * sz, s, ns * sz); return MPI_SUCCESS; }
    exchange(s, [&](auto& p) { for (size_t k = 0; k < p.size(); k++) std::memcpy((char*)r + displs[k] * sz, p[k], nr[k] * sz); });
    return MPI_SUCCESS;
}
double MPI_Wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
