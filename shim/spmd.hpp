// Runs one function as several MPI ranks, each a thread of this process.
#pragma once
#include <condition_variable>
#include <exception>
#include <functional>
#include <mutex>
#include <string>
#include <vector>

namespace spmd {

class World {
public:
    explicit World(int n) : size(n), slot(n, nullptr), len(n, 0) {}
    const int size;
    std::vector<const void*> slot;
    std::vector<size_t> len;
    void barrier();
    void abort();
    /// A rank that has left makes every wait for all ranks a deadlock.
    void leave();
private:
    std::mutex m_;
    std::condition_variable cv_;
    int waiting_ = 0;
    long gen_ = 0;
    bool aborted_ = false;
    bool left_ = false;
};

/// The world of the calling thread, or null when there is a single process.
World* current();

/// Runs body(rank) on `n` ranks and rethrows the first exception of any rank.
void run(int n, const std::function<void(int)>& body);

/// Called by a rank just before it reads a mesh file, so that a test can let some ranks run ahead of others.
extern std::function<void(int rank, const std::string& file)> beforeRead;

/// Every rank publishes a pointer; `use` may read all of them until it returns.
void exchange(const void* mine, const std::function<void(const std::vector<const void*>&)>& use);

} // namespace spmd
