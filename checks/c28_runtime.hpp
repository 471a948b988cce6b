// Two threads under a scheduler that decides at every access to shared memory which of them goes on.
//
// The library is compiled with -fsanitize=thread, which puts a call before every access to memory, but linked with the
// functions of c28_runtime.cpp instead of the sanitizer's. Each thread has a region of its own for its stack and for
// what it allocates (nothing is used twice), so that memory of the other and of both can be told apart.
//
// An access is of interest if both threads access that memory and one of them writes to it: a step. Which memory that
// is is learned from the runs of a pair of jobs, and kept between them. All schedules that differ only in the order
// of other accesses are equivalent; so if there are no steps at all the two orders of the jobs stand for all schedules.
// A switch before a step is left out, too, if the thread's steps since the switch point before it do not conflict with
// what the other thread does after that: the schedules are equivalent.
// Every run is also watched for conflicting accesses that are not ordered by synchronisation (guards of local
// statics, mutexes, atomics): by the rules of the language these may do anything, whatever they did here.
#pragma once

#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {

struct Outcome {
    std::string result[2];    // what each job gave
    std::string race;         // two accesses that are not ordered
    std::string stuck;        // why the threads could not go on
    bool finished = false;    // the process ended as it should
    int status = 0;
    bool learned = false;     // there is new shared memory
    uint64_t steps = 0;       // accesses of interest
    uint64_t next = 0;        // the next step before which the last switch leads to something else; 0: none
    uint64_t accesses = 0;    // to memory outside the own region
};

using Job = std::function<std::string()>;

/// forgets what is shared
void forget();

/// runs the jobs in a process of its own: `first` starts; before the steps with the given numbers the other goes on
Outcome run(const Job& a, const Job& b, int first, const std::vector<uint64_t>& switches, const std::function<void()>& before = {});

/// runs one job in a process of its own
Outcome alone(const Job& a, const std::function<void()>& before = {});

}  // namespace rt
