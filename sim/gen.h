// Program and fault generation per property.
#pragma once
#include "world.h"
struct Profile {
    const char* id; int bit;
    const char* title;
    int w[OP_N];                  // op weights
    int worlds[3];                // weights of plain / FakeJni / Baron VMs
    int nvm2, nullmode;           // percent
    int tmin, tmax, omin, omax;   // threads, operations per thread
    int nest, thr, oom, reenter, rounds, respawn, idreuse, freshattach, teardown, solo;   // percent
    int pol[8];                   // weights of the policies
};
const Profile* profile_find(const char* id);
const Profile* profile_at(int i);
Case gen_case(const Profile& p, uint64_t seed);
