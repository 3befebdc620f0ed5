// Denial rules of the Baron world, shared by the side that registers them and the model that evaluates them.
#pragma once
struct DenyRule { const char* n; const char* s; const char* c; };
static const DenyRule DENY_M[] = {{"dm0", "(I)I", ""}, {"dm0", "(J)J", "sim/N"}, {"dm0", "(F)F", "sim/S"}, {"dm1", "(I)V", "sim/S"}, {"dm1", "(Z)V", "sim/N"}, {"dm1", "(I)V", "sim/u/X0"},
    {"dm2", "", ""}, {"dm3", "", "sim/N"}, {"dm4", "()V", "sim/S"}, {"dm4", "()V", "sim/u/X0"}, {"", "(JJJ)V", "sim/S"}, {"", "(FFF)F", ""}, {"", "", "sim/den/All"}, {"dmp", "", "sim/u/Out"}, {"dmp", "(I)I", "sim/u/X0"}, {"dmq", "(I)", ""}, {"dyn6", "", "sim/S"}, {"dyn7", "(IJ)I", ""}};   // the last two are defined by the program later on
static const DenyRule DENY_F[] = {{"df0", "I", ""}, {"df0", "J", "sim/N"}, {"df0", "F", "sim/S"}, {"df1", "J", "sim/S"}, {"df1", "Z", "sim/N"}, {"df1", "J", "sim/u/X0"},
    {"df2", "", ""}, {"df3", "", "sim/N"}, {"", "Lsim/Q;", "sim/S"}, {"dfp", "", "sim/u/Out"}, {"dfp", "[I", "sim/u/X0"}, {"", "[[S", ""}, {"", "", "sim/den/All"}};
static const char* const DENY_C[] = {"sim/deny/K0", "sim/deny/K1", "sim/den/Out$In", "DenyTop"};
