#pragma once
#include <cstdio>
#include <functional>
namespace sim {
extern std::function<bool()> thread_create_fault, mkstemp_fault;
// asked for every file the code under test opens: may take the opening over (returns true and sets *f, null = it fails)
extern std::function<bool(const char *path, const char *mode, FILE **f)> fopen_hook;
}
