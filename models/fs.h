// File access for harnesses. Under the engine: a file system in memory (model_sys.cpp). In replay: a scratch directory.
#pragma once
#include <string>
#include <vector>
void fs_put(const std::string &path, const std::string &bytes);
std::string fs_get(const std::string &path);
void fs_remove(const std::string &path);
bool fs_exists(const std::string &path);
std::vector<std::string> fs_list(); // all files
// Fault injection (needs the file-system model, also in replay): the n-th (1-based) operation that can fail, fails.
// Returns nothing; fs_fault_hit() tells whether that operation was reached.
void fs_fail_at(unsigned n, bool sticky = false);
void fs_fail_times(unsigned n, unsigned times); // the n-th operation and the following ones, times in total
bool fs_fault_hit();
unsigned fs_op_count();
std::string fs_fault_op();
void fs_fail_off();
