// Keeps file system effects of the code under test inside one scratch directory.
//
// The libc calls that change the file system are replaced, in the whole process, by versions that
// refuse any path outside the directory named by fsguard::Allow(). A refused path is remembered so
// that a monitor can report it.
#pragma once
#include <string>
#include <vector>

namespace fsguard {
void Allow(const std::string& dir);      // absolute path of the scratch directory
std::vector<std::string> TakeRefused();  // paths refused since the last call
// called after every existence check and before every rename; used to vary the schedule
void SetPause(void (*pause)());
}  // namespace fsguard
