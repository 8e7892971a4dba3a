// sysfault: the file system calls a scenario makes below a directory are shown to the scenario, which
// decides the answer: as asked, an error, a short write, or the end of the process at this point.
#pragma once
#include <cerrno>
#include <string>
#include <vector>
namespace sf {
enum Call { OPEN, WRITE, CLOSE, MKDIR, SYNC, TRUNCATE, RENAME, UNLINK, STAT };
struct Ev { Call call; int fd; const char* path; size_t len; int flags; };
struct Ans { enum { OK, ERR, SHORT } what; int err; size_t n; };
typedef Ans (*Policy)(const Ev&);
// From now on (in this process) calls on paths below `dir`, and on descriptors opened there, go to `p`.
// `stats`: asking for the state of an open file counts as well (the C library does that before its first write, too).
void begin(const std::string& dir, Policy p, bool stats = false);
void policy(Policy p);       // exchanges the policy, keeping the watch
void end();
extern const char* const NAME[];
}  // namespace sf
