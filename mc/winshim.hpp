#pragma once
#include "shim/prelude.h"
namespace w32 {
extern std::map<std::string, std::string> files;
extern std::set<std::string> readonly;
extern std::string std_out, std_err;
extern long fault_at, fault_n;
extern int  fault_mode;
extern const char* fault_kind_only;
extern std::vector<std::string> trace;
extern bool tracing;
extern bool (*on_missing)(std::string const& path);
extern long live_blocks, alloc_n, alloc_fail_at;
long open_handles();
void reset();
}
