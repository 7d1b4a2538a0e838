#pragma once
#include "mem.h"
struct Mod;
Mod* modLoad(const char* path, std::string& err);
// run `fn` with the given argument values; argv-style main uses runMain
struct RunIn { std::string fn; std::vector<Val> args; std::vector<std::string> argv; bool isMain = false; std::vector<std::vector<Val>> argvBytes; PathCond pc; Env env; RunCfg cfg; std::vector<std::pair<std::string, std::vector<Val>>> globals; bool keepMem = false; };
struct RunOut { std::vector<PathResult*> paths; bool complete = true; std::string why; };
void modRun(Mod* m, RunIn& in, RunOut& out);
bool modGlobal(Mod* m, const std::string& name, u64& addr, u64& size);
