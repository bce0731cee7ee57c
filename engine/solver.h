#pragma once
#include "expr.h"
#include <memory>
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, second = 0; double time = 0, maxTime = 0; };
enum class Res { Sat, Unsat, Unknown };
class Solver {
public:
    Solver(unsigned timeoutMs, bool incremental);
    // is conj(pc) && extra satisfiable; fills model
    Res check(const std::vector<E>& pc, E extra, Model* m);
    SolverStats st; unsigned timeoutMs; bool intFallback = false; double (*deadline)() = nullptr; std::string dumpDir;
private:
    void* ctx; void* tac; void* inc = nullptr; bool incremental;
    std::unordered_map<u64, std::vector<std::pair<std::vector<E>, std::pair<Res, std::shared_ptr<Model>>>>> cache;
    void* tr(E e); void* trBool(E e); void* trBv(E e);
    Res solve(const std::vector<E>& cs, Model* m);
};
