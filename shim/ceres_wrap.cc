// Randomness/threading seam: Ceres' own worker threads would run outside the
// simulator's control, so every solve runs on the calling thread.
#include <ceres/ceres.h>
using F = void(const ceres::Solver::Options&, ceres::Problem*, ceres::Solver::Summary*);
extern "C" F __real__ZN5ceres5SolveERKNS_6Solver7OptionsEPNS_7ProblemEPNS0_7SummaryE;
extern "C" void __wrap__ZN5ceres5SolveERKNS_6Solver7OptionsEPNS_7ProblemEPNS0_7SummaryE(
    const ceres::Solver::Options& o, ceres::Problem* p, ceres::Solver::Summary* s) {
  ceres::Solver::Options c(o);
  c.num_threads = 1;
  __real__ZN5ceres5SolveERKNS_6Solver7OptionsEPNS_7ProblemEPNS0_7SummaryE(c, p, s);
}
