// Driver: TimeControl.  Times in the scripts are in units of 2^-6, reported in the same unit.
#include "common.h"
#include "FESolver.h"
using namespace nla3d;
static const double U = 64.0;
static TimeControl* tc = nullptr;
static void obs(J& j) {
  j.i("cur", exact(tc->getCurrentTime() * U)).i("end", exact(tc->getEndTime() * U)).i("start", exact(tc->getStartTime() * U)).i("step", tc->getCurrentStep()).i("conv", tc->getNumberOfConvergedSteps())
    .i("it", tc->getCurrentEquilibriumStep()).i("tot", tc->getTotalNumberOfEquilibriumSteps()).i("delta", exact(tc->getCurrentTimeDelta() * U))
    .i("norm", fixp(tc->getCurrentNormalizedTime(), 1000)).i("ndelta", fixp(tc->getCurrentNormalizedTimeDelta(), 1000)).out();
}
void runScript(const Script& sc) {
  tc = new TimeControl;
  for (auto& line : sc) {
    Toks t = toks(line);
    if (t[0] == "setup") { if (I(t[1]) % 64 == 0 && (I(t[1]) / 64) % 2) { tc->setEndTime(I(t[2]) / U); tc->setStartTime(I(t[1]) / U); } else { if (I(t[1])) tc->setStartTime(I(t[1]) / U); tc->setEndTime(I(t[2]) / U); }
      J j("setup"); j.i("s", I(t[1])).i("t", I(t[2])); obs(j); }
    else if (t[0] == "next") { bool r = tc->nextStep(I(t[1]) / U); J j("next"); j.i("d", I(t[1])).b("r", r); obs(j); }
    else if (t[0] == "iter") { tc->nextEquilibriumStep(); J j("iter"); obs(j); }
    else if (t[0] == "iters") { for (int i = 0; i < I(t[1]); i++) tc->nextEquilibriumStep(); J j("iters"); j.i("n", I(t[1])); obs(j); }
    else if (t[0] == "steps") { bool r = true; for (int i = 0; i < I(t[1]); i++) { r = tc->nextStep(I(t[2]) / U) && r; tc->nextEquilibriumStep(); } J j("steps"); j.i("n", I(t[1])).i("d", I(t[2])).b("r", r); obs(j); }   // steps of one iteration each
    else abort();
  }
}
int main(int argc, char** argv) { return driverMain(argc, argv); }
