#include "runner.hpp"
#include "units3.hpp"
using namespace vh;

static bool run_case(const std::string& prof, Rng& g, Report& R) {
  CppUtils::LOG_PROPERTIES.set_level(CppUtils::ERROR);
  if (prof == "cont") run_cont(g, R);
  else if (prof == "pred") run_pred(g, R);
  else if (prof == "size") run_size(g, R);
  else if (prof == "invalid") run_invalid(g, R);
  else if (prof == "shape") run_shape(g, R);
  else if (prof == "repeat") run_repeat(g, R);
  else if (prof == "write") run_write(g, R);
  else if (prof == "verdict") run_verdict(g, R);
  else if (prof == "layerb") run_layerb(g, R);
  else if (prof == "math") run_math(g, R);
  else if (prof == "log") run_log(g, R);
  else if (prof == "edit") run_edit(g, R);
  else return false;
  return true;
}
int main(int argc, char** argv) { return run_main(argc, argv, run_case, g_tmp); }
