#include "runner.hpp"
#include "pipe.hpp"
#include "multi.hpp"
using namespace vh;

static bool run_case(const std::string& prof, Rng& g, Report& R) {
  CppUtils::LOG_PROPERTIES.set_level(CppUtils::ERROR);
  PipeOpt o;
  if (prof == "tri") { o.gen.target = 300; o.p_exh = 0.1; run_pipe(g, o, R); }
  else if (prof == "fe") { o.gen.target = 300; o.gen.allow_fixed_edges = true; o.ops = 3; run_pipe(g, o, R); }
  else if (prof == "chunk") { o.gen.target = 150; o.p_chunk = 1; run_pipe(g, o, R); }
  else if (prof == "layer") { o.gen.target = 300; o.p_layer = 1; run_pipe(g, o, R); }
  else if (prof == "multi") run_multi(g, R);
  else if (prof == "ops") { o.gen.target = 150; o.ops = 4; run_pipe(g, o, R); }
  else if (prof == "layerops") { o.gen.target = 150; o.p_layer = 0.7; o.ops = 4; run_pipe(g, o, R); }
  else return false;
  return true;
}
int main(int argc, char** argv) { return run_main(argc, argv, run_case, g_tmp); }
