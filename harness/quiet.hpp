// null loggers for everything MACIS prints
#pragma once
#include <spdlog/sinks/null_sink.h>
#include <spdlog/spdlog.h>
inline void quiet() {
  static bool done = false;
  if(done) return;
  done = true;
  for(auto n : {"asci_search", "asci_grow", "asci_refine", "ci_solver", "davidson", "line_search", "bfgs", "casscf", "mcscf", "diis", "fcidump_null", "lobpcg", "rdm_build", "ci_driver"})
    if(!spdlog::get(n)) spdlog::null_logger_mt(n);
}
