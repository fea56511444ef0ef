// the stand-alone driver as a function of this program: its own MPI start-up is left out
#include <mpi.h>
#include <spdlog/cfg/env.h>
#include <spdlog/sinks/null_sink.h>
#include <spdlog/sinks/stdout_color_sinks.h>
#include <spdlog/spdlog.h>
#include <spdlog/stopwatch.h>
#include <iomanip>
#include <iostream>
#include <macis/asci/grow.hpp>
#include <macis/asci/refine.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/util/cas.hpp>
#include <macis/util/detail/rdm_files.hpp>
#include <macis/util/fcidump.hpp>
#include <macis/util/fock_matrices.hpp>
#include <macis/util/memory.hpp>
#include <macis/util/moller_plesset.hpp>
#include <macis/util/mpi.hpp>
#include <macis/util/transform.hpp>
#include <macis/wavefunction_io.hpp>
#include <sparsexx/io/write_dist_mm.hpp>
#include <fstream>
#include <functional>
#include <memory>
#include <algorithm>
extern MPI_Comm drv_comm;
#undef MPI_COMM_WORLD
#define MPI_COMM_WORLD drv_comm
#define MPI_Init(a, b) (void)0
#define MPI_Finalize() (void)0
int main(int, char**) __asm__("macis_driver");
#include "../tests/standalone_driver.cxx"
