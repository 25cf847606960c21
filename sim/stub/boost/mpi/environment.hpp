#pragma once
#include "communicator.hpp"
namespace boost { namespace mpi {
namespace threading { enum level { single, funneled, serialized, multiple }; }
class environment {
  public:
    environment(bool = true) {}
    environment(int &, char **&, bool = true) {}
    environment(threading::level, bool = true) {}
    static bool initialized() { return true; }
    static bool finalized() { return false; }
    static void abort(int) { throw exception("MPI_Abort"); }
    static std::string processor_name() { return "simulated"; }
};
}}
