#pragma once
#include "mpi/communicator.hpp"
#include "mpi/environment.hpp"
#include "mpi/collectives.hpp"
