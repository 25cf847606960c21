#pragma once
#include "communicator.hpp"
#include "collectives.hpp"
