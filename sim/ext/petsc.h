#pragma once
#include "petsc_stub.hpp"
