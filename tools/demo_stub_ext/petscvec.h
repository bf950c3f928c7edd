#include "petsc_mini.hpp"
