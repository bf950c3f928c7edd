#include "../sundials_mini.hpp"
