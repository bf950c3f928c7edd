#pragma once
#include "../sundials_stub.hpp"
