#pragma once
#include "../ginkgo.hpp"
