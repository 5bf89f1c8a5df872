#include "fmm_stub.hpp"
