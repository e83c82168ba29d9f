#include "vrng.hpp"
