#pragma once
#include "crab_stub.hpp"
