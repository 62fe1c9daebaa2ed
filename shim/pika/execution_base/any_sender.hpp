#pragma once
#include "../execution.hpp"
