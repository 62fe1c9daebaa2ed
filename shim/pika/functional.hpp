#pragma once
#include <functional>
