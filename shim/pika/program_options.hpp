#pragma once
#include <boost/program_options.hpp>
namespace pika {
namespace program_options = boost::program_options;
}
