#define CATCH_CONFIG_MAIN
#include <catch.hpp>
