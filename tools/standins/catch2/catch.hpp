// the repository's tests want a Catch whose macros take commas
#include <catch.hpp>
#undef REQUIRE
#undef CHECK
#define REQUIRE(...) INTERNAL_CATCH_TEST("REQUIRE", Catch::ResultDisposition::Normal, (__VA_ARGS__))
#define CHECK(...) INTERNAL_CATCH_TEST("CHECK", Catch::ResultDisposition::ContinueOnFailure, (__VA_ARGS__))
#undef REQUIRE_FALSE
#undef CHECK_FALSE
#define REQUIRE_FALSE(...) INTERNAL_CATCH_TEST("REQUIRE_FALSE", Catch::ResultDisposition::Normal | Catch::ResultDisposition::FalseTest, (__VA_ARGS__))
#define CHECK_FALSE(...) INTERNAL_CATCH_TEST("CHECK_FALSE", Catch::ResultDisposition::ContinueOnFailure | Catch::ResultDisposition::FalseTest, (__VA_ARGS__))
