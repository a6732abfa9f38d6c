// the second source file of a unit test program
#define FALCON_TEST_DONT_DEFINE_TEST
#include <falcon/fut/fut.h>
#if defined(TEST) || defined(TEST_F)
#error TEST is defined
#endif
namespace wit { void reg_body(int n, const void* obj); bool reg_ok(int n); }
FALCON_TEST(Comp, third) { wit::reg_body(6, this); EXPECT_TRUE(wit::reg_ok(6)); }
namespace inner {
class Base: public falcon::testing::TestCase { public: int x{7}; };
FALCON_TEST_F(Base, one) { wit::reg_body(x, this); EXPECT_TRUE(wit::reg_ok(7)); }
}
