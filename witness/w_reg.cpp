// the first source file of a unit test program: the checks know the names and the bodies
#include <falcon/fut/fut.h>
namespace wit { void reg_body(int n, const void* obj); void reg_step(int n, const void* obj); bool reg_ok(int n); }
class Fix: public falcon::testing::TestCase {
public:
   int data{0};
   void SetUp() override { wit::reg_step(1, this); data++; }
   void TearDown() override { wit::reg_step(2, this); }
};
TEST(Comp, second) { wit::reg_body(1, this); EXPECT_TRUE(wit::reg_ok(1)); }
TEST(Comp, first) { wit::reg_body(2, this); EXPECT_TRUE(wit::reg_ok(2)); }
TEST_F(Fix, plain) { wit::reg_body(30 + data, this); data = 5; EXPECT_TRUE(wit::reg_ok(3)); }
TEST_F(Fix, other) { wit::reg_body(40 + data, this); data = 6; EXPECT_TRUE(wit::reg_ok(4)); }
TEST(01_Numbered, 03_name) { wit::reg_body(5, this); EXPECT_TRUE(wit::reg_ok(5)); }
namespace wit { FALCON_TEST_MAIN }
