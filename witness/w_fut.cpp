#include <falcon/fut/fut.h>
#include <falcon/fut/timelapse.h>
namespace wit {
struct A { int v; };
struct B { int v; };
A ea(); B eb();
#define OP(o) bool operator o(const A&, const B&); bool operator o(const B&, const A&); bool operator o(const A&, const A&); bool operator o(const B&, const B&);
OP(==) OP(!=) OP(<) OP(<=) OP(>) OP(>=)
#undef OP
std::ostream& operator<<(std::ostream&, const A&);
std::ostream& operator<<(std::ostream&, const B&);
bool bt();
void after();
void may_throw();
// arguments that are expressions of low precedence
struct X { int v; };
X xa(); X xb(); X xc(); X xd();
int ia(); int ib();
X operator|(X, X); X operator|(X, bool); X operator|(bool, X); double operator|(X, double); std::ostream& operator|(std::ostream&, X); std::ostream& operator|(std::ostream&, int);
bool operator==(X, X); bool operator!=(X, X); bool operator<(X, X); bool operator<=(X, X); bool operator>(X, X); bool operator>=(X, X);
double operator*(X, double);
bool operator!(X);
std::ostream& operator<<(std::ostream&, X);
struct Exc { int x; virtual ~Exc(); };
struct Derived: public Exc {};
struct Std: public std::exception {};
struct Other { int x; };
void w_kinds(int k) { if(k == 0) throw Exc(); if(k == 1) throw Derived(); if(k == 2) throw Std(); if(k == 3) throw Other(); }
int k_none() { return falcon::testing::TestCase::NONE; }
int k_success() { return falcon::testing::TestCase::SUCCESS; }
int k_fail() { return falcon::testing::TestCase::FAIL; }
int k_error() { return falcon::testing::TestCase::ERROR; }
int k_stream() { return falcon::testing::TestCase::OUT_ON_ERROR_STREAM; }
struct T: public falcon::testing::TestCase {
   void t_eq(); void t_ne(); void t_gt(); void t_ge(); void t_lt(); void t_le();
   void t_streq(const char* a, const char* b); void t_strne(const char* a, const char* b);
   void t_streqs(const std::string& a, const std::string& b);
   void t_true(); void t_false();
   void t_feq(double a, double b); void t_fne(double a, double b);
   void t_fail(); void t_throw(); void t_any(); void t_nothrow();
   void t_two();
   void l_eq(); void l_ne(); void l_gt(); void l_ge(); void l_lt(); void l_le(); void l_true(); void l_false(); void l_feq(); void l_fne();
   void test() override;
};
void T::t_eq() { EXPECT_EQ(ea(), eb()); after(); }
void T::t_ne() { EXPECT_NE(ea(), eb()); after(); }
void T::t_gt() { EXPECT_GT(ea(), eb()); after(); }
void T::t_ge() { EXPECT_GE(ea(), eb()); after(); }
void T::t_lt() { EXPECT_LT(ea(), eb()); after(); }
void T::t_le() { EXPECT_LE(ea(), eb()); after(); }
void T::t_streq(const char* a, const char* b) { EXPECT_STREQ(a, b); after(); }
void T::t_strne(const char* a, const char* b) { EXPECT_STRNE(a, b); after(); }
void T::t_streqs(const std::string& a, const std::string& b) { EXPECT_STREQ(a, b); after(); }
void T::t_true() { EXPECT_TRUE(bt()); after(); }
void T::t_false() { EXPECT_FALSE(bt()); after(); }
void T::t_feq(double a, double b) { EXPECT_FLOAT_EQ(a, b); after(); }
void T::t_fne(double a, double b) { EXPECT_FLOAT_NE(a, b); after(); }
void T::t_fail() { FAIL("because"); after(); }
void T::t_throw() { EXPECT_THROW(may_throw(), Exc); after(); }
void T::t_any() { EXPECT_ANY_THROW(may_throw()); after(); }
void T::t_nothrow() { EXPECT_NO_THROW(may_throw()); after(); }
void T::l_eq() { EXPECT_EQ(xa() | xb(), xc() | xd()); after(); }
void T::l_ne() { EXPECT_NE(xa() | xb(), xc() | xd()); after(); }
void T::l_gt() { EXPECT_GT(xa() | xb(), xc() | xd()); after(); }
void T::l_ge() { EXPECT_GE(xa() | xb(), xc() | xd()); after(); }
void T::l_lt() { EXPECT_LT(xa() | xb(), xc() | xd()); after(); }
void T::l_le() { EXPECT_LE(xa() | xb(), xc() | xd()); after(); }
void T::l_true() { EXPECT_TRUE(ia() | ib()); after(); }
void T::l_false() { EXPECT_FALSE(ia() | ib()); after(); }
void T::l_feq() { EXPECT_FLOAT_EQ(xa() | xb(), xc() | xd()); after(); }
void T::l_fne() { EXPECT_FLOAT_NE(xa() | xb(), xc() | xd()); after(); }
void T::test() {}
void w_lapse() { falcon::testing::TimeLapse l; l.markBegin(); l.markEnd(); l.elapsed(); l.elapsedNow(); l.begin(); l.end(); }
FALCON_TEST(wcomp, wcase) { after(); }
}
