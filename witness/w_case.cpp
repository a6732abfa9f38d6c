#include <iostream>
#include <exception>
#include <falcon/fut/testcase.h>
#include <falcon/fut/unittest.h>
namespace wit {
using falcon::testing::TestCase;
using falcon::testing::UnitTest;
struct Other { int x; };
struct Std: public std::exception {};
void w_throws(int k) { if(k == 1) throw Std(); if(k == 2) throw Other(); }
int k_none() { return TestCase::NONE; }
int k_success() { return TestCase::SUCCESS; }
int k_fail() { return TestCase::FAIL; }
int k_error() { return TestCase::ERROR; }
int k_stream() { return TestCase::OUT_ON_ERROR_STREAM; }
void v_setup(TestCase& t) { t.SetUp(); }
void v_test(TestCase& t) { t.test(); }
void v_teardown(TestCase& t) { t.TearDown(); }
void v_init(TestCase& t) { t.init(); }
void v_destroy(TestCase& t) { t.destroy(); }
const char* v_what(std::exception& e) { return e.what(); }
void w_coutbuf() { std::cout.rdbuf(); }
void w_cerrbuf() { std::cerr.rdbuf(); }
void w_case(TestCase& t, bool capture) { t.beginTest(capture); t.run(); t.endTest(capture); }
void w_again(TestCase& t) { t.beginTest(true); t.run(); t.endTest(true); t.beginTest(true); t.run(); t.endTest(true); }
void w_pair(TestCase& t, TestCase& u) { t.beginTest(true); t.run(); t.endTest(true); u.beginTest(true); u.run(); u.endTest(true); }
void w_twice(TestCase& t) { t.beginTest(true); t.run(); t.endTest(true); t.beginTest(false); t.run(); t.endTest(false); }
long long w_time(TestCase& t) { t.beginTest(true); t.run(); t.endTest(true); return t.elapsedTime(); }
void mark();
long long w_timenow(TestCase& t) { t.beginTest(true); t.run(); t.endTest(true); mark(); return t.elapsedTimeNow(); }
long long w_timeagain(TestCase& t) { t.beginTest(false); t.run(); t.endTest(false); t.beginTest(false); t.run(); t.endTest(false); return t.elapsedTime(); }
}
// suites of test cases: the components and names below are known to the checks
#define ADD_A u->addTestCase("Aone", "alpha", &a);
#define ADD_B u->addTestCase("Btwo", "beta", &b);
#define ADD_C u->addTestCase("Btwo", "gamma", &c);
#define V u->setVerbosity(static_cast<UnitTest::t_verbosity>(v));
namespace wit {
int s_none(int v) { UnitTest* u = new UnitTest; V return u->performUnitTests(); }
int s_one(TestCase& a, int v) { UnitTest* u = new UnitTest; ADD_A V return u->performUnitTests(); }
int s_three(TestCase& a, TestCase& b, TestCase& c, int v) { UnitTest* u = new UnitTest; ADD_B ADD_A ADD_C V return u->performUnitTests(); }
int s_default(TestCase& a) { UnitTest* u = new UnitTest; ADD_A return u->performUnitTests(); }
int p_one(TestCase& a, TestCase& b, TestCase& c, int v) { UnitTest* u = new UnitTest; ADD_B ADD_A ADD_C V return u->performTest("Btwo::gamma"); }
int p_unknown(TestCase& a, const char* x) { UnitTest* u = new UnitTest; ADD_A return u->performTest(x); }
int p_twice(TestCase& a, TestCase& b, TestCase& c) { UnitTest* u = new UnitTest; ADD_B ADD_A ADD_C u->performTest("Aone::alpha"); return u->performTest("Btwo::beta"); }
long long s_elapsed(TestCase& a, TestCase& b, TestCase& c, int v) { UnitTest* u = new UnitTest; ADD_B ADD_A ADD_C V u->performUnitTests(); mark(); return u->elapsedTime(); }
#define ARG(...) const char* argv[] = { "dir/prog.fut", __VA_ARGS__ }; return u->main(sizeof(argv)/sizeof(argv[0]), const_cast<char**>(argv));
#define SUITE UnitTest* u = new UnitTest; ADD_B ADD_A ADD_C
#define M(name, ...) int m_##name(TestCase& a, TestCase& b, TestCase& c) { SUITE ARG(__VA_ARGS__) }
#define MX(name, ...) int m_##name(TestCase& a, TestCase& b, TestCase& c, const char* x) { SUITE ARG(__VA_ARGS__) }
int m_plain(TestCase& a, TestCase& b, TestCase& c) { SUITE const char* argv[] = { "dir/prog.fut" }; return u->main(1, const_cast<char**>(argv)); }
M(q, "-q")
M(c, "-c")
M(e, "-e")
M(h, "-h")
M(v0, "-v", "0")
M(v1, "-v", "1")
M(v2, "-v", "2")
M(v3, "-v", "3")
M(v4, "-v", "4")
M(v5, "-v", "5")
M(v6, "-v", "6")
M(vneg, "-v", "-1")
M(vnone, "-v")
MX(vx, "-v", x)
M(t, "-t", "Btwo::gamma")
M(t2, "-t", "Btwo::gamma", "-t", "Aone::alpha")
M(tnone, "-t")
MX(tx, "-t", x)
M(xnone, "-x")
M(nnone, "-n")
M(inone, "-i")
MX(n, "-n", x)
MX(i, "-i", x)
MX(x, "-x", x)
MX(opt, x)
MX(optlast, "-q", "-c", x)
M(many, "-q", "-c", "-n", "name", "-i", "id", "-t", "Btwo::beta")
M(rep, "-n", "TheName", "-v", "1")
M(repone, "-n", "TheName", "-t", "Btwo::gamma")
M(vq, "-v", "5", "-q")
M(ht, "-t", "Aone::alpha", "-h")
M(xml, "-q", "-x", "report.xml", "-n", "TheName", "-i", "TheId")
M(xmlone, "-q", "-x", "report.xml", "-n", "TheName", "-i", "TheId", "-t", "Btwo::gamma")
M(xmlplain, "-q", "-x", "report.xml")
int m_xmlname(TestCase& a, const char* x) { UnitTest* u = new UnitTest; ADD_A ARG("-q", "-x", "report.xml", "-n", x, "-i", "TheId") }
int m_xmlid(TestCase& a, const char* x) { UnitTest* u = new UnitTest; ADD_A ARG("-q", "-x", "report.xml", "-n", "TheName", "-i", x) }
int m_xmlnone() { UnitTest* u = new UnitTest; ARG("-q", "-x", "report.xml") }
int m_xmlevil(TestCase& a, TestCase& b, TestCase& c) {
   UnitTest* u = new UnitTest;
   u->addTestCase("Aone<&>\"']]>", "alpha<&>\"']]>", &a);
   u->addTestCase("Btwo&amp;", "beta&#65;\x1b", &b);
   u->addTestCase("Btwo&amp;", "gamma\xc3\xa9", &c);
   ARG("-q", "-x", "report.xml", "-n", "The<&>\"'Name", "-i", "The<&>\"'Id")
}
// the order of the test cases
#define ADD_D u->addTestCase("Aone", "alp", &d);
#define ADD_E u->addTestCase("B", "zeta", &e);
#define O(name, ...) int o_##name(TestCase& a, TestCase& b, TestCase& c, TestCase& d, TestCase& e) { UnitTest* u = new UnitTest; u->setVerbosity(UnitTest::SILENT); __VA_ARGS__ return u->performUnitTests(); }
O(abcde, ADD_A ADD_B ADD_C ADD_D ADD_E)
O(edcba, ADD_E ADD_D ADD_C ADD_B ADD_A)
O(cadbe, ADD_C ADD_A ADD_D ADD_B ADD_E)
O(deacb, ADD_D ADD_E ADD_A ADD_C ADD_B)
O(bca, ADD_B ADD_C ADD_A)
O(cba, ADD_C ADD_B ADD_A)
O(ad, ADD_A ADD_D)
O(da, ADD_D ADD_A)
O(be, ADD_B ADD_E)
O(eb, ADD_E ADD_B)
#define ADD_F u->addTestCase("B", "epsilon", &f);
int o_ef(TestCase& e, TestCase& f) { UnitTest* u = new UnitTest; u->setVerbosity(UnitTest::SILENT); ADD_E ADD_F return u->performUnitTests(); }
int o_fe(TestCase& e, TestCase& f) { UnitTest* u = new UnitTest; u->setVerbosity(UnitTest::SILENT); ADD_F ADD_E return u->performUnitTests(); }
#define OT(name, ...) int t_##name(TestCase& a, TestCase& b, TestCase& c, TestCase& d, TestCase& e) { UnitTest* u = new UnitTest; ADD_C ADD_D ADD_E ADD_B ADD_A ARG("-q", __VA_ARGS__) }
OT(cdb, "-t", "Btwo::gamma", "-t", "Aone::alp", "-t", "Btwo::beta")
OT(bac, "-t", "Btwo::beta", "-t", "Aone::alpha", "-t", "Btwo::gamma")
OT(aed, "-t", "Aone::alpha", "-t", "B::zeta", "-t", "Aone::alp")
// performed again: the run after the mark is compared with the only run of a fresh suite
#define G(name, ...) int g_##name(TestCase& a, TestCase& b, TestCase& c, int v) { UnitTest* u = new UnitTest; __VA_ARGS__ }
#define ALLOF ADD_B ADD_A ADD_C V
#define SELECT(x) { const char* sel[] = { "-t", x }; u->parseParams(2, const_cast<char**>(sel)); }
#define REPORT { const char* rep[] = { "-n", "TheName", "-i", "TheId", "-x", "report.xml" }; u->parseParams(6, const_cast<char**>(rep)); }
#define RUN u->performUnitTests();
#define RETRUN return u->performUnitTests();
G(all1, ALLOF mark(); RETRUN)
G(all2, ALLOF RUN mark(); RETRUN)
G(all3, ALLOF RUN RUN mark(); RETRUN)
G(sel1, ALLOF SELECT("Btwo::gamma") mark(); RETRUN)
G(sel2, ALLOF SELECT("Btwo::gamma") RUN mark(); RETRUN)
G(sellate, ALLOF RUN SELECT("Btwo::gamma") mark(); RETRUN)
G(two1, ADD_B ADD_A V mark(); RETRUN)
G(two2, ADD_B ADD_A V RUN mark(); RETRUN)
G(added, ADD_B V RUN ADD_A mark(); RETRUN)
G(moreadded, ADD_B ADD_A V RUN ADD_C mark(); RETRUN)
G(xml1, ADD_B ADD_A V REPORT mark(); RETRUN)
G(xml2, ADD_B ADD_A V REPORT RUN mark(); RETRUN)
G(one1, ALLOF mark(); return u->performTest("Btwo::gamma");)
G(one2, ALLOF u->performTest("Btwo::gamma"); mark(); return u->performTest("Btwo::gamma");)
G(oneafter, ALLOF RUN mark(); return u->performTest("Btwo::gamma");)
G(allafter, ALLOF u->performTest("Btwo::gamma"); mark(); RETRUN)
G(loud1, ADD_B ADD_A u->setVerbosity(UnitTest::SILENT); u->setVerbosity(UnitTest::REPORT_STATUS); mark(); RETRUN)
G(loud2, ADD_B ADD_A u->setVerbosity(UnitTest::SILENT); RUN u->setVerbosity(UnitTest::REPORT_STATUS); mark(); RETRUN)
}
