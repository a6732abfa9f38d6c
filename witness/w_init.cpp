// every class with a constructor of its own, constructed in every way
#include <string>
#include <mutex>
#include <sstream>
#include <falcon/logger.h>
#include <falcon/logproxy.h>
#include <falcon/logstream.h>
#include <falcon/logsystem.h>
#include <falcon/futex.h>
#include <falcon/singleton.h>
#include <falcon/engine/item.h>
#include <falcon/engine/code.h>
#include <falcon/engine/compiler.h>
#include <falcon/engine/pagedstack.h>
#include <falcon/fut/testcase.h>
#include <falcon/fut/unittest.h>
#include <falcon/fut/timelapse.h>
namespace wit {
using namespace falcon;
struct Own: public LogSystem::Listener { void onMessage(const LogSystem::Message&) override {} };
struct Test: public testing::TestCase { void test() override {} };
struct Small { int v; };
void w_log() { LogSystem a(true), b; Own l; LogStreamListener s; Logger g; LogSystem::Message m; (void)a; (void)b; (void)l; (void)s; (void)g; (void)m; }
void w_lock() { Futex f; RFutex r; (void)f; (void)r; }
void w_stack() {
   PagedStack<int> a, b(a); PagedStack<Small, std::allocator, std::mutex> m; PagedStack<int, std::allocator> z; (void)z;
   auto i = a.begin(); auto j = i; auto r = a.rbegin(); (void)j; (void)r;
   const PagedStack<int>& k = a; auto ci = k.begin(); (void)ci;
}
void w_item() { Item a, b(true), d(a); Item e(int64(3)); Item f(2.5); Item s(std::string("x")); ItemData x(true), y(int64(1)), z(2.0), n(nullptr); (void)x; (void)y; (void)z; (void)n; (void)b; (void)d; (void)e; (void)f; (void)s; }
void w_code(const std::string& s) { Code a(s, 1), b(a), d(static_cast<Code&&>(b)); Compiler k; (void)d; (void)k; }
void w_fut() { Test t; testing::UnitTest u; testing::TimeLapse l; (void)t; (void)u; (void)l; }
}
