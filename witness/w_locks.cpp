#include <falcon/futex.h>
#include <falcon/atomic.h>
#include <falcon/singleton.h>
#include <mutex>
template class falcon::Futex<0>;
template class falcon::Futex<1>;
template class falcon::Futex<2>;
template class falcon::Futex<7>;
namespace wit {
struct Obj { Obj(); ~Obj(); int v; };
}
template class falcon::Singleton<wit::Obj>;
namespace wit {
void w_rlock(falcon::RFutex& m) { m.lock(); }
void w_runlock(falcon::RFutex& m) { m.unlock(); }
bool w_risLocked(falcon::RFutex& m) { return m.isLocked(); }
bool w_risOwner(falcon::RFutex& m) { return m.isOwner(); }
void w_rctor() { falcon::RFutex m; }
int w_inc(falcon::atomic_int& a) { return falcon::atomicInc(a); }
int w_dec(falcon::atomic_int& a) { return falcon::atomicDec(a); }
int w_add(falcon::atomic_int& a, int v) { return falcon::atomicAdd(a, v); }
int w_fetch(const falcon::atomic_int& a) { return falcon::atomicFetch(a); }
void w_set(falcon::atomic_int& a, int v) { falcon::atomicSet(a, v); }
int w_xchg(falcon::atomic_int& a, int v) { return falcon::atomicExchange(a, v); }
bool w_cas(falcon::atomic_int& a, int c, int n) { return falcon::atomicCAS(a, c, n); }
int w_xor(falcon::atomic_int& a, int v) { return falcon::atomicXor(a, v); }
int w_and(falcon::atomic_int& a, int v) { return falcon::atomicAnd(a, v); }
int w_or(falcon::atomic_int& a, int v) { return falcon::atomicOr(a, v); }
}
