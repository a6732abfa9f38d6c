#include <falcon/singleton.h>
namespace wit {
struct Probe { int x; Probe(); ~Probe(); void touch(); };
using S = falcon::Singleton<Probe>;
Probe* g_get(S& s) { return s.get(); }
const Probe* g_arrow(const S& s) { return s.operator->(); }
const Probe& g_star(const S& s) { return *s; }
Probe* g_marrow(S& s) { return s.mtbl.operator->(); }
Probe& g_mstar(S& s) { return *s.mtbl; }
Probe* g_two() { S a; S b; Probe* p = a.get(); return b.get() == p ? p : nullptr; }
}
