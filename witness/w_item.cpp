#include <falcon/engine/item.h>
#include <falcon/engine/code.h>
#include <falcon/engine/compiler.h>
#include <falcon/engine/deepflatcopyhandler.h>
namespace wit {
using falcon::Item;
template<typename T> void mk(void* p, T v) { new(p) Item(v); }
void w_ctor_nil(void* p) { new(p) Item(); }
void w_ctor_bool(void* p, bool v) { new(p) Item(v); }
void w_ctor_char(void* p, char v) { new(p) Item(v); }
void w_ctor_byte(void* p, falcon::byte v) { new(p) Item(v); }
void w_ctor_int32(void* p, falcon::int32 v) { new(p) Item(v); }
void w_ctor_uint32(void* p, falcon::uint32 v) { new(p) Item(v); }
void w_ctor_int64(void* p, falcon::int64 v) { new(p) Item(v); }
void w_ctor_uint64(void* p, falcon::uint64 v) { new(p) Item(v); }
void w_ctor_numeric(void* p, falcon::numeric v) { new(p) Item(v); }
void w_ctor_cstr(void* p, falcon::ccstring v) { new(p) Item(v); }
void w_ctor_string(void* p, const std::string& v) { new(p) Item(v); }
void w_ctor_bignum(void* p, const falcon::BigNum& v) { new(p) Item(v); }
void w_copy(void* p, const Item& o) { new(p) Item(o); }
void w_assign(Item& a, const Item& o) { a = o; }
void w_move(void* p, Item& o) { new(p) Item(std::move(o)); static_cast<Item*>(p)->~Item(); o.~Item(); }
void w_moveassign(Item& a, Item& o) { a = std::move(o); a.~Item(); o.~Item(); }
void w_exchange(Item& a, Item& o) { { Item t(std::move(a)); a = std::move(o); o = std::move(t); } a.~Item(); o.~Item(); }
void w_byvalue(void* p, Item o) { new(p) Item(o); }
void w_passed(void* p, const Item& o) { w_byvalue(p, o); }
void w_set_string(Item& a, const std::string& v) { a = v; }
void w_set_int(Item& a, falcon::int64 v) { a = v; }
void w_dtor(Item& a) { a.~Item(); }
bool w_get_bool(const Item& i) { return i.get<bool>(); }
falcon::int64 w_get_int64(const Item& i) { return i.get<falcon::int64>(); }
falcon::uint64 w_get_uint64(const Item& i) { return i.get<falcon::uint64>(); }
falcon::numeric w_get_numeric(const Item& i) { return i.get<falcon::numeric>(); }
std::string w_get_string(const Item& i) { return i.get<falcon::String>(); }
falcon::BigNum w_get_bignum(const Item& i) { return i.get<falcon::BigNum>(); }
std::string w_toString(const Item& i) { return i.toString(); }
falcon::int64 w_toInt(const Item& i) { return i.toInt(); }
bool w_toBool(const Item& i) { return i.toBool(); }
struct Deep: public falcon::DeepHandler<std::string> {
   falcon::String typeName() const noexcept override;
   falcon::String toString(falcon::ItemData) const noexcept override;
   bool toBool(falcon::ItemData) const noexcept override;
   falcon::int64 toInt(falcon::ItemData) const noexcept override;
};
falcon::String Deep::typeName() const noexcept { return "x"; }
falcon::String Deep::toString(falcon::ItemData) const noexcept { return "x"; }
bool Deep::toBool(falcon::ItemData) const noexcept { return false; }
falcon::int64 Deep::toInt(falcon::ItemData) const noexcept { return 0; }
struct FlatCopy: public falcon::DeepFlatCopyHandler<std::string> {
   falcon::String typeName() const noexcept override;
   falcon::String toString(falcon::ItemData) const noexcept override;
   bool toBool(falcon::ItemData) const noexcept override;
   falcon::int64 toInt(falcon::ItemData) const noexcept override;
};
falcon::String FlatCopy::typeName() const noexcept { return "x"; }
falcon::String FlatCopy::toString(falcon::ItemData) const noexcept { return "x"; }
bool FlatCopy::toBool(falcon::ItemData) const noexcept { return false; }
falcon::int64 FlatCopy::toInt(falcon::ItemData) const noexcept { return 0; }

// construct, then read back
bool r_bool(bool v) { Item a(v); return a.get<bool>(); }
#define R(N,T) falcon::int64 r_s_##N(T v) { Item a(v); return a.get<falcon::int64>(); } falcon::uint64 r_u_##N(T v) { Item a(v); return a.get<falcon::uint64>(); }
R(char,char) R(byte,falcon::byte) R(int32,falcon::int32) R(uint32,falcon::uint32) R(int64,falcon::int64) R(uint64,falcon::uint64)
#undef R
falcon::numeric r_numeric(falcon::numeric v) { Item a(v); return a.get<falcon::numeric>(); }
std::string r_cstr(falcon::ccstring v) { Item a(v); return a.get<falcon::String>(); }
std::string r_string(const std::string& v) { Item a(v); return a.get<falcon::String>(); }
falcon::BigNum r_bignum(const falcon::BigNum& v) { Item a(v); return a.get<falcon::BigNum>(); }
void r_nil() { Item a; }
struct Other { int x; };
void x_ctor_short(void* p, short v) { new(p) Item(v); }
void x_ctor_float(void* p, float v) { new(p) Item(v); }
void x_ctor_cstring(void* p, char* v) { new(p) Item(v); }
void x_ctor_other(void* p, Other v) { new(p) Item(v); }
void x_get_int32(const Item& i) { (void) i.get<falcon::int32>(); }
void x_get_float(const Item& i) { (void) i.get<float>(); }
void x_get_other(const Item& i) { (void) i.get<Other>(); }
// construct, then convert
#define V(N,T) std::string t_##N(T v) { Item a(v); return a.toString(); } falcon::int64 i_##N(T v) { Item a(v); return a.toInt(); } bool b_##N(T v) { Item a(v); return a.toBool(); } \
   std::string n_##N(T v) { Item a(v); return a.handler->typeName(); } bool f_##N(T v) { Item a(v); return a.handler->isFlat(); } bool c_##N(T v) { Item a(v); return a.handler->isCopyFlat(); }
V(bool,bool) V(char,char) V(byte,falcon::byte) V(int32,falcon::int32) V(uint32,falcon::uint32) V(int64,falcon::int64) V(uint64,falcon::uint64) V(numeric,falcon::numeric) V(cstr,falcon::ccstring)
V(string,const std::string&) V(bignum,const falcon::BigNum&)
#undef V
std::string t_nil() { Item a; return a.toString(); }
falcon::int64 i_nil() { Item a; return a.toInt(); }
bool b_nil() { Item a; return a.toBool(); }
std::string n_nil() { Item a; return a.handler->typeName(); }
bool f_nil() { Item a; return a.handler->isFlat(); }
bool c_nil() { Item a; return a.handler->isCopyFlat(); }
// what a copy reports
std::string k_t(const Item& o) { Item a(o); return a.toString(); }

// source text objects
using falcon::Code;
std::string s_text(const std::string& v, int line) { Code a(v, line); return a.toString(); }
std::string s_default() { Code a; return a.toString(); }
std::string s_copy(const std::string& v) { Code* a = new Code(v, 1); Code b(*a); delete a; return b.toString(); }
std::string s_origin(const std::string& v) { Code a(v, 1); { Code b(a); } return a.toString(); }
std::string s_assign(const std::string& u, const std::string& v) { Code a(u, 1); { Code b(v, 2); a = b; } return a.toString(); }
std::string s_source(const std::string& u, const std::string& v) { Code b(v, 1); { Code a(u, 2); a = b; } return b.toString(); }
std::string s_self(const std::string& v) { Code a(v, 1); Code& b = a; a = b; return a.toString(); }
std::string s_move(const std::string& v) { Code a(v, 1); Code b(std::move(a)); return b.toString(); }
std::string s_moved(const std::string& v) { Code a(v, 1); Code b(std::move(a)); return a.toString(); }
std::string s_reuse(const std::string& u, const std::string& v) { Code a(u, 1); Code b(std::move(a)); Code c(v, 2); a = c; return a.toString(); }
std::string s_frommoved(const std::string& u, const std::string& v) { Code a(u, 1); Code b(std::move(a)); Code c(v, 2); c = a; a = c; return c.toString(); }
std::string s_copymoved(const std::string& u) { Code a(u, 1); Code b(std::move(a)); Code c(a); return c.toString(); }
std::string s_moveassign(const std::string& u, const std::string& v) { Code a(u, 1); { Code b(v, 2); a = std::move(b); } return a.toString(); }
std::string s_assigncopy(const std::string& u, const std::string& v) { Code a(u, 1); { Code b(v, 2); a = b; } Code c(a); return c.toString(); }
std::string s_assignmove(const std::string& u, const std::string& v) { Code a(u, 1); { Code b(v, 2); a = b; } Code c(std::move(a)); return c.toString(); }
std::string s_assignassign(const std::string& u, const std::string& v) { Code a(u, 1), c(u, 3); { Code b(v, 2); a = b; } c = a; return c.toString(); }
std::string s_movecopy(const std::string& v) { Code a(v, 1); Code b(std::move(a)); Code c(b); return c.toString(); }
std::string s_copycopy(const std::string& v) { Code* a = new Code(v, 1); Code* b = new Code(*a); delete a; Code c(*b); delete b; return c.toString(); }
std::string s_selfcopy(const std::string& v) { Code a(v, 1); Code& b = a; a = b; Code c(a); return c.toString(); }
std::string s_compile(std::istream& in) { falcon::Compiler comp; Code a = comp.compile(in); return a.toString(); }
}
