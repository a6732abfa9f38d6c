// Instantiates every member of the paged stack with an element type whose operations are external.
#include <falcon/engine/pagedstack.h>
#include <new>
namespace wit {
struct Elem {
   Elem();
   Elem(int a, int b);
   Elem(const Elem& other);
   Elem& operator=(const Elem& other);
   ~Elem();
   long v[3];
};
using Stack = falcon::PagedStack<Elem, std::allocator, std::mutex>;
}
template class falcon::PagedStack<wit::Elem, std::allocator, std::mutex>;
namespace wit {
template<typename It> void use_iter(It a, It b) {
   if(a == b) return;
   if(a != b) ++a;
   --a;
   a++;
   a--;
   a += 2;
   a -= 2;
   (void) *a;
   (void) a->v;
   const It& c = a;
   (void) *c;
   It d(a);
   d = b;
}
template<typename It> void use_sync(It a, It b, Elem& e) {
   if(a == b) return;
   if(a != b) ++a;
   --a;
   It d(a);
   d = b;
   d.get(e);
}
void w_make(Stack* s, size_t page, size_t pages) { new(s) Stack(page, pages); }
void w_copy(Stack* t, const Stack& s) { new(t) Stack(s); }
void w_assign(Stack& t, const Stack& s) { t = s; }
void w_pop0(Stack& s) { s.pop(); }
const Elem* w_top(const Stack& s) { return &s.top(); }
void w_settop(Stack& s, const Elem& a) { s.top(a); }
size_t w_size(const Stack& s) { return s.size(); }
bool w_empty(const Stack& s) { return s.empty(); }
void w_clear(Stack& s) { s.clear(); }
void w_shrink(Stack& s) { s.shrink_to_fit(); }
const Elem* w_from_top(Stack& s, size_t n) { auto i = s.from_top(n); return &*i; }
const Elem* w_cfrom_top(const Stack& s, size_t n) { auto i = s.from_top(n); return &*i; }
void w_stats(const Stack& s, size_t& a, size_t& b, size_t& c, size_t& d) { s.getStats(a, b, c, d); }
// one set per kind of iterator: first position, moves, comparison with the end
#define ITER(N, S, It, FIRST, LAST) \
void w_##N##_first(S& s, It* out) { new(out) It(s.FIRST()); } \
void w_##N##_last(S& s, It* out) { new(out) It(s.LAST()); } \
const Elem* w_##N##_star(It& i) { return &*i; } \
const Elem* w_##N##_cstar(const It& i) { return &*i; } \
const Elem* w_##N##_arrow(It& i) { return i.operator->(); } \
bool w_##N##_atend(It& i, S& s) { return i == s.LAST(); } \
bool w_##N##_notend(It& i, S& s) { return i != s.LAST(); } \
bool w_##N##_atfirst(It& i, S& s) { return i == s.FIRST(); } \
void w_##N##_next(It& i) { ++i; } \
void w_##N##_prev(It& i) { --i; } \
const Elem* w_##N##_postnext(It& i) { It o = i++; return &*o; } \
const Elem* w_##N##_postprev(It& i) { It o = i--; return &*o; } \
void w_##N##_plus(It& i, size_t n) { i += n; } \
void w_##N##_minus(It& i, size_t n) { i -= n; } \
bool w_##N##_same(It& i) { It c(i); It d(i); d = c; return c == i && d == i && !(c != i); }
ITER(it, Stack, Stack::iterator, begin, end)
ITER(cit, const Stack, Stack::const_iterator, begin, end)
ITER(ccit, const Stack, Stack::const_iterator, cbegin, cend)
ITER(rit, Stack, Stack::reverse_iterator, rbegin, rend)
ITER(crit, const Stack, Stack::const_reverse_iterator, rbegin, rend)
ITER(ccrit, const Stack, Stack::const_reverse_iterator, crbegin, crend)
// synchronised iterators
using SIt = Stack::sync_iterator;
using CSIt = Stack::const_sync_iterator;
#define SYNC(N, S, It, FIRST, E) \
void w_##N##_first(S& s, It* out) { new(out) It(s.FIRST()); } \
void w_##N##_get(It& i, E& e) { i.get(e); } \
void w_##N##_next(It& i) { ++i; } \
void w_##N##_prev(It& i) { --i; } \
void w_##N##_copy(It* out, const It& i) { new(out) It(i); } \
void w_##N##_assign(It& a, const It& i) { a = i; } \
void w_##N##_drop(It& i) { i.~It(); } \
bool w_##N##_eq(const It& i, const It& a) { return i == a; } \
bool w_##N##_ne(const It& i, const It& a) { return i != a; }
SYNC(sit, Stack, SIt, sync_begin, Elem)
SYNC(csit, const Stack, CSIt, sync_begin, Elem)
SYNC(ccsit, const Stack, CSIt, csync_begin, Elem)
void w_push1(Stack& s, const Elem& a) { s.push(a); }
void w_push3(Stack& s, const Elem& a, const Elem& b, const Elem& c) { s.push(a, b, c); }
void w_emplace(Stack& s) { s.push_emplace(1, 2); }
void w_pop1(Stack& s, Elem& a) { s.pop(a); }
void w_pop3(Stack& s, Elem& a, Elem& b, Elem& c) { s.pop(a, b, c); }
void w_peek1(const Stack& s, Elem& a) { s.peek(a); }
void w_peek3(const Stack& s, Elem& a, Elem& b, Elem& c) { s.peek(a, b, c); }
void w_peek_depth2(const Stack& s, size_t d, Elem& a, Elem& b) { s.peek_depth(d, a, b); }
void w_peek_reverse3(const Stack& s, Elem& a, Elem& b, Elem& c) { s.peek_reverse(a, b, c); }
void w_pop_reverse3(Stack& s, Elem& a, Elem& b, Elem& c) { s.pop_reverse(a, b, c); }
void w_discard_it(Stack& s, Stack::iterator it) { s.discard(it); }
void w_discard_rit(Stack& s, Stack::reverse_iterator it) { s.discard(it); }
void w_discard_n(Stack& s, size_t n) { s.discard(n); }
void w_peek2(const Stack& s, Elem& a, Elem& b) { s.peek(a, b); }
void w_pop_reverse1(Stack& s, Elem& a) { s.pop_reverse(a); }
void w_pop_reverse2(Stack& s, Elem& a, Elem& b) { s.pop_reverse(a, b); }
void w_peek_reverse1(const Stack& s, Elem& a) { s.peek_reverse(a); }
void w_pop2(Stack& s, Elem& a, Elem& b) { s.pop(a, b); }
void w_peek_depth1(const Stack& s, size_t d, Elem& a) { s.peek_depth(d, a); }
void w_peek_depth3(const Stack& s, size_t d, Elem& a, Elem& b, Elem& c) { s.peek_depth(d, a, b, c); }
// distribute over an arbitrary iterator
struct Iter { Elem& operator*(); Iter& operator++(); };
void w_distribute1(Iter& i, Elem& a) { falcon::distribute(i, a); }
void w_distribute3(Iter& i, Elem& a, Elem& b, Elem& c) { falcon::distribute(i, a, b, c); }
void w_distribute3r(Elem& a, Elem& b, Elem& c, Iter& i) { falcon::distribute(static_cast<Iter&&>(i), a, b, c); }
}
