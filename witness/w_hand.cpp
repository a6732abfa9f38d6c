// the kinds of values, through the interface that every kind has
#include <falcon/engine/item.h>
#include <falcon/engine/deepflatcopyhandler.h>
#include <falcon/engine/flathandler.h>
#include <new>
namespace wit {
using falcon::Handler;
using falcon::ItemData;
using falcon::HandlerFactory;
#define CONV falcon::String typeName() const noexcept override { return "x"; } \
   falcon::String toString(ItemData) const noexcept override { return "x"; } \
   bool toBool(ItemData) const noexcept override { return false; } \
   falcon::int64 toInt(ItemData) const noexcept override { return 0; }
struct Deep: public falcon::DeepHandler<std::string> { CONV };
struct FlatCopy: public falcon::DeepFlatCopyHandler<falcon::BigNum> { CONV };
struct Pod { int v; };
struct Wide { double a[6]; ~Wide() {} };
struct DeepPod: public falcon::DeepHandler<Pod> { CONV };
struct DeepInt: public falcon::DeepHandler<long> { CONV };
struct DeepWide: public falcon::DeepHandler<Wide> { CONV };
struct CopyPod: public falcon::DeepFlatCopyHandler<Pod> { CONV };
struct CopyText: public falcon::DeepFlatCopyHandler<std::string> { CONV };
struct Flat: public falcon::FlatHandler { CONV };
Deep deep;
FlatCopy flatCopy;
Flat flat;
DeepPod deepPod;
DeepInt deepInt;
DeepWide deepWide;
CopyPod copyPod;
CopyText copyText;
inline void put(void* p, ItemData d) { new(p) ItemData(d); }
#define H(N, OBJ) \
   bool hf_##N() { const Handler* h = &OBJ; return h->isFlat(); } \
   bool hp_##N() { const Handler* h = &OBJ; return h->isCopyFlat(); } \
   void ha_##N(ItemData* out) { const Handler* h = &OBJ; *out = h->allocate(); } \
   void hc_##N(ItemData* out, ItemData d) { const Handler* h = &OBJ; *out = h->clone(d); } \
   void hd_##N(ItemData d) { const Handler* h = &OBJ; h->destroy(d); } \
   falcon::int64 hi_##N() { const Handler* h = &OBJ; ItemData d = h->allocate(); falcon::int64 v = h->toInt(d); h->destroy(d); return v; } \
   bool hb_##N() { const Handler* h = &OBJ; ItemData d = h->allocate(); bool v = h->toBool(d); h->destroy(d); return v; } \
   std::string ht_##N() { const Handler* h = &OBJ; ItemData d = h->allocate(); std::string v = h->toString(d); h->destroy(d); return v; } \
   falcon::int64 hk_##N() { const Handler* h = &OBJ; ItemData d = h->allocate(); ItemData e = h->clone(d); h->destroy(d); falcon::int64 v = h->toInt(e); h->destroy(e); return v; } \
   std::string hs_##N() { const Handler* h = &OBJ; ItemData d = h->allocate(); ItemData e = h->clone(d); h->destroy(d); std::string v = h->toString(e); h->destroy(e); return v; }
H(nil, HandlerFactory::nilHandler) H(bool, HandlerFactory::boolHandler) H(int, HandlerFactory::intHandler) H(float, HandlerFactory::floatHandler)
H(string, HandlerFactory::stringHandler) H(bignum, HandlerFactory::bigNumHandler) H(deep, deep) H(flatcopy, flatCopy) H(flat, flat)
H(deeppod, deepPod) H(deepint, deepInt) H(deepwide, deepWide) H(copypod, copyPod) H(copytext, copyText)
#undef H
std::string hz_nil() { const Handler* h = &HandlerFactory::nilHandler; return h->toString(ItemData(nullptr)); }
std::string hz_bool() { const Handler* h = &HandlerFactory::boolHandler; return h->toString(ItemData(false)); }
std::string hz_int() { const Handler* h = &HandlerFactory::intHandler; return h->toString(ItemData(static_cast<falcon::int64>(0))); }
std::string hz_float() { const Handler* h = &HandlerFactory::floatHandler; return h->toString(ItemData(static_cast<falcon::numeric>(0.0))); }
}
