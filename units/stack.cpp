// Instantiates the lock-free stack and the object pool for analysis.
#include <functional>
#include <string>
#include <klepsydra/core/lock_free_stack.h>
#include <klepsydra/core/smart_object_pool.h>

struct KObj { long a; ~KObj(); };
namespace kpsr {
bool kuse_push(LockFreeStack<long> &s, const long &v) { return s.push(v); }
bool kuse_pop(LockFreeStack<long> &s, long &v) { return s.pop(v); }
LockFreeStack<long> *kuse_new(size_t n, std::function<void(long &)> f) { return new LockFreeStack<long>(n, f); }
using KS = LockFreeStack<std::unique_ptr<KObj>>;
bool kuse_pushp(KS &s, std::unique_ptr<KObj> v) { return s.push(std::move(v)); }
bool kuse_popp(KS &s, std::unique_ptr<KObj> &v) { return s.pop(v); }
KS *kuse_newp(size_t n, std::function<void(std::unique_ptr<KObj> &)> f) { return new KS(n, f); }
using KP = SmartObjectPool<KObj>;
KP *kuse_newpool(const std::string &n, int s, std::function<void(KObj &)> i, std::function<void(KObj &)> f) { return new KP(n, s, i, f); }
void kuse_delpool(KP *p) { delete p; }
KP::ptr_type kuse_acquire(KP &p) { return p.acquire(); }
void kuse_release(KP::ptr_type &p) { p.reset(); }
} // namespace kpsr
