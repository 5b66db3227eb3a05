// Instantiates every member of the smart pointer templates of ringing/pointers.h, over a class about which
// nothing is known but that it can be cloned and destroyed. The bodies verified are those of /repo's header.
#include <ringing/pointers.h>
namespace vinst {
  struct obj { int v; obj *clone(); ~obj(); };
}
template class ringing::shared_pointer<vinst::obj>;
template class ringing::scoped_pointer<vinst::obj>;
template class ringing::cloning_pointer<vinst::obj>;
template class ringing::cow_pointer<vinst::obj>;
template struct ringing::delete_helper<vinst::obj>;
template struct ringing::clone_helper<vinst::obj>;

// Ghost code: one step of an arbitrary history of operations on arbitrarily many pointers. It is verified from the
// contracts of the operations alone; its contracts say that the invariant of the whole history is kept.
#include <vector>
namespace vinst {
  typedef ringing::shared_pointer<obj> sp; typedef std::vector<sp> spv;
  void shared_assign(spv &v, unsigned i, unsigned j) { v[i] = v[j]; }
  void shared_swap(spv &v, unsigned i, unsigned j) { v[i].swap(v[j]); }
  void shared_drop(spv &v, unsigned i) { sp e; v[i] = e; }
  void shared_new(spv &v, unsigned i, obj *p) { sp e(p); v[i] = e; }
  void shared_new_with(spv &v, unsigned i, obj *p, void (*d)(obj *&)) { sp e(p, d); v[i] = e; }
  void shared_reset(spv &v, unsigned i, obj *p) { v[i].reset(p); }
  void shared_copy(spv &v, unsigned i) { sp e(v[i]); }
  typedef ringing::cow_pointer<obj> wp; typedef std::vector<wp> wpv;
  void cow_assign(wpv &v, unsigned i, unsigned j) { v[i] = v[j]; }
  void cow_swap(wpv &v, unsigned i, unsigned j) { v[i].swap(v[j]); }
  void cow_new(wpv &v, unsigned i, obj *p) { wp e(p); v[i] = e; }
  void cow_reset(wpv &v, unsigned i, obj *p) { v[i].reset(p); }
  void cow_copy(wpv &v, unsigned i) { wp e(v[i]); }
  void cow_write(wpv &v, unsigned i, int x) { v[i]->v = x; }
  typedef ringing::cloning_pointer<obj> cp; typedef std::vector<cp> cpv;
  void cloning_assign(cpv &v, unsigned i, unsigned j) { v[i] = v[j]; }
  void cloning_swap(cpv &v, unsigned i, unsigned j) { v[i].swap(v[j]); }
  void cloning_reset(cpv &v, unsigned i, obj *p) { v[i].reset(p); }
  void cloning_drop(cpv &v, unsigned i) { v[i].reset(); }
  void cloning_copy(cpv &v, unsigned i) { cp e(v[i]); }
}
