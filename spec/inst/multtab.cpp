// Instantiates the member templates of ringing/multtab.h. The bodies verified are those of /repo's header.
#include <vector>
#include <ringing/multtab.h>
namespace vinst {
  typedef std::vector<ringing::row>::const_iterator I;
  void all(I a, I b, ringing::row const &r, ringing::group const &g) {
    ringing::multtab t1(a, b), t2(a, b, r), t3(a, b, g), t4(a, b, g, g); ringing::sqmulttab s(a, b);
    t1.compute_post_mult(ringing::change(5));
    s.compute_pre_mult(r); s.compute_post_mult(r);
    ringing::details::multtab_post_col_t p = s.find(r) * s.find(r);
  }
}
