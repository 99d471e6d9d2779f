// Instantiations of the library's other templates, for the same reason.
#include <ringing/common.h>
#include <ringing/proof.h>
#include <ringing/search_base.h>
#include <ringing/touch.h>
#include <ringing/multtab.h>
#include <ringing/extent.h>
#include <ringing/music.h>
#include <ringing/methodset.h>
#include <ringing/libfacet.h>
#include <ringing/peal.h>
#include <ringing/place_notation.h>
#include <ringing/group.h>
#include <vector>
#include <list>
#include <string>
#include <iterator>
namespace witness {
using namespace ringing;
typedef std::vector<row>::const_iterator rows;
struct until { bool operator()(const touch &) const; };
void use(rows a, rows b, std::string s, std::vector<change> v, std::vector<method>::const_iterator m,
         std::vector<library_entry>::const_iterator e, library_entry le, touch t, std::ostream &o, search_base &sb) {
  multtab t1(a, b); multtab t2(a, b, row()); multtab t3(a, b, group()); multtab t4(a, b, group(), group());
  sqmulttab q(a, b); music mu; mu.process_rows(a, b); mu.append(mu.begin(), mu.end());
  methodset ms(m, m); ms.append(e, e);
  interpret_pn(6, s.begin(), s.end(), std::back_inserter(v));
  std::list<touch> lt; touch_search(sb, std::back_inserter(lt)); touch_search_until(sb, std::back_inserter(lt), until());
  proof<rows> p(a, b); o << p;
}
}
template class ringing::proof<witness::rows>;
