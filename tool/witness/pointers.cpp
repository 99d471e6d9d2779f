// Explicit instantiations of the library's owning pointers, so that the
// exporter sees every member with resolved types.
#include <ringing/common.h>
#include <ringing/pointers.h>
namespace witness {
struct object { virtual ~object(); virtual object *clone(); };
}
template class ringing::cloning_pointer<witness::object>;
template class ringing::shared_pointer<witness::object>;
template class ringing::scoped_pointer<witness::object>;
template class ringing::cow_pointer<witness::object>;
