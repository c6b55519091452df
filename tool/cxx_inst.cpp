// Instantiates the header-only parts of rexjsonrpc so that they are compiled
// and can be analysed.  Never linked or run.
#include <stdexcept>
#include <array>
#include <tuple>
#include "rexjsonrpc/property.h"
#include "rexjsonrpc/rpcserver.h"
struct verif_server;
namespace rexjson {
template class property_object<int>;
template class property_object<double>;
template class property_object<std::string>;
template class property_range<int>;
template class property_object<long>;
template class property_object<float>;
template class property_object<unsigned char>;
enum verif_enum { verif_a, verif_b };
template class property_object<verif_enum>;
template class property_range<double>;
template class property_range<std::string>;
}
struct verif_server : public rexjson::rpc_server<verif_server> {};
template class rexjson::rpc_server<verif_server>;
int verif_inst(int *i, double *d, std::string *s, bool *b)
{
	rexjson::property a(i), c(d), e(s), f(b), g(i, (size_t)4);
	rexjson::property_map m{{"a", a}, {"c", c}};
	rexjson::property_array r{a, c, e, f, g};
	rexjson::property pm(m), pr(r);
	verif_server srv;
	return (int)pm.access() + (int)srv.call(std::string("{}")).get_type() + (int)pr.get_prop().get_type();
}
