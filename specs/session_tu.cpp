// instantiates the class template so that its member functions have bodies to verify
#include <metaproxy/session.hpp>
namespace metaproxy_1 { template class session_map<int>; }
