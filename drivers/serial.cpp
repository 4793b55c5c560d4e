// Everything that is not a template is reachable from here: escaping and serialisation.
#include "json.hpp"
namespace vd {
std::string v1(const json::value& v) { return v.to_string() + v.dumps() + v.format() + v.format(2) + v.dumps(3); }
std::string a1(const json::array& v) { return v.to_string() + v.dumps() + v.format() + v.format(2) + v.dumps(3); }
std::string o1(const json::object& v) { return v.to_string() + v.dumps() + v.format() + v.format(2) + v.dumps(3); }
void w1(std::ostream& s, const json::value& v, const json::array& a, const json::object& o) { s << v; s << a; s << o; }
std::string e1(const std::string& s) { return json::_utils::escape_string(s) + json::_utils::unescape_string(s); }
}
