// Instantiations of the parser that are put under contract.
#include "json.hpp"
using namespace json::_packed_bytes;
namespace vd {
template <bool jc, typename S, typename T>
void p(const S& s) { (void)json::parser<jc, S, T>::parse(s); }
void i1(const std::string& s) { p<false, std::string, packed_bytes_trait_none>(s); }
void i2(const std::string& s) { p<true, std::string, packed_bytes_trait_none>(s); }
void i3(const std::string& s) { p<false, std::string, packed_bytes_trait_uint64>(s); }
void i4(const std::string& s) { p<false, std::string, packed_bytes_trait_uint32>(s); }
void i5(const std::string& s) { p<false, std::string, packed_bytes_trait_max>(s); }
void i6(const std::string& s) { p<true, std::string, packed_bytes_trait_max>(s); }
void i7(const std::string_view& s) { p<false, std::string_view, packed_bytes_trait_max>(s); }
void i8(const std::string_view& s) { p<true, std::string_view, packed_bytes_trait_max>(s); }
void f1(const std::string& s) { (void)json::parse(s); (void)json::parsec(s); }
void f2(const std::string_view& s) { (void)json::parse(s); (void)json::parsec(s); }
void f3(const char* s) { (void)json::parse(s); (void)json::parsec(s); }
void f4(std::istream& s, bool a, bool b) { (void)json::parse(s, a, b); }
void f5(const std::string& p, bool a, bool b) { (void)json::open(p, a, b); }
void f6(const std::filesystem::path& p, bool a, bool b) { (void)json::open(p, a, b); }
void f8(const char* const& p, bool a, bool b) { (void)json::open(p, a, b); }
void f7(const char* s, size_t n) { using namespace json::literals; (void)operator""_json(s, n); (void)operator""_jvalue(s, n); (void)operator""_jarray(s, n); (void)operator""_jobject(s, n); }
}
