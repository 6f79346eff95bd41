// settings from the command line and from configuration files.  Entry points of the analysis, never executed.
#include "spaceHub.hpp"
using namespace hub; using namespace hub::tools;
extern "C" OptArg& the_arg(int);
extern "C" char** the_argv(); extern "C" int the_argc();
#define H(N) extern "C" void N(double const* in, double* out)
template <class T> static T conv(OptArg& a) { return static_cast<T>(a); }
H(to_float) { *(float*)out = (float)the_arg(0); }
H(to_double) { out[0] = (double)the_arg(0); }
H(to_ldouble) { *(long double*)out = the_arg(0).operator long double(); }
H(to_int) { *(int*)out = the_arg(0).operator int(); }
H(to_long) { *(long*)out = the_arg(0).operator long(); }
H(to_llong) { *(long long*)out = the_arg(0).operator long long(); }
H(to_ulong) { *(unsigned long*)out = the_arg(0).operator unsigned long(); }
H(to_ullong) { *(unsigned long long*)out = the_arg(0).operator unsigned long long(); }
H(to_bool) { *(bool*)out = the_arg(0).operator bool(); }
H(to_cstr) { *(char const**)out = the_arg(0).operator char const*(); }
H(to_string) { *(std::string*)out = the_arg(0).operator std::string(); }
H(as_float) { *(float*)out = the_arg(0).as<float>(); }
H(as_double) { out[0] = the_arg(0).as<double>(); }
H(as_ldouble) { *(long double*)out = the_arg(0).as<long double>(); }
H(as_int) { *(int*)out = the_arg(0).as<int>(); }
H(as_long) { *(long*)out = the_arg(0).as<long>(); }
H(as_llong) { *(long long*)out = the_arg(0).as<long long>(); }
H(as_ulong) { *(unsigned long*)out = the_arg(0).as<unsigned long>(); }
H(as_ullong) { *(unsigned long long*)out = the_arg(0).as<unsigned long long>(); }
H(as_string) { *(std::string*)out = the_arg(0).as<std::string>(); }
H(cmd1) { read_command_line(the_argc(), the_argv(), the_arg(0)); }
H(cmd3) { read_command_line(the_argc(), the_argv(), the_arg(0), the_arg(1), the_arg(2)); }
H(macro3) { READ_CMD_LINE(the_argc(), the_argv(), a, b, c); out[0] = a.as<double>(); out[1] = b.as<double>(); out[2] = c.as<double>(); }
H(cmdt) { int i; double d; read_command_line(the_argc(), the_argv(), i, d); *(int*)out = i; out[1] = d; }
extern "C" std::string const& the_name(); extern "C" std::string const& the_key();
extern "C" void filled(ConfigReader&);
H(load) { ConfigReader r(the_name()); filled(r); }
H(loadd) { ConfigReader r(the_name(), ':', '%'); filled(r); }
H(loadc) { ConfigReader r("the file", ':', '%'); filled(r); }
template <class T> T get_(double*) { ConfigReader r(the_name()); filled(r); return r.get<T>(the_key()); }
H(get_double) { out[0] = get_<double>(out); }
H(get_int) { *(int*)out = get_<int>(out); }
H(get_string) { *(std::string*)out = get_<std::string>(out); }
H(as_bool) { *(bool*)out = the_arg(0).as<bool>(); }
H(as_cstr) { *(char const**)out = the_arg(0).as<char const*>(); }
