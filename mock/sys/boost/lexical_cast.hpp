// Conversions through the stand-in streams (the real header needs locales).
#ifndef VERIF_LEXICAL_CAST
#define VERIF_LEXICAL_CAST
#include <sstream>
#include <string>
#include <typeinfo>
#include <cstdlib>
#include <cerrno>
#include <type_traits>
namespace boost { struct bad_lexical_cast : public std::bad_cast { const char* what() const noexcept { return "bad lexical cast"; } };
  template<class T> struct vl_to { static T get(const std::string& s){ char* e; errno=0; T r; if(std::is_floating_point<T>::value) r=(T)strtod(s.c_str(),&e); else if(std::is_unsigned<T>::value){ unsigned long long v=strtoull(s.c_str(),&e,10); r=(T)v; if((unsigned long long)r!=v) errno=ERANGE; } else { long long v=strtoll(s.c_str(),&e,10); r=(T)v; if((long long)r!=v) errno=ERANGE; } if(s.empty()||*e||errno||(s[0]!='-'&&s[0]!='+'&&(unsigned char)s[0]<=' '&&s[0]!=2)) throw bad_lexical_cast(); return r; } };
  template<> struct vl_to<std::string> { static std::string get(const std::string& s){ return s; } }; template<> struct vl_to<char> { static char get(const std::string& s){ if(s.size()!=1) throw bad_lexical_cast(); return s[0]; } };
  template<class T,class S> inline T lexical_cast(const S& v){ std::ostringstream o; o<<v; return vl_to<T>::get(o.str()); } }
#endif
