// Stand-in for Boost.Regex: a pattern is a literal; regex_match wants the whole text, regex_search any part.
#ifndef VERIF_BOOST_REGEX_HPP
#define VERIF_BOOST_REGEX_HPP
#include <string>
#include <cstring>
namespace boost {
  class regex { std::string p; bool e; public: regex() : e(true) {} regex(const char* s) : p(s), e(false) {} explicit regex(const std::string& s) : p(s), e(false) {} regex& operator=(const char* s){ p=s; e=false; return *this; } regex& operator=(const std::string& s){ p=s; e=false; return *this; } regex& assign(const char* s){ return *this=s; } bool empty() const { return e; } const std::string& str() const { return p; } };
  inline bool regex_match(const char* s, const regex& r){ return !strcmp(s, r.str().c_str()); } inline bool regex_match(const std::string& s, const regex& r){ return s==r.str(); }
  inline bool regex_search(const char* s, const regex& r){ return strstr(s, r.str().c_str())!=0; } inline bool regex_search(const std::string& s, const regex& r){ return s.find(r.str())!=std::string::npos; }
}
#endif
