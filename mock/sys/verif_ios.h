// Minimal character streams for symbolic execution (replaces the locale machinery of libstdc++).
// Concrete integers are printed in decimal; symbolic integers and every double are printed as a token
// (kind, precision, float format, raw value) that rt/tok.h reads back; the formatting of numbers itself
// belongs to the C++ library, which is outside the code under test.
#ifndef VERIF_IOS_H
#define VERIF_IOS_H
#include <string>
#include <iosfwd>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <stdexcept>
#include <system_error>
extern "C" int __sym_is_symbolic(uint64_t);
namespace std {
  typedef long verif_streamsize;
  class ios_base { public:
    typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
    static const fmtflags dec=1, hex=2, oct=4, basefield=7, fixed=8, scientific=16, floatfield=24, left=32, right=64, internal=128, adjustfield=224, boolalpha=256, showpos=512, uppercase=1024, showbase=2048, showpoint=4096, skipws=8192, unitbuf=16384;
    static const iostate goodbit=0, badbit=1, eofbit=2, failbit=4;
    static const openmode in=1, out=2, binary=4, trunc=8, app=16, ate=32;
    static const seekdir beg=0, cur=1, end=2;
    struct failure : public std::runtime_error { failure(const char* s) : runtime_error(s) {} };
    class Init { public: Init(){} ~Init(){} };
    fmtflags fl; long prec_, width_; iostate st_;
    ios_base() : fl(dec), prec_(6), width_(0), st_(0) {}
    virtual ~ios_base() {}
    fmtflags flags() const { return fl; } fmtflags flags(fmtflags f){ fmtflags o=fl; fl=f; return o; }
    fmtflags setf(fmtflags f){ fmtflags o=fl; fl|=f; return o; } fmtflags setf(fmtflags f, fmtflags m){ fmtflags o=fl; fl=(fl&~m)|(f&m); return o; } void unsetf(fmtflags m){ fl&=~m; }
    streamsize precision() const { return prec_; } streamsize precision(streamsize p){ long o=prec_; prec_=p; return o; }
    streamsize width() const { return width_; } streamsize width(streamsize p){ long o=width_; width_=p; return o; }
    static bool sync_with_stdio(bool=true){ return true; }
  };
  template<> class basic_streambuf<char, char_traits<char> > { public: std::string b; size_t rp=0; virtual ~basic_streambuf() {} };
  template<> class basic_ios<char, char_traits<char> > : public ios_base { public: char fill_; basic_streambuf<char>* sb_=nullptr; basic_ios() : fill_(' ') {}
    char fill() const { return fill_; } char fill(char c){ char o=fill_; fill_=c; return o; }
    bool good() const { return st_==0; } bool eof() const { return st_&eofbit; } bool fail() const { return st_&(failbit|badbit); } bool bad() const { return st_&badbit; }
    bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); } void clear(iostate s=0){ st_=s; } void setstate(iostate s){ st_|=s; } iostate rdstate() const { return st_; }
    void exceptions(iostate) {} basic_streambuf<char>* rdbuf() const { return sb_; } basic_streambuf<char>* rdbuf(basic_streambuf<char>* p){ auto o=sb_; sb_=p; return o; }
    basic_ios& copyfmt(const basic_ios& o){ fl=o.fl; prec_=o.prec_; width_=o.width_; fill_=o.fill_; return *this; }
    typedef char char_type; typedef char_traits<char> traits_type; };
  template<> class basic_ostream<char, char_traits<char> > : virtual public basic_ios<char, char_traits<char> > { public:
    typedef char char_type; typedef char_traits<char> traits_type; typedef std::ios_base ios_base;
    bool sink_;
    basic_ostream(bool sink=false) : sink_(sink) {}
    explicit basic_ostream(basic_streambuf<char>* b) : sink_(false) { sb_=b; }
    void raw(const char* p, size_t n){ if(!sink_&&sb_) sb_->b.append(p,n); }
    void padded(const char* p, size_t n){ long w=width_; width_=0; if(w<=(long)n){ raw(p,n); return; } std::string f((size_t)w-n,fill_); if(fl&left){ raw(p,n); raw(f.data(),f.size()); } else { raw(f.data(),f.size()); raw(p,n); } }
    void token(char kind, uint64_t v){ if(sink_) { width_=0; return; } char t[24]; int k=0; t[k++]=2; t[k++]=kind; t[k++]=(char)('0'+(prec_>60?60:prec_)); t[k++]=(char)('A'+((fl&floatfield)>>3)); for(int i=0;i<16;i++) t[k++]=(char)('a'+((v>>(4*i))&15)); padded(t,(size_t)k); }
    void num(uint64_t mag, bool neg){ char t[68]; int k=68; unsigned base=(fl&hex)?16:(fl&oct)?8:10; do{ unsigned d=mag%base; t[--k]=(char)(d<10?'0'+d:((fl&uppercase)?'A':'a')+d-10); mag/=base; }while(mag); if((fl&showbase)&&base==16){ t[--k]='x'; t[--k]='0'; } if(neg) t[--k]='-'; else if((fl&showpos)&&base==10) t[--k]='+'; padded(t+k,(size_t)(68-k)); }
    void si(int64_t v, uint64_t u){ if(sink_) return; if(__sym_is_symbolic((uint64_t)v)) token((fl&hex)?'X':'I',(uint64_t)v); else if((fl&(hex|oct))) num(u,false); else num(v<0?0-(uint64_t)v:(uint64_t)v, v<0); }
    void ui(uint64_t v){ if(sink_) return; if(__sym_is_symbolic(v)) token((fl&hex)?'X':'U',v); else num(v,false); }
    basic_ostream& operator<<(bool v){ if(fl&boolalpha){ const char* s=v?"true":"false"; padded(s,strlen(s)); } else ui(v); return *this; }
    basic_ostream& operator<<(short v){ si(v,(unsigned short)v); return *this; } basic_ostream& operator<<(unsigned short v){ ui(v); return *this; }
    basic_ostream& operator<<(int v){ si(v,(unsigned)v); return *this; } basic_ostream& operator<<(unsigned v){ ui(v); return *this; }
    basic_ostream& operator<<(long v){ si(v,(unsigned long)v); return *this; } basic_ostream& operator<<(unsigned long v){ ui(v); return *this; }
    basic_ostream& operator<<(long long v){ si(v,(unsigned long long)v); return *this; } basic_ostream& operator<<(unsigned long long v){ ui(v); return *this; }
    basic_ostream& operator<<(double v){ uint64_t u; memcpy(&u,&v,8); token('D',u); return *this; } basic_ostream& operator<<(float v){ return *this<<(double)v; } basic_ostream& operator<<(long double v){ return *this<<(double)v; }
    basic_ostream& operator<<(const void* v){ ui((uint64_t)v); return *this; }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)){ return f(*this); } basic_ostream& operator<<(ios_base& (*f)(ios_base&)){ f(*this); return *this; } basic_ostream& operator<<(basic_ios<char>& (*f)(basic_ios<char>&)){ f(*this); return *this; }
    basic_ostream& put(char c){ raw(&c,1); return *this; } basic_ostream& write(const char* p, streamsize n){ raw(p,(size_t)n); return *this; } basic_ostream& flush(){ return *this; }
    streamoff tellp(){ return sb_?(streamoff)sb_->b.size():-1; }
    class sentry { public: explicit sentry(basic_ostream&){} explicit operator bool() const { return true; } };
  };
  template<> class basic_istream<char, char_traits<char> > : virtual public basic_ios<char, char_traits<char> > { public: typedef char char_type; typedef char_traits<char> traits_type;
    basic_istream() {} explicit basic_istream(basic_streambuf<char>* b){ sb_=b; }
    bool skip(){ while(sb_->rp<sb_->b.size()&&(sb_->b[sb_->rp]==' '||sb_->b[sb_->rp]=='\n'||sb_->b[sb_->rp]=='\t')) sb_->rp++; if(sb_->rp>=sb_->b.size()){ st_|=eofbit|failbit; return false; } return true; }
    bool rd(uint64_t& v){ if(!skip()) return false; std::string& b=sb_->b; size_t& r=sb_->rp; if(b[r]==2&&(b[r+1]=='I'||b[r+1]=='U'||b[r+1]=='D')){ v=0; for(int i=0;i<16;i++) v|=(uint64_t)(uint8_t)(b[r+4+i]-'a')<<(4*i); r+=20; return true; } bool n=false; if(b[r]=='-'){ n=true; r++; } if(r>=b.size()||b[r]<'0'||b[r]>'9'){ st_|=failbit; return false; } v=0; while(r<b.size()&&b[r]>='0'&&b[r]<='9') v=v*10+(uint64_t)(b[r++]-'0'); if(n) v=0-v; return true; }
    template<class T> basic_istream& rdi(T& t){ uint64_t v; if(rd(v)) t=(T)v; return *this; }
    basic_istream& operator>>(int& v){ return rdi(v); } basic_istream& operator>>(unsigned& v){ return rdi(v); } basic_istream& operator>>(long& v){ return rdi(v); } basic_istream& operator>>(unsigned long& v){ return rdi(v); } basic_istream& operator>>(long long& v){ return rdi(v); } basic_istream& operator>>(unsigned long long& v){ return rdi(v); } basic_istream& operator>>(short& v){ return rdi(v); } basic_istream& operator>>(unsigned short& v){ return rdi(v); }
    basic_istream& operator>>(double& v){ uint64_t u; if(rd(u)) memcpy(&v,&u,8); return *this; }
    int get(){ if(sb_->rp>=sb_->b.size()){ st_|=eofbit|failbit; return -1; } return (unsigned char)sb_->b[sb_->rp++]; } int peek(){ return sb_->rp>=sb_->b.size()?-1:(unsigned char)sb_->b[sb_->rp]; }
  };
  template<> class basic_iostream<char, char_traits<char> > : public basic_istream<char>, public basic_ostream<char> { public: basic_iostream() {} };
  inline basic_ostream<char>& operator<<(basic_ostream<char>& o, char c){ o.padded(&c,1); return o; } inline basic_ostream<char>& operator<<(basic_ostream<char>& o, signed char c){ char x=(char)c; o.padded(&x,1); return o; } inline basic_ostream<char>& operator<<(basic_ostream<char>& o, unsigned char c){ char x=(char)c; o.padded(&x,1); return o; }
  inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const char* s){ o.padded(s,strlen(s)); return o; }
  inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const std::string& s){ o.padded(s.data(),s.size()); return o; }
  inline basic_istream<char>& operator>>(basic_istream<char>& i, std::string& s){ if(!i.skip()) return i; s.clear(); auto*b=i.sb_; while(b->rp<b->b.size()&&b->b[b->rp]!=' '&&b->b[b->rp]!='\n') s.push_back(b->b[b->rp++]); return i; }
  inline basic_istream<char>& getline(basic_istream<char>& i, std::string& s, char d='\n'){ s.clear(); auto*b=i.sb_; if(b->rp>=b->b.size()){ i.st_|=ios_base::eofbit|ios_base::failbit; return i; } while(b->rp<b->b.size()){ char c=b->b[b->rp++]; if(c==d) return i; s.push_back(c); } return i; }
  inline basic_ostream<char>& endl(basic_ostream<char>& o){ return o.put('\n'); } inline basic_ostream<char>& flush(basic_ostream<char>& o){ return o; } inline basic_ostream<char>& ends(basic_ostream<char>& o){ return o.put(0); }
#define VM(n,f,m) inline ios_base& n(ios_base& b){ b.setf(ios_base::f,ios_base::m); return b; }
  VM(fixed,fixed,floatfield) VM(scientific,scientific,floatfield) VM(dec,dec,basefield) VM(hex,hex,basefield) VM(oct,oct,basefield) VM(left,left,adjustfield) VM(right,right,adjustfield) VM(internal,internal,adjustfield) VM(boolalpha,boolalpha,boolalpha) VM(uppercase,uppercase,uppercase) VM(showpoint,showpoint,showpoint)
#undef VM
  inline ios_base& showbase(ios_base& b){ b.setf(ios_base::showbase); return b; } inline ios_base& noshowbase(ios_base& b){ b.unsetf(ios_base::showbase); return b; } inline ios_base& showpos(ios_base& b){ b.setf(ios_base::showpos); return b; } inline ios_base& noshowpos(ios_base& b){ b.unsetf(ios_base::showpos); return b; } inline ios_base& noshowpoint(ios_base& b){ b.unsetf(ios_base::showpoint); return b; } inline ios_base& skipws(ios_base& b){ b.setf(ios_base::skipws); return b; } inline ios_base& noskipws(ios_base& b){ b.unsetf(ios_base::skipws); return b; } inline ios_base& unitbuf(ios_base& b){ return b; }
  inline ios_base& noboolalpha(ios_base& b){ b.unsetf(ios_base::boolalpha); return b; } inline ios_base& nouppercase(ios_base& b){ b.unsetf(ios_base::uppercase); return b; } inline ios_base& defaultfloat(ios_base& b){ b.unsetf(ios_base::floatfield); return b; }
  struct verif_sp { int v; }; struct verif_sw { int v; }; struct verif_sf { char v; };
  inline verif_sp setprecision(int n){ return verif_sp{n}; } inline verif_sw setw(int n){ return verif_sw{n}; } inline verif_sf setfill(char c){ return verif_sf{c}; }
  inline basic_ostream<char>& operator<<(basic_ostream<char>& o, verif_sp p){ o.precision(p.v); return o; } inline basic_ostream<char>& operator<<(basic_ostream<char>& o, verif_sw p){ o.width(p.v); return o; } inline basic_ostream<char>& operator<<(basic_ostream<char>& o, verif_sf p){ o.fill(p.v); return o; }
  template<> class basic_stringbuf<char, char_traits<char>, allocator<char> > : public basic_streambuf<char> { public: std::string str() const { return b; } void str(const std::string& s){ b=s; rp=0; } };
  template<> class basic_ostringstream<char, char_traits<char>, allocator<char> > : public basic_ostream<char> { basic_stringbuf<char> buf; public: basic_ostringstream(){ sb_=&buf; } explicit basic_ostringstream(unsigned){ sb_=&buf; } explicit basic_ostringstream(const std::string& s){ sb_=&buf; buf.str(s); } std::string str() const { return buf.b; } void str(const std::string& s){ buf.str(s); } };
  template<> class basic_istringstream<char, char_traits<char>, allocator<char> > : public basic_istream<char> { basic_stringbuf<char> buf; public: basic_istringstream(){ sb_=&buf; } explicit basic_istringstream(const std::string& s){ sb_=&buf; buf.str(s); } std::string str() const { return buf.b; } void str(const std::string& s){ buf.str(s); } };
  template<> class basic_stringstream<char, char_traits<char>, allocator<char> > : public basic_iostream<char> { basic_stringbuf<char> buf; public: basic_stringstream(){ sb_=&buf; } explicit basic_stringstream(const std::string& s){ sb_=&buf; buf.str(s); } std::string str() const { return buf.b; } void str(const std::string& s){ buf.str(s); } };
  // file output is recorded per name
  struct verif_files { std::string name[8]; std::string data[8]; int n=0; static verif_files& get(){ static verif_files f; return f; } };
  template<> class basic_ofstream<char, char_traits<char> > : public basic_ostream<char> { basic_stringbuf<char> buf; std::string name; bool op=false; public: basic_ofstream(){ sb_=&buf; } explicit basic_ofstream(const char* n, unsigned=2){ sb_=&buf; open(n); } explicit basic_ofstream(const std::string& n, unsigned=2){ sb_=&buf; open(n.c_str()); } void open(const char* n, unsigned=2){ name=n; op=true; } void open(const std::string& n, unsigned=2){ name=n; op=true; } bool is_open() const { return op; } void close(){ if(op){ auto&f=verif_files::get(); f.name[f.n]=name; f.data[f.n]=buf.b; f.n++; op=false; } } ~basic_ofstream(){ close(); } };
  template<> class basic_ifstream<char, char_traits<char> > : public basic_istream<char> { basic_stringbuf<char> buf; public: basic_ifstream(){ sb_=&buf; st_=failbit; } explicit basic_ifstream(const char*, unsigned=1){ sb_=&buf; st_=failbit; } bool is_open() const { return false; } void close(){} };
  inline ostream& verif_sink(){ static ostream o(true); return o; } inline istream& verif_nosrc(){ static basic_istringstream<char> i; return i; }
  // standard output: nothing in the code under test depends on it
  static ostream& cout=verif_sink(); static ostream& cerr=verif_sink(); static ostream& clog=verif_sink(); static istream& cin=verif_nosrc();
}
#endif
