// Environment for symbolic execution: out-of-line parts of the C and C++ runtime libraries that the
// code under test links against, written in plain C++ and executed symbolically like everything else.
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string.h>
#include <time.h>
#include <new>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <functional>
#include <map>
#include <list>
#include <vector>
#include <string>
#include <cerrno>
#include "sym.h"
// ---- exception classes: real definitions emitted here so vtables and type info exist
namespace std {
  exception::~exception() noexcept {}
  const char* exception::what() const noexcept { return "std::exception"; }
  bad_alloc::~bad_alloc() noexcept {}
  const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
  bad_array_new_length::~bad_array_new_length() noexcept {}
  const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
  bad_cast::~bad_cast() noexcept {}
  const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
}
static char* dupmsg(const char* s){ size_t n=strlen(s); char* p=(char*)::operator new(n+1); memcpy(p,s,n+1); return p; }
// __cow_string is a single pointer; we keep a private copy of the message in it
struct MsgRep { char* p; };
static_assert(sizeof(std::runtime_error)==16,"layout");
#define MSG(obj) (*(char**)((char*)(obj)+8))
#define DEF_STD_EXC(T,B) \
  T::T(const std::string& s) : B##_base_init { MSG(this)=dupmsg(s.c_str()); }
namespace std {
  struct __vmsg {};
#define EXC_ROOT(T) \
  T::T(const string& s) { MSG(this)=dupmsg(s.c_str()); } \
  T::T(const char* s) { MSG(this)=dupmsg(s); } \
  T::~T() noexcept {} \
  const char* T::what() const noexcept { return MSG(this); }
  // __cow_string members are trivial for us
  __cow_string::__cow_string() { _M_p=nullptr; }
  __cow_string::__cow_string(const string&) { _M_p=nullptr; }
  __cow_string::__cow_string(const char*, size_t) { _M_p=nullptr; }
  __cow_string::__cow_string(const __cow_string& o) noexcept { _M_p=o._M_p; }
  __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p=o._M_p; return *this; }
  __cow_string::~__cow_string() {}
  __cow_string::__cow_string(__cow_string&& o) noexcept { _M_p=o._M_p; }
  __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p=o._M_p; return *this; }
  EXC_ROOT(runtime_error)
  EXC_ROOT(logic_error)
  runtime_error::runtime_error(const runtime_error& o) noexcept { MSG(this)=MSG(&o); }
  runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { MSG(this)=MSG(&o); return *this; }
  runtime_error::runtime_error(runtime_error&& o) noexcept { MSG(this)=MSG(&o); }
  logic_error::logic_error(const logic_error& o) noexcept { MSG(this)=MSG(&o); }
  logic_error& logic_error::operator=(const logic_error& o) noexcept { MSG(this)=MSG(&o); return *this; }
  logic_error::logic_error(logic_error&& o) noexcept { MSG(this)=MSG(&o); }
#define EXC_SUB(T,B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
  EXC_SUB(range_error,runtime_error) EXC_SUB(overflow_error,runtime_error) EXC_SUB(underflow_error,runtime_error)
  EXC_SUB(length_error,logic_error) EXC_SUB(out_of_range,logic_error) EXC_SUB(invalid_argument,logic_error) EXC_SUB(domain_error,logic_error)
  void __throw_bad_alloc() { throw bad_alloc(); }
  void __throw_bad_array_new_length() { throw bad_array_new_length(); }
  void __throw_bad_cast() { throw bad_cast(); }
  void __throw_logic_error(const char* s) { throw logic_error(s); }
  void __throw_length_error(const char* s) { throw length_error(s); }
  void __throw_out_of_range(const char* s) { throw out_of_range(s); }
  void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
  void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
  void __throw_runtime_error(const char* s) { throw runtime_error(s); }
  void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
  void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { __builtin_trap(); }
  bool uncaught_exception() noexcept { return false; }
  int uncaught_exceptions() noexcept { return 0; }
  type_info::~type_info() {}
  bool type_info::__is_pointer_p() const { return false; }
  bool type_info::__is_function_p() const { return false; }

  // ---- red-black tree
  typedef _Rb_tree_node_base* NP;
  static NP rb_inc(NP x) noexcept { if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { NP y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
  static NP rb_dec(NP x) noexcept { if(x->_M_color==_S_red && x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ NP y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { NP y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return rb_inc(x); }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return rb_inc(const_cast<NP>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return rb_dec(x); }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return rb_dec(const_cast<NP>(x)); }
  static void rotl(NP x, NP& root){ NP y=x->_M_right; x->_M_right=y->_M_left; if(y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
  static void rotr(NP x, NP& root){ NP y=x->_M_left; x->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
  void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base& header) noexcept {
    NP& root=header._M_parent; x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
    if(left){ p->_M_left=x; if(p==&header){ header._M_parent=x; header._M_right=x; } else if(p==header._M_left) header._M_left=x; }
    else { p->_M_right=x; if(p==header._M_right) header._M_right=x; }
    while(x!=root && x->_M_parent->_M_color==_S_red){ NP const g=x->_M_parent->_M_parent;
      if(x->_M_parent==g->_M_left){ NP const y=g->_M_right; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; }
        else { if(x==x->_M_parent->_M_right){ x=x->_M_parent; rotl(x,root); } x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotr(g,root); } }
      else { NP const y=g->_M_left; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; }
        else { if(x==x->_M_parent->_M_left){ x=x->_M_parent; rotr(x,root); } x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotl(g,root); } } }
    root->_M_color=_S_black; }
  NP _Rb_tree_rebalance_for_erase(NP const z, _Rb_tree_node_base& header) noexcept {
    NP& root=header._M_parent; NP& leftmost=header._M_left; NP& rightmost=header._M_right; NP y=z; NP x=0; NP xp=0;
    if(y->_M_left==0) x=y->_M_right; else if(y->_M_right==0) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
    if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y;
      if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; { auto c=y->_M_color; y->_M_color=z->_M_color; z->_M_color=c; } y=z; }
    else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x;
      if(leftmost==z){ if(z->_M_right==0) leftmost=z->_M_parent; else { NP t=x; while(t->_M_left) t=t->_M_left; leftmost=t; } }
      if(rightmost==z){ if(z->_M_left==0) rightmost=z->_M_parent; else { NP t=x; while(t->_M_right) t=t->_M_right; rightmost=t; } } }
    if(y->_M_color!=_S_red){ while(x!=root&&(x==0||x->_M_color==_S_black))
      if(x==xp->_M_left){ NP w=xp->_M_right; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotl(xp,root); w=xp->_M_right; }
        if((w->_M_left==0||w->_M_left->_M_color==_S_black)&&(w->_M_right==0||w->_M_right->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
        else { if(w->_M_right==0||w->_M_right->_M_color==_S_black){ w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotr(w,root); w=xp->_M_right; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_right) w->_M_right->_M_color=_S_black; rotl(xp,root); break; } }
      else { NP w=xp->_M_left; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotr(xp,root); w=xp->_M_left; }
        if((w->_M_right==0||w->_M_right->_M_color==_S_black)&&(w->_M_left==0||w->_M_left->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
        else { if(w->_M_left==0||w->_M_left->_M_color==_S_black){ w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotl(w,root); w=xp->_M_left; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_left) w->_M_left->_M_color=_S_black; rotr(xp,root); break; } }
      if(x) x->_M_color=_S_black; }
    return y; }
  namespace __detail {
    void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if(x._M_next!=&x){ if(y._M_next!=&y){ _List_node_base* t=x._M_next; x._M_next=y._M_next; y._M_next=t; t=x._M_prev; x._M_prev=y._M_prev; y._M_prev=t; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
    void _List_node_base::_M_reverse() noexcept { _List_node_base* t=this; do { _List_node_base* n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=n; } while(t!=this); }
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t P[]={2,5,11,23,47,97,199,409,823,1741,3469,6949,14033,28411,57557,116731,236897,480881,976369,1982627,4026031}; for(size_t p : P) if(p>=n){ _M_next_resize=(size_t)((double)p*(double)_M_max_load_factor); return p; } __builtin_trap(); }
    pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if(ne+ni>_M_next_resize){ size_t want=(size_t)((double)(ne+ni)/(double)_M_max_load_factor)+1; if(want>nb) return make_pair(true,_M_next_bkt(want>nb*2?want:nb*2)); _M_next_resize=(size_t)((double)nb*(double)_M_max_load_factor); } return make_pair(false,(size_t)0); }
    void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next=p; this->_M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
    void _List_node_base::_M_unhook() noexcept { _List_node_base* const n=this->_M_next; _List_node_base* const p=this->_M_prev; p->_M_next=n; n->_M_prev=p; }
    void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; _List_node_base* const t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
  }
  size_t _Hash_bytes(const void* p, size_t n, size_t seed){ const unsigned char* c=(const unsigned char*)p; size_t h=seed; for(size_t i=0;i<n;i++) h=h*131+c[i]; return h; }
}
template class std::basic_string<char>;
