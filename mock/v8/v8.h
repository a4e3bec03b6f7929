// The part of the V8 interface (version 3) the bindings use. Values are plain objects; a script is what
// the harness does with vj_get and friends. Values are collected only when the harness says so.
#ifndef VERIF_V8_H
#define VERIF_V8_H
#include "sym.h"
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <unicode/ustring.h>
namespace v8 {
  class Value; class String; class Object; class Array; class Boolean; class Number; class Function; class External; class ObjectTemplate;
  template<class T> class Handle { protected: T* p; public: Handle() : p(0) {} explicit Handle(T* q) : p(q) {} template<class S> Handle(const Handle<S>& o) : p(*o) {} T* operator->() const { return p; } T* operator*() const { return p; } bool IsEmpty() const { return p==0; } void Clear(){ p=0; } template<class S> static Handle<T> Cast(const Handle<S>& o){ return Handle<T>(static_cast<T*>(*o)); } };
  template<class T> class Local : public Handle<T> { public: Local() {} explicit Local(T* q) : Handle<T>(q) {} template<class S> Local(const Local<S>& o) : Handle<T>(*o) {} static Local<T> New(const Handle<T>& o){ return Local<T>(*o); } template<class S> static Local<T> Cast(const Local<S>& o){ return Local<T>(static_cast<T*>(*o)); } };
  template<class T> class Persistent; typedef void (*WeakReferenceCallback)(Persistent<Value>,void*);
  struct VjWeak { Value* v; void* data; WeakReferenceCallback cb; }; static std::vector<VjWeak>& vj_weak(){ static std::vector<VjWeak>* w=new std::vector<VjWeak>; return *w; } static int vj_disposed=0;
  template<class T> class Persistent : public Handle<T> { public: Persistent() {} explicit Persistent(T* q) : Handle<T>(q) {} template<class S> Persistent(const Persistent<S>& o) : Handle<T>(*o) {} static Persistent<T> New(const Handle<T>& o){ return Persistent<T>(*o); } void MakeWeak(void* data,WeakReferenceCallback cb){ VjWeak w={this->p,data,cb}; vj_weak().push_back(w); } void Dispose(){ vj_disposed++; } };
  struct HandleScope { template<class T> Local<T> Close(const Handle<T>& h){ return Local<T>(*h); } };
  class Data { public: virtual ~Data(){} };
  class Value : public Data { public: virtual bool IsUndefined() const { return false; } virtual bool IsNull() const { return false; } virtual bool IsFunction() const { return false; } virtual int32_t Int32Value() const { return 0; } virtual bool truth() const { return true; } virtual std::string latin() const { return ""; } virtual bool text() const { return false; } Local<String> ToString(); Local<Boolean> ToBoolean(); Local<Object> ToObject(); };
  class Undef : public Value { public: bool IsUndefined() const { return true; } bool truth() const { return false; } }; class Nul : public Value { public: bool IsNull() const { return true; } bool truth() const { return false; } }; static inline Handle<Value> Null(){ return Handle<Value>(new Nul); } static inline Handle<Value> Undefined(){ return Handle<Value>(new Undef); }
  class Boolean : public Value { bool b; public: Boolean(bool x) : b(x) {} bool Value() const { return b; } bool truth() const { return b; } std::string latin() const { return b?"true":"false"; } static Handle<Boolean> New(bool b){ return Handle<Boolean>(new Boolean(b)); } };
  class Number : public Value { double d; public: Number(double x) : d(x) {} double Value() const { return d; } int32_t Int32Value() const { return (int32_t)d; } bool truth() const { return d!=0; } static Local<Number> New(double d){ return Local<Number>(new Number(d)); } };
  class Integer : public Number { public: Integer(int64_t x) : Number((double)x) {} static Local<Integer> New(int32_t i){ return Local<Integer>(new Integer(i)); } static Local<Integer> NewFromUnsigned(uint32_t i){ return Local<Integer>(new Integer(i)); } };
  class External : public Value { void* v; public: External(void* x) : v(x) {} void* Value() const { return v; } static Local<External> New(void* x){ return Local<External>(new External(x)); } };
  class VjText; class String : public Value { public: typedef VjText Utf8Value; typedef VjText AsciiValue; std::vector<uint16_t> u; bool text() const { return true; } int Length() const { return (int)u.size(); } bool truth() const { return !u.empty(); }
    static Local<String> New(const uint16_t* s,int n=-1){ String* r=new String; if(n<0) for(n=0;s[n];n++) {} for(int i=0;i<n;i++) r->u.push_back(s[i]); return Local<String>(r); }
    static Local<String> New(const char* s,int n=-1){ String* r=new String; for(int i=0;n<0?s[i]!=0:i<n;i++) r->u.push_back((unsigned char)s[i]); return Local<String>(r); } static Local<String> NewSymbol(const char* s,int n=-1){ return New(s,n); }
    int Write(uint16_t* b,int start=0,int len=-1,int=0) const { int n=0; for(int i=start;i<(int)u.size()&&(len<0||n<len);i++) b[n++]=u[i]; if(len<0||n<len) b[n]=0; return n; }
    std::string latin() const { std::string s; for(size_t i=0;i<u.size();i++) s.push_back((char)u[i]); return s; } };
  class VjText { std::string s; public: explicit VjText(const Handle<Value>& v) { String* t=*v->ToString(); for(size_t i=0;i<t->u.size();){ uint32_t c=t->u[i++]; if(c>=0xd800&&c<0xdc00&&i<t->u.size()){ c=0x10000+((c-0xd800)<<10)+(t->u[i++]-0xdc00u); } if(c<0x80) s.push_back((char)c); else if(c<0x800){ s.push_back((char)(0xc0|c>>6)); s.push_back((char)(0x80|(c&63))); } else if(c<0x10000){ s.push_back((char)(0xe0|c>>12)); s.push_back((char)(0x80|((c>>6)&63))); s.push_back((char)(0x80|(c&63))); } else { s.push_back((char)(0xf0|c>>18)); s.push_back((char)(0x80|((c>>12)&63))); s.push_back((char)(0x80|((c>>6)&63))); s.push_back((char)(0x80|(c&63))); } } } const char* operator*() const { return s.c_str(); } int length() const { return (int)s.size(); } };
  class AccessorInfo { Object* o; public: AccessorInfo(Object* x) : o(x) {} Local<Object> Holder() const { return Local<Object>(o); } Local<Object> This() const { return Local<Object>(o); } };
  class Arguments { Object* o; std::vector<Value*> a; public: Arguments(Object* x) : o(x) {} void add(Value* v){ a.push_back(v); } int Length() const { return (int)a.size(); } Local<Value> operator[](int i) const { return i<0||i>=(int)a.size()?Local<Value>(new Undef):Local<Value>(a[i]); } Local<Object> Holder() const { return Local<Object>(o); } Local<Object> This() const { return Local<Object>(o); } };
  typedef Handle<Value> (*InvocationCallback)(const Arguments&); typedef Handle<Value> (*AccessorGetter)(Local<String>,const AccessorInfo&); typedef void (*AccessorSetter)(Local<String>,Local<Value>,const AccessorInfo&);
  typedef Handle<Value> (*NamedPropertyGetter)(Local<String>,const AccessorInfo&); typedef Handle<Value> (*NamedPropertySetter)(Local<String>,Local<Value>,const AccessorInfo&); typedef Handle<Integer> (*NamedPropertyQuery)(Local<String>,const AccessorInfo&); typedef Handle<Boolean> (*NamedPropertyDeleter)(Local<String>,const AccessorInfo&); typedef Handle<Array> (*NamedPropertyEnumerator)(const AccessorInfo&);
  typedef Handle<Value> (*IndexedPropertyGetter)(uint32_t,const AccessorInfo&); typedef Handle<Value> (*IndexedPropertySetter)(uint32_t,Local<Value>,const AccessorInfo&); typedef Handle<Integer> (*IndexedPropertyQuery)(uint32_t,const AccessorInfo&); typedef Handle<Boolean> (*IndexedPropertyDeleter)(uint32_t,const AccessorInfo&); typedef Handle<Array> (*IndexedPropertyEnumerator)(const AccessorInfo&);
  class FunctionTemplate : public Data { public: InvocationCallback f; static Local<FunctionTemplate> New(InvocationCallback f){ FunctionTemplate* t=new FunctionTemplate; t->f=f; return Local<FunctionTemplate>(t); } };
  class ObjectTemplate : public Data { public: int fields; std::map<std::string,AccessorGetter> acc; std::map<std::string,Data*> props; NamedPropertyGetter named; NamedPropertyEnumerator namedenum; IndexedPropertyGetter indexed; IndexedPropertyEnumerator indexedenum; ObjectTemplate() : fields(0), named(0), namedenum(0), indexed(0), indexedenum(0) {}
    static Local<ObjectTemplate> New(){ return Local<ObjectTemplate>(new ObjectTemplate); } void SetInternalFieldCount(int n){ fields=n; } void SetAccessor(const Handle<String>& n,AccessorGetter g,AccessorSetter=0){ acc[n->latin()]=g; } template<class D> void Set(const char* n,const Handle<D>& d){ props[n]=*d; } template<class D> void Set(const Handle<String>& n,const Handle<D>& d){ props[n->latin()]=*d; }
    void SetNamedPropertyHandler(NamedPropertyGetter g,NamedPropertySetter=0,NamedPropertyQuery=0,NamedPropertyDeleter=0,NamedPropertyEnumerator e=0){ named=g; namedenum=e; } void SetIndexedPropertyHandler(IndexedPropertyGetter g,IndexedPropertySetter=0,IndexedPropertyQuery=0,IndexedPropertyDeleter=0,IndexedPropertyEnumerator e=0){ indexed=g; indexedenum=e; } Local<Object> NewInstance(); };
  class Object : public Value { public: bool HasRealNamedProperty(const Handle<String>& n) const { return own.count(n->latin())!=0; } Local<Value> GetRealNamedProperty(const Handle<String>& n){ return Get(n); } ObjectTemplate* t; std::vector<Value*> field; std::map<std::string,Value*> own; Object() : t(0) {} void SetInternalField(int i,const Handle<Value>& v){ sym_assert(i>=0&&i<(int)field.size(),"internal field exists"); field[i]=*v; } Local<Value> GetInternalField(int i) const { sym_assert(i>=0&&i<(int)field.size()&&field[i],"internal field is set"); return Local<Value>(field[i]); } bool Set(const Handle<String>& n,const Handle<Value>& v){ own[n->latin()]=*v; return true; } Local<Value> Get(const Handle<String>& n){ std::map<std::string,Value*>::iterator i=own.find(n->latin()); return i==own.end()?Local<Value>(new Undef):Local<Value>(i->second); } };
  inline Local<Object> ObjectTemplate::NewInstance(){ Object* o=new Object; o->t=this; o->field.resize(fields); return Local<Object>(o); }
  class Array : public Object { public: std::vector<Value*> v; int asked; static Local<Array> New(int n=0){ Array* a=new Array; a->asked=n; return Local<Array>(a); } bool Set(uint32_t i,const Handle<Value>& x){ sym_assert(i<64,"index of an array"); if(v.size()<=i) v.resize(i+1); v[i]=*x; return true; } uint32_t Length() const { return (uint32_t)(v.size()<(size_t)asked?asked:v.size()); } Local<Value> Get(uint32_t i) const { return i<v.size()&&v[i]?Local<Value>(v[i]):Local<Value>(new Undef); } };
  class Function : public Object { public: int id; Function(int i) : id(i) {} bool IsFunction() const { return true; } Local<Value> Call(const Handle<Object>& recv,int n,Handle<Value>*); };
  class Message { public: Handle<Value> GetScriptResourceName() const { return String::New(""); } int GetLineNumber() const { return 0; } Handle<String> GetSourceLine() const { return String::New(""); } int GetStartColumn() const { return 0; } int GetEndColumn() const { return 0; } };
  class TryCatch { public: Local<Value> Exception() const { return String::New(""); } Handle<v8::Message> Message() const { return Handle<v8::Message>(); } };
  class Context : public Data {}; struct V8 { static bool IdleNotification(){ return true; } };
  class Script : public Data { public: std::string text; static Local<Script> Compile(const Handle<String>& s,const Handle<Value>& =Handle<Value>()){ Script* r=new Script; r->text=s->latin(); return Local<Script>(r); } Local<Value> Run(); };
  inline Local<String> Value::ToString(){ return text()?Local<String>(static_cast<String*>(this)):String::New(latin().c_str()); } inline Local<Boolean> Value::ToBoolean(){ return Local<Boolean>(new Boolean(truth())); } inline Local<Object> Value::ToObject(){ return Local<Object>(static_cast<Object*>(this)); }
}
// what the harness does when a script runs or a function of a script is called
static v8::Object* vj_osmium=0; static void (*vj_script)(const std::string&)=0; static void (*vj_called)(int,v8::Value*)=0;
inline v8::Local<v8::Value> v8::Script::Run(){ if(text.compare(0,8,"Osmium =")==0){ vj_osmium=new v8::Object; vj_osmium->own["Callbacks"]=new v8::Object; vj_osmium->own["Output"]=new v8::Object; return v8::Local<v8::Value>(vj_osmium); } if(vj_script) vj_script(text); return v8::Local<v8::Value>(new v8::Undef); }
inline v8::Local<v8::Value> v8::Function::Call(const v8::Handle<v8::Object>& recv,int n,v8::Handle<v8::Value>*){ sym_assert(n==0,"number of arguments"); if(vj_called) vj_called(id,*recv); return v8::Local<v8::Value>(new v8::Undef); }
// what a script would do
static v8::Value* vj_prop(v8::Value* v,const char* n){ v8::Object* o=static_cast<v8::Object*>(v); sym_assert(o&&o->t&&o->t->acc.count(n)==1,"the property exists"); v8::AccessorInfo i(o); return *o->t->acc[n](v8::String::New(n),i); }
static bool vj_has(v8::Value* v,const char* n){ v8::Object* o=static_cast<v8::Object*>(v); return o->t->acc.count(n)==1; }
static v8::Value* vj_named(v8::Value* v,v8::String* n){ v8::Object* o=static_cast<v8::Object*>(v); v8::AccessorInfo i(o); return *o->t->named(v8::Local<v8::String>(n),i); }
static v8::Array* vj_names(v8::Value* v){ v8::Object* o=static_cast<v8::Object*>(v); v8::AccessorInfo i(o); return *o->t->namedenum(i); }
static v8::Value* vj_index(v8::Value* v,uint32_t n){ v8::Object* o=static_cast<v8::Object*>(v); v8::AccessorInfo i(o); return *o->t->indexed(n,i); }
static v8::Array* vj_indexes(v8::Value* v){ v8::Object* o=static_cast<v8::Object*>(v); v8::AccessorInfo i(o); return *o->t->indexedenum(i); }
static v8::Value* vj_call(v8::Value* v,const char* n,v8::Value* arg=0){ v8::Object* o=static_cast<v8::Object*>(v); sym_assert(o->t->props.count(n)==1,"the method exists"); v8::Arguments a(o); if(arg) a.add(arg); return *static_cast<v8::FunctionTemplate*>(o->t->props[n])->f(a); }
static double vj_num(v8::Value* v){ return static_cast<v8::Number*>(v)->Value(); } static bool vj_bool(v8::Value* v){ return static_cast<v8::Boolean*>(v)->Value(); }
static v8::Array* vj_arr(v8::Value* v){ return static_cast<v8::Array*>(v); } static v8::String* vj_str(v8::Value* v){ return static_cast<v8::String*>(v); }
static int vj_collect(){ std::vector<v8::VjWeak> w; w.swap(v8::vj_weak()); for(size_t i=0;i<w.size();i++) w[i].cb(v8::Persistent<v8::Value>(w[i].v),w[i].data); return (int)w.size(); }
#endif
