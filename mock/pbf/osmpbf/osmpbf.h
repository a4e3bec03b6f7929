// Stand-in for the generated protocol buffer classes of the OSM PBF format: the same accessors, plain containers,
// every index checked. A serialized message is a short text naming a stored copy. Size limits are scaled down.
#ifndef OSMPBF_H
#define OSMPBF_H
#include "sym.h"
#include <stdint.h>
#include <string>
#include <vector>
#include <deque>
#define GOOGLE_PROTOBUF_VERIFY_VERSION
#ifndef PB_MAXHEAD
#define PB_MAXHEAD 16
#endif
#ifndef PB_MAXBLOB
#define PB_MAXBLOB 64
#endif
namespace google { namespace protobuf { class MessageLite; inline void ShutdownProtobufLibrary(){} } }
enum { PB_MAX=40 };
static google::protobuf::MessageLite* pb_store[PB_MAX]; static int pb_n, pb_pad, pb_pads[PB_MAX]; static bool pb_anypad; static unsigned char pb_padb[PB_MAX]; static inline unsigned char pb_padbyte(int k){ return pb_anypad?pb_padb[k]:(unsigned char)'p'; } static int pb_bytes=10;
namespace google { namespace protobuf {
typedef int8_t int8; typedef uint8_t uint8; typedef int32_t int32; typedef uint32_t uint32; typedef int64_t int64; typedef uint64_t uint64;
class MessageLite { public: virtual ~MessageLite(){}
  virtual int pb_kind() const=0; virtual MessageLite* pb_clone() const=0; virtual void pb_assign(const MessageLite&)=0; virtual bool IsInitialized() const { return true; } virtual void Clear()=0;
  bool SerializeToString(std::string* s) const { sym_assert(IsInitialized(),"messages are complete when they are written"); sym_assert(pb_n<PB_MAX,"space for messages"); pb_store[pb_n]=pb_clone(); pb_pads[pb_n]=pb_pad; s->clear(); s->push_back((char)(0x40+pb_kind())); s->push_back((char)(0x21+pb_n)); for(int i=0;i<pb_pad;i++) s->push_back((char)pb_padbyte(pb_n)); pb_n++; return true; }
  std::string SerializeAsString() const { std::string s; SerializeToString(&s); return s; }
  bool SerializePartialToString(std::string* s) const { return SerializeToString(s); }
  bool ParseFromArray(const void* d,int len){ const unsigned char* b=(const unsigned char*)d; Clear(); if(len<2) return false; if(b[0]!=0x40+pb_kind()) return false; int k=b[1]-0x21; if(k<0||k>=pb_n||pb_store[k]->pb_kind()!=pb_kind()) return false; if(len!=2+pb_pads[k]) return false; for(int i=0;i<pb_pads[k];i++) if(b[2+i]!=pb_padbyte(k)) return false; pb_assign(*pb_store[k]); return IsInitialized(); }
  bool ParseFromString(const std::string& s){ return ParseFromArray(s.data(),(int)s.size()); }
  int ByteSize() const { return pb_bytes; } size_t ByteSizeLong() const { return pb_bytes; } };
template<class C> static inline auto& pb_at(C& v,int i){ sym_assert(i>=0&&i<(int)v.size(),"element exists in the message"); if(__sym_isconc((uint64_t)(int64_t)i)) return v[i>=0&&i<(int)v.size()?i:0]; int n=(int)v.size(); for(int k=0;k<n-1;k++) if(i==k) return v[k]; return v[n-1]; }
template<class T> class RepeatedField { public: std::vector<T> v; int size() const { return (int)v.size(); } bool empty() const { return v.empty(); } T Get(int i) const { return pb_at(v,i); } T operator[](int i) const { return pb_at(v,i); } void Set(int i,T x){ pb_at(v,i)=x; } void Add(T x){ v.push_back(x); } void Clear(){ v.clear(); } void Reserve(int n){ v.reserve(n); } typedef typename std::vector<T>::const_iterator const_iterator; const_iterator begin() const { return v.begin(); } const_iterator end() const { return v.end(); } };
template<class T> class RepeatedPtrField { public: std::deque<T> v; int size() const { return (int)v.size(); } bool empty() const { return v.empty(); } const T& Get(int i) const { return pb_at(v,i); } const T& operator[](int i) const { return pb_at(v,i); } T* Mutable(int i){ return &pb_at(v,i); } T* Add(){ v.push_back(T()); return &v.back(); } void Clear(){ v.clear(); } void Reserve(int){} typedef typename std::deque<T>::const_iterator const_iterator; const_iterator begin() const { return v.begin(); } const_iterator end() const { return v.end(); } };
} }
namespace OSMPBF {
using google::protobuf::RepeatedField; using google::protobuf::RepeatedPtrField; using google::protobuf::MessageLite;
const int max_blob_header_size=PB_MAXHEAD; const int max_uncompressed_blob_size=PB_MAXBLOB; const int lonlat_resolution=1000*1000*1000;
template<class T> struct PbOpt { bool h; T x; PbOpt():h(false),x(){} };
#define PBOPT(T,n,d) public: bool n##_h_; T n##_x_; bool has_##n() const { return n##_h_; } T n() const { return n##_h_?n##_x_:(T)(d); } void set_##n(T v){ n##_h_=true; n##_x_=v; } void clear_##n(){ n##_h_=false; }
#define PBSTR(n) public: bool n##_h_; std::string n##_x_; bool has_##n() const { return n##_h_; } const std::string& n() const { return n##_x_; } void set_##n(const std::string& v){ pb_set_##n(); n##_h_=true; n##_x_=v; } void set_##n(const char* v){ pb_set_##n(); n##_h_=true; n##_x_=v; } void set_##n(const void* v,size_t l){ pb_set_##n(); n##_h_=true; n##_x_.assign((const char*)v,l); } std::string* mutable_##n(){ pb_set_##n(); n##_h_=true; return &n##_x_; } void clear_##n(){ n##_h_=false; n##_x_.clear(); }
#define PBREP(T,n) public: RepeatedField<T> n##_r_; int n##_size() const { return n##_r_.size(); } T n(int i) const { return n##_r_.Get(i); } void set_##n(int i,T v){ n##_r_.Set(i,v); } void add_##n(T v){ n##_r_.Add(v); } const RepeatedField<T>& n() const { return n##_r_; } RepeatedField<T>* mutable_##n(){ return &n##_r_; } void clear_##n(){ n##_r_.Clear(); }
#define PBREPS(n) public: RepeatedPtrField<std::string> n##_r_; int n##_size() const { return n##_r_.size(); } const std::string& n(int i) const { return n##_r_.Get(i); } void set_##n(int i,const std::string& v){ *n##_r_.Mutable(i)=v; } void add_##n(const std::string& v){ *n##_r_.Add()=v; } void add_##n(const void* v,size_t l){ n##_r_.Add()->assign((const char*)v,l); } std::string* add_##n(){ return n##_r_.Add(); } std::string* mutable_##n(int i){ return n##_r_.Mutable(i); } const RepeatedPtrField<std::string>& n() const { return n##_r_; } RepeatedPtrField<std::string>* mutable_##n(){ return &n##_r_; } void clear_##n(){ n##_r_.Clear(); }
#define PBMSG(T,n) public: bool n##_h_; T n##_x_; bool has_##n() const { return n##_h_; } const T& n() const { return n##_x_; } T* mutable_##n(){ n##_h_=true; return &n##_x_; } void clear_##n(){ n##_h_=false; n##_x_.Clear(); }
#define PBREPM(T,n) public: RepeatedPtrField<T> n##_r_; int n##_size() const { return n##_r_.size(); } const T& n(int i) const { return n##_r_.Get(i); } T* mutable_##n(int i){ return n##_r_.Mutable(i); } T* add_##n(){ return n##_r_.Add(); } const RepeatedPtrField<T>& n() const { return n##_r_; } RepeatedPtrField<T>* mutable_##n(){ return &n##_r_; } void clear_##n(){ n##_r_.Clear(); }
#define PBKIND(C,k) public: int pb_kind() const { return k; } MessageLite* pb_clone() const { return new C(*this); } void pb_assign(const MessageLite& m){ *this=static_cast<const C&>(m); } void CopyFrom(const C& m){ *this=m; } void Clear(){ *this=C(); }
class BlobHeader : public MessageLite { void pb_set_type(){} void pb_set_indexdata(){} PBKIND(BlobHeader,1) PBSTR(type) PBSTR(indexdata) PBOPT(int32_t,datasize,0) BlobHeader():type_h_(false),indexdata_h_(false),datasize_h_(false),datasize_x_(0){} bool IsInitialized() const { return type_h_&&datasize_h_; } };
class Blob : public MessageLite { void one(){ raw_h_=zlib_data_h_=lzma_data_h_=false; } void pb_set_raw(){ if(!raw_h_){ one(); raw_x_.clear(); } } void pb_set_zlib_data(){ if(!zlib_data_h_){ one(); zlib_data_x_.clear(); } } void pb_set_lzma_data(){ if(!lzma_data_h_){ one(); lzma_data_x_.clear(); } } PBKIND(Blob,2) PBSTR(raw) PBOPT(int32_t,raw_size,0) PBSTR(zlib_data) PBSTR(lzma_data) Blob():raw_h_(false),raw_size_h_(false),raw_size_x_(0),zlib_data_h_(false),lzma_data_h_(false){} };
class HeaderBBox : public MessageLite { PBKIND(HeaderBBox,3) PBOPT(int64_t,left,0) PBOPT(int64_t,right,0) PBOPT(int64_t,top,0) PBOPT(int64_t,bottom,0) HeaderBBox():left_h_(false),right_h_(false),top_h_(false),bottom_h_(false){} bool IsInitialized() const { return left_h_&&right_h_&&top_h_&&bottom_h_; } };
class HeaderBlock : public MessageLite { void pb_set_writingprogram(){} void pb_set_source(){} PBKIND(HeaderBlock,4) PBMSG(HeaderBBox,bbox) PBREPS(required_features) PBREPS(optional_features) PBSTR(writingprogram) PBSTR(source) HeaderBlock():bbox_h_(false),writingprogram_h_(false),source_h_(false){} bool IsInitialized() const { return !bbox_h_||bbox_x_.IsInitialized(); } };
class StringTable : public MessageLite { PBKIND(StringTable,5) PBREPS(s) StringTable(){} };
class Info : public MessageLite { PBKIND(Info,6) PBOPT(int32_t,version,-1) PBOPT(int64_t,timestamp,0) PBOPT(int64_t,changeset,0) PBOPT(int32_t,uid,0) PBOPT(uint32_t,user_sid,0) PBOPT(bool,visible,false) Info():version_h_(false),timestamp_h_(false),changeset_h_(false),uid_h_(false),user_sid_h_(false),visible_h_(false){} };
class DenseInfo : public MessageLite { PBKIND(DenseInfo,7) PBREP(int32_t,version) PBREP(int64_t,timestamp) PBREP(int64_t,changeset) PBREP(int32_t,uid) PBREP(int32_t,user_sid) public: std::vector<unsigned char> vis_; int visible_size() const { return (int)vis_.size(); } bool visible(int i) const { return google::protobuf::pb_at(vis_,i)!=0; } void add_visible(bool b){ vis_.push_back(b); } void set_visible(int i,bool b){ google::protobuf::pb_at(vis_,i)=b; } void clear_visible(){ vis_.clear(); } DenseInfo(){} };
class DenseNodes : public MessageLite { PBKIND(DenseNodes,8) PBREP(int64_t,id) PBMSG(DenseInfo,denseinfo) PBREP(int64_t,lat) PBREP(int64_t,lon) PBREP(int32_t,keys_vals) DenseNodes():denseinfo_h_(false){} };
class Node : public MessageLite { PBKIND(Node,9) PBOPT(int64_t,id,0) PBREP(uint32_t,keys) PBREP(uint32_t,vals) PBMSG(Info,info) PBOPT(int64_t,lat,0) PBOPT(int64_t,lon,0) Node():id_h_(false),info_h_(false),lat_h_(false),lon_h_(false){} bool IsInitialized() const { return id_h_&&lat_h_&&lon_h_; } };
class Way : public MessageLite { PBKIND(Way,10) PBOPT(int64_t,id,0) PBREP(uint32_t,keys) PBREP(uint32_t,vals) PBMSG(Info,info) PBREP(int64_t,refs) Way():id_h_(false),info_h_(false){} bool IsInitialized() const { return id_h_; } };
enum Relation_MemberType { Relation_MemberType_NODE=0, Relation_MemberType_WAY=1, Relation_MemberType_RELATION=2 };
class Relation : public MessageLite { public: typedef Relation_MemberType MemberType; static const MemberType NODE=Relation_MemberType_NODE, WAY=Relation_MemberType_WAY, RELATION=Relation_MemberType_RELATION; PBKIND(Relation,11) PBOPT(int64_t,id,0) PBREP(uint32_t,keys) PBREP(uint32_t,vals) PBMSG(Info,info) PBREP(int32_t,roles_sid) PBREP(int64_t,memids) PBREP(Relation_MemberType,types) Relation():id_h_(false),info_h_(false){} bool IsInitialized() const { return id_h_; } };
class PrimitiveGroup : public MessageLite { PBKIND(PrimitiveGroup,12) PBREPM(Node,nodes) PBMSG(DenseNodes,dense) PBREPM(Way,ways) PBREPM(Relation,relations) PrimitiveGroup():dense_h_(false){} bool IsInitialized() const { for(int i=0;i<nodes_size();i++) if(!nodes(i).IsInitialized()) return false; for(int i=0;i<ways_size();i++) if(!ways(i).IsInitialized()) return false; for(int i=0;i<relations_size();i++) if(!relations(i).IsInitialized()) return false; return true; } };
class PrimitiveBlock : public MessageLite { PBKIND(PrimitiveBlock,13) PBMSG(StringTable,stringtable) PBREPM(PrimitiveGroup,primitivegroup) PBOPT(int32_t,granularity,100) PBOPT(int64_t,lat_offset,0) PBOPT(int64_t,lon_offset,0) PBOPT(int32_t,date_granularity,1000) PrimitiveBlock():stringtable_h_(false),granularity_h_(false),lat_offset_h_(false),lon_offset_h_(false),date_granularity_h_(false){} bool IsInitialized() const { if(!stringtable_h_) return false; for(int i=0;i<primitivegroup_size();i++) if(!primitivegroup(i).IsInitialized()) return false; return true; } };
#undef PBOPT
#undef PBSTR
#undef PBREP
#undef PBREPS
#undef PBMSG
#undef PBREPM
#undef PBKIND
}
#endif
