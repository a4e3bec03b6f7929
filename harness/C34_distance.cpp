//@ bounds: all pairs of positions with longitudes from -180 to 180 and latitudes from -90 to 90 degrees, identical or not; node lists of 0 to 3 nodes; 12 pairs of known points with all positions within 0.01 degrees of them; the functions sin, cos, asin and sqrt of the C library are any functions with sin(-x)=-sin(x), sin(0)=0, |sin|<=1, |cos|<=1, cos>=0 up to a quarter turn, sqrt and asin from 0..1 to 0..1 and 0..pi/2 with 0 for 0 and no number outside of their domain; where the range of an argument is known, the result lies between the true values at its ends
//@ reach: pair,same,list0,list1,list2,list3,known
#include "sym.h"
#include <cmath>
#include <string.h>
#include <osmium/osm/way.hpp>
static uint64_t bitsof(double d){ uint64_t u; memcpy(&u,&d,8); return u; } static double ofbits(uint64_t u){ double d; memcpy(&d,&u,8); return d; }
// a function on doubles as a table of the arguments seen so far; equal arguments give equal results
struct Fn { double a[40], r[40]; int n; double at(const char* nm,double x,double lo,double hi){ uint64_t v=sym_u64(nm,bitsof(lo),bitsof(hi)), k=bitsof(x); for(int i=0;i<n;i++){ bool e=k==bitsof(a[i]); if(__sym_isconc(e)&&e) return r[i]; } for(int i=n;i--;){ uint64_t t=bitsof(r[i]), m=bitsof(a[i]); v=k==m?t:v; } double d=ofbits(v); if(n<40){ a[n]=x; r[n]=d; n++; } return d; } };
static Fn q_sin, q_sing, q_cosp, q_cos, q_sqrt, q_sqrtb, q_asin; static const double PI2=1.5707963267948968, BIG=1e150; static double nan_(){ return ofbits(0x7ff8000000000000ull); }
static double neg(bool c,double v){ double m=-v; return c?m:v; }
// the values at the ends of the range of the argument bound the value of a monotone function
static double tsin(double x){ double t=x,s=x; for(int i=1;i<16;i++){ t=-t*x*x/((2*i)*(2*i+1)); s+=t; } return s; }
static double clamp(double v,double lo,double hi){ return v<lo?lo:v>hi?hi:v; }
static double inverse(double y,bool square){ double l=0,h=square?BIG:PI2; if(square&&y<=1) h=1; for(int i=0;i<80;i++){ double m=l+(h-l)/2; if((square?m*m:tsin(m))<y) l=m; else h=m; } return l; }
static const double E=1e-9; static double low(double x){ return ofbits(__sym_flo(bitsof(x))); } static double high(double x){ return ofbits(__sym_fhi(bitsof(x))); }
static double zero(double x,double v){ if(low(x)>0) return v; return (bitsof(x)<<1)?v:0.0; } // f(0)=0
static double vm_sin(double x){ double m=fabs(x), l=low(m), h=high(m), a=0, b=1; if(h<=2*PI2){ double p=tsin(l<PI2?l:2*PI2-l), q=tsin(h<PI2?h:2*PI2-h); a=p<q?p:q; b=l<=PI2&&h>=PI2?1:p<q?q:p; } double s=zero(m,q_sin.at("sine",m,clamp(a-E,0,1),clamp(b+E,0,1))), g=q_sing.at("sine positive",m,0,1); return neg(((m>=3.1415926)&(g<0.5))!=(x<0),s); }
static double vm_cos(double x){ double m=fabs(x), l=low(m), h=high(m), a=0, b=1; if(h<=PI2){ a=tsin(PI2-h); b=tsin(PI2-l); } double c=q_cos.at("cosine",m,clamp(a-E,0,1),clamp(b+E,0,1)), g=q_cosp.at("cosine positive",m,0,1); return neg((m>1.5707963267948966)&(g<0.5),c); }
static double vm_sqrt(double x){ if(!(x>=0)) return nan_(); double a=inverse(low(x),true), b=inverse(high(x),true); if(x<=1) return zero(x,q_sqrt.at("square root",x,clamp(a-E,0,1),clamp(b+E,0,1))); return q_sqrtb.at("square root",x,1,BIG); }
static double vm_asin(double x){ double m=fabs(x); if(!(m<=1)) return nan_(); double a=inverse(low(m),false), b=inverse(high(m),false); return neg(x<0,zero(m,q_asin.at("arc sine",m,clamp(a-E,0,PI2),clamp(b+E,0,PI2)))); }
static double vm_atan2(double y,double x){ if(!(y>=0&&x>=0)) return nan_(); double h=y*y+x*x; if(!(h>0)) return 0; return vm_asin(y<1?y:1.0); } // only used for sines and cosines of one angle in the first quadrant
static double vm_pow(double x,double e){ int n=(int)e; if(n==e&&n>=0&&n<8){ if(!n) return 1; double r=x; for(int i=1;i<n;i++) r*=x; return r; } return e==0.5?vm_sqrt(x):nan_(); }
static double vm_hypot(double x,double y){ return vm_sqrt(x*x+y*y); }
namespace std { using ::vm_pow; using ::vm_hypot; using ::vm_sin; using ::vm_cos; using ::vm_sqrt; using ::vm_asin; using ::vm_atan2; }
#define sin vm_sin
#define cos vm_cos
#define sqrt vm_sqrt
#define asin vm_asin
#define atan2 vm_atan2
#define pow vm_pow
#define hypot vm_hypot
#include <osmium/geometry/haversine.hpp>
using namespace Osmium::OSM; namespace H=Osmium::Geometry::Haversine;
static void good(double d,int n=1){ sym_assert(d==d,"the distance is a number"); sym_assert(d>=0,"the distance is not negative"); sym_assert(d<20020800.0*n,"the distance is at most half the circumference"); }
// positions near two known points: the distance is about the one between these points
static const double KNOWN[][5]={{0,0,900000000,0,10010367},{130000000,0,130000000,800000000,8898104},{80000000,500000000,85000000,500000000,35747},{80000000,500000000,80000000,505000000,55613},{-740000000,400000000,1390000000,350000000,11018820},{1700000000,-200000000,-1700000000,-400000000,2928211},{0,600000000,1000000000,600000000,5009858},{-600000000,-890000000,1200000000,-890000000,222453},{200000000,890000000,-1500000000,-890000000,20001347},{20000000,480000000,20100000,480100000,1338},{-1790000000,100000000,1790000000,110000000,245380},{300000000,-450000000,-1200000000,700000000,16785812}};
static void near(){ int k=sym_choice("points",0,11); const int W=100000; const double* c=KNOWN[k]; int32_t v[4]; for(int i=0;i<4;i++) v[i]=sym_i32(i%2?"y":"x",(int)c[i]-W,(int)c[i]+W); Position p(v[0],v[1]), q(v[2],v[3]); double d=H::distance(p,q); double e=c[4]>2e7?60000:20000; sym_assert(d>=c[4]-e&&d<=c[4]+e,"the distance is that on the sphere"); sym_reach("known"); sym_observe(99); }
extern "C" void harness_main(){ int n=sym_choice("nodes",0,4); if(n==4){ near(); return; } Position p[3]; int eq=0; for(int i=0;i<3;i++){ int same=0; if(i) same=sym_choice("same",0,1); if(same){ p[i]=p[i-1]; if(i==1) eq=1; } else { int32_t x=sym_i32("x",-1800000000,1800000000), y=sym_i32("y",-900000000,900000000); p[i]=Position(x,y); } }
  if(n==0){ double d=H::distance(p[0],p[1]), e=H::distance(p[1],p[0]); good(d); good(e); sym_assert(d==e,"the distance is the same in both directions"); sym_assert(H::distance(p[0].lon(),p[0].lat(),p[1].lon(),p[1].lat())==d,"positions and coordinates give the same distance"); if(eq){ sym_assert(d==0,"no distance between identical points"); sym_reach("same"); } else sym_reach("pair"); sym_assert(H::distance(p[0],p[0])==0,"no distance between identical points"); sym_observe(1); return; }
  int m=n==3?3:n==2?2:sym_choice("short",0,1); WayNodeList l; for(int i=0;i<m;i++) l.add(WayNode(i+1,p[i])); double d=H::distance(l); good(d,3); double sum=0; for(int i=0;i+1<m;i++) sum+=H::distance(p[i],p[i+1]); sym_assert(d==sum,"the length of a way is the sum of its segments"); sym_reach(m==0?"list0":m==1?"list1":m==2?"list2":"list3"); sym_observe((uint64_t)m+10); }
