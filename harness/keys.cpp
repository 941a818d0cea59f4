/* Composite keys, key extractors and lookups by partial keys, exercised on
 * random values; everything observed is logged and judged by spec/Keys.tla.
 * arguments: seed= n= part= (bit mask) out= */
#include <algorithm>
#include <array>
#include <fstream>
#include <functional>
#include <list>
#include <memory>
#include <set>
#include <boost/ref.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/functional/hash.hpp>
#include "world.hpp"
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/global_fun.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/multi_index/key.hpp>
#include <boost/multi_index/mem_fun.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/tuple/tuple.hpp>
#include <cstddef>
using namespace vp;
namespace mi=boost::multi_index;

static std::ofstream out;
static void put(const J& j){out<<j.str()<<"\n";}

/* ---- values ---- */
#define VP_TEN(X) X(0)X(1)X(2)X(3)X(4)X(5)X(6)X(7)X(8)X(9)
struct V{
#define X(i) int k##i=0;
  VP_TEN(X)
#undef X
  int id=0;
#define X(i) int f##i()const{return k##i;} int n##i(){return k##i;} \
  const int& r##i()const{return k##i;} int& m##i(){return k##i;} \
  int v##i()volatile{return k##i;} int w##i()const volatile{return k##i;} \
  int q##i()&{return k##i;} int p##i()const&{return k##i;} \
  int x##i()volatile&{return k##i;} int y##i()const volatile&{return k##i;} \
  int e##i()const noexcept{return k##i;}
  VP_TEN(X)
#undef X
  int* at(int i){int* a[]={&k0,&k1,&k2,&k3,&k4,&k5,&k6,&k7,&k8,&k9};return a[i];}
  const int* at(int i)const{return const_cast<V*>(this)->at(i);}
};
struct D:V{int extra=99;};
struct Pre{double pad=0;int z=-5;};
struct DD:Pre,V{};                       /* V is not at offset zero */
struct W{                                /* another element type, same keys */
  long pad=1;
#define X(i) int w##i=0;
  VP_TEN(X)
#undef X
  int* at(int i){int* a[]={&w0,&w1,&w2,&w3,&w4,&w5,&w6,&w7,&w8,&w9};return a[i];}
};
#define X(i) int g##i(const V& v){return v.k##i;} int h##i(V& v){return v.k##i;} \
  int u##i(V v){return v.k##i;} const int& gr##i(const V& v){return v.k##i;} \
  int cw##i(const V v){return v.k##i;} int ge##i(const V& v)noexcept{return v.k##i;}
VP_TEN(X)
#undef X
template<int I> struct ExV;template<int I> struct ExW;
/* each component of the composite keys is specified in a different manner */
#define VP_S0(i) mi::member<V,int,&V::k##i>
#define VP_S1(i) mi::const_mem_fun<V,int,&V::f##i>
#define VP_S2(i) mi::global_fun<const V&,int,&g##i>
#define VP_S3(i) mi::key<&V::k##i>
#define VP_S4(i) mi::const_mem_fun<V,const int&,&V::r##i>
#define Y(i,s) template<> struct ExV<i>{typedef VP_S##s(i) type;};
Y(0,0)Y(1,1)Y(2,2)Y(3,3)Y(4,4)Y(5,1)Y(6,0)Y(7,4)Y(8,3)Y(9,2)
#undef Y
#define X(i) template<> struct ExW<i>{typedef mi::member<W,int,&W::w##i> type;};
VP_TEN(X)
#undef X
template<class S> struct mk;
template<std::size_t... I> struct mk<std::index_sequence<I...>>{
  typedef mi::composite_key<V,typename ExV<I>::type...> v;
  typedef mi::composite_key<W,typename ExW<I>::type...> w;
};
template<int N> using CKV=typename mk<std::make_index_sequence<N>>::v;
template<int N> using CW=typename mk<std::make_index_sequence<N>>::w;

/* ---- elementary functions: stateful, and they note who called what ---- */
struct Call{int id,x,y;};
static std::vector<Call> calls;
struct KC{int id=0,d=1,s=1;
  template<class A,class B> bool operator()(const A& x,const B& y)const{
    calls.push_back({id,raw(x),raw(y)});
    return s>0?raw(x)/d<raw(y)/d:raw(y)/d<raw(x)/d;}};
struct KE{int id=0,d=1;
  template<class A,class B> bool operator()(const A& x,const B& y)const{
    calls.push_back({id,raw(x),raw(y)});return raw(x)/d==raw(y)/d;}};
struct KH{int id=0,d=1;
  template<class A> std::size_t operator()(const A& x)const{
    calls.push_back({id,raw(x),0});return (std::size_t)(raw(x)/d)*31+id;}};
template<class F,std::size_t> using rep=F;
template<template<class...> class T,class F,class S> struct fill_;
template<template<class...> class T,class F,std::size_t... I>
struct fill_<T,F,std::index_sequence<I...>>{typedef T<rep<F,I>...> type;};
template<int N> using Comp=typename fill_<mi::composite_key_compare,KC,std::make_index_sequence<N>>::type;
template<int N> using Equal=typename fill_<mi::composite_key_equal_to,KE,std::make_index_sequence<N>>::type;
template<int N> using Hash=typename fill_<mi::composite_key_hash,KH,std::make_index_sequence<N>>::type;

typedef std::array<int,10> K10;
struct Fs{std::array<KC,10> c;std::array<KE,10> e;std::array<KH,10> h;};
template<class R,class A,std::size_t... I> R ctor(const A& a,std::index_sequence<I...>){return R(a[I]...);}
template<class R,class A,std::size_t... I> R ctor_tup(const A& a,std::index_sequence<I...>){return R(boost::make_tuple(a[I]...));}
template<int I=0,class T,class A> void assign_all(T& t,const A& a){
  if constexpr(!std::is_same<typename std::decay<T>::type,boost::tuples::null_type>::value){
    t.get_head()=a[I];
    if constexpr(!std::is_same<typename T::tail_type,boost::tuples::null_type>::value)
      assign_all<I+1>(t.get_tail(),a);
  }
}
template<int N,class T,class A> T build(Rng& r,const A& a){ /* construct a composite functor in one of its ways */
  typedef std::make_index_sequence<N> S;
  switch(r.below(4)){
    case 0:return ctor_tup<T>(a,S());
    case 1:{T t=ctor<T>(a,S());T u;u=t;return u;}
    case 2:{T t;
      if constexpr(std::is_same<T,Comp<N>>::value)assign_all(t.key_comps(),a);
      else if constexpr(std::is_same<T,Equal<N>>::value)assign_all(t.key_eqs(),a);
      else assign_all(t.key_hash_functions(),a);
      return t;}
    default:return ctor<T>(a,S());
  }
}
template<class A,std::size_t... I> auto btup(const A& a,std::index_sequence<I...>){return boost::make_tuple(a[I]...);}
template<class A,std::size_t... I> auto stup(const A& a,std::index_sequence<I...>){return std::make_tuple(a[I]...);}
template<class A,std::size_t... I> auto stie(const A& a,std::index_sequence<I...>){return std::tie(a[I]...);}
template<class A,std::size_t... I> auto ctup(const A& a,std::index_sequence<I...>){return boost::make_tuple(CK{a[I]}...);}
template<class A,std::size_t... I> auto cstup(const A& a,std::index_sequence<I...>){return std::make_tuple(CK{a[I]}...);}

static std::string js(const K10& k,int n){std::vector<int> v(k.begin(),k.begin()+n);return arr(v);}
template<class T> void set(T& t,const K10& k){for(int i=0;i<10;++i)*t.at(i)=k[i];}
static std::string jcalls(){
  std::vector<std::string> v;for(const Call& c:calls)v.push_back("["+std::to_string(c.id)+","+std::to_string(c.x)+","+std::to_string(c.y)+"]");
  return arr(v);}

struct Gen{
  Rng& r;K10 x,y;Fs f;int ds[10],ss[10];
  explicit Gen(Rng& r_):r(r_){
    for(int i=0;i<10;++i){x[i]=r.below(6);y[i]=r.below(6);}
    int p=r.below(12);                   /* a common prefix of any length, up to equivalence */
    for(int i=0;i<10;++i){
      ds[i]=1+r.below(3);ss[i]=r.chance(1,3)?-1:1;
      if(i<p)y[i]=r.chance(1,2)?x[i]:(x[i]/ds[i])*ds[i]+r.below(ds[i]);
      f.c[i]=KC{i+1,ds[i],ss[i]};f.e[i]=KE{i+1,ds[i]};f.h[i]=KH{i+1,ds[i]};
    }
  }
  void plain(){for(int i=0;i<10;++i)ds[i]=ss[i]=1;}
};
static void log_cmp(const char* fm,Gen& g,int nx,int ny,int s,bool res,bool counted){
  J j;j.fs("op","cmp").fs("fm",fm).r("x",js(g.x,nx)).r("y",js(g.y,ny));
  std::vector<int> d(g.ds,g.ds+10),sg(g.ss,g.ss+10);if(s<0)for(int& q:sg)q=-q;
  j.r("d",arr(d)).r("s",arr(sg)).f("res",res).f("cnt",counted).r("cl",jcalls());put(j);
}
static void log_eq(const char* fm,Gen& g,int n,bool res,bool counted){
  J j;j.fs("op","eq").fs("fm",fm).r("x",js(g.x,n)).r("y",js(g.y,n));
  std::vector<int> d(g.ds,g.ds+10);
  j.r("d",arr(d)).f("res",res).f("cnt",counted).r("cl",jcalls());put(j);
}
template<int N,int M,int C> void cmp_once(Rng& r){
  Gen g(r);V a,b;W w,w2;set(a,g.x);set(b,g.y);set(w,g.y);set(w2,g.x);
  typedef std::make_index_sequence<N> SN;typedef std::make_index_sequence<M> SM;
  const Comp<C> c=build<C,Comp<C>>(r,g.f.c);
  CKV<N> kx;CKV<M> ky;CW<M> kw;CW<N> kw2;
#define DO(fm,X_,Y_) do{calls.clear();bool q=c(X_,Y_);log_cmp(fm,g,N,M,1,q,true);}while(0)
  switch(r.below(11)){
    case 0:DO("kk",kx(a),ky(b));break;
    case 1:DO("kw",kx(a),kw(w));break;
    case 2:DO("wk",kw2(w2),ky(b));break;
    case 3:DO("kt",kx(a),btup(g.y,SM()));break;
    case 4:DO("tk",btup(g.x,SN()),ky(b));break;
    case 5:DO("ks",kx(a),stup(g.y,SM()));break;
    case 6:DO("sk",stup(g.x,SN()),ky(b));break;
    case 7:DO("kc",kx(a),ctup(g.y,SM()));break;
    case 8:DO("ck",ctup(g.x,SN()),ky(b));break;
    case 9:DO("kcs",kx(a),cstup(g.y,SM()));break;
    default:DO("csk",stie(g.x,SN()),ky(b));break;
  }
  if constexpr(M==1){if(r.chance(1,2))DO("kv",kx(a),g.y[0]);else DO("kcv",kx(a),CK{g.y[0]});}
  if constexpr(N==1){if(r.chance(1,2))DO("vk",g.x[0],ky(b));else DO("cvk",CK{g.x[0]},ky(b));}
#undef DO
}
template<int N,int C> void eq_once(Rng& r){
  Gen g(r);V a,b;W w,w2;set(a,g.x);set(b,g.y);set(w,g.y);set(w2,g.x);
  typedef std::make_index_sequence<N> S;
  const Equal<C> c=build<C,Equal<C>>(r,g.f.e);
  CKV<N> k;CW<N> kw;
#define DO(fm,X_,Y_) do{calls.clear();bool q=c(X_,Y_);log_eq(fm,g,N,q,true);}while(0)
  switch(r.below(10)){
    case 0:DO("kk",k(a),k(b));break;
    case 1:DO("kw",k(a),kw(w));break;
    case 2:DO("wk",kw(w2),k(b));break;
    case 3:DO("kt",k(a),btup(g.y,S()));break;
    case 4:DO("tk",btup(g.x,S()),k(b));break;
    case 5:DO("ks",k(a),stup(g.y,S()));break;
    case 6:DO("sk",stup(g.x,S()),k(b));break;
    case 7:DO("kc",k(a),ctup(g.y,S()));break;
    case 8:DO("ck",ctup(g.x,S()),k(b));break;
    default:DO("csk",cstup(g.x,S()),k(b));break;
  }
#undef DO
}
/* built-in operators and standard function objects of composite_key_result */
template<int N,int M,class X_,class Y_> void ops(const char* fm,Gen& g,const X_& x,const Y_& y){
  int e=-1,n=-1;
  if constexpr(N==M){e=x==y;n=x!=y;}
  bool l=x<y,gt=x>y,le=x<=y,ge=x>=y;
  J j;j.fs("op","ops").fs("fm",fm).r("x",js(g.x,N)).r("y",js(g.y,M));
  j.r("o",arr(std::vector<int>{e,n,l,gt,le,ge}));put(j);
}
template<int N,int M> void ops_once(Rng& r){
  Gen g(r);g.plain();if(r.chance(1,2)){int p=r.below(11);for(int i=0;i<p;++i)g.y[i]=g.x[i];}
  V a,b;W w;set(a,g.x);set(b,g.y);set(w,g.y);
  typedef std::make_index_sequence<N> SN;typedef std::make_index_sequence<M> SM;
  CKV<N> kx;CKV<M> ky;CW<M> kw;
  switch(r.below(6)){
    case 0:ops<N,M>("kk",g,kx(a),ky(b));break;
    case 1:ops<N,M>("kw",g,kx(a),kw(w));break;
    case 2:ops<N,M>("kt",g,kx(a),btup(g.y,SM()));break;
    case 3:ops<N,M>("tk",g,btup(g.x,SN()),ky(b));break;
    case 4:ops<N,M>("ks",g,kx(a),stup(g.y,SM()));break;
    default:ops<N,M>("sk",g,stup(g.x,SN()),ky(b));break;
  }
  typedef typename CKV<N>::result_type RX;typedef typename CKV<M>::result_type RY;
  calls.clear();
#define LS(fm,F,X_,Y_,s) do{F f;bool q=f(X_,Y_);log_cmp(fm,g,N,M,s,q,false);}while(0)
  switch(r.below(8)){
    case 0:LS("rl.ks",mi::composite_key_result_less<RX>,kx(a),stup(g.y,SM()),1);break;
    case 1:LS("rl.kt",std::less<RX>,kx(a),btup(g.y,SM()),1);break;
    case 2:LS("rg.ks",mi::composite_key_result_greater<RX>,kx(a),stup(g.y,SM()),-1);break;
    case 3:LS("rg.kt",std::greater<RX>,kx(a),btup(g.y,SM()),-1);break;
    case 4:LS("rl.tk",std::less<RY>,btup(g.x,SN()),ky(b),1);break;
    case 5:LS("rl.sk",mi::composite_key_result_less<RY>,stup(g.x,SN()),ky(b),1);break;
    case 6:LS("rg.tk",std::greater<RY>,btup(g.x,SN()),ky(b),-1);break;
    default:if constexpr(N==M)LS("rl.kk",std::less<RX>,kx(a),ky(b),1);
            else LS("rg.kw",std::greater<RX>,kx(a),kw(w),-1);
  }
#undef LS
}
template<int N> void seq_once(Rng& r){
  Gen g(r);g.plain();if(r.chance(2,3)){int p=r.below(12);for(int i=0;i<p&&i<10;++i)g.y[i]=g.x[i];}
  V a,b;W w;set(a,g.x);set(b,g.y);set(w,g.y);
  typedef std::make_index_sequence<N> S;
  CKV<N> k;CW<N> kw;typedef typename CKV<N>::result_type R;
  calls.clear();
#define EQ(fm,F,X_,Y_) do{F f;bool q=f(X_,Y_);log_eq(fm,g,N,q,false);}while(0)
  switch(r.below(7)){
    case 0:EQ("re.kk",std::equal_to<R>,k(a),k(b));break;
    case 1:EQ("re.kw",mi::composite_key_result_equal_to<R>,k(a),kw(w));break;
    case 2:EQ("re.kt",std::equal_to<R>,k(a),btup(g.y,S()));break;
    case 3:EQ("re.tk",std::equal_to<R>,btup(g.x,S()),k(b));break;
    case 4:EQ("re.ks",mi::composite_key_result_equal_to<R>,k(a),stup(g.y,S()));break;
    case 5:EQ("re.sk",std::equal_to<R>,stup(g.x,S()),k(b));break;
    default:EQ("re.tie",std::equal_to<R>,stie(g.x,S()),k(b));break;
  }
#undef EQ
}

/* hashing: every presentation of a key */
static void log_hash(const K10& x,int n,const int* ds,bool counted,const std::vector<std::string>& hs,
                     const std::vector<std::string>& cl,const K10& y,std::size_t hy,std::size_t hx){
  J j;j.fs("op","hash").r("x",js(x,n)).r("y",js(y,n));
  std::vector<int> d(ds,ds+10);
  j.r("d",arr(d)).f("cnt",counted);
  std::string s="[";for(std::size_t i=0;i<hs.size();++i){if(i)s+=',';s+='"'+hs[i]+'"';}
  j.r("hs",s+"]").r("cl",arr(cl)).f("same",hx==hy);put(j);
}
template<int N,int C> void hash_once(Rng& r){
  Gen g(r);V a,b;W w;set(a,g.x);set(b,g.y);set(w,g.x);
  typedef std::make_index_sequence<N> S;
  const Hash<C> h=build<C,Hash<C>>(r,g.f.h);
  CKV<N> k;CW<N> kw;
  std::vector<std::string> hs,cl;std::size_t hx=0;
#define HX(X_) do{calls.clear();hx=h(X_);hs.push_back(std::to_string(hx));cl.push_back(jcalls());}while(0)
  HX(k(a));HX(kw(w));HX(btup(g.x,S()));HX(stup(g.x,S()));HX(ctup(g.x,S()));HX(stie(g.x,S()));
#undef HX
  log_hash(g.x,N,g.ds,true,hs,cl,g.y,h(k(b)),hx);
}
template<int N> void shash_once(Rng& r){
  Gen g(r);g.plain();if(r.chance(1,2))for(int i=0;i<N;++i)g.y[i]=g.x[i];
  V a,b;set(a,g.x);set(b,g.y);
  typedef std::make_index_sequence<N> S;CKV<N> k;typedef typename CKV<N>::result_type R;
  std::vector<std::string> hs,cl;std::size_t hx=0;
#define HX(F,X_) do{F f;hx=f(X_);hs.push_back(std::to_string(hx));}while(0)
  HX(boost::hash<R>,k(a));HX(mi::composite_key_result_hash<R>,k(a));HX(boost::hash<R>,btup(g.x,S()));
  HX(boost::hash<R>,stup(g.x,S()));HX(mi::composite_key_result_hash<R>,btup(g.x,S()));
#undef HX
  boost::hash<R> f;log_hash(g.x,N,g.ds,false,hs,cl,g.y,f(k(b)),hx);
}
typedef void(*Fn)(Rng&);
template<int... N> struct L{};
template<int N,int... M> void reg_m(std::vector<Fn>& v,L<M...>){
  (v.push_back(&cmp_once<N,M,(N<M?N:M)>),...);(v.push_back(&cmp_once<N,M,(N>M?N:M)>),...);(v.push_back(&ops_once<N,M>),...);
}
template<int... N> std::vector<Fn> reg_all(L<N...> l){
  std::vector<Fn> v;(reg_m<N>(v,l),...);
  for(int q=0;q<3;++q){
    (v.push_back(&eq_once<N,N>),...);(v.push_back(&eq_once<N,10>),...);(v.push_back(&seq_once<N>),...);
    (v.push_back(&hash_once<N,N>),...);(v.push_back(&shash_once<N>),...);
  }
  return v;
}

/* ---- extractors ---- */
struct Ex{
  Rng& r;
  void val(const char* st,const char* fm,int c,const V& v,int res,int same){
    J j;j.fs("op","ex").fs("st",st).fs("fm",fm).f("c",c+1);
    K10 k;for(int i=0;i<10;++i)k[i]=*v.at(i);
    j.r("x",js(k,10)).f("res",res).f("same",same);put(j);
  }
  template<class T> void res(const char* st,const char* fm,int c,const V& v,T&& x,bool isref){
    typedef typename std::decay<T>::type U;
    if constexpr(std::is_base_of<V,U>::value)val(st,fm,c,v,*x.at(c),isref?(const V*)&x==&v:-1);
    else if constexpr(std::is_integral<U>::value)val(st,fm,c,v,(int)x,isref?(const int*)&x==v.at(c):-1);
    else val(st,fm,c,v,x_key(x,c),-1);
  }
  template<class T> int x_key(const T& x,int c){return *x.value.at(c);}
  template<class X_,class A> void one(const char* st,const char* fm,int c,const V& v,A& a){
    const X_ ex{};
    typedef decltype(ex(a)) R;
    if constexpr(std::is_lvalue_reference<R>::value){R q=ex(a);res(st,fm,c,v,q,true);}
    else{auto q=ex(a);res(st,fm,c,v,q,false);}
  }
  V rnd(){V v;for(int i=0;i<10;++i)*v.at(i)=r.below(1000);return v;}
  /* arguments through which a mutable element is reached */
  template<class X_> void mut(const char* st,int c,bool byref=true){
    V v=rnd();
    {V& a=v;one<X_>(st,"V&",c,v,a);}
    {V* a=&v;one<X_>(st,"V*",c,v,a);V** b=&a;one<X_>(st,"V**",c,v,b);V* const ca=a;one<X_>(st,"V*const",c,v,ca);}
    {auto a=std::make_shared<V>(rnd());one<X_>(st,"shared_ptr<V>",c,*a,a);auto* b=&a;one<X_>(st,"shared_ptr<V>*",c,*a,b);}
    {boost::shared_ptr<V> a(new V(rnd()));one<X_>(st,"boost::shared_ptr<V>",c,*a,a);}
    {std::unique_ptr<V> a(new V(rnd()));one<X_>(st,"unique_ptr<V>",c,*a,a);}
    {std::list<V> l;l.push_back(rnd());l.push_back(rnd());auto a=std::next(l.begin());one<X_>(st,"list<V>::iterator",c,*a,a);}
    {boost::reference_wrapper<V> a(v);one<X_>(st,"boost::ref<V>",c,v,a);auto* b=&a;one<X_>(st,"boost::ref<V>*",c,v,b);}
    {std::reference_wrapper<V> a(v);one<X_>(st,"std::ref<V>",c,v,a);auto* b=&a;one<X_>(st,"std::ref<V>*",c,v,b);}
    {D d;static_cast<V&>(d)=rnd();one<X_>(st,"D&",c,d,d);D* a=&d;one<X_>(st,"D*",c,d,a);}
    {DD d;static_cast<V&>(d)=rnd();one<X_>(st,"DD&",c,d,d);DD* a=&d;one<X_>(st,"DD*",c,d,a);std::shared_ptr<DD> s(new DD(d));one<X_>(st,"shared_ptr<DD>",c,*s,s);}
  }
  /* P: also reach constant elements through (chained) pointers */
  template<class X_,bool P=true> void con(const char* st,int c){
    const V v=rnd();
    one<X_>(st,"const V&",c,v,v);
    if constexpr(P){const V* a=&v;one<X_>(st,"const V*",c,v,a);const V** b=&a;one<X_>(st,"const V**",c,v,b);}
    if constexpr(P){auto a=std::make_shared<const V>(rnd());one<X_>(st,"shared_ptr<const V>",c,*a,a);}
    if constexpr(P){std::list<V> l;l.push_back(rnd());std::list<V>::const_iterator a=l.begin();one<X_>(st,"list<V>::const_iterator",c,*a,a);}
    {boost::reference_wrapper<const V> a(v);one<X_>(st,"boost::ref<const V>",c,v,a);if constexpr(P){const auto* b=&a;one<X_>(st,"boost::ref<const V>*",c,v,b);}}
    {std::reference_wrapper<const V> a(v);one<X_>(st,"std::ref<const V>",c,v,a);}
    {const DD d=[&]{DD q;static_cast<V&>(q)=rnd();return q;}();one<X_>(st,"const DD&",c,d,d);if constexpr(P){const DD* a=&d;one<X_>(st,"const DD*",c,d,a);}}
  }
  template<class X_,bool P=true> void both(const char* st,int c){con<X_,P>(st,c);mut<X_>(st,c);}
  void all(){
#define X(i) if(r.chance(1,4))comp##i();
    VP_TEN(X)
#undef X
  }
#define X(i) void comp##i(){const int c=i; \
    both<mi::member<V,int,&V::k##i>,false>("member",c); \
    both<mi::member<V,const int,&V::k##i>>("member const",c); \
    both<mi::member_offset<V,int,offsetof(V,k##i)>,false>("member_offset",c); \
    both<mi::member_offset<V,const int,offsetof(V,k##i)>>("member_offset const",c); \
    both<mi::const_mem_fun<V,int,&V::f##i>>("const_mem_fun",c); \
    both<mi::const_mem_fun<V,const int&,&V::r##i>>("const_mem_fun ref",c); \
    both<mi::const_mem_fun_explicit<V,int,int(V::*)()const,&V::f##i>>("const_mem_fun_explicit",c); \
    both<mi::cv_mem_fun<V,int,&V::w##i>>("cv_mem_fun",c); \
    both<mi::cref_mem_fun<V,int,&V::p##i>>("cref_mem_fun",c); \
    both<mi::cvref_mem_fun<V,int,&V::y##i>>("cvref_mem_fun",c); \
    mut<mi::mem_fun<V,int,&V::n##i>>("mem_fun",c); \
    mut<mi::mem_fun<V,int&,&V::m##i>>("mem_fun ref",c); \
    mut<mi::mem_fun_explicit<V,int,int(V::*)(),&V::n##i>>("mem_fun_explicit",c); \
    mut<mi::volatile_mem_fun<V,int,&V::v##i>>("volatile_mem_fun",c); \
    mut<mi::ref_mem_fun<V,int,&V::q##i>>("ref_mem_fun",c); \
    mut<mi::vref_mem_fun<V,int,&V::x##i>>("vref_mem_fun",c); \
    both<mi::global_fun<const V&,int,&g##i>>("global_fun const&",c); \
    both<mi::global_fun<const V&,const int&,&gr##i>>("global_fun const& ref",c); \
    mut<mi::global_fun<V&,int,&h##i>>("global_fun &",c); \
    both<mi::global_fun<V,int,&u##i>>("global_fun value",c); \
    both<mi::key<&V::k##i>,false>("key member",c); \
    both<mi::key<&V::f##i>>("key const fun",c); \
    both<mi::key<&V::r##i>>("key const ref fun",c); \
    both<mi::key<&V::e##i>>("key noexcept fun",c); \
    both<mi::key<&V::w##i>>("key cv fun",c); \
    both<mi::key<&V::p##i>>("key cref fun",c); \
    mut<mi::key<&V::n##i>>("key fun",c); \
    mut<mi::key<&V::q##i>>("key ref fun",c); \
    both<mi::key<&g##i>>("key global",c); \
    both<mi::key<&ge##i>>("key noexcept global",c); \
    mut<mi::key<&h##i>>("key global &",c); \
    both<mi::identity<V>,false>("identity",c); \
    both<mi::identity<const V>>("identity const",c); \
    both<mi::composite_key<V,mi::member<V,int,&V::k##i>>>("composite_key",c); \
    both<mi::key<&V::k##i,&g##i>>("key composite",c); \
  }
  VP_TEN(X)
#undef X
};

/* ---- containers: the same keys specified in many ways, on several element types ---- */
template<class T> struct acc{static V& v(const T& x){return *x;}};
template<> struct acc<V>{static V& v(const V& x){return const_cast<V&>(x);}};
template<> struct acc<std::reference_wrapper<V>>{static V& v(const std::reference_wrapper<V>& x){return x.get();}};
template<> struct acc<boost::reference_wrapper<V>>{static V& v(const boost::reference_wrapper<V>& x){return x.get();}};
typedef mi::composite_key_compare<KC,KC,KC> C3;typedef mi::composite_key_hash<KH,KH,KH> H3;typedef mi::composite_key_equal_to<KE,KE,KE> E3;
/* composite keys take the element type itself */
template<class T> struct Cont{
  typedef mi::composite_key<T,mi::member<V,int,&V::k0>,mi::member<V,int,&V::k1>,mi::member<V,int,&V::k2>> ck0;
  typedef mi::composite_key<T,mi::const_mem_fun<V,int,&V::f0>,mi::key<&V::f1>,mi::global_fun<const V&,int,&g2>> ck1;
  typedef mi::composite_key<T,mi::key<&g0>,mi::const_mem_fun<V,const int&,&V::r1>,mi::cref_mem_fun<V,int,&V::p2>> ck2;
  typedef mi::composite_key<T,mi::member_offset<V,int,offsetof(V,k0)>,mi::global_fun<V,int,&u1>,mi::cv_mem_fun<V,int,&V::w2>> ck3;
  typedef boost::multi_index_container<T,mi::indexed_by<
    mi::sequenced<>,
    mi::ordered_non_unique<ck0,C3>,mi::ranked_non_unique<ck1,C3>,
    mi::ordered_non_unique<ck2,C3>,mi::ranked_non_unique<ck3,C3>,
    mi::hashed_non_unique<ck0,H3,E3>,mi::hashed_non_unique<ck1,H3,E3>,
    mi::hashed_non_unique<ck2,H3,E3>,
    mi::ordered_non_unique<mi::member<V,int,&V::k0>,KC>,mi::ranked_non_unique<mi::key<&g0>,KC>,
    mi::hashed_non_unique<mi::const_mem_fun<V,int,&V::f0>,KH,KE>
  >> type;
};
template<class T> struct Run{
  typedef typename Cont<T>::type C;
  Rng& r;const char* form;std::vector<std::unique_ptr<V>> pool;Gen g;C c;int nid=0;
  static C make(const Fs& f){
    C3 cc(f.c[0],f.c[1],f.c[2]);H3 hh(f.h[0],f.h[1],f.h[2]);E3 ee(f.e[0],f.e[1],f.e[2]);
    typedef typename Cont<T>::ck0 k0;typedef typename Cont<T>::ck1 k1;typedef typename Cont<T>::ck2 k2;typedef typename Cont<T>::ck3 k3;
    typename C::ctor_args_list a;
    auto& t1=a.get_tail();t1.get_head()=boost::make_tuple(k0(),cc);
    auto& t2=t1.get_tail();t2.get_head()=boost::make_tuple(k1(),cc);
    auto& t3=t2.get_tail();t3.get_head()=boost::make_tuple(k2(),cc);
    auto& t4=t3.get_tail();t4.get_head()=boost::make_tuple(k3(),cc);
    auto& t5=t4.get_tail();t5.get_head()=boost::make_tuple(std::size_t(5),k0(),hh,ee);
    auto& t6=t5.get_tail();t6.get_head()=boost::make_tuple(std::size_t(0),k1(),hh,ee);
    auto& t7=t6.get_tail();t7.get_head()=boost::make_tuple(std::size_t(60),k2(),hh,ee);
    auto& t8=t7.get_tail();t8.get_head()=boost::make_tuple(mi::member<V,int,&V::k0>(),f.c[0]);
    auto& t9=t8.get_tail();t9.get_head()=boost::make_tuple(mi::key<&g0>(),f.c[0]);
    t9.get_tail().get_head()=boost::make_tuple(std::size_t(0),mi::const_mem_fun<V,int,&V::f0>(),f.h[0],f.e[0]);
    return C(a);
  }
  Run(Rng& r_,const char* fo):r(r_),form(fo),g(r_),c(make(g.f)){}
  V fresh(){V v;for(int i=0;i<3;++i)*v.at(i)=r.below(i==0?4:5);v.id=++nid;return v;}
  T wrap(){
    V v=fresh();
    if constexpr(std::is_same<T,V>::value)return v;
    else if constexpr(std::is_same<T,std::shared_ptr<V>>::value)return std::make_shared<V>(v);
    else{pool.emplace_back(new V(v));
      if constexpr(std::is_pointer<T>::value)return pool.back().get();else return T(*pool.back());}
  }
  template<int I> std::string trav(){
    std::vector<int> v;for(const T& x:mi::get<I>(c))v.push_back(acc<T>::v(x).id);return arr(v);}
  template<int I> int pos(typename C::template nth_index<I>::type::iterator it){
    return (int)std::distance(mi::get<I>(c).begin(),it);}
  std::vector<std::string> qs;
  void q(int i,int o,const char* f,const std::vector<int>& p,const std::vector<int>& res){
    J j;j.f("i",i).f("or",o).fs("f",f).r("p",arr(p)).r("r",arr(res));qs.push_back(j.str());}
  template<int I,class K> void ord(const char* f,const std::vector<int>& p,const K& k){
    auto& ix=mi::get<I>(c);auto er=ix.equal_range(k);
    q(I,1,f,p,{pos<I>(ix.lower_bound(k)),pos<I>(ix.upper_bound(k)),pos<I>(er.first),pos<I>(er.second),
      (int)ix.count(k),ix.contains(k),pos<I>(ix.find(k))});
  }
  template<int I,class K> void hsh(const char* f,const std::vector<int>& p,const K& k){
    auto& ix=mi::get<I>(c);auto er=ix.equal_range(k);auto fi=ix.find(k);
    std::vector<int> v;for(auto it=er.first;it!=er.second;++it)v.push_back(acc<T>::v(*it).id);
    std::vector<int> res{(int)ix.count(k),ix.contains(k),fi==ix.end()?0:acc<T>::v(*fi).id};
    res.insert(res.end(),v.begin(),v.end());q(I,0,f,p,res);
  }
  template<int I> void ord_all(){
    K10 k;for(int i=0;i<10;++i)k[i]=r.below(6);
    std::vector<int> p1{k[0]},p2{k[0],k[1]},p3{k[0],k[1],k[2]};
    switch(r.below(12)){
      case 0:ord<I>("v",p1,k[0]);break;
      case 1:ord<I>("cv",p1,CK{k[0]});break;
      case 2:ord<I>("t1",p1,boost::make_tuple(k[0]));break;
      case 3:ord<I>("s1",p1,std::make_tuple(k[0]));break;
      case 4:ord<I>("t2",p2,boost::make_tuple(k[0],k[1]));break;
      case 5:ord<I>("s2",p2,std::make_tuple(k[0],k[1]));break;
      case 6:ord<I>("t3",p3,boost::make_tuple(k[0],k[1],k[2]));break;
      case 7:ord<I>("s3",p3,std::make_tuple(k[0],CK{k[1]},k[2]));break;
      case 8:ord<I>("tie3",p3,boost::tie(k[0],k[1],k[2]));break;
      case 9:{W w;set(w,k);ord<I>("w2",p2,CW<2>()(w));}break;
      case 10:{W w;set(w,k);ord<I>("w3",p3,CW<3>()(w));}break;
      default:{V v;set(v,k);ord<I>("k5",p3,CKV<5>()(v));}
    }
  }
  template<int I> void hsh_all(){
    K10 k;for(int i=0;i<10;++i)k[i]=r.below(i?5:4);
    std::vector<int> p3{k[0],k[1],k[2]};
    switch(r.below(4)){
      case 0:hsh<I>("t3",p3,boost::make_tuple(k[0],k[1],k[2]));break;
      case 1:hsh<I>("s3",p3,std::make_tuple(k[0],k[1],CK{k[2]}));break;
      case 2:{W w;set(w,k);hsh<I>("w3",p3,CW<3>()(w));}break;
      default:{V v;set(v,k);hsh<I>("k3",p3,CKV<3>()(v));}
    }
  }
  template<int I> void erase_by(){
    auto& ix=mi::get<I>(c);if(ix.empty())return;
    auto it=ix.begin();std::advance(it,r.below((int)ix.size()));ix.erase(it);
  }
  template<int I> void modify_by(){
    auto& ix=mi::get<I>(c);if(ix.empty())return;
    auto it=ix.begin();std::advance(it,r.below((int)ix.size()));
    int a=r.below(4),b=r.below(5),d=r.below(5);
    ix.modify(it,[&](T& x){V& v=acc<T>::v(x);v.k0=a;v.k1=b;v.k2=d;});
  }
  void log(){
    qs.clear();
    switch(r.below(4)){case 0:ord_all<1>();break;case 1:ord_all<2>();break;case 2:ord_all<3>();break;default:ord_all<4>();}
    switch(r.below(3)){case 0:hsh_all<5>();break;case 1:hsh_all<6>();break;default:hsh_all<7>();}
    {int k=r.below(5);ord<8>("v",{k},k);ord<9>("cv",{k},CK{k});hsh<10>("v",{k},k);}
    std::vector<std::string> els;
    for(const T& x:mi::get<0>(c)){V& v=acc<T>::v(x);els.push_back(arr(std::vector<int>{v.id,v.k0,v.k1,v.k2}));}
    J j;j.fs("op","cn").fs("fm",form).r("els",arr(els));
    std::vector<int> d(g.ds,g.ds+3),s(g.ss,g.ss+3);j.r("d",arr(d)).r("s",arr(s));
    j.r("o3",arr(std::vector<std::string>{trav<1>(),trav<2>(),trav<3>(),trav<4>()}));
    j.r("o1",arr(std::vector<std::string>{trav<8>(),trav<9>()}));
    j.r("h3",arr(std::vector<std::string>{trav<5>(),trav<6>(),trav<7>()}));
    j.r("h1",arr(std::vector<std::string>{trav<10>()}));
    j.r("q",arr(qs));put(j);
  }
  void go(int n){
    for(int i=0;i<n;++i){
      switch(c.size()>14?2:r.below(5)){
        case 0:case 1:c.insert(c.end(),wrap());break;
        case 2:switch(r.below(4)){case 0:erase_by<1>();break;case 1:erase_by<6>();break;case 2:erase_by<4>();break;default:erase_by<0>();}break;
        case 3:switch(r.below(4)){case 0:modify_by<2>();break;case 1:modify_by<7>();break;case 2:modify_by<3>();break;default:modify_by<0>();}break;
        default:{C o=make(Gen(r).f);o=c;c=o;}    /* function objects travel with the contents */
      }
      log();
    }
  }
};
#ifndef VP_PART
#define VP_PART 3
#endif
int main(int argc,char** argv){
  long seed=1;int n=400;
  for(int i=1;i<argc;++i){
    if(!std::strncmp(argv[i],"seed=",5))seed=std::atol(argv[i]+5);
    if(!std::strncmp(argv[i],"n=",2))n=std::atoi(argv[i]+2);
    if(!std::strncmp(argv[i],"out=",4))out.open(argv[i]+4);
  }
  Rng r((std::uint64_t)seed*7919+13);
  {J j;j.fs("op","start").f("seed",seed);put(j);}
#if VP_PART&1
  auto fs=reg_all(L<1,2,3,5,10>());
  for(int i=0;i<n;++i)fs[r.below((int)fs.size())](r);
#endif
#if VP_PART&2
  Ex ex{r};ex.all();
#endif
#if VP_PART&4
  int m=n/40+3;
  {Run<V> x(r,"V");x.go(m);}
  {Run<V*> x(r,"V*");x.go(m);}
  {Run<std::shared_ptr<V>> x(r,"shared_ptr<V>");x.go(m);}
  {Run<std::reference_wrapper<V>> x(r,"std::reference_wrapper<V>");x.go(m);}
  {Run<boost::reference_wrapper<V>> x(r,"boost::reference_wrapper<V>");x.go(m);}
#endif
  {J j;j.fs("op","end");put(j);}
  out.close();
  return 0;
}
