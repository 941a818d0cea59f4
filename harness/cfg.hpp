/* Index descriptors: one type per index gives both the library's index
 * specifier and the JSON description the specification works from. */
#ifndef VP_CFG_HPP
#define VP_CFG_HPP
#include "world.hpp"
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/global_fun.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/multi_index/key.hpp>
#include <boost/multi_index/mem_fun.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>

namespace vp{
namespace mi=boost::multi_index;

template<int F,int ST> struct ext;
#define VP_EXT(F,m,fm,rm,gm) \
template<> struct ext<F,0>{typedef mi::member<E,int,&E::m> type;}; \
template<> struct ext<F,1>{typedef mi::const_mem_fun<E,int,&E::fm> type;}; \
template<> struct ext<F,2>{typedef mi::const_mem_fun<E,const int&,&E::rm> type;}; \
template<> struct ext<F,3>{typedef mi::global_fun<const E&,int,&gm> type;}; \
template<> struct ext<F,4>{typedef mi::key<&E::m> type;}; \
template<> struct ext<F,5>{typedef mi::key<&E::rm> type;}; \
template<> struct ext<F,6>{typedef mi::key<&gm> type;}; \
template<> struct ext<F,7>{typedef mi::member<E,int,&E::m> type;}; \
template<> struct ext<F,8>{typedef mi::const_mem_fun<E,const int&,&E::rm> type;};
VP_EXT(1,a,fa,ra,ga)
VP_EXT(2,b,fb,rb,gb)
VP_EXT(3,c,fc,rc,gc)

/* one key component: field F, divisor D (coarse equivalence), sign S, style */
template<int F,int D=1,int S=1,int ST=0> struct P{
  enum{f=F,d=D,s=S,st=ST};
  typedef typename ext<F,ST>::type ex;
  enum{conv=ST>=7};                      /* function objects without templates */
  typedef typename std::conditional<(ST>=7),CmpI<D,S>,Cmp<D,S>>::type cmp;
  typedef typename std::conditional<(ST>=7),HshI<D>,Hsh<D>>::type hsh;
  typedef typename std::conditional<(ST>=7),EqI<D>,Eq<D>>::type eq;
  static std::string desc(){return "["+std::to_string(F)+","+std::to_string(D)+","+std::to_string(S)+"]";}
};
/* the common state of the parts of a composite function object, -1 if they disagree */
template<class T> int all(const T& t){
  if constexpr(std::is_same<decltype(t.get_tail()),const boost::tuples::null_type>::value||
               std::is_same<typename std::decay<decltype(t.get_tail())>::type,boost::tuples::null_type>::value)return t.get_head().m;
  else{int a=all(t.get_tail());return a==t.get_head().m?a:-1;}
}
template<class... Ps> struct Keys{
  enum{n=sizeof...(Ps)};
  typedef mi::composite_key<E,typename Ps::ex...> ex;
  typedef mi::composite_key_compare<typename Ps::cmp...> cmp;
  typedef mi::composite_key_hash<typename Ps::hsh...> hsh;
  typedef mi::composite_key_equal_to<typename Ps::eq...> eq;
  enum{rw=0};
  static cmp mkc(int m){return cmp(typename Ps::cmp{m}...);}
  static hsh mkh(int m){return hsh(typename Ps::hsh{m}...);}
  static eq mke(int m){return eq(typename Ps::eq{m}...);}
  static int st(const cmp& c){return all(c.key_comps());}
  static int st(const hsh& h){return all(h.key_hash_functions());}
  static int st(const eq& e){return all(e.key_eqs());}
  static std::string desc(){std::vector<std::string> v{Ps::desc()...};return arr(v);}
};
template<class Pa> struct Keys<Pa>{
  enum{n=1,f=Pa::f,d=Pa::d,s=Pa::s,conv=Pa::conv,rw=(Pa::st==0||Pa::st==4||Pa::st==7)};
  typedef typename Pa::ex ex;
  typedef typename Pa::cmp cmp;
  typedef typename Pa::hsh hsh;
  typedef typename Pa::eq eq;
  static cmp mkc(int m){return cmp{m};}
  static hsh mkh(int m){return hsh{m};}
  static eq mke(int m){return eq{m};}
  template<class F> static int st(const F& f){return f.m;}
  static std::string desc(){return "["+Pa::desc()+"]";}
};
enum{K_ORD=1,K_RNK=2,K_HSH=4,K_SEQ=8,K_RA=16,K_UNQ=32};
#define VP_IX(NAME,SPEC,KIND,JS,...) \
template<class... Ps> struct NAME{ \
  typedef Keys<Ps...> keys; enum{kind=KIND}; \
  typedef SPEC<__VA_ARGS__> spec; \
  static std::string desc(){return std::string("{\"k\":\"" JS "\",\"p\":")+keys::desc()+"}";} \
};
VP_IX(OU,mi::ordered_unique,K_ORD|K_UNQ,"ou",typename keys::ex,typename keys::cmp)
VP_IX(ON,mi::ordered_non_unique,K_ORD,"on",typename keys::ex,typename keys::cmp)
VP_IX(RU,mi::ranked_unique,K_ORD|K_RNK|K_UNQ,"ru",typename keys::ex,typename keys::cmp)
VP_IX(RN,mi::ranked_non_unique,K_ORD|K_RNK,"rn",typename keys::ex,typename keys::cmp)
VP_IX(HU,mi::hashed_unique,K_HSH|K_UNQ,"hu",typename keys::ex,typename keys::hsh,typename keys::eq)
VP_IX(HN,mi::hashed_non_unique,K_HSH,"hn",typename keys::ex,typename keys::hsh,typename keys::eq)
struct NoKeys{enum{n=0,rw=0};};
struct SQ{typedef NoKeys keys;enum{kind=K_SEQ};typedef mi::sequenced<> spec;
  static std::string desc(){return "{\"k\":\"sq\",\"p\":[]}";}};
struct RA{typedef NoKeys keys;enum{kind=K_RA};typedef mi::random_access<> spec;
  static std::string desc(){return "{\"k\":\"ra\",\"p\":[]}";}};

#ifndef VP_ALB
#define VP_ALB 0
#endif
template<class... I> struct Cfg{
  typedef std::tuple<I...> descs;
  enum{N=sizeof...(I)};
  static constexpr bool uniq=(((int)I::kind&K_UNQ)||...);
  typedef Al<E,VP_ALB> al;
  typedef boost::multi_index_container<E,mi::indexed_by<typename I::spec...>,al> mic;
  template<int K> using D=typename std::tuple_element<K,descs>::type;
  static std::string desc(){std::vector<std::string> v{I::desc()...};return arr(v);}
};

/* the container configurations: each gives T1 and a node-compatible T2 */
#define VP_CONFIG_LIST \
 /* 1 */ C(1,(OU<P<1>>,ON<P<2>>,SQ),(ON<P<1>>,OU<P<2>>,SQ)) \
 /* 2 */ C(2,(SQ,OU<P<1>>,HN<P<2>>),(SQ,ON<P<1>>,HU<P<1>>)) \
 /* 3 */ C(3,(HU<P<1>>,RN<P<2>>,RA),(HN<P<2>>,RU<P<1>>,RA)) \
 /* 4 */ C(4,(HN<P<2>>,ON<P<2,1,-1>>,RA,HU<P<1>>),(HN<P<1>>,OU<P<1>>,RA,HN<P<3>>)) \
 /* 5 */ C(5,(RA,RU<P<1>>,ON<P<2>,P<3>>),(RA,RN<P<3>>,OU<P<1>,P<2>>)) \
 /* 6 */ C(6,(ON<P<2>>,RN<P<2,2>>,HN<P<2>>,SQ,RA),(ON<P<1,2>>,RN<P<2>>,HN<P<1>>,SQ,RA)) \
 /* 7 */ C(7,(RN<P<2>,P<1,1,-1>>,HN<P<2>,P<3>>,OU<P<1>>),(RU<P<1>>,HU<P<1>,P<2>>,ON<P<3,2>>)) \
 /* 8 */ C(8,(RU<P<1,1,-1>>,HN<P<2,2>>,HU<P<1>>,SQ),(RN<P<2>>,HN<P<1>>,HU<P<3>,P<1>>,SQ)) \
 /* 9 */ C(9,(HN<P<2>>,SQ),(HN<P<1>>,SQ)) \
 /*10 */ C(10,(ON<P<1>>),(OU<P<1>>)) \
 /*11 */ C(11,(RN<P<1>>,SQ),(RU<P<1>>,SQ)) \
 /*12 */ C(12,(SQ,RA,SQ),(SQ,RA,SQ)) \
 /*13 */ C(13,(ON<P<1,1,1,1>>,HN<P<2,1,1,2>>,RN<P<2,1,1,3>>,OU<P<3,1,1,4>,P<1,1,1,6>>),(ON<P<1,1,1,5>>,HU<P<1,1,1,3>>,RN<P<2,1,1,6>>,OU<P<1,1,1,0>,P<2,1,1,3>>)) \
 /*14 */ C(14,(ON<P<1>,P<2>,P<3>>,HU<P<1>,P<2>,P<3>>,SQ,RN<P<3,1,-1>,P<2,2,1>>),(OU<P<1>,P<2,1,-1>,P<3>>,HN<P<2>>,SQ,RN<P<2>>)) \
 /*15 */ C(15,(HU<P<1>>,HN<P<2>>,HN<P<3,2>>,ON<P<2>>),(HN<P<1>>,HN<P<2>>,HU<P<3>>,ON<P<1>>)) \
 /*16 */ C(16,(RA,SQ,HU<P<1>>),(RA,SQ,HN<P<1>>)) \
 /*17 */ C(17,(OU<P<1>>,RU<P<2>>,HU<P<3>>,SQ),(OU<P<3>>,RU<P<1>>,HU<P<2>>,SQ)) \
 /*18 */ C(18,(ON<P<2,1,-1,7>>,RN<P<2,1,1,8>>,HN<P<2,1,1,7>>,HU<P<1,1,1,8>,P<3,1,1,7>>),(OU<P<1,1,1,8>>,RU<P<1,1,1,7>>,HU<P<1,1,1,7>>,HN<P<2,1,1,7>,P<3,1,1,0>>))
#define VP_STRIP(...) __VA_ARGS__
template<int N> struct Config;
#define C(n,x,y) template<> struct Config<n>{typedef Cfg<VP_STRIP x> T1;typedef Cfg<VP_STRIP y> T2;};
VP_CONFIG_LIST
#undef C
} /* vp */
#endif
