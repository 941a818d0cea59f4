/* Generic conformance driver: executes operations (random or from a script
 * generated by the specification) on containers of a configuration and logs
 * one JSON event per call: name, arguments, results and the projected state
 * of everything the call may have touched. */
#ifndef VP_DRIVER_HPP
#define VP_DRIVER_HPP
#include "cfg.hpp"
#include <algorithm>
#include <list>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <csignal>
#include <sys/resource.h>
#include <unistd.h>
#include <boost/ref.hpp>
#include <boost/tuple/tuple.hpp>
#ifdef VP_SER
#include <sstream>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/version.hpp>
#endif

#ifndef VP_OPG
#define VP_OPG 0xffffff
#endif

#if defined(VP_SER)&&VP_SER==2
BOOST_CLASS_VERSION(vp::E,3)
#endif

namespace vp{

#ifdef VP_SER
inline int& repeat(){static int n=0;return n;}
#if VP_SER==2 /* values with a class version, partly stored as construction data */
template<class Ar> void save_construct_data(Ar& ar,const E* e,unsigned v){
  int x=e->b+(v==3?0:1000);
  ar<<boost::serialization::make_nvp("x",x);
}
template<class Ar> void load_construct_data(Ar& ar,E* e,unsigned v){
  int x;
  ar>>boost::serialization::make_nvp("x",x);
  ::new(static_cast<void*>(e))E();
  e->b=x+(v==3?0:2000);
}
#endif
template<class Ar> void serialize(Ar& ar,E& e,unsigned v){
#if VP_SER==2
  if(v!=3)throw std::runtime_error("class version");
#else
  (void)v;
  ar&boost::serialization::make_nvp("b",e.b);
#endif
  ar&boost::serialization::make_nvp("a",e.a);
  ar&boost::serialization::make_nvp("c",e.c);ar&boost::serialization::make_nvp("t",e.t);
  if constexpr(Ar::is_loading::value){ /* on demand, the n-th value read repeats the one before */
    static int p[4];
    if(repeat()>0&&!--repeat()){e.a=p[0];e.b=p[1];e.c=p[2];e.t=p[3];}
    p[0]=e.a;p[1]=e.b;p[2]=e.c;p[3]=e.t;
  }
}
#endif

enum Code{INS=1,INSR,ERA,ERRG,ERK,CLR,REM,UNQ,REPL,MODI,EXT,EXTK,NHI,NHM,NHX,MRG,SMG,SORT,REV,
  REL1,RELR,REAR,CPY,LOOK,RNG,RNK,POS,HPOL,BKT,RPOL,CMPC,SER,TAKE,DROP,MIS,NCODES};
inline const char* cname(int c){
  static const char* n[]={"?","ins","insr","era","errg","erk","clr","rem","unq","repl","modi","ext","extk",
  "nhi","nhm","nhx","mrg","smg","sort","rev","rel1","relr","rear","cpy","look","rng","rnk","pos","hpol",
  "bkt","rpol","cmpc","ser","take","drop","mis"};
  return n[c];}
enum{G_BASE=1,G_LIST=2,G_MOD=4,G_NODE=8,G_XFER=16,G_CPY=32,G_LOOK=64,G_RANK=128,G_POS=256,G_HASH=512,
  G_CMP=1024,G_SER=2048,G_SLOT=4096,G_RANGE=8192,G_ERASE=16384};

struct Op{
  int code=0,c=1,i=0,ri=0,p=0,p2=0,c2=1,i2=0,way=0,k=0;
  std::vector<V4> vs;
  std::vector<int> perm;
  int fk=0,fn=0; /* fault mask; if fn>0 fire at exactly that count, else all in turn */
};
inline E mk(const V4& v){return E(std::get<0>(v),std::get<1>(v),std::get<2>(v),std::get<3>(v));}
inline std::string jv(const V4& v){return jv(std::get<0>(v),std::get<1>(v),std::get<2>(v),std::get<3>(v));}

struct Skip{};
struct SortCmp{int f,s;
  bool operator()(const E& x,const E& y)const{
    x.touch();y.touch();++work().pred;tick(F_PRED);
    if(f==0){if(x.a!=y.a)return x.a<y.a; if(x.b!=y.b)return x.b<y.b; return x.c<y.c;}
    return s>0?fld(x,f)<fld(y,f):fld(y,f)<fld(x,f);}};

inline std::FILE*& out(){static std::FILE* f=stdout;return f;}
inline long& inv_failures(){static long n=0;return n;}

inline const char*& current_op(){static const char* p="?";return p;}
struct Options{
  std::uint64_t seed=1;int traces=10,len=100,maxn=8,ka=8,kb=4,kc=4,fault=0,faultmask=0,big=0,bump=0,hash=-1,vary=1,fst=1;
  std::map<std::string,int> w;
};

template<class CF1,class CF2> struct Driver{
  typedef typename CF1::mic M1; typedef typename CF2::mic M2;
  enum{N=CF1::N};
  typedef typename M1::node_type NH;
  std::unique_ptr<M1> A,B; std::unique_ptr<M2> C;
  NH h[2];
  std::string last[5];
  int tag=0;
  Rng rng; Options o;
  long events=0;

  Driver(const Options& o_):rng(o_.seed),o(o_){}

  template<class M> struct cfof{typedef typename std::conditional<std::is_same<M,M1>::value,CF1,CF2>::type type;};

  template<class F> void with(int c,F f){
    if(c==1)f(*A,CF1());else if(c==2)f(*B,CF1());else f(*C,CF2());}
  template<int K=0,class F> static void vis(int i,F&& f){
    if constexpr(K<(int)N){ if(i==K)f(std::integral_constant<int,K>()); else vis<K+1>(i,f);}
  }
  template<class CF,int K> static constexpr int kind(){return CF::template D<K>::kind;}
  int kindrt(int c,int i){int r=0;vis(i,[&](auto K){r=c==3?kind<CF2,K>():kind<CF1,K>();});return r;}
  size_t size(int c){return c==1?A->size():c==2?B->size():C->size();}

  /* ---------- observation ---------- */
  template<class M,class CF> std::string dump(M& m,CF){
    std::string q="[",v="[",z="[",hp="[";
    std::vector<int> fs;
    int g=0;
    std::size_t lim=reg().live.size()+8;
    const M& cm=m;
    vis_all([&](auto K){
      auto& ix=m.template get<K>(); const auto& cix=cm.template get<K>();
      constexpr int kd=kind<CF,decltype(K)::value>();
      std::vector<int> sns; std::vector<const E*> ptrs;
      std::size_t n=0; 
      for(auto it=ix.begin();it!=ix.end();++it){
        if(++n>lim){g|=1<<12;break;}
        if(it->magic!=E::MAGIC)g|=1<<9;
        sns.push_back(it->sn);ptrs.push_back(&*it);
      }
      if(!(g&(1<<12|1<<9))){
        /* const traversal */
        std::size_t j=0;
        for(auto it=cix.cbegin();it!=cix.cend();++it,++j){
          if(j>=ptrs.size()||&*it!=ptrs[j]){g|=1<<10;break;}
        }
        if(j!=ptrs.size())g|=1<<10;
        if constexpr((kd&K_HSH)==0){
          j=ptrs.size();
          for(auto it=ix.end();it!=ix.begin();){
            --it;
            if(j==0||&*it!=ptrs[--j]){g|=1;break;}
          }
          if(j!=0)g|=1;
          j=ptrs.size();
          for(auto it=cix.crbegin();it!=cix.crend();++it){
            if(j==0||&*it!=ptrs[--j]){g|=1;break;}
          }
        }
        if(ix.size()!=cm.size()||ix.empty()!=(ix.begin()==ix.end()))g|=8;
        /* project / iterator_to */
        auto it=ix.begin();
        for(std::size_t x=0;x<ptrs.size();++x,++it){
          if(ix.iterator_to(*ptrs[x])!=it)g|=2;
          if(cix.iterator_to(*ptrs[x])!=it)g|=2;
          vis_all([&](auto L){
            auto pit=m.template project<L>(it);
            if(pit==m.template get<L>().end()||&*pit!=ptrs[x])g|=4;
            if(x==0){
              auto cp=cm.template project<L>(it);
              if(cp==cm.template get<L>().end()||&*cp!=ptrs[x])g|=4;
            }
          });
          if constexpr((kd&K_RA)!=0){
            if(&ix[x]!=ptrs[x]||it-ix.begin()!=(std::ptrdiff_t)x||&*(ix.begin()+x)!=ptrs[x])g|=1<<5;
            if(&*(ix.end()-(std::ptrdiff_t)(ptrs.size()-x))!=ptrs[x])g|=1<<5;
          }
          if constexpr((kd&K_RNK)!=0){
            if(ix.rank(it)!=x||ix.nth(x)!=it)g|=1<<7;
          }
          if constexpr((kd&K_HSH)!=0){
            auto li=ix.local_iterator_to(*ptrs[x]);
            if(&*li!=ptrs[x])g|=1<<8;
          }
        }
        vis_all([&](auto L){
          if(m.template project<L>(ix.end())!=m.template get<L>().end())g|=16;});
        if constexpr((kd&K_HSH)!=0){
          std::size_t tot=0; std::set<const E*> seen;
          for(std::size_t b=0;b<ix.bucket_count();++b){
            std::size_t nb=0;
            for(auto li=ix.begin(b);li!=ix.end(b);++li){
              if(++nb>lim){g|=1<<12;break;}
              if(!seen.insert(&*li).second)g|=1<<8;
              if(ix.bucket(ix.key_extractor()(*li))!=b)g|=1<<8;
            }
            if(ix.bucket_size(b)!=nb)g|=1<<8;
            tot+=nb;
          }
          if(tot!=ptrs.size())g|=1<<8;
        }
        if constexpr((kd&K_RNK)!=0){
          if(ix.nth(ptrs.size())!=ix.end()||ix.nth(ptrs.size()+3)!=ix.end()||ix.rank(ix.end())!=ptrs.size())g|=1<<7;
        }
        if constexpr((kd&(K_SEQ|K_RA))!=0){
          if(!ptrs.empty()&&(&ix.front()!=ptrs.front()||&ix.back()!=ptrs.back()))g|=1<<6;
        }
      }
      fs.push_back(fstate<typename CF::template D<decltype(K)::value>>(cix));
      if constexpr((kd&K_ORD)!=0){
        auto kc=cix.key_comp();auto vc=cix.value_comp();auto ke=cix.key_extractor();
        if(!(g&(1<<12|1<<9)))for(std::size_t x=1;x<ptrs.size();++x)
          if(vc(*ptrs[x-1],*ptrs[x])!=kc(ke(*ptrs[x-1]),ke(*ptrs[x]))||vc(*ptrs[x],*ptrs[x-1])!=kc(ke(*ptrs[x]),ke(*ptrs[x-1])))g|=1<<13;
      }
      if(K){q+=',';z+=',';hp+=',';}
      q+=arr(sns);z+=std::to_string((long)ix.size());
      if constexpr((kd&K_HSH)!=0)hp+="["+std::to_string((long)ix.bucket_count())+","+std::to_string((long)(ix.max_load_factor()*100+0.5))+"]";
      else if constexpr((kd&K_RA)!=0)hp+="["+std::to_string((long)ix.capacity())+"]";
      else hp+="[]";
      if constexpr(K==0){
        for(std::size_t x=0;x<ptrs.size();++x){
          if(x)v+=',';
          v+=jv(ptrs[x]->a,ptrs[x]->b,ptrs[x]->c,ptrs[x]->t);
        }
      }
    });
    J j;j.f("c",(void*)&m==(void*)A.get()?1:(void*)&m==(void*)B.get()?2:3).r("q",q+"]").r("v",v+"]").r("z",z+"]").r("hp",hp+"]").r("fs",arr(fs)).f("g",g).f("al",m.get_allocator().id);
    return j.str();
  }
  /* state of the function objects of an index */
  template<class DD,class Ix> static int fstate(const Ix& ix){
    typedef typename DD::keys keys;
    if constexpr((DD::kind&K_ORD)!=0)return keys::st(ix.key_comp());
    else if constexpr((DD::kind&K_HSH)!=0){
      int a=keys::st(ix.hash_function()),b=keys::st(ix.key_eq());return a==b?a:-1;}
    else return 0;
  }
  template<class M,class CF> static bool same_fs(M& x,M& y,CF){
    bool r=true;
    vis_all([&](auto K){
      typedef typename CF::template D<decltype(K)::value> DD;
      if(fstate<DD>(x.template get<K>())!=fstate<DD>(y.template get<K>()))r=false;});
    return r;
  }
  template<class CF,int K=0,class Args> void setargs(Args& a,int mask){
    if constexpr(K<(int)N){
      typedef typename CF::template D<K> DD;typedef typename DD::keys keys;
      int m=mask>>K&1;
      if constexpr((DD::kind&K_ORD)!=0)a.get_head()=boost::make_tuple(typename keys::ex(),keys::mkc(m));
      else if constexpr((DD::kind&K_HSH)!=0)a.get_head()=boost::make_tuple(std::size_t(0),typename keys::ex(),keys::mkh(m),keys::mke(m));
      if constexpr(K+1<(int)N)setargs<CF,K+1>(a.get_tail(),mask);
    }
  }
  template<int K=0,class F> static void vis_all(F&& f){
    if constexpr(K<(int)N){f(std::integral_constant<int,K>());vis_all<K+1>(f);}
  }
  std::string dumph(){
    std::string s="[";
    for(int k=0;k<2;++k){
      if(k)s+=',';
      if(h[k].empty())s+="[]";
      else{E& e=h[k].value();
        s+="["+std::to_string(e.sn)+",["+std::to_string(e.a)+","+std::to_string(e.b)+","+std::to_string(e.c)+","+std::to_string(e.t)+"],"+std::to_string(h[k].get_allocator().id)+"]";}
    }
    return s+"]";
  }
  void diff(std::string& s,int slot,const std::string& d){
    if(last[slot]==d)return;
    last[slot]=d;if(!s.empty())s+=',';s+=d;
  }
  void emit(J& j,int thr){
    j.f("x",thr).f("fi",faults().fired);
    faults().disarm();faults().fired=0;
    Work w=work();
    std::string s;
    diff(s,1,dump(*A,CF1()));diff(s,2,dump(*B,CF1()));diff(s,3,dump(*C,CF2()));
    work()=w;
    j.r("s","["+s+"]");
    s="";diff(s,4,dumph());
    j.r("h",s.empty()?"[]":s);
    std::string al="[";
    for(int k=0;k<4;++k){if(k)al+=',';al+=std::to_string(heap().cnt[k]);}
    j.r("m","["+std::to_string((long)reg().live.size())+","+std::to_string(reg().bad+heap().bad)+","+std::to_string(inv_failures())+"]");
    j.r("b",al+"]");
    j.f("as",als);als=0;
    j.r("w",wk);
    j.r("it",slots_json());
    std::string l=j.str();l+='\n';
    std::fwrite(l.data(),1,l.size(),out());std::fflush(out());
    ++events;
  }
  std::string wk="[]";

  /* ---------- helpers ---------- */
  template<int K,class M> auto itr(M& m,int ri,int p,int how){
    auto& ix=m.template get<K>();
    auto r=ix.end();
    vis(ri,[&](auto L){
      auto& jx=m.template get<L>();auto j=jx.begin();
      for(int x=0;x<p&&j!=jx.end();++x)++j;
      if(j==jx.end()){if(how&1)r=m.template project<K>(j);}
      else if(how&1)r=m.template project<K>(j);
      else r=ix.iterator_to(*j);
    });
    return r;
  }
  template<class Ix,class It> static int sn(Ix& ix,It it){return it==ix.end()?0:it->sn;}
  std::vector<E> mkv(const std::vector<V4>& v){std::vector<E> r;r.reserve(v.size());for(auto& x:v)r.push_back(mk(x));return r;}
  std::string jvs(const std::vector<V4>& v){std::string s="[";for(size_t i=0;i<v.size();++i){if(i)s+=',';s+=jv(v[i]);}return s+"]";}

  int fmask=0;long fcount=0;
  int als=0;
  void arm(){
    Work z;work()=z;heap().last_als=0;faults().fired=0;
    if(fmask)faults().arm(fmask,fcount);
  }
  void disarm(){
    faults().disarm();als|=heap().last_als;
    Work& w=work();
    std::vector<int> v{(int)w.cmp,(int)w.hash,(int)w.eq,(int)(w.ctor+w.copy+w.move),(int)w.assign,(int)w.alloc,(int)w.dealloc,(int)w.pred};
    wk=arr(v);
  }
#define CALL(e) [&]()->decltype(auto){struct G{Driver* d;~G(){d->disarm();}} g_{this};this->arm();return e;}()

  /* held iterators and references (stability) */
  struct SlotBase{int id=0,i=0,sn=0,c=0;const E* ptr=nullptr;virtual ~SlotBase(){}
#ifdef VP_SAFE
    virtual bool valid()=0;virtual int owner(Driver&)=0;virtual bool isend(Driver&)=0;
#endif
    virtual int deref()=0;virtual int endof(Driver&)=0;virtual bool rt(Driver&,int c)=0;};
  std::vector<std::unique_ptr<SlotBase>> slots;
  template<class It> struct ItSlot:SlotBase{It it;};
  template<class It,int K,bool M1T> struct Slot:ItSlot<It>{
#ifdef VP_SAFE
    bool valid()override{return this->it.valid();}
    int owner(Driver& d)override{
      int r=0;
      for(int c=1;c<=3;++c)d.with(c,[&](auto& m,auto){
        auto e=m.template get<K>().end();
        if constexpr(std::is_same<decltype(e),It>::value){if(this->it.owner()==e.owner())r=c;}
      });
      return r;
    }
    bool isend(Driver&)override{return this->it==this->it.owner()->end();}
#endif
    int deref()override{return this->sn==0?0:((&*this->it==this->ptr)?this->it->sn:-1);}
    int endof(Driver& d)override{
      if constexpr(M1T){
        if(this->it==d.A->template get<K>().end())return 1;
        if(this->it==d.B->template get<K>().end())return 2;
      }
      if constexpr(!M1T||std::is_same<typename M1::template nth_index<K>::type::iterator,typename M2::template nth_index<K>::type::iterator>::value)
        if(this->it==d.C->template get<K>().end())return 3;
      return 0;
    }
    bool rt(Driver& d,int c)override{ /* iterator_to of the element in container c gives this iterator */
      bool r=true;
      d.with(c,[&](auto& m,auto cf){
        (void)cf;
        auto x=m.template get<K>().iterator_to(*this->ptr);
        if constexpr(std::is_same<decltype(x),It>::value)r=x==this->it;
      });
      return r;
    }
  };
  std::string slots_json(){
    std::string s="[";bool f=true;
#ifdef VP_SAFE
    for(auto& p:slots){
      int v=p->valid(),a=0,b=0;
      if(v){
        b=p->owner(*this);
        if(p->sn==0)a=p->isend(*this)?0:-1;
        else{
          auto f2=reg().live.find(p->ptr);
          if(f2==reg().live.end()||f2->second!=p->sn)a=-2;
          else{a=p->isend(*this)?0:p->deref();if(a>0&&b&&!p->rt(*this,b))a=-3;}
        }
      }
      if(!f)s+=',';f=false;
      s+="["+std::to_string(p->id)+","+std::to_string(a)+","+std::to_string(b)+","+std::to_string(v)+"]";
    }
    return s+"]";
#endif
    if constexpr(VP_OPG&G_SLOT){
      for(auto& p:slots){
        int a,b;
        if(p->sn){
          auto f2=reg().live.find(p->ptr);
          if(f2==reg().live.end()||f2->second!=p->sn)a=-2; else a=p->deref();
          b=0;
          if(a>0){ /* the container that holds it according to traversal */
            int cc=0;
            for(int c=1;c<=3;++c)with(c,[&](auto& m,auto){for(auto& e:m.template get<0>())if(&e==p->ptr)cc=c;});
            if(cc&&!p->rt(*this,cc))a=-3;
            b=cc;
          }
        }
        else{a=0;b=p->endof(*this);}
        if(!f)s+=',';f=false;
        s+="["+std::to_string(p->id)+","+std::to_string(a)+","+std::to_string(b)+"]";
      }
    }
    return s+"]";
  }
  int nslot=0;

  /* ---------- execution of one operation ---------- */
  void run(const Op& op){
    if(!op.fk){exec(op,0,0);return;}
    if(op.fn){exec(op,op.fk,op.fn);return;}
    for(long n=1;n<200;++n){
      if(!exec(op,op.fk,n))break;
    }
  }
  bool exec(const Op& op,int fm,long fn){
    J j;j.fs("op",cname(op.code)).f("c",op.c).f("i",op.i+1);
    current_op()=cname(op.code);
    int thr=0;
    fmask=fm;fcount=fn;wk="[]";
    try{
      step(op,j);
    }
    catch(Skip&){fmask=0;return false;}
    catch(Fault& f){thr=f.kind;}
#ifdef VP_SAFE
    catch(SafeError& f){thr=20+f.code;}
#endif
    catch(std::exception& e){thr=9;}
    fmask=0;faults().disarm();
    /* drop held iterators whose element went away or into a handle */
    std::string pre;
    emit(j,thr);
    return thr!=0;
  }
  template<class Ix,class M> void setpos(J& j,int hk,int e){j.f("hk",hk).f("e",e);}

  void step(const Op& op,J& j){
    switch(op.code){
    case INS: if constexpr(VP_OPG&G_BASE)do_ins(op,j);break;
    case INSR:if constexpr(VP_OPG&G_RANGE)do_insr(op,j);break;
    case ERA: if constexpr(VP_OPG&G_BASE)do_era(op,j);break;
    case ERRG:case ERK:case REM:case UNQ: if constexpr(VP_OPG&G_ERASE)do_erx(op,j);break;
    case CLR: if constexpr(VP_OPG&G_BASE)with(op.c,[&](auto& m,auto){vis(op.i,[&](auto K){CALL((m.template get<K>().clear()));});});break;
    case REPL:case MODI: if constexpr(VP_OPG&G_MOD)do_mod(op,j);break;
    case EXT:case EXTK:case NHI:case NHM:case NHX: if constexpr(VP_OPG&G_NODE)do_node(op,j);break;
    case MRG:case SMG: if constexpr(VP_OPG&G_XFER)do_mrg(op,j);break;
    case SORT:case REV:case REL1:case RELR:case REAR: if constexpr(VP_OPG&G_LIST)do_list(op,j);break;
    case CPY: if constexpr(VP_OPG&G_CPY)do_cpy(op,j);break;
    case LOOK:case RNG: if constexpr(VP_OPG&G_LOOK)do_look(op,j);break;
    case RNK: if constexpr(VP_OPG&G_RANK)do_rnk(op,j);break;
    case POS:case RPOL: if constexpr(VP_OPG&G_POS)do_pos(op,j);break;
    case HPOL:case BKT: if constexpr(VP_OPG&G_HASH)do_hash(op,j);break;
    case CMPC: if constexpr(VP_OPG&G_CMP)do_cmp(op,j);break;
    case SER: if constexpr(VP_OPG&G_SER)do_ser(op,j);break;
    case TAKE:case DROP: if constexpr(VP_OPG&G_SLOT)do_slot(op,j);break;
#ifdef VP_SAFE
    case MIS: do_mis(op,j);break;
#endif
    }
  }

  void do_ins(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){vis(op.i,[&](auto K){
      auto& ix=m.template get<K>();constexpr int kd=kind<decltype(cf),decltype(K)::value>();
      V4 q=op.vs[0];
      /* sometimes the value is a reference to an element of the container */
      const E* al=nullptr;
      if(o.fst&&op.k%6==0&&!ix.empty()){
        auto it=ix.begin();for(int x=op.p2%(int)m.size();x--;)++it;
        al=&*it;q=V4(al->a,al->b,al->c,al->t);
      }
      int a=std::get<0>(q),b=std::get<1>(q),c=std::get<2>(q),t=std::get<3>(q);
      auto pos=itr<K>(m,op.ri,op.p,op.way>>4);
      int e=sn(ix,pos),hk=0,ok=-1,way=op.way&15;
      auto r=ix.end();
      j.r("v",jv(q));
      if constexpr((kd&(K_ORD|K_HSH))!=0){
        way%=6;hk=way>=3?1:0;if(!hk)e=0;
        j.f("hk",hk).f("e",e).f("way",way);
        if(way==2){auto x=CALL((ix.emplace(a,b,c,t)));r=x.first;ok=x.second;}
        else if(way==5){r=CALL((ix.emplace_hint(pos,a,b,c,t)));}
        else{
          E v=mk(q);const E& cv=al?*al:v;
          if(way==0){auto x=CALL((ix.insert(cv)));r=x.first;ok=x.second;}
          else if(way==1){auto x=CALL((ix.insert(std::move(v))));r=x.first;ok=x.second;}
          else if(way==3)r=CALL((ix.insert(pos,cv)));
          else r=CALL((ix.insert(pos,std::move(v))));
        }
      }
      else{
        way%=9;hk=2;
        if(way<3)e=0;else if(way<6)e=ix.empty()?0:ix.front().sn;
        j.f("hk",hk).f("e",e).f("way",way);
        std::pair<decltype(r),bool> x(ix.end(),false);
        E v=mk(q);const E& cv=al?*al:v;
        switch(way){
          case 0:x=CALL((ix.push_back(cv)));break;
          case 1:x=CALL((ix.push_back(std::move(v))));break;
          case 2:x=CALL((ix.emplace_back(a,b,c,t)));break;
          case 3:x=CALL((ix.push_front(cv)));break;
          case 4:x=CALL((ix.push_front(std::move(v))));break;
          case 5:x=CALL((ix.emplace_front(a,b,c,t)));break;
          case 6:x=CALL((ix.insert(pos,cv)));break;
          case 7:x=CALL((ix.insert(pos,std::move(v))));break;
          case 8:x=CALL((ix.emplace(pos,a,b,c,t)));break;
        }
        r=x.first;ok=x.second;
      }
      j.f("ok",ok).f("r",sn(ix,r));
    });});
  }

  void do_insr(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){vis(op.i,[&](auto K){
      auto& ix=m.template get<K>();constexpr int kd=kind<decltype(cf),decltype(K)::value>();
      auto pos=itr<K>(m,op.ri,op.p,op.way>>4);
      int e=sn(ix,pos),way=op.way&15;
      auto v=mkv(op.vs);
      /* the source of a range: elements, values converted, a single-pass iterator */
      int src=op.p2%3;
      std::vector<Q> qs;for(auto& x:op.vs)qs.push_back(Q{std::get<0>(x),std::get<1>(x),std::get<2>(x),std::get<3>(x)});
      const Q* cur=qs.data();InIt i1{&cur,cur},i2{&cur,cur+qs.size()};
      if constexpr((kd&(K_ORD|K_HSH))!=0){
        way%=4;
        j.f("hk",0).f("e",0).f("clr",way==3).f("way",way).r("vs",jvs(op.vs)).f("er",0);
        if(way==0&&src==1)CALL((ix.insert(qs.begin(),qs.end())));
        else if(way==0&&src==2)CALL((ix.insert(i1,i2)));
        else if(way==0)CALL((ix.insert(v.begin(),v.end())));
        else if(way==1){std::list<E> l(v.begin(),v.end());CALL((ix.insert(l.begin(),l.end())));}
        else if(way==2){
          if(v.size()==0)CALL((ix.insert(std::initializer_list<E>{})));
          else if(v.size()==1)CALL((ix.insert({v[0]})));
          else if(v.size()==2)CALL((ix.insert({v[0],v[1]})));
          else if(v.size()==3)CALL((ix.insert({v[0],v[1],v[2]})));
          else throw Skip();
        }
        else{
          if(v.size()==0)CALL((ix=std::initializer_list<E>{}));
          else if(v.size()==1)CALL((ix={v[0]}));
          else if(v.size()==2)CALL((ix={v[0],v[1]}));
          else if(v.size()==3)CALL((ix={v[0],v[1],v[2]}));
          else throw Skip();
        }
      }
      else{
        way%=8;
        std::vector<V4> eff=op.vs;int hk=2,er=0;
        int n=(int)ix.size();
        const E* al=nullptr;
        if(o.fst&&way==1&&op.k%4==0&&n&&!op.vs.empty()){
          al=&*(std::next(ix.begin(),op.p2%n));eff.assign(eff.size(),V4(al->a,al->b,al->c,al->t));}
        else if(way==1||way==4){for(auto& x:eff)x=op.vs[0];}
        if(way==5||way==6){
          /* resize to op.k */
          e=0;V4 d=way==5?V4(0,0,0,0):op.vs.empty()?V4(1,1,1,++tag):op.vs[0];
          eff.clear();
          if(op.k>n)eff.assign(op.k-n,d);
          else er=n-op.k;
          E x=mk(d);
          j.f("hk",hk).f("e",e).f("clr",0).f("way",way).r("vs",jvs(eff)).f("er",er);
          if(way==5)CALL((ix.resize(op.k)));else CALL((ix.resize(op.k,x)));
        }
        else{
          if((way==1||way==4)&&v.empty())throw Skip();
          bool clr=way==3||way==4||way==7;
          if(way==2){hk=2;}
          j.f("hk",hk).f("e",clr?0:e).f("clr",clr).f("way",way).r("vs",jvs(eff)).f("er",er);
          if(way==0&&src==1)CALL((ix.insert(pos,qs.begin(),qs.end())));
          else if(way==0&&src==2)CALL((ix.insert(pos,i1,i2)));
          else if(way==0)CALL((ix.insert(pos,v.begin(),v.end())));
          else if(way==1)CALL((ix.insert(pos,v.size(),al?*al:v[0])));
          else if(way==2){
            if(v.size()==0)CALL((ix.insert(pos,std::initializer_list<E>{})));
            else if(v.size()==1)CALL((ix.insert(pos,{v[0]})));
            else if(v.size()==2)CALL((ix.insert(pos,{v[0],v[1]})));
            else if(v.size()==3)CALL((ix.insert(pos,{v[0],v[1],v[2]})));
            else throw Skip();
          }
          else if(way==3&&src==1)CALL((ix.assign(qs.begin(),qs.end())));
          else if(way==3&&src==2)CALL((ix.assign(i1,i2)));
          else if(way==3)CALL((ix.assign(v.begin(),v.end())));
          else if(way==4)CALL((ix.assign(v.size(),v[0])));
          else if(way==7){
            if(v.size()==0)CALL((ix.assign(std::initializer_list<E>{})));
            else if(v.size()==1)CALL((ix.assign({v[0]})));
            else if(v.size()==2)CALL((ix={v[0],v[1]}));
            else if(v.size()==3)CALL((ix={v[0],v[1],v[2]}));
            else throw Skip();
          }
        }
      }
    });});
  }

  void do_era(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){vis(op.i,[&](auto K){
      auto& ix=m.template get<K>();constexpr int kd=kind<decltype(cf),decltype(K)::value>();
      if(ix.empty())throw Skip();
      auto pos=itr<K>(m,op.ri,op.p%(int)m.size(),op.way>>4);
      int way=op.way&15,r=-1;
      if constexpr((kd&(K_SEQ|K_RA))!=0){
        way%=4;
        if(way==2){j.f("e",ix.front().sn);CALL((ix.pop_front()));}
        else if(way==3){j.f("e",ix.back().sn);CALL((ix.pop_back()));}
        else{j.f("e",pos->sn);r=sn(ix,CALL((ix.erase(pos))));}
      }
      else{j.f("e",pos->sn);r=sn(ix,CALL((ix.erase(pos))));}
      j.f("r",r);
    });});
  }

  /* sometimes an argument refers to an element about to go */
  template<class Ix> const E* alias(Ix& ix,const E& v,int k){
    std::vector<const E*> c;
    for(auto& e:ix)if(e.a==v.a&&e.b==v.b&&e.c==v.c)c.push_back(&e);
    return !o.fst||c.empty()||k%2==0?nullptr:c[k/2%(int)c.size()];
  }
  void do_erx(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){vis(op.i,[&](auto K){
      auto& ix=m.template get<K>();constexpr int kd=kind<decltype(cf),decltype(K)::value>();
      if(op.code==ERRG){
        int n=(int)m.size(),x=op.p%(n+1),y=op.p2%(n+1);if(x>y)std::swap(x,y);
        auto f=itr<K>(m,op.i,x,op.way>>4),l=itr<K>(m,op.i,y,op.way>>5);
        j.f("e",sn(ix,f)).f("e2",sn(ix,l));
        j.f("r",sn(ix,CALL((ix.erase(f,l)))));
      }
      else if constexpr((kd&(K_ORD|K_HSH))!=0){
        if(op.code!=ERK)throw Skip();
        E v=mk(op.vs[0]);
        j.r("v",jv(op.vs[0]));
        auto k=ix.key_extractor();
        const E* al=alias(ix,v,op.k);
        j.f("r",(long)CALL((ix.erase(k(al?*al:v)))));
      }
      else{
        if(op.code==ERK)throw Skip();
        int f=op.k%4,d=1+op.k/4%3;E v=mk(op.vs.empty()?V4(0,0,0,0):op.vs[0]);
        if(op.code==REM){
          if(f==0){j.f("f",0).f("d",1).r("v",jv(op.vs[0]));const E* al=alias(ix,v,op.way);CALL((ix.remove(al?*al:v)));}
          else{
            /* remove_if: field f modulo d+1 equals the probe's */
            j.f("f",f).f("d",d+1).r("v",jv(op.vs[0]));
            int r=fld(v,f)%(d+1);
            CALL((ix.remove_if([=](const E& e){e.touch();++work().pred;tick(F_PRED);return fld(e,f)%(d+1)==r;})));
          }
        }
        else{
          j.f("f",f).f("d",d);
          if(f==0)CALL((ix.unique()));
          else CALL((ix.unique([=](const E& x,const E& y){x.touch();y.touch();++work().pred;tick(F_PRED);return fld(x,f)/d==fld(y,f)/d;})));
        }
      }
    });});
  }

  void do_mod(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){vis(op.i,[&](auto K){
      auto& ix=m.template get<K>();constexpr int kd=kind<decltype(cf),decltype(K)::value>();
      typedef typename decltype(cf)::template D<K>::keys keys;
      if(ix.empty())throw Skip();
      auto pos=itr<K>(m,op.ri,op.p%(int)m.size(),op.way>>4);
      E* pe=const_cast<E*>(&*pos);
      j.f("e",pos->sn);
      V4 nv=op.vs[0],bv=op.vs.size()>1?op.vs[1]:nv;
      V4 old(pos->a,pos->b,pos->c,pos->t);
      int way=op.way&15;
      bool early=op.k&1;
      if(op.code==REPL){
        const E* al=nullptr;
        if(o.fst&&!(way&1)&&op.k%5==0){
          auto it=ix.begin();for(int x=op.p2%(int)m.size();x--;)++it;
          al=&*it;nv=V4(al->a,al->b,al->c,al->t);
        }
        E v=mk(nv);
        j.r("v",jv(nv)).f("bk",0).r("bv",jv(nv));
        if(way&1)j.f("ok",(long)CALL((ix.replace(pos,std::move(v)))));
        else j.f("ok",(long)CALL((ix.replace(pos,al?*al:static_cast<const E&>(v)))));
        return;
      }
      auto set=[](E& e,const V4& v){e.a=std::get<0>(v);e.b=std::get<1>(v);e.c=std::get<2>(v);e.t=std::get<3>(v);};
      bool mut=false,back=false,bf=false;
      way%=5;
      auto mod=[&](E& e){if(&e!=pe)++reg().bad;if(early)tick(F_MOD);set(e,nv);mut=true;if(!early)tick(F_MOD);};
      auto bak=[&](E& e){if(&e!=pe)++reg().bad;back=true;bf=faults().fired!=0;if(early)tick(F_BACK);set(e,way==2?bv:old);if(!early)tick(F_BACK);};
      if(way>=3){
        if constexpr(keys::rw!=0){
          int f=keys::f;
          V4 kv=old;int nk=f==1?std::get<0>(nv):f==2?std::get<1>(nv):std::get<2>(nv);
          int ok_=f==1?std::get<0>(old):f==2?std::get<1>(old):std::get<2>(old);
          if(f==1)std::get<0>(kv)=nk;else if(f==2)std::get<1>(kv)=nk;else std::get<2>(kv)=nk;
          j.r("v",jv(kv)).f("bk",way==4).r("bv",jv(old));
          struct R{J& j;bool& b;bool& f;~R(){j.f("bkd",b).f("bf",f);}} rr{j,back,bf};
          auto km=[&](int& x){if(early)tick(F_MOD);x=nk;if(!early)tick(F_MOD);};
          auto kb=[&](int& x){back=true;bf=faults().fired!=0;if(early)tick(F_BACK);x=ok_;if(!early)tick(F_BACK);};
          if(way==3)j.f("ok",(long)CALL((ix.modify_key(pos,km))));
          else j.f("ok",(long)CALL((ix.modify_key(pos,km,kb))));
        }
        else throw Skip();
      }
      else{
        struct R{J& j;bool& b;bool& f;~R(){j.f("bkd",b).f("bf",f);}} rr{j,back,bf};
        j.r("v",jv(nv)).f("bk",way).r("bv",jv(way==2?bv:old));
        if(way==0)j.f("ok",(long)CALL((ix.modify(pos,mod))));
        else j.f("ok",(long)CALL((ix.modify(pos,mod,bak))));
      }
    });});
  }

  /* move assignment of handles requires equal or propagated allocators */
  void give(int k,NH& t){
    if(!(VP_ALB&2)&&!h[k].empty()&&!t.empty()&&h[k].get_allocator()!=t.get_allocator())h[k]=NH();
    h[k]=std::move(t);
  }
  bool mixed(){return !h[0].empty()&&!h[1].empty()&&h[0].get_allocator()!=h[1].get_allocator();}
  void do_node(const Op& op,J& j){
    int k=op.k&1;
    j.f("hs",k+1);
    if(op.code==NHM){
      if(h[k].empty())throw Skip();
      E& e=h[k].value();const V4& v=op.vs[0];
      e.a=std::get<0>(v);e.b=std::get<1>(v);e.c=std::get<2>(v);e.t=std::get<3>(v);
      j.r("v",jv(v));return;
    }
    if(op.code==NHX){
      int way=op.way%7;j.f("way",way);
      if(way==0)h[k]=NH();
      else if(way==5){NH& self=h[k];h[k]=std::move(self);}
      else if(way==6){h[k].swap(h[k]);}
      else if(way==1){
        if(mixed()&&!(VP_ALB&2))throw Skip();
        h[1-k]=std::move(h[k]);
      }
      else if(way==2){
        if(mixed()&&!(VP_ALB&4))throw Skip();
        h[0].swap(h[1]);
      }
      else if(way==3){NH t(std::move(h[k]));j.f("mt",h[k].empty()&&!h[k]);h[k]=std::move(t);}
      else {
        if(mixed()&&!(VP_ALB&4))throw Skip();
        using std::swap;swap(h[k],h[1-k]);
      }
      return;
    }
    with(op.c,[&](auto& m,auto cf){vis(op.i,[&](auto K){
      auto& ix=m.template get<K>();constexpr int kd=kind<decltype(cf),decltype(K)::value>();
      if(op.code==EXT){
        if(ix.empty())throw Skip();
        auto pos=itr<K>(m,op.ri,op.p%(int)m.size(),op.way>>4);
        j.f("e",pos->sn);
        NH t(CALL((ix.extract(pos))));
        give(k,t);
      }
      else if(op.code==EXTK){
        if constexpr((kd&(K_ORD|K_HSH))!=0){
          E v=mk(op.vs[0]);j.r("v",jv(op.vs[0]));
          auto ke=ix.key_extractor();
          const E* al=alias(ix,v,op.way);NH t(CALL((ix.extract(ke(al?*al:v)))));
          j.f("got",!t.empty());
          give(k,t);
        }
        else throw Skip();
      }
      else{ /* NHI */
        if(!h[k].empty()&&h[k].get_allocator()!=m.get_allocator())throw Skip();
        auto pos=itr<K>(m,op.ri,op.p,op.way>>4);
        int way=op.way&15,e=sn(ix,pos);
        if constexpr((kd&(K_ORD|K_HSH))!=0){
          if(way&1){
            j.f("hk",1).f("e",e).f("ok",-1);
            auto r=CALL((ix.insert(pos,std::move(h[k]))));
            j.f("r",sn(ix,r));
          }
          else{
            j.f("hk",0).f("e",0);
            auto r=CALL((ix.insert(std::move(h[k]))));
            j.f("ok",r.inserted).f("r",sn(ix,r.position)).f("mt",h[k].empty());
            h[k]=std::move(r.node);
          }
        }
        else{
          j.f("hk",2).f("e",e);
          auto r=CALL((ix.insert(pos,std::move(h[k]))));
          j.f("ok",r.inserted).f("r",sn(ix,r.position)).f("mt",h[k].empty());
          h[k]=std::move(r.node);
        }
      }
    });});
  }

  void do_mrg(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){vis(op.i,[&](auto K){
      auto& ix=m.template get<K>();constexpr int kd=kind<decltype(cf),decltype(K)::value>();
      if(op.code==SMG){
        if constexpr((kd&(K_SEQ|K_RA))!=0){
          with(op.c2,[&](auto& m2,auto){
            if constexpr(std::is_same<decltype(m),decltype(m2)>::value){
              auto& iy=m2.template get<K>();
              SortCmp sc{op.k%4,op.k/4%2?-1:1};
              if(!std::is_sorted(ix.begin(),ix.end(),sc)||!std::is_sorted(iy.begin(),iy.end(),sc))throw Skip();
              j.f("c2",op.c2).f("f",sc.f).f("sg",sc.s);
              if(sc.f==0)CALL((ix.merge(iy)));else CALL((ix.merge(iy,sc)));
            }
            else throw Skip();
          });
        }
        else throw Skip();
        return;
      }
      with(op.c2,[&](auto& m2,auto){vis(op.i2,[&](auto L){
        auto& iy=m2.template get<L>();
        bool same=(void*)&m==(void*)&m2;
        bool eqal=m.get_allocator()==m2.get_allocator();
        j.f("c2",op.c2).f("i2",op.i2+1).f("eqal",eqal);
        int way=(op.way&15)%3;
        int n=(int)iy.size();
        int x=op.p%(n+1),y=op.p2%(n+1);if(x>y)std::swap(x,y);
        if(way==1&&n==0)throw Skip();
        auto f=itr<L>(m2,op.i2,way==1?op.p%n:x,op.way>>4);
        auto l=itr<L>(m2,op.i2,y,op.way>>5);
        j.f("way",way).f("e",way==0?-1:sn(iy,f)).f("e2",way==2?sn(iy,l):-1);
        if constexpr((kd&(K_SEQ|K_RA))!=0){
          auto pos=itr<K>(m,op.ri,op.k%((int)ix.size()+1),op.way>>6);
          if(same){
            if(way==0){if((int)L==(int)K||true)pos=ix.end();}
            if(way==2){for(auto z=f;z!=l;++z)if(pos!=ix.end()&&&*z==&*pos)throw Skip();}
          }
          j.f("pos",sn(ix,pos));
          if(way==0)CALL((ix.splice(pos,iy)));
          else if(way==1){auto r=CALL((ix.splice(pos,iy,f)));
            j.r("r",res_of(r,ix));}
          else CALL((ix.splice(pos,iy,f,l)));
        }
        else{
          if(!eqal)throw Skip();
          j.f("pos",-1);
          if(way==0)CALL((ix.merge(iy)));
          else if(way==1){auto r=CALL((ix.merge(iy,f)));j.r("r",res_of(r,ix));}
          else CALL((ix.merge(iy,f,l)));
        }
      });});
    });});
  }
  template<class It,class Ix> std::string res_of(const std::pair<It,bool>& r,Ix& ix){
    return "["+std::to_string(sn(ix,r.first))+","+std::to_string((int)r.second)+"]";}
  template<class Ix> std::string res_of(int,Ix&){return "[]";}

  void do_list(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){vis(op.i,[&](auto K){
      auto& ix=m.template get<K>();constexpr int kd=kind<decltype(cf),decltype(K)::value>();
      if constexpr((kd&(K_SEQ|K_RA))!=0){
        int n=(int)ix.size();
        if(op.code==SORT){
          SortCmp sc{op.k%4,op.k/4%2?-1:1};
          j.f("f",sc.f).f("sg",sc.s);
          if(sc.f==0)CALL((ix.sort()));else CALL((ix.sort(sc)));
        }
        else if(op.code==REV)CALL((ix.reverse()));
        else if(op.code==REL1){
          if(!n)throw Skip();
          auto pos=itr<K>(m,op.ri,op.p%(n+1),op.way>>4),i=itr<K>(m,op.ri,op.p2%n,op.way>>5);
          j.f("pos",sn(ix,pos)).f("e",sn(ix,i));
          CALL((ix.relocate(pos,i)));
        }
        else if(op.code==RELR){
          int x=op.p%(n+1),y=op.p2%(n+1),p=op.k%(n+1);if(x>y)std::swap(x,y);
          if(p>=x&&p<y)throw Skip();
          auto pos=itr<K>(m,op.i,p,op.way>>4),f=itr<K>(m,op.i,x,op.way>>5),l=itr<K>(m,op.i,y,op.way>>6);
          j.f("pos",sn(ix,pos)).f("e",sn(ix,f)).f("e2",sn(ix,l));
          CALL((ix.relocate(pos,f,l)));
        }
        else{
          std::vector<boost::reference_wrapper<const E>> v;
          for(auto& e:ix)v.push_back(boost::cref(e));
          std::vector<int> s;
          /* perm: Lehmer code */
          for(std::size_t x=0;x<v.size()&&x<op.perm.size();++x){
            std::size_t y=x+op.perm[x]%(v.size()-x);std::rotate(v.begin()+x,v.begin()+y,v.begin()+y+1);}
          for(auto& e:v)s.push_back(e.get().sn);
          j.r("pm",arr(s));
          CALL((ix.rearrange(v.begin())));
        }
      }
      else throw Skip();
    });});
  }

  template<class M> std::unique_ptr<M>& cell(int c){
    if constexpr(std::is_same<M,M1>::value&&std::is_same<M,M2>::value)return c==1?A:c==2?B:C;
    else if constexpr(std::is_same<M,M1>::value)return c==1?A:B;
    else return C;
  }
  template<class CF,class A_,std::size_t... K> static void buckets0(A_& a,int n,std::index_sequence<K...>){
    (bucket0<CF,K>(a,n),...);
  }
  template<class CF,std::size_t K,class A_> static void bucket0(A_& a,int n){
    if constexpr((kind<CF,(int)K>()&K_HSH)!=0)boost::tuples::get<0>(boost::tuples::get<(int)K>(a))=(std::size_t)n;
    (void)a;(void)n;
  }
  void do_cpy(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){
      (void)cf;
      typedef typename std::decay<decltype(m)>::type M;
      int way=op.way%13;
      int c2=op.c2;
      if((c2==3)!=(op.c==3))throw Skip();
      if((way<=3||way==5)&&c2==op.c)throw Skip();
      auto& dst=cell<M>(c2);auto& d=*dst;
      typedef typename M::allocator_type A_;
      int al0=m.get_allocator().id,al1=d.get_allocator().id;
      int nal=op.k&1;
      j.f("c2",c2).f("way",way).f("al0",al0).f("al1",al1).f("nal",nal).f("trf",VP_ALB);
      typename M::ctor_args_list ca;
      if(way>=11&&op.k&2){                     /* initial bucket counts */
        const int n=op.k/4*7;
        j.f("bk0",n);
        buckets0<decltype(cf)>(ca,n,std::make_index_sequence<decltype(cf)::N>());
      }
      switch(way){
        case 0:{std::unique_ptr<M> n(CALL((new M(static_cast<const M&>(m)))));dst=std::move(n);}break;
        case 1:{std::unique_ptr<M> n(CALL((new M(static_cast<const M&>(m),A_(nal)))));dst=std::move(n);}break;
        case 2:{std::unique_ptr<M> n(CALL((new M(std::move(m)))));dst=std::move(n);}break;
        case 3:{std::unique_ptr<M> n(CALL((new M(std::move(m),A_(nal)))));dst=std::move(n);}break;
        case 4:CALL((d=static_cast<const M&>(m)));break;
        case 5:CALL((d=std::move(m)));break;
        case 6:case 7:case 10:
          if(!(VP_ALB&4)&&al0!=al1)throw Skip();
          if(way==6)CALL((m.swap(d)));
          else if(way==7){using std::swap;CALL((swap(m,d)));}
          else vis(op.i,[&](auto K){CALL((m.template get<K>().swap(d.template get<K>())));});
          break;
        case 8:{
          auto v=mkv(op.vs);
          j.r("vs",jvs(op.vs));
          if(v.size()==0)CALL((d=std::initializer_list<E>{}));
          else if(v.size()==1)CALL((d={v[0]}));
          else if(v.size()==2)CALL((d={v[0],v[1]}));
          else if(v.size()==3)CALL((d={v[0],v[1],v[2]}));
          else throw Skip();
        }break;
        case 9:vis(op.i,[&](auto K){CALL((d.template get<K>()=m.template get<K>()));});break;
        case 11:{
          auto v=mkv(op.vs);
          j.r("vs",jvs(op.vs));
          std::vector<Q> qs;for(auto& x:op.vs)qs.push_back(Q{std::get<0>(x),std::get<1>(x),std::get<2>(x),std::get<3>(x)});
          const Q* cur=qs.data();InIt i1{&cur,cur},i2{&cur,cur+qs.size()};
          if(op.p2%4==0){std::unique_ptr<M> n(CALL((new M(v.begin(),v.end(),ca,A_(nal)))));dst=std::move(n);}
          else if(op.p2%4==3&&v.size()==3){std::unique_ptr<M> n(CALL((new M({v[0],v[1],v[2]},ca,A_(nal)))));dst=std::move(n);}
          else if(op.p2%4==1){std::unique_ptr<M> n(CALL((new M(qs.begin(),qs.end(),ca,A_(nal)))));dst=std::move(n);}
          else{std::unique_ptr<M> n(CALL((new M(i1,i2,ca,A_(nal)))));dst=std::move(n);}
        }break;
        case 12:{j.r("vs","[]");std::unique_ptr<M> n(CALL((new M(ca,A_(nal)))));dst=std::move(n);}break;
      }
    });
  }

  /* a compatible key: converted, or compared as it is */
  template<int Conv> static auto ckey(int v){if constexpr(Conv!=0)return CV{v};else return CK{v};}
  template<class Ix,class F> std::string eqr(Ix& ix,const F& r){
    std::vector<int> v;
    std::size_t n=0;
    for(auto it=r.first;it!=r.second;++it){if(it==ix.end()||++n>2000){v.push_back(-1);break;}v.push_back(it->sn);}
    return arr(v);
  }
  void do_look(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){vis(op.i,[&](auto K){
      const auto& ix=static_cast<const typename std::decay<decltype(m)>::type&>(m).template get<K>();
      constexpr int kd=kind<decltype(cf),decltype(K)::value>();
      typedef typename decltype(cf)::template D<K>::keys keys;
      typedef typename decltype(cf)::template D<decltype(K)::value> DD;
      int way=op.way&15;
      if constexpr((kd&(K_ORD|K_HSH))!=0){
        if(op.code==RNG){
          if constexpr((kd&K_ORD)!=0){
            /* bounds on the first key component, in key order */
            const V4& v=op.vs[0];const V4& u=op.vs[1];
            E ev=mk(v),eu=mk(u);
            int lo=op.k%3,hi=op.k/3%3;
            int fsg=fstate<DD>(ix)==1?-1:1;
            auto kv=[&](const E& e){return fsg*first_key<DD>(e);};
            int lk=kv(ev),uk=kv(eu);
            j.f("lo",lo).f("hi",hi).f("lk",lk).f("uk",uk);
            auto kx=[&](const auto& k){return fsg*first_of_key<DD>(k);};
            auto lf=[&](const auto& k){++work().cmp;tick(F_FN);return lo==1?kx(k)>=lk:kx(k)>lk;};
            auto uf=[&](const auto& k){++work().cmp;tick(F_FN);return hi==1?kx(k)<=uk:kx(k)<uk;};
            std::pair<typename std::decay<decltype(ix)>::type::const_iterator,typename std::decay<decltype(ix)>::type::const_iterator> r(ix.end(),ix.end());
            if(lo==0&&hi==0)r=CALL((ix.range(mi::unbounded,mi::unbounded)));
            else if(lo==0)r=CALL((ix.range(mi::unbounded,uf)));
            else if(hi==0)r=CALL((ix.range(lf,mi::unbounded)));
            else r=CALL((ix.range(lf,uf)));
            j.f("r1",sn(ix,r.first)).f("r2",sn(ix,r.second));
            if constexpr((kd&K_RNK)!=0){
              std::pair<std::size_t,std::size_t> q;
              if(lo==0&&hi==0)q=ix.range_rank(mi::unbounded,mi::unbounded);
              else if(lo==0)q=ix.range_rank(mi::unbounded,uf);
              else if(hi==0)q=ix.range_rank(lf,mi::unbounded);
              else q=ix.range_rank(lf,uf);
              j.r("rr","["+std::to_string((long)q.first)+","+std::to_string((long)q.second)+"]");
            }
            else j.r("rr","[]");
          }
          else throw Skip();
          return;
        }
        E pv=mk(op.vs[0]);
        j.r("v",jv(op.vs[0]));
        /* np: number of leading components compared; d: divisor override, 0 none */
        int np=keys::n,d=0;
        auto bundle=[&](const auto& key,auto&&... ex){
          auto f=CALL((ix.find(key,ex...)));
          j.f("np",np).f("d",d).f("f",sn(ix,f));
          auto wfind=wk;
          j.f("ct",(long)ix.contains(key,ex...));
          j.f("cnt",(long)CALL((ix.count(key,ex...))));
          auto er=CALL((ix.equal_range(key,ex...)));
          j.r("eq",eqr(ix,er));
          wk=wfind;
          if constexpr((kd&K_ORD)!=0){
            j.f("lb",sn(ix,ix.lower_bound(key,ex...))).f("ub",sn(ix,ix.upper_bound(key,ex...)));
            j.f("e1",sn(ix,er.first)).f("e2",sn(ix,er.second));
            if constexpr((kd&K_RNK)!=0){
              auto rr=ix.equal_range_rank(key,ex...);
              std::vector<int> v{(int)ix.find_rank(key,ex...),(int)ix.lower_bound_rank(key,ex...),(int)ix.upper_bound_rank(key,ex...),(int)rr.first,(int)rr.second};
              j.r("rk",arr(v));
            }
            else j.r("rk","[]");
          }
        };
        if constexpr(keys::n==1){
          int kv=keys::f==1?pv.a:keys::f==2?pv.b:pv.c;
          if(way%3==0)bundle(kv);
          else if(way%3==1)bundle(ckey<keys::conv>(kv));
          else{
            if constexpr((kd&K_ORD)!=0){
              d=(int)keys::d*(1+op.k%4);
              bundle(CK{kv},CCmp{d,ix.key_comp().m?-(int)keys::s:(int)keys::s});
            }
            else bundle(ckey<keys::conv>(kv),ix.hash_function(),ix.key_eq());
          }
        }
        else{
          if constexpr((kd&K_ORD)!=0){
            if(way%4==0){auto ke=ix.key_extractor();bundle(ke(pv));}
            else prefix_look<DD>(pv,op.k,way,np,bundle);
          }
          else{
            if(way%2==0){auto ke=ix.key_extractor();bundle(ke(pv));}
            else full_look<DD>(pv,way,bundle);
          }
        }
      }
      else throw Skip();
    });});
  }
  template<class Pa> static int comp(const E& e){return fld(e,Pa::f);}
  template<class DD> struct Pk;
  template<template<class...> class T,class P1,class... Ps> struct Pk<T<P1,Ps...>>{
    static int first(const E& e){return (int)P1::s*(fld(e,P1::f)/(int)P1::d);}
    template<class Kx> static int firstk(const Kx& k){
      if constexpr(sizeof...(Ps)==0)return (int)P1::s*(raw(k)/(int)P1::d);
      else return first(k.value);
    }
    typedef std::tuple<P1,Ps...> ps;
    enum{n=1+sizeof...(Ps)};
    template<int X> static int at(const E& e){return fld(e,std::tuple_element<X,ps>::type::f);}
  };
  template<class DD> static int first_key(const E& e){return Pk<DD>::first(e);}
  template<class DD,class Kx> static int first_of_key(const Kx& k){return Pk<DD>::firstk(k);}
  template<class DD,class Bu> void prefix_look(const E& pv,int k,int way,int& np,Bu& b){
    typedef Pk<DD> Q;
    np=1+k%(int)Q::n;
    bool st=way&1;
    if(np==1){if(st)b(std::make_tuple(Q::template at<0>(pv)));else b(boost::make_tuple(Q::template at<0>(pv)));}
    else if(np==2){
      int x=Q::template at<0>(pv),y=Q::template at<1>(pv);
      if(st)b(std::make_tuple(x,y));else b(boost::make_tuple(x,y));
    }
    else if constexpr(Q::n>=3){
      int x=Q::template at<0>(pv),y=Q::template at<1>(pv),z=Q::template at<2>(pv);
      if(st)b(std::make_tuple(x,y,z));else b(boost::make_tuple(x,y,z));
    }
  }
  template<class DD,class Bu> void full_look(const E& pv,int way,Bu& b){
    typedef Pk<DD> Q;
    bool st=way&2;
    if constexpr(Q::n==2){
      int x=Q::template at<0>(pv),y=Q::template at<1>(pv);
      if(st)b(std::make_tuple(x,y));else b(boost::make_tuple(x,y));
    }
    else{
      int x=Q::template at<0>(pv),y=Q::template at<1>(pv),z=Q::template at<2>(pv);
      if(st)b(std::make_tuple(x,y,z));else b(boost::make_tuple(x,y,z));
    }
  }

  void do_rnk(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){vis(op.i,[&](auto K){
      auto& ix=m.template get<K>();constexpr int kd=kind<decltype(cf),decltype(K)::value>();
      if constexpr((kd&K_RNK)!=0){
        std::vector<int> rk,nt;int n=(int)ix.size();
        for(auto it=ix.begin();it!=ix.end();++it)rk.push_back((int)ix.rank(it));
        rk.push_back((int)ix.rank(ix.end()));
        for(int x=0;x<=n+1;++x)nt.push_back(sn(ix,ix.nth(x)));
        j.r("rk",arr(rk)).r("nt",arr(nt));
        auto it=ix.begin();std::advance(it,n?op.p%n:0);
        CALL((ix.rank(it)));
      }
      else throw Skip();
    });});
  }

  void do_pos(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){vis(op.i,[&](auto K){
      auto& ix=m.template get<K>();constexpr int kd=kind<decltype(cf),decltype(K)::value>();
      if constexpr((kd&K_RA)!=0){
        int n=(int)ix.size();
        if(op.code==RPOL){
          int way=op.way%2;
          j.f("way",way).f("n",op.k);
          if(way==0)CALL((ix.reserve(op.k)));else CALL((ix.shrink_to_fit()));
          return;
        }
        std::vector<int> at,df,lt;
        const auto& cix=ix;
        for(int x=0;x<n;++x){
          at.push_back(cix[x].sn);
          at.push_back(ix.at(x).sn);
        }
        bool oor=false;try{(void)cix.at(n);}catch(std::out_of_range&){oor=true;}
        /* arithmetic around position p and p2 */
        int p=op.p%(n+1),p2=op.p2%(n+1);
        auto a=ix.begin()+p;auto b=ix.end()-(n-p2);
        df.push_back((int)(b-a));
        auto c=a;c+=p2-p;df.push_back(c==b);
        c-=p2-p;df.push_back(c==a);
        df.push_back(a<b);df.push_back(a<=b);df.push_back(a>b);df.push_back(a>=b);
        if(n)df.push_back(a[p2<n?p2-p:n-1-p].sn);
        j.f("p",p).f("p2",p2).r("at",arr(at)).f("oor",oor).r("df",arr(df));
      }
      else throw Skip();
    });});
  }

  void do_hash(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){vis(op.i,[&](auto K){
      auto& ix=m.template get<K>();constexpr int kd=kind<decltype(cf),decltype(K)::value>();
      if constexpr((kd&K_HSH)!=0){
        if(op.code==HPOL){
          int way=op.way%3;
          j.f("way",way).f("n",op.k);
          if(way==0)CALL((ix.rehash(op.k)));
          else if(way==1)CALL((ix.reserve(op.k)));
          else CALL((ix.max_load_factor((float)op.k/100)));
          return;
        }
        std::vector<std::string> bs;std::vector<std::string> eb;
        for(std::size_t b=0;b<ix.bucket_count();++b){
          std::vector<int> s;
          for(auto li=ix.cbegin(b);li!=ix.cend(b);++li){s.push_back(li->sn);if(s.size()>4000)break;}
          if(!s.empty()||ix.bucket_size(b))bs.push_back("["+std::to_string((long)b)+","+std::to_string((long)ix.bucket_size(b))+","+arr(s)+"]");
        }
        for(auto& e:ix){eb.push_back("["+std::to_string(e.sn)+","+std::to_string((long)ix.bucket(ix.key_extractor()(e)))+"]");}
        j.r("bs",arr(bs)).r("eb",arr(eb)).f("bc",(long)ix.bucket_count()).f("lf",(long)(ix.load_factor()*10000+0.5));
      }
      else throw Skip();
    });});
  }

  void do_cmp(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){with(op.c2,[&](auto& m2,auto){vis(op.i,[&](auto K){
      if constexpr(std::is_same<decltype(m),decltype(m2)>::value){
        const auto& x=m.template get<K>();const auto& y=m2.template get<K>();
        constexpr int kd=kind<decltype(cf),decltype(K)::value>();
        typedef typename decltype(cf)::template D<decltype(K)::value> DD;
        if((kd&K_HSH)!=0&&fstate<DD>(x)!=fstate<DD>(y))throw Skip(); /* meaningless */
        std::vector<int> r;
        bool e=CALL((x==y));
        r.push_back(e);r.push_back(x!=y);
        if constexpr((kd&K_HSH)==0){
          r.push_back(x<y);r.push_back(x>y);r.push_back(x<=y);r.push_back(x>=y);
        }
        if(K==0){
          if((m==m2)!=e||(m!=m2)==e)r.push_back(99);
        }
        j.f("c2",op.c2).r("r",arr(r));
      }
      else throw Skip();
    });});});
  }

#ifdef VP_SER
  template<class OA,class IA,class M> void roundtrip(const Op& op,J& j,const M& src,M& dst,bool xml,int old=4){
    std::stringstream ss;
    std::vector<std::vector<int>> its; /* index, serial in source, result tag or 0 for end */
    namespace bs=boost::serialization;
    {
      OA oa(ss);
      oa<<bs::make_nvp("c",src);
      if(op.k&1)vis_all([&](auto K){
        auto& ix=src.template get<K>();
        for(auto it=ix.begin();;++it){
          typename std::decay<decltype(ix)>::type::const_iterator ci=it;
          its.push_back({(int)K+1,sn(ix,it)});
          oa<<bs::make_nvp("i",static_cast<const decltype(ci)&>(ci));
          if(it==ix.end())break;
          if constexpr((kind<typename cfof<M>::type,decltype(K)::value>()&K_HSH)!=0){
            typename std::decay<decltype(ix)>::type::const_local_iterator li=ix.local_iterator_to(*it);
            its.push_back({(int)K+1,sn(ix,it)});
            oa<<bs::make_nvp("l",static_cast<const decltype(li)&>(li));
          }
        }
      });
    }
    if(old<4){ /* as an older release would have written it */
      std::string x=ss.str();
      if(!xml){
        std::size_t p=0;for(int n=0;n<4;++n)p=x.find(' ',p)+1;
        x[p]=(char)('0'+old);
      }
      else{
        std::size_t p=x.find("version=\"",x.find("<c "))+9;
        x[p]=(char)('0'+old);
        if(old<2){ /* the class version of the values was not stored */
          if(VP_SER==2)throw Skip();
          p=x.find("<value_version ");
          const std::string z="</value_version>";
          std::size_t q=x.find(z,p);
          const int id=std::stoi(x.substr(x.find("class_id=\"",p)+10));
          x.erase(p,q+z.size()-p);
          for(const char* a:{" class_id=\"","class_id_reference=\""})
            for(p=x.find(a);p!=std::string::npos;p=x.find(a,p+1)){
              std::size_t b=p+std::strlen(a),e=x.find('"',b);
              int k=std::stoi(x.substr(b,e-b));
              if(k>id)x.replace(b,e-b,std::to_string(k-1));
            }
        }
      }
      ss.str(x);
    }
    std::vector<std::string> r;
    if(old==5){ /* cut short */
      std::string x=ss.str();
      std::vector<std::size_t> sp;
      for(std::size_t p=x.find(' ',60);p!=std::string::npos;p=x.find(' ',p+1))sp.push_back(p);
      if(sp.size()<6)throw Skip();
      x.erase(sp[(op.p*37+op.p2*11+op.k)%(sp.size()-3)]);
      ss.str(x);
    }
    if(old>4)j.f("bad",old==5||(cfof<M>::type::uniq&&src.size()>1));
    {
      IA ia(ss);
      arm();
      struct G{Driver* d;~G(){d->disarm();repeat()=0;}} g_{this};
      if(old==6&&cfof<M>::type::uniq&&src.size()>1)repeat()=2+op.p%((int)src.size()-1);
      ia>>bs::make_nvp("c",dst);
      faults().disarm();
      std::size_t z=0;
      if(op.k&1)vis_all([&](auto K){
        auto& ix=static_cast<const M&>(dst).template get<K>();
        std::size_t cnt=src.size()+1;
        for(std::size_t q=0;q<cnt;++q,++z){
          typename std::decay<decltype(ix)>::type::const_iterator ci;
          ia>>bs::make_nvp("i",ci);
          its[z].push_back(ci==ix.end()?0:ci->sn);
          if constexpr((kind<typename cfof<M>::type,decltype(K)::value>()&K_HSH)!=0)if(q+1<cnt){
            typename std::decay<decltype(ix)>::type::const_local_iterator li;
            ia>>bs::make_nvp("l",li);
            its[++z].push_back(ci!=ix.end()&&ix.local_iterator_to(*ci)==li?li->sn:-1);
          }
        }
      });
    }
    for(auto& x:its)r.push_back(arr(x));
    j.r("its",arr(r));
    (void)xml;
  }
  void do_ser(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){with(op.c2,[&](auto& m2,auto){
      (void)cf;
      if constexpr(std::is_same<decltype(m),decltype(m2)>::value){
        if(&m==&m2||!same_fs(m,m2,cf))throw Skip();
        int way=op.way%6;
        j.f("c2",op.c2).f("way",way);
        if(way>3)roundtrip<boost::archive::text_oarchive,boost::archive::text_iarchive>(op,j,m,m2,false,way+1);else
        if(way==3&&op.p%2)roundtrip<boost::archive::xml_oarchive,boost::archive::xml_iarchive>(op,j,m,m2,true,op.p/2%4);else
        if(way==3)roundtrip<boost::archive::text_oarchive,boost::archive::text_iarchive>(op,j,m,m2,false,2+op.p/2%2);
        else if(way==0)roundtrip<boost::archive::text_oarchive,boost::archive::text_iarchive>(op,j,m,m2,false);
        else if(way==1)roundtrip<boost::archive::binary_oarchive,boost::archive::binary_iarchive>(op,j,m,m2,false);
        else roundtrip<boost::archive::xml_oarchive,boost::archive::xml_iarchive>(op,j,m,m2,true);
      }
      else throw Skip();
    });});
  }
#else
  void do_ser(const Op&,J&){throw Skip();}
#endif

#ifdef VP_SAFE
#include "safe_ops.inc"
#endif
  void do_slot(const Op& op,J& j){
    if(op.code==DROP){
      if(slots.empty())throw Skip();
      int x=op.p%(int)slots.size();j.f("id",slots[x]->id);
      slots.erase(slots.begin()+x);return;
    }
    with(op.c,[&](auto& m,auto cf){vis(op.i,[&](auto K){
      (void)cf;
      auto& ix=m.template get<K>();
      auto pos=itr<K>(m,op.ri,op.p%((int)m.size()+1),op.way>>4);
      typedef typename std::decay<decltype(pos)>::type It;
      typedef typename std::decay<decltype(m)>::type M;
      auto s=std::make_unique<Slot<It,K,std::is_same<M,M1>::value>>();
#ifdef VP_SAFE
      typedef typename M1::template nth_index<decltype(K)::value>::type::iterator I1;
      typedef typename M2::template nth_index<decltype(K)::value>::type::iterator I2;
      j.f("st",(int)std::is_same<I1,I2>::value);
      if(slots.size()>=24)slots.erase(slots.begin()+op.p2%24);
      if(op.way%16==15){ /* uninitialised */
        s->id=++nslot;s->i=K;s->c=0;
        j.f("id",s->id).f("e",-1);
        slots.push_back(std::move(s));return;
      }
#endif
      s->id=++nslot;s->i=K;s->sn=sn(ix,pos);s->c=op.c;s->it=pos;s->ptr=s->sn?&*pos:nullptr;
      j.f("id",s->id).f("e",s->sn);
      slots.push_back(std::move(s));
    });});
  }
  /* iterators are given up when their element dies, enters a handle, or (as
   * end iterators) their container is moved from, assigned or destroyed */
  void prune(const Op& op){
#ifdef VP_SAFE
    /* invalid ones are kept; ends are given up where nothing is promised */
    if((op.code==CPY&&!(op.way%13==6||op.way%13==7||op.way%13==10))||op.code==SER||(op.code==INSR&&(op.way&3)==3))
      for(std::size_t x=0;x<slots.size();)if(slots[x]->sn==0&&slots[x]->valid())slots.erase(slots.begin()+x);else ++x;
    return;
#endif
    for(std::size_t x=0;x<slots.size();){
      auto& p=slots[x];bool dead=false;
      if(p->sn){
        auto f=reg().live.find(p->ptr);
        if(f==reg().live.end()||f->second!=p->sn)dead=true;
        for(int k=0;k<2;++k)if(!h[k].empty()&&&h[k].value()==p->ptr)dead=true;
        /* different iterator types across a transfer to/from the third container */
        if(!dead&&!std::is_same<M1,M2>::value){
          bool in3=false;for(auto& e:C->template get<0>())if(&e==p->ptr)in3=true;
          if((p->c==3)!=in3){
            bool same=true;
            vis(p->i,[&](auto K){same=std::is_same<typename M1::template nth_index<K>::type::iterator,typename M2::template nth_index<K>::type::iterator>::value;});
            if(!same)dead=true;
          }
        }
      }
      else if(op.code==CPY&&!(op.way%13==6||op.way%13==7||op.way%13==10)){
        dead=true;
      }
      if(dead)slots.erase(slots.begin()+x);else ++x;
    }
  }

  /* ---------- random generation ---------- */
  V4 rv(){return V4(rng.below(o.ka),rng.below(o.kb),rng.below(o.kc),++tag);}
  int weight(const char* n){auto it=o.w.find(n);return it==o.w.end()?0:it->second;}

  void reset(int alA,int alB,int alC){
    h[0]=NH();h[1]=NH();slots.clear();
    A.reset();B.reset();C.reset();
    /* everything must be gone by now */
    J j;j.fs("op","reset");
    j.r("t1",CF1::desc()).r("t2",CF2::desc());
#ifdef VP_SAFE
    j.f("sf",1);
#endif
    long tot=0;for(auto& x:heap().cnt)tot+=x.second;
    j.f("lo",(long)reg().live.size()).f("lb",tot);
    heap().flush();heap().cnt.clear();
    typename M1::ctor_args_list a1;typename M2::ctor_args_list a2;
    /* function objects in different states */
    int f[3]={0,0,0};
    if(o.fst&&rng.chance(1,2))for(int& x:f)if(rng.chance(2,3))x=rng.below(1<<N);
    setargs<CF1>(a1,f[0]);A.reset(new M1(a1,typename M1::allocator_type(alA)));
    setargs<CF1>(a1,f[1]);B.reset(new M1(a1,typename M1::allocator_type(alB)));
    setargs<CF2>(a2,f[2]);C.reset(new M2(a2,typename M2::allocator_type(alC)));
    for(auto& l:last)l.clear();
    tag=0;nslot=0;
    reg().next=1;
    wk="[]";
    emit(j,0);
  }
  void finish(){
    h[0]=NH();h[1]=NH();slots.clear();
    A.reset();B.reset();C.reset();
    long tot=0;for(auto& x:heap().cnt)tot+=x.second;
    J j;j.fs("op","end").f("lo",(long)reg().live.size()).f("lb",tot).f("bad",reg().bad+heap().bad);
    std::string l=j.str()+"\n";
    std::fwrite(l.data(),1,l.size(),out());std::fflush(out());
  }
  bool large=false;
  int pend_c=0,pend_i=0;                   /* a rehash to follow a change of policy */
  Op gen(){
    Op op;
    int tot=0;for(auto& x:o.w)tot+=x.second;
    int r=rng.below(tot);std::string n;
    for(auto& x:o.w){if(r<x.second){n=x.first;break;}r-=x.second;}
    for(int c=1;c<NCODES;++c)if(n==cname(c))op.code=c;
    if(pend_c)op.code=HPOL;
    if(large&&rng.chance(1,10))op.code=rng.chance(2,3)?SORT:SMG; /* long enough to be sorted in pieces */
    op.c=1+(rng.chance(1,3)?rng.below(3):0);
    op.i=rng.below(N);op.ri=rng.below(N);
    int sz=(int)size(op.c);
    op.p=rng.below(sz+1);op.p2=rng.below(sz+1);
    op.c2=1+rng.below(3);op.i2=rng.below(N);
    op.way=rng.below(1<<10);op.k=rng.below(64);
    int nv=1;
    if(op.code==INSR)nv=rng.below(5);
    if(op.code==CPY)nv=rng.below(4);
    if(op.code==RNG||op.code==MODI)nv=2;
    if(op.code==MIS){op.p=rng.below(4000);op.p2=rng.below(4000);op.ri=rng.below(4000);op.k=rng.below(34);if(rng.chance(1,12)){op.k=rng.chance(1,4)?28:24;op.c2=op.c;}}
    if(large&&op.code==SORT){
      if(size(1)>16)op.c=1;
      for(int n=0;n<6&&!(kindrt(op.c,op.i)&(K_SEQ|K_RA));++n)op.i=rng.below(N);
    }
    bool tame=sz>=o.maxn;
    for(int x=0;x<nv;++x)op.vs.push_back(rv());
#ifdef VP_SAFE
    /* mostly about an element iterators refer to */
    if((op.code==MODI||op.code==REPL||op.code==ERA||op.code==EXT)&&rng.chance(2,3)){
      std::vector<SlotBase*> u;
      for(auto& p:slots)if(p->sn&&p->valid())u.push_back(p.get());
      if(!u.empty()){
        auto p=u[rng.below((int)u.size())];
        for(int c=1;c<=3;++c)if(size(c))with(c,[&](auto& m,auto){vis(op.ri,[&](auto K){
          int x=0;for(auto& e:m.template get<K>()){if(e.sn==p->sn){op.c=c;op.p=x;sz=(int)size(c);}++x;}
        });});
      }
    }
#endif
    if(op.code==MODI||op.code==REPL||op.code==NHM){
      /* often keep some fields */
      if(op.code!=NHM&&sz){
        V4 old;bool g=false;
        with(op.c,[&](auto& m,auto){vis(op.ri,[&](auto K){auto it=m.template get<K>().begin();std::advance(it,op.p%sz);old=V4(it->a,it->b,it->c,it->t);g=true;});});
        if(g){int km=rng.below(8);
          if(km&1)std::get<0>(op.vs[0])=std::get<0>(old);
          if(km&2)std::get<1>(op.vs[0])=std::get<1>(old);
          if(km&4)std::get<2>(op.vs[0])=std::get<2>(old);
          if(op.vs.size()>1&&rng.chance(1,2)){
            int km2=rng.below(8);
            if(km2&1)std::get<0>(op.vs[1])=std::get<0>(old);
            if(km2&2)std::get<1>(op.vs[1])=std::get<1>(old);
            if(km2&4)std::get<2>(op.vs[1])=std::get<2>(old);
          }
          /* often take keys another element has: joins its groups, or is banned */
          if(rng.chance(2,5)){
            with(op.c,[&](auto& m,auto){auto it=m.template get<0>().begin();std::advance(it,rng.below(sz));
              int km3=1+rng.below(7);
              if(km3&1)std::get<0>(op.vs[0])=it->a;
              if(km3&2)std::get<1>(op.vs[0])=it->b;
              if(km3&4)std::get<2>(op.vs[0])=it->c;});
          }
        }
      }
    }
    if(op.code==REM||op.code==ERK||op.code==EXTK||op.code==LOOK){
      /* half of the time probe something present */
      if(sz&&rng.chance(1,2)){
        with(op.c,[&](auto& m,auto){auto it=m.template get<0>().begin();std::advance(it,rng.below(sz));
          op.vs[0]=V4(it->a,it->b,it->c,++tag);});
      }
    }
    if(op.code==REAR){
      int style=rng.below(4);
      for(int x=0;x<sz;++x)op.perm.push_back(style==0?rng.below(64):style==1?0:style==2?(rng.chance(1,5)?rng.below(64):0):(x==op.p?3:0));
    }
    if(op.code==INSR)op.k=rng.below(o.maxn+2);
    if(op.code==HPOL){
      int w=op.way%3;
      if(pend_c&&w==2){--w;--op.way;}
      if(pend_c){op.c=pend_c;op.i=pend_i;}
      pend_c=0;
      if(w==2){
        op.k=rng.chance(1,4)?5+5*rng.below(10):25+25*rng.below(8);
        if(rng.chance(1,2)){pend_c=op.c;pend_i=op.i;}
        const int z=pend_c?sz:sz+1;
        if(rng.chance(1,2)){       /* a load just beyond a number of buckets */
          static const int ps[]={53,97,193,389};
          const int P=ps[rng.below(4)];
          for(int n=0,k=1+rng.below(200);n<200;++n,k=k%200+1)
            if(100*z/k==P&&100*z%k!=0){op.k=k;break;}
        }
      }
      else if(rng.chance(1,3))op.k=rng.below(60);else op.k=rng.below(rng.chance(1,16)?4000:rng.chance(1,4)?400:120);
    }
    if(op.code==RPOL)op.k=rng.below(2*o.maxn+4);
    if(tame&&(op.code==INS||op.code==INSR)&&!rng.chance(1,4)){
      op.code=ERA;
    }
    if(op.code==CPY&&op.c!=3&&op.c2==3)op.c2=3-op.c;
    if(op.code==CPY&&op.c==3)op.c2=3;
    if((op.code==CMPC||op.code==SER||op.code==SMG)){if(op.c==3)op.c=1;if(op.c2==3)op.c2=3-op.c;}
    if(o.fault&&rng.below(100)<o.fault){op.fk=o.faultmask;
      op.fn=strong(op)?0:1+rng.below(op.code==SORT||op.code==SMG?24:9);
    }
    return op;
  }
  static bool strong(const Op& op){
    return op.code==INS||op.code==NHI||op.code==REPL||op.code==LOOK||op.code==HPOL||op.code==RPOL||op.code==EXTK||(op.code==MRG&&(op.way&15)%3==1)||(op.code==CPY&&op.way%13!=5&&op.way%13!=3);
  }
  void random(){
    const Options base=o;
    for(int t=0;t<base.traces;++t){
      o=base;
      /* the shape of this history: few keys (large groups), many elements... */
      int warm=0;
      if(o.vary){
        int sh=rng.below(8);
        if(sh==0||sh==1){o.kb=2;o.kc=2;}
        else if(sh==2){o.kb=1;o.kc=3;o.ka=o.ka*2;}
        else if(sh==3&&o.maxn<40){o.maxn=o.maxn*2+4;o.ka=o.ka*3;}
      }
      if(o.big&&t%o.big==o.big-1){
        warm=30+rng.below(rng.chance(1,3)?110:40);o.maxn=warm+20;o.ka=o.maxn*2;
        if(rng.chance(1,2)){o.kb=o.ka;o.kc=o.ka;}
      }
      hash_mode()=o.hash>=0?o.hash:rng.chance(1,2)?0:rng.below(5);
      bool diff=VP_ALB!=0||rng.chance(1,3);
      if(o.bump==0)diff=false;
      reset(0,diff?1:0,diff?rng.below(2):0);
      int mono=rng.below(4)-1;if(mono==2)mono=0;
      for(int left=warm;left>0;){
        Op op;op.code=INSR;op.c=1;op.i=rng.below(N);op.ri=op.i;op.way=0;op.p=0;
        int n=std::min(left,12);left-=n;
        for(int x=0;x<n;++x){
          V4 v=rv();
          if(mono){                      /* ascending or descending keys */
            int y=mono>0?warm-left-n+x:left+n-x;
            std::get<0>(v)=y;std::get<1>(v)=y/(o.kb<o.ka?3:1);std::get<2>(v)=y;
          }
          op.vs.push_back(v);
        }
        op.p=rng.below((int)size(1)+1);
        run(op);
      }
      int len=warm?o.len/2:o.len;
      large=warm&&weight("sort")>=6;
      for(int n=0;n<len;++n){
        Op op=gen();
        if(op.code==CPY&&!o.bump)op.k&=~1;
        run(op);
        prune(op);
      }
    }
    finish();
  }
  void script(std::FILE* f){
    /* lines: "R" reset | ["Fn "] "code c i ri p p2 c2 i2 way k nv (a b c)* np (x)*" */
    char* line=nullptr;size_t cap=0;
    while(getline(&line,&cap,f)>0){
      if(line[0]=='R'){reset(0,0,0);continue;}
      std::vector<int> v;char* s=line;
      int fn=0;
      if(*s=='F')fn=(int)strtol(s+1,&s,10); /* interrupted at the n-th user operation */
      for(;;){char* e;long x=strtol(s,&e,10);if(e==s)break;v.push_back((int)x);s=e;}
      if(v.size()<12)continue;
      Op op;op.code=v[0];op.c=v[1];op.i=v[2];op.ri=v[3];op.p=v[4];op.p2=v[5];op.c2=v[6];op.i2=v[7];op.way=v[8];op.k=v[9];
      size_t q=10;int nv=v[q++];
      for(int x=0;x<nv;++x,q+=3)op.vs.push_back(V4(v[q],v[q+1],v[q+2],++tag));
      int np=v[q++];
      for(int x=0;x<np;++x)op.perm.push_back(v[q++]);
      if(fn){op.fk=o.faultmask;op.fn=fn;}
      else if(o.fault&&strong(op))op.fk=o.faultmask; /* interrupted at every point first */
      run(op);prune(op);
    }
    free(line);
    finish();
  }
};

inline void crash_handler(int s){
  char m1[128];
  int fd=out()?fileno(out()):1;
  int n=std::snprintf(m1,sizeof(m1),"{\"op\":\"crash\",\"in\":\"%s\",\"sig\":%d}\n",current_op(),s);
  ssize_t r=write(fd,m1,n);(void)r;
  signal(s,SIG_DFL);_exit(3);
}
template<class D> int run_main(int argc,char** argv,std::uint64_t seed0=0){
  Options o;const char* sc=nullptr;
  (void)seed0;
  for(int x=1;x<argc;++x){
    std::string s=argv[x];auto p=s.find('=');
    std::string k=s.substr(0,p),v=p==std::string::npos?"":s.substr(p+1);
    if(k=="seed")o.seed=strtoull(v.c_str(),0,10);
    else if(k=="traces")o.traces=atoi(v.c_str());
    else if(k=="len")o.len=atoi(v.c_str());
    else if(k=="maxn")o.maxn=atoi(v.c_str());
    else if(k=="ka")o.ka=atoi(v.c_str());
    else if(k=="kb")o.kb=atoi(v.c_str());
    else if(k=="kc")o.kc=atoi(v.c_str());
    else if(k=="fault")o.fault=atoi(v.c_str());
    else if(k=="fmask")o.faultmask=atoi(v.c_str());
    else if(k=="bump")o.bump=atoi(v.c_str());
    else if(k=="big")o.big=atoi(v.c_str());
    else if(k=="vary")o.vary=atoi(v.c_str());
    else if(k=="hash")o.hash=hash_mode()=atoi(v.c_str());
    else if(k=="out")out()=std::fopen(v.c_str(),"w");
    else if(k=="script"){sc=argv[x]+7;o.fst=0;}
    else o.w[k]=atoi(v.c_str());
  }
  for(int s:{SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL,SIGXCPU})signal(s,crash_handler);
  struct rlimit rl={120,125};setrlimit(RLIMIT_CPU,&rl);
  D d(o);
  if(sc){std::FILE* f=std::fopen(sc,"r");d.script(f);std::fclose(f);}
  else d.random();
  std::fclose(out());
  return 0;
}
} /* vp */
#endif
