/* Instrumented element, allocator and function objects used by every driver.
 * Nothing here depends on internals of the library under test. */
#ifndef VP_WORLD_HPP
#define VP_WORLD_HPP
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace vp{

/* ---- fault injection and work counters ---- */
enum FaultKind{F_NONE=0,F_FN=1,F_ELEM=2,F_ALLOC=3,F_MOD=4,F_BACK=5,F_PRED=6};
struct Fault{int kind;};
struct Faults{
  int  mask=0;          /* bit k set: kind k may fire */
  long count=0;         /* fires when it reaches zero; 0 disarmed */
  bool armed=false;
  int  fired=0;         /* kind that fired */
  void arm(int m,long c){mask=m;count=c;armed=true;fired=0;}
  void disarm(){armed=false;}
};
inline Faults& faults(){static Faults f;return f;}
struct Work{long cmp=0,hash=0,eq=0,ctor=0,copy=0,move=0,assign=0,alloc=0,dealloc=0,pred=0;};
inline Work& work(){static Work w;return w;}
inline void tick(int kind){
  Faults& f=faults();
  if(f.armed&&(f.mask>>kind&1)){
    if(--f.count==0){f.armed=false;f.fired=kind;throw Fault{kind};}
  }
}

/* ---- element ---- */
struct E;
struct Registry{
  std::unordered_map<const void*,int> live; /* object address -> serial */
  int  next=1;
  long bad=0;                               /* lifetime errors */
};
inline Registry& reg(){static Registry r;return r;}

struct Q{int a,b,c,t;};                  /* convertible to an element */
struct E{
  enum{MAGIC=0x5ca1ab1e};
  int magic=0,sn=0;
  int a=0,b=0,c=0,t=0;
  void birth(){
    magic=MAGIC;sn=reg().next++;
    if(!reg().live.insert({this,sn}).second)++reg().bad;
  }
  void touch()const{if(magic!=MAGIC)++reg().bad;}
  E(){++work().ctor;tick(F_ELEM);birth();}
  E(int a_,int b_,int c_,int t_):a(a_),b(b_),c(c_),t(t_){++work().ctor;tick(F_ELEM);birth();}
  E(const Q& x):a(x.a),b(x.b),c(x.c),t(x.t){++work().ctor;tick(F_ELEM);birth();}
  E(const E& x):a(x.a),b(x.b),c(x.c),t(x.t){x.touch();++work().copy;tick(F_ELEM);birth();}
  E(E&& x):a(x.a),b(x.b),c(x.c),t(x.t){x.touch();++work().move;tick(F_ELEM);birth();}
  E& operator=(const E& x){
    x.touch();touch();++work().assign;tick(F_ELEM);a=x.a;b=x.b;c=x.c;t=x.t;return *this;}
  E& operator=(E&& x){
    x.touch();touch();++work().assign;tick(F_ELEM);a=x.a;b=x.b;c=x.c;t=x.t;return *this;}
  ~E(){
    if(magic!=MAGIC||!reg().live.erase(this))++reg().bad;
    magic=0xdead;
  }
  int fa()const{return a;} int fb()const{return b;} int fc()const{return c;}
  const int& ra()const{return a;} const int& rb()const{return b;} const int& rc()const{return c;}
  int& wa(){return a;} int& wb(){return b;} int& wc(){return c;}
};
/* single-pass iterator that makes its elements as it is dereferenced */
struct InIt{
  typedef std::input_iterator_tag iterator_category;
  typedef E value_type;typedef std::ptrdiff_t difference_type;typedef const E* pointer;typedef E reference;
  const Q* const* cur;const Q* pos;      /* *cur: what the shared source is at */
  E operator*()const{if(*cur!=pos)++reg().bad;return E(**cur);}
  InIt& operator++(){if(*cur!=pos)++reg().bad;pos=++*const_cast<const Q**>(cur);return *this;}
  InIt operator++(int){InIt t(*this);++*this;return t;}
  bool operator==(const InIt& x)const{return pos==x.pos;}
  bool operator!=(const InIt& x)const{return pos!=x.pos;}
};
inline int ga(const E& e){return e.a;}
inline int gb(const E& e){return e.b;}
inline int gc(const E& e){return e.c;}
inline int fld(const E& e,int f){return f==1?e.a:f==2?e.b:e.c;}
inline bool operator==(const E& x,const E& y){
  x.touch();y.touch();++work().pred;tick(F_PRED);return x.a==y.a&&x.b==y.b&&x.c==y.c;}
inline bool operator<(const E& x,const E& y){
  x.touch();y.touch();++work().pred;tick(F_PRED);
  if(x.a!=y.a)return x.a<y.a; if(x.b!=y.b)return x.b<y.b; return x.c<y.c;}

/* ---- allocator ---- */
struct Block{std::size_t bytes;int al;};
struct Heap{
  std::unordered_map<void*,Block> live;
  std::map<int,long> cnt;              /* live blocks per allocator id */
  std::vector<void*> quarantine;
  long bad=0;
  int  nalloc=0;                       /* blocks obtained since mark */
  int  last_als=0;                     /* bitmask of allocator ids that served since mark */
  void flush(){for(void* p:quarantine)std::free(p);quarantine.clear();}
};
inline Heap& heap(){static Heap h;return h;}

#ifdef VP_FANCY
/* a pointer relative to its own address, as those of shared memory are */
template<class T> class OP{
public:
  typedef std::ptrdiff_t difference_type;
  typedef typename std::remove_cv<T>::type value_type;
  typedef T* pointer;
  typedef T& reference;
  typedef std::random_access_iterator_tag iterator_category;
  OP():o(2){}                            /* as good as uninitialised */
  OP(T* p){set(p);}
  OP(const OP& x){set(x.raw());}
  template<class U,class=typename std::enable_if<std::is_same<const U,T>::value>::type> OP(const OP<U>& x){set(x.raw());}
  OP& operator=(const OP& x){set(x.raw());return *this;}
  T& operator*()const{return *raw();}
  T* operator->()const{return raw();}
  OP& operator++(){set(raw()+1);return *this;}
  OP operator++(int){OP t(*this);++*this;return t;}
  OP& operator--(){set(raw()-1);return *this;}
  OP operator--(int){OP t(*this);--*this;return t;}
  OP& operator+=(std::ptrdiff_t n){set(raw()+n);return *this;}
  OP& operator-=(std::ptrdiff_t n){set(raw()-n);return *this;}
  T& operator[](std::ptrdiff_t n)const{return raw()[n];}
  explicit operator bool()const{return raw()!=nullptr;}
  T* raw()const{return o==1?nullptr:reinterpret_cast<T*>((std::uintptr_t)this+(std::uintptr_t)o);}
  friend OP operator+(const OP& x,std::ptrdiff_t n){return OP(x.raw()+n);}
  friend OP operator+(std::ptrdiff_t n,const OP& x){return OP(x.raw()+n);}
  friend OP operator-(const OP& x,std::ptrdiff_t n){return OP(x.raw()-n);}
  friend std::ptrdiff_t operator-(const OP& x,const OP& y){return x.raw()-y.raw();}
  friend bool operator==(const OP& x,const OP& y){return x.raw()==y.raw();}
  friend bool operator!=(const OP& x,const OP& y){return x.raw()!=y.raw();}
  friend bool operator<(const OP& x,const OP& y){return x.raw()<y.raw();}
  friend bool operator>(const OP& x,const OP& y){return x.raw()>y.raw();}
  friend bool operator<=(const OP& x,const OP& y){return x.raw()<=y.raw();}
  friend bool operator>=(const OP& x,const OP& y){return x.raw()>=y.raw();}
private:
  void set(T* p){o=p?(std::ptrdiff_t)((std::uintptr_t)p-(std::uintptr_t)this):1;}
  std::ptrdiff_t o;
};
#endif
/* B: bit0 POCCA, bit1 POCMA, bit2 POCS */
template<class T,int B=0> struct Al{
  typedef T value_type;
  typedef std::integral_constant<bool,(B&1)!=0> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool,(B&2)!=0> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool,(B&4)!=0> propagate_on_container_swap;
  typedef std::false_type is_always_equal;
#ifdef VP_FANCY
  typedef OP<T> pointer;
  typedef OP<const T> const_pointer;
  typedef void* void_pointer;
  typedef const void* const_void_pointer;
  typedef std::size_t size_type;
  typedef std::ptrdiff_t difference_type;
#else
  typedef T* pointer;
#endif
  template<class U> struct rebind{typedef Al<U,B> other;};
  int id=0;
  Al(int i=0):id(i){}
  template<class U> Al(const Al<U,B>& x):id(x.id){}
  Al select_on_container_copy_construction()const{return (B&8)&&id<2?Al(1-id):*this;}
  pointer allocate(std::size_t n){
    ++work().alloc;tick(F_ALLOC);
    void* p=std::malloc(n*sizeof(T)+!n);
    heap().live[p]=Block{n*sizeof(T),id};++heap().cnt[id];
    ++heap().nalloc;heap().last_als|=1<<id;
    return pointer(static_cast<T*>(p));
  }
  void deallocate(pointer q,std::size_t n){
    T* p=&*q;
    ++work().dealloc;
    auto it=heap().live.find(p);
    if(it==heap().live.end()){++heap().bad;return;}
    if(it->second.bytes!=n*sizeof(T)||it->second.al!=id)++heap().bad;
    --heap().cnt[it->second.al];
    std::memset(static_cast<void*>(p),0xDD,it->second.bytes);
    heap().live.erase(it);
    heap().quarantine.push_back(p);
  }
  template<class U> bool operator==(const Al<U,B>& x)const{return id==x.id;}
  template<class U> bool operator!=(const Al<U,B>& x)const{return id!=x.id;}
};

/* ---- function objects on int keys ---- */
struct CK{int v;operator int()const{return -v-77;}}; /* compatible key type; must never be converted */
inline int raw(int x){return x;} inline int raw(const CK& x){return x.v;}
/* the function objects have a state, m: it reverses an ordering and makes an
 * equivalence coarser */
template<int D,int S> struct Cmp{        /* ordering by S*(x/D), reversed if m */
  int m=0;
  template<class T,class U> bool operator()(const T& x,const U& y)const{
    ++work().cmp;tick(F_FN);
    return (S>0)!=(m!=0)?raw(x)/D<raw(y)/D:raw(y)/D<raw(x)/D;
  }
};
/* the same without operator templates: compatible keys are converted */
struct CV{int v;operator int()const{return v;}};
inline int raw(const CV& x){return x.v;}
template<int D,int S> struct CmpI{
  int m=0;
  bool operator()(int x,int y)const{
    ++work().cmp;tick(F_FN);
    return (S>0)!=(m!=0)?x/D<y/D:y/D<x/D;
  }
};
template<int D> struct HshI{
  int m=0;
  std::size_t operator()(int x)const;
};
template<int D> struct EqI{
  int m=0;
  bool operator()(int x,int y)const{
    ++work().eq;tick(F_FN);return x/(m?2*D:D)==y/(m?2*D:D);}
};
struct CCmp{                             /* coarser, compatible ordering */
  int d,s;
  template<class T,class U> bool operator()(const T& x,const U& y)const{
    ++work().cmp;tick(F_FN);
    return s>0?raw(x)/d<raw(y)/d:raw(y)/d<raw(x)/d;
  }
};
/* hash quality: chosen per trace, constant while containers live */
inline int& hash_mode(){static int m=0;return m;}
inline std::size_t hv(int x){
  switch(hash_mode()){
    case 0:return (std::size_t)x;
    case 1:return (std::size_t)(x/2);
    case 2:return 7;
    case 3:return (std::size_t)x*53;
    default:return (std::size_t)(x%3)*97+(std::size_t)(x%2);
  }
}
template<int D> struct Hsh{
  int m=0;
  template<class T> std::size_t operator()(const T& x)const{
    ++work().hash;tick(F_FN);return hv(raw(x)/(m?2*D:D));}
};
template<int D> std::size_t HshI<D>::operator()(int x)const{
  ++work().hash;tick(F_FN);return hv(x/(m?2*D:D));}
template<int D> struct Eq{
  int m=0;
  template<class T,class U> bool operator()(const T& x,const U& y)const{
    ++work().eq;tick(F_FN);return raw(x)/(m?2*D:D)==raw(y)/(m?2*D:D);}
};

/* ---- rng ---- */
struct Rng{
  std::uint64_t s;
  explicit Rng(std::uint64_t x=1):s(x*0x9E3779B97F4A7C15ull+0x1234567){for(int i=0;i<4;++i)next();}
  std::uint64_t next(){s^=s<<13;s^=s>>7;s^=s<<17;return s*0x2545F4914F6CDD1Dull;}
  int below(int n){return n<=0?0:(int)((next()>>33)%(unsigned)n);}
  bool chance(int num,int den){return below(den)<num;}
};

/* ---- json ---- */
struct J{
  std::string s;bool first=true;
  J(){s="{";}
  void sep(){if(!first)s+=',';first=false;}
  J& k(const char* n){sep();s+='"';s+=n;s+="\":";return *this;}
  J& f(const char* n,long v){k(n);s+=std::to_string(v);return *this;}
  J& fs(const char* n,const char* v){k(n);s+='"';s+=v;s+='"';return *this;}
  J& r(const char* n,const std::string& v){k(n);s+=v;return *this;}
  std::string str()const{return s+"}";}
};
inline std::string arr(const std::vector<int>& v){
  std::string s="[";for(std::size_t i=0;i<v.size();++i){if(i)s+=',';s+=std::to_string(v[i]);}return s+"]";}
inline std::string arr(const std::vector<std::string>& v){
  std::string s="[";for(std::size_t i=0;i<v.size();++i){if(i)s+=',';s+=v[i];}return s+"]";}
typedef std::tuple<int,int,int,int> V4;
inline std::string jv(int a,int b,int c,int t){return "["+std::to_string(a)+","+std::to_string(b)+","+std::to_string(c)+","+std::to_string(t)+"]";}

} /* vp */
#endif
