/* Work done by operations on large containers: one event per call with the
 * number of comparisons, hashes, equality tests, constructions and allocations
 * it made, judged by spec/Cost.tla.
 *   cost seed=S n=N out=FILE */
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <algorithm>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
namespace mi=boost::multi_index;

/* comparisons, hashes, equalities, constructions, assignments, allocations, and
 * (with VP_FANCY) dereferences of pointers: steps inside the data structures */
static long W[7];
static std::FILE* out;
struct E{
  int a,b;
  E(int a_,int b_):a(a_),b(b_){++W[3];}
  E(const E& x):a(x.a),b(x.b){++W[3];}
  E& operator=(const E& x){a=x.a;b=x.b;++W[4];return *this;}
};
struct Less{bool operator()(int x,int y)const{++W[0];return x<y;}};
struct Hash{std::size_t operator()(int x)const{++W[1];return (std::size_t)x*0x9E3779B97F4A7C15ull>>7;}};
struct Eq{bool operator()(int x,int y)const{++W[2];return x==y;}};
#ifdef VP_FANCY
template<class T> class FP{
public:
  typedef std::ptrdiff_t difference_type;
  typedef T value_type;
  typedef T* pointer;
  typedef T& reference;
  typedef std::random_access_iterator_tag iterator_category;
  FP(){}
  FP(T* p_):p(p_){}
  T& operator*()const{++W[6];return *p;}
  T* operator->()const{++W[6];return p;}
  FP& operator++(){++p;return *this;}
  FP operator++(int){FP t(*this);++p;return t;}
  FP& operator--(){--p;return *this;}
  FP operator--(int){FP t(*this);--p;return t;}
  FP& operator+=(std::ptrdiff_t n){p+=n;return *this;}
  FP& operator-=(std::ptrdiff_t n){p-=n;return *this;}
  T& operator[](std::ptrdiff_t n)const{++W[6];return p[n];}
  T* raw()const{return p;}
  friend FP operator+(const FP& x,std::ptrdiff_t n){return FP(x.p+n);}
  friend FP operator+(std::ptrdiff_t n,const FP& x){return FP(x.p+n);}
  friend FP operator-(const FP& x,std::ptrdiff_t n){return FP(x.p-n);}
  friend std::ptrdiff_t operator-(const FP& x,const FP& y){return x.p-y.p;}
  friend bool operator==(const FP& x,const FP& y){return x.p==y.p;}
  friend bool operator!=(const FP& x,const FP& y){return x.p!=y.p;}
  friend bool operator<(const FP& x,const FP& y){return x.p<y.p;}
  friend bool operator>(const FP& x,const FP& y){return x.p>y.p;}
  friend bool operator<=(const FP& x,const FP& y){return x.p<=y.p;}
  friend bool operator>=(const FP& x,const FP& y){return x.p>=y.p;}
private:
  T* p;
};
#endif
template<class T> struct Al{
  typedef T value_type;
#ifdef VP_FANCY
  typedef FP<T> pointer;
  typedef FP<const T> const_pointer;
  typedef void* void_pointer;
  typedef const void* const_void_pointer;
  typedef std::size_t size_type;
  typedef std::ptrdiff_t difference_type;
#else
  typedef T* pointer;
#endif
  template<class U> struct rebind{typedef Al<U> other;};
  Al(){}
  template<class U> Al(const Al<U>&){}
  pointer allocate(std::size_t n){++W[5];return pointer(static_cast<T*>(::operator new(n*sizeof(T))));}
  void deallocate(pointer p,std::size_t){::operator delete((void*)&*p);}
  template<class U> bool operator==(const Al<U>&)const{return true;}
  template<class U> bool operator!=(const Al<U>&)const{return false;}
};
typedef mi::member<E,int,&E::a> A_;
typedef mi::member<E,int,&E::b> B_;
static std::uint64_t rs=1;
static unsigned rnd(unsigned n){rs^=rs<<13;rs^=rs>>7;rs^=rs<<17;return (unsigned)((rs>>11)%n);}

static const char* kindname;
/* no: ordered indices of the container; g: size of the group of equivalent
 * keys involved; dk: distinct keys in the bucket looked up */
static int sampling; /* 0: log all; otherwise new maxima, and one in so many */
static long best[64][7];static std::vector<std::string> names;
static void phase(const char* k){kindname=k;for(auto& b:best)for(long& x:b)x=-1;}
static void log(const char* op,long n,int no,long g=0,long dk=0){
  if(sampling){
    std::size_t i=0;while(i<names.size()&&names[i]!=op)++i;
    if(i==names.size())names.push_back(op);
    bool mx=false;
    for(int j=0;j<7;++j)if(W[j]>best[i][j]){mx=true;best[i][j]=W[j];}
    if(!mx&&rnd(sampling))return;
  }
  std::fprintf(out,"{\"op\":\"%s\",\"k\":\"%s\",\"n\":%ld,\"no\":%d,\"g\":%ld,\"dk\":%ld,\"w\":[%ld,%ld,%ld,%ld,%ld,%ld],\"st\":%ld}\n",
    op,kindname,n,no,g,dk,W[0],W[1],W[2],W[3],W[4],W[5],W[6]);
}
#define DO(...) do{for(long& x:W)x=0;__VA_ARGS__;}while(0)

template<class Spec> struct C1{
  typedef mi::multi_index_container<E,mi::indexed_by<Spec>,Al<E> > type;
};
/* insertion orders */
static std::vector<int> order(int how,int n){
  std::vector<int> v(n);
  for(int i=0;i<n;++i){
    switch(how){
      case 0:v[i]=i;break;
      case 1:v[i]=n-i;break;
      case 2:v[i]=i%2?n-i:i;break;              /* from both ends */
      case 3:v[i]=n/2+(i%2?i/2:-i/2);break;     /* outwards from the middle */
      case 4:v[i]=(int)((long)i*7919%n);break;
      case 5:v[i]=(i%16)*(n/16)+i/16;break;     /* interleaved runs */
      case 6:v[i]=(int)rnd(n*2);break;
      default:v[i]=(int)rnd(n)/300*300;       /* large groups */
    }
  }
  return v;
}

template<class M> void lookups(M& c,int n,bool rank){
  for(int q=0;q<40;++q){
    int k=(int)rnd(n*2+2)-1;if(rnd(2))k=k/300*300;
    long g;
    DO(g=(long)c.count(k));log("count",c.size(),1,g);
    DO((void)c.find(k));log("find",c.size(),1,g);
    DO((void)c.contains(k));log("find",c.size(),1,g);
    DO((void)c.lower_bound(k));log("bound",c.size(),1,g);
    DO((void)c.upper_bound(k));log("bound",c.size(),1,g);
    DO((void)c.equal_range(k));log("eqr",c.size(),1,g);
    long cnt=0;
    DO((void)c.range([&](int x){++W[0];return x>=k;},[&](int x){++W[0];return x<=k+n/4;}));log("range",c.size(),1,cnt);
    DO((void)c.range([&](int x){++W[0];return x>=k+5;},[&](int x){++W[0];return x<=k;}));log("range",c.size(),1,cnt);
    DO((void)c.range(mi::unbounded,[&](int x){++W[0];return x<=k;}));log("range",c.size(),1,cnt);
    DO((void)c.range([&](int x){++W[0];return x>=k;},mi::unbounded));log("range",c.size(),1,cnt);
  }
  (void)rank;
}
template<class M> void ranks(M& c,int n){
  if(c.empty())return;
  for(int q=0;q<40;++q){
    int k=(int)rnd(n*2+2)-1;
    DO((void)c.find_rank(k));log("find",c.size(),1);
    DO((void)c.lower_bound_rank(k));log("bound",c.size(),1);
    DO((void)c.upper_bound_rank(k));log("bound",c.size(),1);
    DO((void)c.equal_range_rank(k));log("eqr",c.size(),1);
    DO((void)c.range_rank([&](int x){++W[0];return x>=k;},[&](int x){++W[0];return x<=k+n/4;}));log("range",c.size(),1);
    DO((void)c.range_rank([&](int x){++W[0];return x>=k+5;},[&](int x){++W[0];return x<=k;}));log("range",c.size(),1);
    auto it=c.end();unsigned r=rnd((unsigned)c.size()+1);
    DO(it=c.nth(r));log("nth",c.size(),1);
    DO((void)c.rank(it));log("nth",c.size(),1);
  }
}
template<class M> void churn(M& c,int n,int no,bool un){
  /* positions of this index to act upon, sampled once */
  for(int q=0;q<60;++q){
    if(c.empty())return;
    auto it=c.begin();std::advance(it,rnd((unsigned)std::min<std::size_t>(c.size(),300)));
    E v(*it);v.b=(int)rnd(n);
    int how=(int)rnd(7);
    if(how==0){v.a=(int)rnd(n*3);DO(c.replace(it,v));log("repl",c.size(),no);}
    else if(how==1){DO(c.replace(it,v));log("repl",c.size(),no);}
    else if(how==2){int x=(int)rnd(n*3);DO(c.modify(it,[&](E& e){e.a=x;}));log("modi",c.size(),no);}
    else if(how==3){int x=(int)rnd(n*3),y=it->a;DO(c.modify(it,[&](E& e){e.a=x;},[&](E& e){e.a=y;}));log("modi",c.size(),no);}
    else if(how==4){DO(c.erase(it));log("erase",c.size(),no);}
    else if(how==5){DO(auto h=c.extract(it));log("erase",c.size(),no);}
    else{
      auto f=it,t=it;for(int z=0;z<5&&t!=c.end();++z)++t;
      DO(c.erase(f,t));log("erase",c.size(),no,5);
    }
  }
  (void)un;
}

template<class Spec> void ordered(const char* name,int n,bool un){
  for(int how=0;how<(un?7:8);++how){
    phase(name);
    typename C1<Spec>::type c;
    std::vector<int> v=order(how,n);
    for(int x:v){
      E e(x,x);
      if(rnd(2))DO(c.insert(e));else DO(c.emplace(x,x));
      log("ins",c.size(),1);
    }
    phase(name);lookups(c,n,false);
    DO(for(auto it=c.begin();it!=c.end();++it);)
    ;log("walk",c.size(),1);
    DO(for(auto it=c.end();it!=c.begin();--it);)
    ;log("walk",c.size(),1);
    /* exact hints: the position just after the place */
    for(int q=0;q<60;++q){
      int x=(int)rnd(n*2+2)-1;
      if(un&&c.contains(x))continue;
      auto h=q%2?c.upper_bound(x):c.lower_bound(x);
      E e(x,0);
      DO(c.insert(h,e));log("hint",c.size(),1);
      DO(c.emplace_hint(c.end(),n*2+10+q,0));log("hint",c.size(),1);
    }
    /* erase most of it in some order, then look things up again: still balanced */
    int del=how%3;
    while((int)c.size()>n/8){
      auto it=del==0?c.begin():del==1?std::prev(c.end()):c.lower_bound((int)rnd(n));
      if(it==c.end())it=c.begin();
      DO(c.erase(it));log("erase",c.size(),1);
    }
    phase(name);lookups(c,n,false);
    churn(c,n,1,un);
    {typename C1<Spec>::type d(c);DO(d.swap(c));log("swap",c.size(),1);
     alignas(typename C1<Spec>::type) static char buf[sizeof(typename C1<Spec>::type)];
     DO(new(buf) typename C1<Spec>::type(std::move(d)));log("swap",c.size(),1);
     reinterpret_cast<typename C1<Spec>::type*>(buf)->~multi_index_container();}
    phase(name);lookups(c,n,false);
    {typename C1<Spec>::type d;for(int q=0;q<20;++q){E e(n*3+q,0);d.insert(e);}
     for(int q=0;q<15;++q){DO(c.merge(d,d.begin()));log("xfer",c.size(),1);}}
    {typename C1<Spec>::type d(c);lookups(d,n,false);}
  }
}
template<class Spec> void ranked(const char* name,int n,bool un){
  for(int how=0;how<(un?7:8);++how){
    phase(name);
    typename C1<Spec>::type c;
    for(int x:order(how,n))c.insert(E(x,x));
    phase(name);ranks(c,n);
    while((int)c.size()>n/8)c.erase(how%2?c.begin():c.nth(rnd((unsigned)c.size())));
    phase(name);ranks(c,n);
    churn(c,n,1,false);
    phase(name);ranks(c,n);
  }
}
template<class M> long bucket_keys(M& c,int k){
  std::set<int> s;std::size_t b=c.bucket(k);
  for(auto it=c.begin(b);it!=c.end(b);++it)s.insert(it->a);
  return (long)s.size();
}
template<class Spec> void hashed(const char* name,int n){
  for(int how=0;how<7;++how){
    phase(name);
    typename C1<Spec>::type c;
    long th=0,te=0,ta=0,tc=0,ts=0;
    std::vector<int> v=order(how,n);
    if(how==3)c.max_load_factor(3.0f);
    for(int x:v){
      int y=how==5?x/200:how%2?x/5:x;
      E e(y,x);
      DO(c.insert(e));th+=W[1];te+=W[2];ta+=W[5];tc+=W[3];ts+=W[6];
      log("hins",c.size(),0);
    }
    W[0]=0;W[1]=th;W[2]=te;W[3]=tc;W[4]=0;W[5]=ta;W[6]=ts;log("hall",n,0);
    for(int q=0;q<100;++q){
      int k=(int)rnd(n*2);
      long dk=bucket_keys(c,k);
      DO((void)c.find(k));log("hfind",c.size(),0,0,dk);
      DO((void)c.contains(k));log("hfind",c.size(),0,0,dk);
      long g;DO(g=(long)c.count(k));log("hfind",c.size(),0,g,dk);
      DO((void)c.equal_range(k));log("hfind",c.size(),0,0,dk);
    }
    for(int q=0;q<60&&!c.empty();++q){
      auto it=c.begin();std::advance(it,rnd((unsigned)std::min<std::size_t>(c.size(),100)));
      DO(c.erase(it));log("erase",c.size(),0);
    }
    {typename C1<Spec>::type d(c);DO(d.swap(c));log("swap",c.size(),0);
     alignas(typename C1<Spec>::type) static char buf[sizeof(typename C1<Spec>::type)];
     DO(new(buf) typename C1<Spec>::type(std::move(d)));log("swap",c.size(),0);
     reinterpret_cast<typename C1<Spec>::type*>(buf)->~multi_index_container();}
    DO(for(auto it=c.begin();it!=c.end();++it);)
    ;log("walk",c.size(),0);
    long sz=(long)c.size();
    DO(c.clear());log("lin",sz,0);
  }
}
template<class Spec> void lists(const char* name,int n){
  phase(name);
  typedef mi::multi_index_container<E,mi::indexed_by<Spec,mi::ordered_non_unique<A_,Less>,mi::hashed_non_unique<B_,Hash,Eq> >,Al<E> > M;
  M c,d;long ta=0,ts=0;bool ra=name[0]=='r';
  auto& s=c.template get<0>();auto& t=d.template get<0>();
  for(int i=0;i<n;++i){
    E e((int)rnd(n),i);
    DO(s.push_back(e));ta+=W[5];ts+=W[6];W[6]=0;log("ins",c.size(),1);
    if(i<n/2)t.push_back(E((int)rnd(n),i));
  }
  W[0]=W[1]=W[2]=W[3]=W[4]=0;W[5]=ta;W[6]=ts;log("lall",n,0);
  for(int q=0;q<60;++q){
    auto p=s.begin(),x=s.begin(),y=s.begin();
    std::advance(p,rnd(n/4));std::advance(x,rnd(n/4));
    DO(s.relocate(p,x));log(ra?"mlin":"move",c.size(),1);
    y=x;std::advance(y,3);
    DO(s.relocate(s.end(),x,y));log(ra?"mlin":"move",c.size(),1);
    DO(s.splice(s.end(),s,s.begin()));log(ra?"mlin":"move",c.size(),1);
    DO(s.erase(std::next(s.begin(),rnd(50))));log(ra?"elin":"erase",c.size(),1);
    DO(s.splice(s.begin(),t,t.begin()));log(ra?"xlin":"xfer",c.size(),1);
    DO(s.insert(std::next(s.begin(),rnd(50)),E((int)rnd(n),q)));W[3]-=1;W[6]=0;log("ins",c.size(),1);
  }
  DO(s.reverse());log("mlin",c.size(),1);
  std::vector<std::reference_wrapper<const E> > v(s.begin(),s.end());
  std::reverse(v.begin(),v.end());
  DO(s.rearrange(v.begin()));log("mlin",c.size(),1);
  DO(s.sort([](const E& x,const E& y){++W[0];return x.b<y.b;}));log("sort",c.size(),1);
  DO(t.sort([](const E& x,const E& y){++W[0];return x.b<y.b;}));log("sort",c.size(),1);
  DO(c.swap(d));log("swap",c.size(),1);
  alignas(M) static char buf[sizeof(M)];
  DO(new(buf) M(std::move(d)));log("swap",c.size(),1);
  reinterpret_cast<M*>(buf)->~M();
}
static void crash(int s){
  char m[64];int k=std::snprintf(m,sizeof m,"{\"op\":\"crash\",\"sig\":%d}\n",s);
  std::fflush(out);ssize_t r=write(fileno(out),m,k);(void)r;_exit(3);
}
int main(int argc,char** argv){
  int n=500;out=stdout;
  for(int i=1;i<argc;++i){
    std::string s=argv[i];auto p=s.find('=');std::string k=s.substr(0,p),v=p==std::string::npos?"":s.substr(p+1);
    if(k=="seed")rs=(std::uint64_t)std::atoi(v.c_str())*2654435761u+12345;
    else if(k=="n")n=std::atoi(v.c_str());
    else if(k=="sample")sampling=std::atoi(v.c_str());
    else if(k=="out")out=std::fopen(v.c_str(),"w");
  }
  for(int s:{SIGSEGV,SIGABRT,SIGFPE,SIGILL,SIGBUS})std::signal(s,crash);
  alarm(120);std::signal(SIGALRM,crash);
  std::fprintf(out,"{\"op\":\"start\"}\n");
  ordered<mi::ordered_unique<A_,Less> >("ou",n,true);
  ordered<mi::ordered_non_unique<A_,Less> >("on",n,false);
  ordered<mi::ranked_unique<A_,Less> >("ru",n,true);
  ordered<mi::ranked_non_unique<A_,Less> >("rn",n,false);
  ranked<mi::ranked_unique<A_,Less> >("ru",n,true);
  ranked<mi::ranked_non_unique<A_,Less> >("rn",n,false);
  hashed<mi::hashed_unique<A_,Hash,Eq> >("hu",n);
  hashed<mi::hashed_non_unique<A_,Hash,Eq> >("hn",n);
  lists<mi::sequenced<> >("sq",n);
  lists<mi::random_access<> >("ra",n);
  std::fprintf(out,"{\"op\":\"end\"}\n");
  std::fclose(out);
  return 0;
}
