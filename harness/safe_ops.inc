  /* ---- safe mode: calls with iterators of every state (included in Driver) ---- */
  template<class It> std::vector<ItSlot<It>*> cands(int K){
    std::vector<ItSlot<It>*> v;
    for(auto& p:slots)if(p->i==K)if(auto q=dynamic_cast<ItSlot<It>*>(p.get()))v.push_back(q);
    return v;
  }
  /* a slot for a call on container c: mostly one that belongs there */
  template<class It> ItSlot<It>* pick(int K,int c,int x){
    auto v=cands<It>(K);
    if(v.empty())throw Skip();
    if(x%4){
      std::vector<ItSlot<It>*> u;
      for(auto p:v)if(p->valid()&&p->owner(*this)==c)u.push_back(p);
      if(!u.empty())return u[(x/4)%u.size()];
    }
    return v[(x/4)%v.size()];
  }
  void do_mis(const Op& op,J& j){
    with(op.c,[&](auto& m,auto cf){vis(op.i,[&](auto K){
      auto& ix=m.template get<K>();constexpr int kd=kind<decltype(cf),decltype(K)::value>();
      typedef typename std::decay<decltype(ix)>::type Ix;
      typedef typename std::decay<decltype(m)>::type M;
      typedef typename Ix::iterator It;
      typedef typename decltype(cf)::template D<decltype(K)::value>::keys keys;
      constexpr bool bidir=(kd&K_HSH)==0,lst=(kd&(K_SEQ|K_RA))!=0,ra=(kd&K_RA)!=0,keyed=!lst;
      auto s1=[&]{auto p=pick<It>(K,op.c,op.p);j.f("s1",p->id);return p;};
      auto s2=[&]{auto p=pick<It>(K,op.c,op.p2);j.f("s2",p->id);return p;};
      auto s3=[&]{auto p=pick<It>(K,op.c,op.ri);j.f("s3",p->id);return p;};
      auto res=[&](int r){j.f("r",r);};
      E v=op.vs.empty()?mk(V4(1,1,1,++tag)):mk(op.vs[0]);
      const E& cv=v;
      int fn=op.k%34;
      switch(fn){
      case 0:{j.fs("fn","deref");auto p=s1();res(CALL(((*p->it).sn)));break;}
      case 1:{j.fs("fn","incr");auto p=s1();It t=p->it;CALL((++t));res(sn(*t.owner(),t));break;}
      case 2:if constexpr(bidir){j.fs("fn","decr");auto p=s1();It t=p->it;CALL((--t));res(sn(*t.owner(),t));break;}else throw Skip();
      case 3:{j.fs("fn","eq");auto p=s1();auto q=s2();res(CALL((p->it==q->it)));break;}
      case 4:{j.fs("fn","asg");auto p=s1();It t;CALL((t=p->it));res(t.valid());break;}
      case 5:if constexpr(ra){j.fs("fn","adv");auto p=s1();It t=p->it;int n=op.p2%9-4;j.f("n",n);CALL((t+=n));res(sn(*t.owner(),t));break;}else throw Skip();
      case 6:if constexpr(ra){j.fs("fn","diff");auto p=s1();auto q=s2();res((int)CALL((q->it-p->it)));break;}else throw Skip();
      case 7:{j.fs("fn","erase");auto p=s1();It t=p->it;CALL((ix.erase(t)));break;}
      case 8:{j.fs("fn","eraserg");auto p=s1();auto q=s2();It t=p->it,u=q->it;CALL((ix.erase(t,u)));break;}
      case 9:{j.fs("fn","replace");auto p=s1();CALL((ix.replace(p->it,cv)));break;}
      case 10:{j.fs("fn","replace");auto p=s1();CALL((ix.replace(p->it,std::move(v))));break;}
      case 11:{j.fs("fn","modify");auto p=s1();CALL((ix.modify(p->it,[](E&){})));break;}
      case 12:{j.fs("fn","modifyb");auto p=s1();CALL((ix.modify(p->it,[](E&){},[](E&){})));break;}
      case 13:if constexpr(keyed&&(bool)keys::rw){
          j.fs("fn","modkey");auto p=s1();
          if(op.way&1)CALL((ix.modify_key(p->it,[](int&){})));
          else CALL((ix.modify_key(p->it,[](int&){},[](int&){})));
          break;}else throw Skip();
      case 14:{j.fs("fn","extract");auto p=s1();CALL((ix.extract(p->it)));break;}
      case 15:{j.fs("fn","hint");auto p=s1();CALL((ix.insert(p->it,cv)));break;}
      case 16:{j.fs("fn","hint");auto p=s1();CALL((ix.insert(p->it,std::move(v))));break;}
      case 17:{j.fs("fn","emplhint");auto p=s1();
          if constexpr(keyed)CALL((ix.emplace_hint(p->it,1,op.way,op.p2,++tag)));
          else CALL((ix.emplace(p->it,1,op.way,op.p2,++tag)));
          break;}
      case 18:{j.fs("fn","nhins").f("k",op.way%2+1);auto p=s1();if(h[op.way%2].empty())throw Skip();
          CALL((ix.insert(p->it,std::move(h[op.way%2]))));break;}
      case 19:if constexpr(keyed){j.fs("fn","nhins0").f("k",op.way%2+1);if(h[op.way%2].empty())throw Skip();
          CALL((ix.insert(std::move(h[op.way%2]))));break;}else throw Skip();
      case 20:{j.fs("fn","project");auto p=s1();
          vis(op.i2,[&](auto L){
            auto t=CALL((m.template project<L>(p->it)));
            int o=t.owner()==m.template get<L>().end().owner();
            res(o?sn(m.template get<L>(),t):-9);
          });break;}
      case 21:{j.fs("fn","project");auto p=s1();
          const M& cm=m;
          vis(op.i2,[&](auto L){
            auto t=CALL((cm.template project<L>(p->it)));
            int o=t.owner()==m.template get<L>().end().owner();
            res(o?sn(cm.template get<L>(),t):-9);
          });break;}
      case 22:if constexpr((kd&K_RNK)!=0){j.fs("fn","rank");auto p=s1();res((int)CALL((ix.rank(p->it))));break;}else throw Skip();
      case 23:case 24:case 25:case 26:
        with(op.c2,[&](auto& m2,auto){vis(op.i2,[&](auto L){
          auto& iy=m2.template get<L>();
          typedef typename std::decay<decltype(iy)>::type::iterator It2;
          j.f("c2",op.c2).f("i2",op.i2+1);
          auto t2=[&]{auto p=pick<It2>(L,op.c2,op.p2);j.f("s2",p->id);return p;};
          auto t3=[&]{auto p=pick<It2>(L,op.c2,op.ri);j.f("s3",p->id);return p;};
          if constexpr(lst){
            if(fn==23){j.fs("fn","splice1");auto p=s1();auto q=t2();CALL((ix.splice(p->it,iy,q->it)));}
            else if(fn==24){j.fs("fn","splicerg");auto p=s1();auto q=t2();auto r=t3();CALL((ix.splice(p->it,iy,q->it,r->it)));}
            else if(fn==25){j.fs("fn","splice");auto p=s1();CALL((ix.splice(p->it,iy)));}
            else throw Skip();
          }
          else{
            if(fn==23){j.fs("fn","merge1");auto q=t2();CALL((ix.merge(iy,q->it)));}
            else if(fn==24){j.fs("fn","mergerg");auto q=t2();auto r=t3();CALL((ix.merge(iy,q->it,r->it)));}
            else if(fn==25){j.fs("fn","merge");CALL((ix.merge(iy)));}
            else throw Skip();
          }
        });});
        break;
      case 27:if constexpr(lst){j.fs("fn","reloc1");auto p=s1();auto q=s2();CALL((ix.relocate(p->it,q->it)));break;}else throw Skip();
      case 28:if constexpr(lst){j.fs("fn","relocrg");auto p=s1();auto q=s2();auto r=s3();CALL((ix.relocate(p->it,q->it,r->it)));break;}else throw Skip();
      case 29:if constexpr(lst){j.fs("fn","insl");auto p=s1();
          std::vector<E> w{mk(V4(op.way,1,2,++tag))};
          if(op.way&1)CALL((ix.insert(p->it,w.begin(),w.end())));else CALL((ix.insert(p->it,(std::size_t)1,w[0])));
          break;}else throw Skip();
      case 30:if constexpr(ra){j.fs("fn","at");int n=op.p%((int)m.size()+2);j.f("n",n);res(CALL((ix[n].sn)));break;}else throw Skip();
      case 31:if constexpr(lst){j.fs("fn","front");res(CALL((op.way&1?ix.front().sn:ix.back().sn)));break;}else throw Skip();
      case 32:if constexpr(lst){j.fs("fn","pop");if(op.way&1)CALL((ix.pop_front()));else CALL((ix.pop_back()));break;}else throw Skip();
      default:{ /* iterators of a container that goes away */
          j.fs("fn","dtor");
          It a,b,c;int n=0;
          {
            typename M::ctor_args_list al;
            M t(al,m.get_allocator());
            t.insert(t.end(),cv);
            a=t.template get<K>().begin();b=t.template get<K>().end();
            if(op.way&1){
              M u(std::move(t));
              if(!a.valid()||a.owner()!=u.template get<K>().end().owner())n+=8;
              c=u.template get<K>().end();
            }
            else c=b;
          }
          n+=a.valid()+2*b.valid()+4*c.valid();
          res(n);
        }
      }
    });});
  }
