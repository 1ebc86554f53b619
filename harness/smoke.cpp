#include "vf.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Proxy.hpp>
#include <iostream>
struct Src : Pothos::Block { int n=0; Src(){setupOutput(0,"int");} void work(){ auto o=output(0); auto b=o->buffer(); if(!o->elements()||n>=20)return; b.as<int*>()[0]=n++; o->produce(1);} };
struct Snk : Pothos::Block { int n=0; std::string s; Snk(){setupInput(0,"int");} void work(){ auto i=input(0); if(!i->elements())return; s+=std::to_string(i->buffer().as<const int*>()[0])+","; n++; i->consume(1);} };
int main(int c,char**v){ vf::Args a(c,v);
 for(int s=1;s<=a.num("n",3);s++){ vf::SchedOpts o;o.seed=s;o.strategy=s%2; vf::schedBegin(o);
 { auto src=std::make_shared<Src>(); auto snk=std::make_shared<Snk>(); 
   { Pothos::Topology t; t.connect(src,0,snk,0); t.commit(); bool r=t.waitInactive(); std::cout<<r<<" "<<snk->s<<" "<<vf::nowNs()<<"\n"; }
 }
 vf::schedEnd(); std::cout<<vf::steps()<<" "<<vf::switches()<<"\n"; } }
