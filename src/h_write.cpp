// C19: every buffer size of every writer.  C20 C21 C22 C23: what is written is what was there, judged by the reference
// readers and by the library's own.  C29 (writing): numbers.
#include "gfam.hpp"
#include "alloc.hpp"
#include "cat.hpp"
#include "sig.hpp"
#include <ctype.h>
#include <algorithm>
using std::vector; using ref::G;
static void quiet(){}
static string C(const G&g,bool zero=false,bool meta=true){ ref::Canon c; c.zero=zero; c.meta=meta; return ref::canon(g,c); }
static tg_geom*parse_bytes(tg_geom*(*f)(const uint8_t*,size_t),const string&s){ return f((const uint8_t*)s.data(),s.size()); }
// the two ways a geometry of the family comes to be
enum { BUILT, READ, NSRC };
static tg_geom*source(const G&g,int how){ if(how==BUILT) return ref::totg(g); return parse_bytes(tg_parse_wkb,ref::wkb(g)); }

// every number of positions, rings, parts and levels
static int topsize(){ if(mc::prop=="C19") return mc::deep()?200:30; return mc::deep()?1100:mc::thorough()?300:140; }
template<class T> static void sizespace(T f,bool monly=true){ static const int X[]={255,256,257,512,1024,1025,4096,32768,65535,65536,65537}; int hi=topsize(); uint64_t nn=hi+11; auto mk=[=](uint64_t i,G&g){ int k=i%gf::NSIZED,dm=i/gf::NSIZED%4,n=(int)(i/gf::NSIZED/4%nn); if(!monly&&dm==2) return false; n=n<11?X[10-n]:hi-(n-11); if(n>5000&&(mc::prop=="C19"||dm%3)) return false; if(n>hi&&(dm==1||(mc::prop=="C19"&&!mc::deep()&&(n>520||k%4!=dm)))) return false; return gf::sized(k,n,dm,n%2?0:n%4?1:3,g); };
    mc::space("every size",nn*4*gf::NSIZED,[=](uint64_t i){ G g; if(!mk(i,g)) return; mc::state(mc::hash(C(g))); tg_geom*t=source(g,i/gf::NSIZED%2); if(tg_geom_error(t)) mc::fail("source","the standard bytes are refused: %s",tg_geom_error(t)); else { f(t,g); mc::nontrivial(); } tg_geom_free(t); },[=](uint64_t i){ G g; if(!mk(i,g)) return string("none"); return C(g).substr(0,1500); },4); }
// ---- C19 ----
struct W { const char*name; bool text; size_t (*f)(const tg_geom*,char*,size_t); };
static const W WR[]={ {"wkt",true,[](const tg_geom*g,char*d,size_t n){ return tg_geom_wkt(g,d,n); }}, {"geojson",true,[](const tg_geom*g,char*d,size_t n){ return tg_geom_geojson(g,d,n); }}, {"hex",true,[](const tg_geom*g,char*d,size_t n){ return tg_geom_hex(g,d,n); }}, {"wkb",false,[](const tg_geom*g,char*d,size_t n){ return tg_geom_wkb(g,(uint8_t*)d,n); }}, {"geobin",false,[](const tg_geom*g,char*d,size_t n){ return tg_geom_geobin(g,(uint8_t*)d,n); }} };
static void bounded(const tg_geom*g,size_t all){
    for(auto&w:WR) for(int fixed=0;fixed<(w.text&&strcmp(w.name,"hex")?2:1);fixed++){ tg_env_set_print_fixed_floats(fixed); size_t L=w.f(g,nullptr,0); string whole(L+1,(char)0x5A); size_t l2=w.f(g,&whole[0],L+1); mc::trans(2);
        if(l2!=L){ mc::fail("length","%s: %zu bytes are announced without a buffer, %zu with one that is large enough",w.name,L,l2); continue; }
        if(w.text&&whole[L]!=0) mc::fail("whole","%s: the byte after the %zu bytes is %02x",w.name,L,whole[L]&255); if(w.text&&memchr(whole.data(),0,L)) mc::fail("whole","%s: a terminator inside the text",w.name);
        auto one=[&](size_t n){ char*d=(char*)malloc(n?n:1); memset(d,0x5A,n?n:1); char*b=n?d:d; size_t r=w.f(g,b,n); mc::trans();
            if(r!=L) mc::fail("length","%s: %zu with a buffer of %zu bytes, %zu otherwise",w.name,r,n,L); size_t keep=w.text?(n?std::min(n-1,L):0):std::min(n,L);
            if(memcmp(d,whole.data(),keep)) mc::fail("content","%s: a buffer of %zu bytes does not hold the first %zu of %zu bytes (differs at %d)",w.name,n,keep,L,diffat(string(d,keep),whole.substr(0,keep)));
            if(w.text&&n&&d[keep]!=0) mc::fail("terminator","%s: a buffer of %zu bytes has no terminator at %zu",w.name,n,keep); if(!n&&d[0]!=0x5A) mc::fail("written","%s: something is written though n is 0",w.name);
            free(d); };
        if(L<=all) for(size_t n=0;n<=L+2;n++){ one(n); mc::alive(); } else { for(size_t n=0;n<70;n++) one(n); for(size_t n=L-70;n<=L+2;n++) one(n); for(int k=1;k<16;k++) for(int d=-2;d<=2;d++) one(L*k/16+d); mc::alive(); } }
    tg_env_set_print_fixed_floats(false); }
static void c19(){
    gf::Opt o; o.special=true; o.lists=false; auto F=std::make_shared<vector<G>>(gf::family(o)); if(mc::thorough()){ gf::Opt p; auto L=gf::family(p); F->insert(F->end(),L.begin(),L.end()); }
    mc::space("family",F->size()*NSRC,[=](uint64_t i){ auto&g=(*F)[i/NSRC]; mc::state(mc::hash(C(g))+i%NSRC); tg_geom*t=source(g,i%NSRC); bounded(t,mc::thorough()?4000:700); mc::nontrivial(); tg_geom_free(t); },[=](uint64_t i){ return string(i%NSRC?"read ":"built ")+C((*F)[i/NSRC]); },8);
    auto K=std::make_shared<vector<CItem>>(catalogue(true)); mc::space("catalogue",K->size(),[=](uint64_t i){ tg_geom*t=(*K)[i].make(); bounded(t,mc::thorough()?1500:300); mc::state(mc::hash(w_wkb(t))); tg_geom_free(t); },[=](uint64_t i){ return (*K)[i].name; },4);
    sizespace([](const tg_geom*t,const G&){ bounded(t,mc::deep()?600:160); });
    mc::space("missing",1,[](uint64_t){ for(auto&w:WR){ char b[4]={'x','x','x','x'}; size_t r=w.f(nullptr,b,4); if(r) mc::fail("missing","%s of a missing geometry is %zu long",w.name,r); r=w.f(nullptr,nullptr,0); if(r) mc::fail("missing","%s of a missing geometry",w.name); if(b[1]!='x') mc::fail("missing","%s of a missing geometry writes",w.name); } },[](uint64_t){ return string("no geometry"); });
}
// fewer or more extra coordinates than positions: what is missing is zero
template<class T> static void shortspace(T f,bool monly=true){ struct It { G g; int n; }; auto V=std::make_shared<vector<It>>(); auto full=[&](const G&g){ if(g.type==ref::POINT||g.type==ref::GC||!(g.z||g.m)) return; int n=ref::extras(g); for(int k=0;k<=n+2;k++) V->push_back({g,k}); };
    for(auto&s:gf::shapes()) for(int dm=1;dm<4;dm++) for(int pat=0;pat<2;pat++) if(monly||dm!=2) full(gf::leaf(s,dm,pat)); for(int kind=0;kind<10;kind++) for(int n=1;n<=(mc::deep()?40:mc::thorough()?20:9);n++) for(int dm=1;dm<4;dm++){ G g; if((monly||dm!=2)&&gf::sized(kind,n,dm,0,g)) full(g); }
    auto bump=[](G&g){ auto seq=[](ref::Seq&s,G&g){ for(auto&p:s){ if(g.z) p[2]+=1000; if(g.m) p[3]+=2000; } }; seq(g.pts,g); for(auto&r:g.rings) seq(r,g); for(auto&q:g.polys) for(auto&r:q) seq(r,g); }; for(auto&it:*V) bump(it.g); // none of the numbers given is zero
    mc::space("short extra coordinates",V->size(),[=](uint64_t i){ auto&it=(*V)[i]; ref::keep=it.n; tg_geom*t=ref::totg(it.g); ref::keep=-1; G g=ref::padded(it.g,it.n); mc::state(mc::hash(C(g))*64+it.n); mc::nontrivial(); f(t,g); tg_geom_free(t); },[=](uint64_t i){ auto&it=(*V)[i]; return std::to_string(it.n)+" numbers for "+C(it.g); },32); }
// ---- C20 ----
static void reread(const char*what,const tg_geom*p,const string&want,const string&text,bool zero,bool meta){ const char*e=tg_geom_error(p); if(e){ mc::fail("unreadable","what is written does not parse as %s: %s: %s",what,e,ref::show(text).c_str()); return; } string got=C(ref::fromtg(p),zero,meta); if(got!=want) mc::fail("reread","%s %s is read back as %s instead of %s",what,ref::show(text).c_str(),got.c_str(),want.c_str()); }
static void wkt_round(const tg_geom*t,const G&g,bool fixed){ tg_env_set_print_fixed_floats(fixed); string s=w_wkt(t); mc::trans(); string want=C(g,true,false); G r; if(!ref::parse_wkt(s,r)) mc::fail("invalid","not WKT: %s",ref::show(s).c_str()); else { string got=C(r,true,false); if(got!=want) mc::fail("written","%s is written as %s",want.c_str(),ref::show(s).c_str()); }
    tg_geom*p=tg_parse_wkt(s.c_str()); reread("WKT",p,want,s,true,false); tg_geom_free(p); tg_env_set_print_fixed_floats(false); }
// catalogue items whose lines and rings a reader would refuse are left out
static bool wellformed(const G&g){ auto line=[](const ref::Seq&s){ return s.size()>=2; }; auto ring=[](const ref::Seq&s){ return s.size()>=3&&s[0][0]==s.back()[0]&&s[0][1]==s.back()[1]; }; auto poly=[&](const ref::Rings&r){ for(auto&s:r) if(!ring(s)) return false; return !r.empty(); };
    switch(g.type){ case ref::LINE: return g.pts.empty()||line(g.pts); case ref::POLY: return g.rings.empty()||poly(g.rings); case ref::MLINE: for(auto&s:g.rings) if(!line(s)) return false; return true; case ref::MPOLY: for(auto&p:g.polys) if(!poly(p)) return false; return true; case ref::GC: for(auto&k:g.kids) if(!wellformed(k)) return false; return true; } return g.type>=1&&g.type<=7; }
template<class T> static void familyspace(string name,gf::Opt o,T f,uint32_t block=64){ auto F=std::make_shared<vector<G>>(gf::family(o)); mc::space(name,F->size()*NSRC,[=](uint64_t i){ auto&g=(*F)[i/NSRC]; mc::state(mc::hash(C(g))+i%NSRC); tg_geom*t=source(g,i%NSRC); if(tg_geom_error(t)) mc::fail("source","the standard bytes are refused: %s",tg_geom_error(t)); else { f(t,g); mc::nontrivial(); } tg_geom_free(t); },[=](uint64_t i){ return string(i%NSRC?"read ":"built ")+C((*F)[i/NSRC]); },block); }
template<class T> static void catspace(T f){ auto K=std::make_shared<vector<CItem>>(catalogue(true)); mc::space("catalogue",K->size(),[=](uint64_t i){ tg_geom*t=(*K)[i].make(); G g=ref::fromtg(t); bool nothing=(tg_geom_line(t)&&!tg_line_num_points(tg_geom_line(t)))||(tg_geom_poly(t)&&!tg_ring_num_points(tg_poly_exterior(tg_geom_poly(t)))); if(!tg_geom_error(t)&&!nothing&&wellformed(g)){ mc::state(mc::hash(C(g))); mc::nontrivial(); f(t,g); } tg_geom_free(t); },[=](uint64_t i){ return (*K)[i].name; },4); }
static void c20(){ sizespace([](const tg_geom*t,const G&g){ wkt_round(t,g,g.pts.size()%2); }); shortspace([](const tg_geom*t,const G&g){ wkt_round(t,g,false); }); gf::Opt o; familyspace("family",o,[](const tg_geom*t,const G&g){ wkt_round(t,g,false); wkt_round(t,g,true); }); catspace([](const tg_geom*t,const G&g){ wkt_round(t,g,false); }); }
// ---- C21 ----
using ref::J;
static void jcoords(const J&j,string&o){ if(j.t==J::NUM){ ref::cnum(o,strtod(j.raw.c_str(),0),true); return; } if(j.t!=J::ARR){ o+=ref::mini(j); return; } o+='['; int k=0; bool nums=!j.a.empty()&&j.a[0].t==J::NUM; for(auto&e:j.a){ if(nums&&k==4) break; if(k++) o+=','; jcoords(e,o); } o+=']'; }
// what a document says, without the order of its members
static string says(const J&j){ if(j.t!=J::OBJ) return ref::mini(j); const J*t=j.get("type"); string ty=t?t->s:""; const char*tn=ty=="Feature"?"geometry":ty=="FeatureCollection"?"features":ty=="GeometryCollection"?"geometries":"coordinates"; const J*target=nullptr; vector<std::pair<string,string>> m; bool id=false,pr=false; bool feat=ty=="Feature";
    for(auto&p:j.o){ auto&n=p.first.s; if(n=="type") continue; if(n==tn){ target=&p.second; continue; } if(feat&&n=="id"){ if(id) continue; id=true; } if(feat&&n=="properties"){ if(pr) continue; pr=true; } m.push_back({n,ref::mini(p.second)}); }
    if(feat&&!pr) m.push_back({"properties","{}"}); std::stable_sort(m.begin(),m.end(),[](auto&a,auto&b){ return a.first<b.first; });
    string o="<"+ty+" "; if(!target) o+="(none)"; else if(!strcmp(tn,"coordinates")) jcoords(*target,o); else if(target->t==J::ARR){ o+='['; for(auto&e:target->a) o+=says(e)+";"; o+=']'; } else o+=says(*target); for(auto&p:m) o+=" "+ref::show(p.first,5000)+":"+p.second; return o+">"; }
static string plain(const G&g){ return C(g,true,false); }
static void shape(const G&g,string&o){ o+=g.feature?"F":g.fc?"C":"-"; o+='('; for(auto&k:g.kids) shape(k,o); o+=')'; }
static void json_round(const tg_geom*t,const G&g,bool fixed){ // geometry of t is g
    tg_env_set_print_fixed_floats(fixed); string s=w_json(t); mc::trans(); J j; G r; string want=plain(g); if(!ref::json(s,j,false)) mc::fail("invalid","not JSON: %s",ref::show(s).c_str()); else if(!ref::geojson(j,r)) mc::fail("invalid","not GeoJSON: %s",ref::show(s).c_str()); else { if(plain(r)!=want) mc::fail("written","%s is written as %s",want.c_str(),ref::show(s).c_str()); string a,b; shape(r,a); shape(g,b); if(a!=b) mc::fail("features","feature structure %s is written as %s",b.c_str(),ref::show(s).c_str()); }
    tg_geom*p=tg_parse_geojson(s.c_str()); reread("GeoJSON",p,want,s,true,false); if(!tg_geom_error(p)){ string s2=w_json(p); J k; if(!ref::json(s2,k,false)||says(k)!=says(j)) mc::fail("again","%s is written, read and written as %s",ref::show(s).c_str(),ref::show(s2).c_str()); } tg_geom_free(p); tg_env_set_print_fixed_floats(false); }
static void doc_round(const string&doc){ J in; G g; mc::state(mc::hash(doc)); if(!ref::json(doc,in)||!ref::geojson(in,g)){ mc::count("rejected"); return; } // C25 decides those
    tg_geom*t=tg_parse_geojson(doc.c_str()); if(tg_geom_error(t)){ tg_geom_free(t); mc::count("rejected"); return; } mc::nontrivial(); mc::trans(); string s=w_json(t); J out; if(!ref::json(s,out,false)) mc::fail("invalid","not JSON: %s from %s",ref::show(s).c_str(),ref::show(doc).c_str()); else { string a=says(in),b=says(out); if(a!=b) mc::fail("members","%s is written as %s",ref::show(doc,800).c_str(),ref::show(s,800).c_str()); auto dup=[&](auto&self,const J&j)->void{ if(j.t==J::OBJ){ int n[3]={0}; for(auto&p:j.o) for(int q=0;q<3;q++) if(p.first.s==(q==0?"type":q==1?"geometry":"id")) n[q]++; const J*ty=j.get("type"); if(ty&&ty->s=="Feature"&&(n[0]!=1||n[1]!=1||n[2]>1)) mc::fail("duplicates","%s is written as %s",ref::show(doc,800).c_str(),ref::show(s,800).c_str()); } for(auto&e:j.a) self(self,e); }; dup(dup,out); }
    tg_geom*p=tg_parse_geojson(s.c_str()); string s2=tg_geom_error(p)?string("error ")+tg_geom_error(p):w_json(p); if(s2!=s) mc::fail("again","%s is written, read and written as %s",ref::show(s,800).c_str(),ref::show(s2,800).c_str()); tg_geom_free(p); 
    tg_geom*c=tg_geom_copy(t); if(w_json(c)!=s) mc::fail("copy","a copy is written differently"); tg_geom_free(c); tg_geom_free(t); }
static uint64_t ipow(uint64_t a,int n){ uint64_t r=1; while(n-->0) r*=a; return r; }
static uint64_t seqn(uint64_t k,int maxlen){ uint64_t n=0; for(int l=0;l<=maxlen;l++) n+=ipow(k,l); return n; }
static vector<int> seqi(uint64_t i,int k){ uint64_t p=1; int l=0; while(i>=p){ i-=p; p*=k; l++; } vector<int> v; while(l--){ v.push_back(i%k); i/=k; } return v; }
static void memberspace(string name,vector<string> A,int maxlen,string pre,string post,vector<string> must){ // every sequence of members, each written with , between; must are put in at every position
    int k=A.size(); int nm=must.size(); auto mk=[=](uint64_t i){ uint64_t pos=0; vector<int> v=seqi(i/ipow(maxlen+2,nm),k); uint64_t r=i%ipow(maxlen+2,nm); vector<string> o; for(int x:v) o.push_back(A[x]); for(auto&m:must){ pos=r%(maxlen+2); r/=maxlen+2; if(pos>o.size()) return string(); o.insert(o.begin()+pos,m); } string s=pre; for(size_t q=0;q<o.size();q++){ if(q) s+=','; s+=o[q]; } return s+post; };
    mc::space(name,seqn(k,maxlen)*ipow(maxlen+2,nm),[=](uint64_t i){ string d=mk(i); if(!d.empty()) doc_round(d); },[=](uint64_t i){ return ref::show(mk(i)); }); }
static void c21(){ mc::declare_counter("rejected"); bool big=mc::thorough();
    sizespace([](const tg_geom*t,const G&g){ json_round(t,g,g.pts.size()%2); },false); shortspace([](const tg_geom*t,const G&g){ json_round(t,g,false); },false); gf::Opt o; o.monly=false; familyspace("family",o,[](const tg_geom*t,const G&g){ json_round(t,g,false); json_round(t,g,true); }); catspace([](const tg_geom*t,const G&g){ auto monly=[](auto&self,const G&g)->bool{ if(g.type!=ref::GC&&g.m&&!g.z) return true; for(auto&k:g.kids) if(self(self,k)) return true; return false; }; if(!monly(monly,g)) json_round(t,g,false); });
    string pt="\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]}";
    vector<string> fm={"\"id\":1","\"id\":\"a\\\"\"","\"properties\":{\"p\":1}","\"properties\":null","\"properties\":{}","\"x\":null","\"bbox\":[0,1.50,2e0,3]","\"\\u0069d\":7","\"propert\\u0069es\":{\"q\":[]}","\"coordinates\":[]","\"features\":1","\"i\\u0064\":\"z\"","\"x\":\"\\u0078\"","\"\":{}","\"ids\":1","\"type\":5"};
    memberspace("feature members",fm,big?4:3,"{","}",{"\"type\":\"Feature\"",pt});
    memberspace("feature geometry members",{"\"id\":1","\"properties\":{\"p\":1}","\"geometry\":null","\"g\":{}","\"x\":[1,{\"y\":\"}\"}]","\"properties\":null","\"type\":\"LineString\""},big?4:3,"{\"type\":\"Feature\",\"geometry\":{","},\"id\":2,\"properties\":{\"k\":0}}",{"\"type\":\"Point\"","\"coordinates\":[1,2]"});
    memberspace("feature geometry members, nothing else",{"\"id\":1","\"properties\":{\"p\":1}","\"g\":{}","\"properties\":{}"},big?4:3,"{\"type\":\"Feature\",\"geometry\":{","}}",{"\"type\":\"MultiPoint\"","\"coordinates\":[[1,2,3]]"});
    memberspace("both",{"\"x\":1","\"properties\":{\"a\":1}","\"properties\":null","\"id\":3"},3,"{\"type\":\"Feature\",\"geometry\":{\"type\":\"LineString\",\"coordinates\":[[1,2],[3,4]],\"y\":2}","}",{"\"z\":[ ]"});
    memberspace("geometry members",{"\"id\":1","\"properties\":{}","\"crs\":null","\"a\":\" \\\\ \"","\"geometries\":[]","\"\\u0074ype\":1","\"bbox\":[1]"},big?5:4,"{","}",{"\"type\":\"Polygon\"","\"coordinates\":[[[0,0],[4,0],[4,4],[0,0]]]"});
    memberspace("collection members",{"\"id\":1","\"properties\":{}","\"coordinates\":[]","\"a\":{\"b\":[]}"},big?4:3,"{","}",{"\"type\":\"GeometryCollection\"","\"geometries\":[{\"type\":\"Point\",\"coordinates\":[],\"k\":1},{\"type\":\"Point\",\"coordinates\":[1,2,3,4]}]"});
    memberspace("feature collection members",{"\"id\":1","\"properties\":{}","\"geometry\":null","\"a\":{\"b\":[]}","\"bbox\":[1,2]"},big?4:3,"{","}",{"\"type\":\"FeatureCollection\"","\"features\":[{\"type\":\"Feature\",\"geometry\":null,\"properties\":{}},{\"type\":\"Feature\",\"id\":0,\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"properties\":null}]"});
    // every geometry in a feature of every kind, in a collection
    { gf::Opt p; p.monly=false; p.lists=false; auto F=std::make_shared<vector<G>>(gf::family(p)); static const char*pre[]={"{\"type\":\"Feature\",\"geometry\":","{\"id\":1,\"type\":\"Feature\",\"geometry\":","{\"type\":\"Feature\",\"properties\":null,\"geometry\":","{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":","{\"type\":\"FeatureCollection\",\"n\":1,\"features\":[{\"type\":\"Feature\",\"geometry\":null},{\"properties\":{\"a\":1},\"type\":\"Feature\",\"geometry\":"},*post[]={"}",",\"properties\":{\"a\":[1,2]}}","}","}]}",",\"x\":1}]}"};
      auto mk=[=](uint64_t i){ auto&g=(*F)[i/5]; tg_geom*t=ref::totg(g); string s=w_json(t); tg_geom_free(t); return pre[i%5]+s+post[i%5]; }; mc::space("features",F->size()*5,[=](uint64_t i){ doc_round(mk(i)); },[=](uint64_t i){ return ref::show(mk(i)); }); }
    { vector<string> A={"1","-0.0","1e5","\"\"","\"a\\n\\u00e9\\ud83d\\ude00\"","null","true","false","[]","{}"}; auto V=std::make_shared<vector<string>>(A); for(int d=0;d<(big?2:1);d++){ vector<string> n=*V; for(auto&a:*V){ n.push_back("["+a+"]"); n.push_back("{\"k\":"+a+"}"); for(auto&b:A){ n.push_back("["+a+", "+b+"]"); n.push_back("{\"k\": "+a+" ,\"l\":"+b+"}"); } } *V=n; }
      static const char*pre[]={"{\"type\":\"Feature\",\"id\":\"q\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"x\":","{\"type\":\"Point\",\"coordinates\":[1,2],\"x\":","{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"x\":","{\"type\":\"Feature\",\"geometry\":null,\"properties\":{\"v\":"},*post[]={"}","}",",\"coordinates\":[1,2]}}","}}"}; auto mk=[=](uint64_t i){ return pre[i%4]+(*V)[i/4]+post[i%4]; }; mc::space("values",V->size()*4,[=](uint64_t i){ doc_round(mk(i)); },[=](uint64_t i){ return ref::show(mk(i)); }); }
    { string s; auto mk=[=](uint64_t i){ int c=i/4; string ch(1,(char)c); if(c=='"'||c=='\\'||c<32) { char b[10]; snprintf(b,10,"\\u%04x",c); ch=b; } else if(c>=128) ref::pututf(ch="",c+(c%2?0x700:0x1F600)); switch(i%4){ case 0: return "{\"type\":\"Feature\",\"geometry\":null,\"id\":\""+ch+"\",\"properties\":{}}"; case 1: return "{\"type\":\"Feature\",\"geometry\":null,\"properties\":{\""+ch+"\":\""+ch+"\"}}"; case 2: return "{\"type\":\"Point\",\"coordinates\":[1,2],\""+ch+"\":0}"; default: return "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\""+ch+"\":\"x"+ch+"\"}"; } }; mc::space("characters",256*4,[=](uint64_t i){ doc_round(mk(i)); },[=](uint64_t i){ return ref::show(mk(i)); }); }
}
// ---- C22 ----
static void wkb_round(const tg_geom*t,const G&g){ mc::trans(); string s=w_wkb(t),want=ref::wkb(g); if(s!=want) mc::fail("layout","%s is written as %s instead of %s",C(g).c_str(),ref::hex(s).c_str(),ref::hex(want).c_str()); string h=w_hex(t); if(h!=ref::hex(want)) mc::fail("hex","%s instead of %s",h.c_str(),ref::hex(want).c_str());
    string cg=C(g,false,false); for(int be=0;be<2;be++) for(int srid=0;srid<3;srid++) for(int fl=0;fl<2;fl++) for(int mix=0;mix<2;mix++){ if(want.size()>400000&&(srid!=be||fl!=be||mix!=be)) continue; mc::alive(); ref::WO o; o.be=be; o.srid=srid; o.flags=fl; o.mixed=mix; string b=ref::wkb(g,o); tg_geom*p=parse_bytes(tg_parse_wkb,b); mc::trans(); reread(be?"big-endian WKB":"WKB",p,cg,ref::hex(b),false,false); if(!tg_geom_error(p)&&w_wkb(p)!=want) mc::fail("again","%s is written as %s after reading",ref::hex(b).c_str(),ref::hex(w_wkb(p)).c_str()); tg_geom_free(p); for(int low=0;low<2;low++){ string x=ref::hex(b,low); p=tg_parse_hexn(x.data(),x.size()); reread("hex",p,cg,x,false,false); tg_geom_free(p); } } }
static bool nanpoint(const G&g){ auto all=[&](const ref::P4&p){ return p[0]!=p[0]&&p[1]!=p[1]; }; for(auto&p:g.pts) if((g.type==ref::POINT||g.type==ref::MPOINT)&&all(p)) return true; for(auto&k:g.kids) if(nanpoint(k)) return true; return false; }
static uint64_t MANT[64]; static int NM=0;
static void mants(){ NM=0; for(uint64_t m:{0ull,1ull,2ull,3ull,0xFFFFFFFFFFFFFull,0xFFFFFFFFFFFFEull,0x8000000000000ull,0x7FFFFFFFFFFFFull,0x8000000000001ull,0x5555555555555ull,0xAAAAAAAAAAAAAull,0x123456789ABCDull,0x0FFull,0xFF00000000000ull}) MANT[NM++]=m; }
static void c22(){ sizespace([](const tg_geom*t,const G&g){ wkb_round(t,g); }); shortspace([](const tg_geom*t,const G&g){ wkb_round(t,g); }); gf::Opt o; o.special=true; familyspace("family",o,[](const tg_geom*t,const G&g){ wkb_round(t,g); },16); catspace([](const tg_geom*t,const G&g){ if(!nanpoint(g)&&g.pts.size()<2000) wkb_round(t,g); });
    mants(); // every exponent and sign, in every place
    mc::space("doubles",(uint64_t)NM*2048*2*4,[](uint64_t i){ int slot=i%4; i/=4; uint64_t u=(i%2)<<63; i/=2; u|=(i%2048)<<52; i/=2048; u|=MANT[i]; double d; memcpy(&d,&u,8); mc::state(u*4+slot); G g; g.type=ref::LINE; g.z=g.m=true; g.pts={{1,2,3,4},{5,6,7,8}}; g.pts[0][slot]=d; G q=g; q.type=ref::POINT; q.pts.resize(1); for(auto&g:{g,q}) for(int be=0;be<2;be++){ ref::WO o; o.be=be; string b=ref::wkb(g,o); tg_geom*p=parse_bytes(tg_parse_wkb,b); mc::trans(); if(tg_geom_error(p)) mc::fail("unreadable","%s",ref::hex(b).c_str()); else { string w=w_wkb(p); if(w!=ref::wkb(g)) mc::fail("bits","%s becomes %s",ref::hex(b).c_str(),ref::hex(w).c_str()); } tg_geom_free(p); } },[](uint64_t i){ return "double "+std::to_string(i); },4096);
    mc::space("lengths",200,[](uint64_t i){ G g; g.type=i%2?ref::LINE:ref::MPOINT; g.z=i%3==1; g.m=i%5==2; gf::Gen n{1,g.z,g.m}; g.pts=n.seq(2+i); tg_geom*t=ref::totg(g); wkb_round(t,g); tg_geom_free(t); mc::state(i); },[](uint64_t i){ return std::to_string(2+i)+" vertices"; },2); }
// ---- C23 ----
static string rects(const uint8_t*p,size_t n){ string o; double a[4]={-7,-7,-7,-7},b[4]={-7,-7,-7,-7}; int d=tg_geobin_fullrect(p,n,a,b); o+=std::to_string(d)+"dims"; for(int i=0;i<d&&i<4;i++){ char t[80]; snprintf(t,80," %.17g..%.17g",a[i]+0.0,b[i]+0.0); o+=t; } return o; }
static string xy(tg_rect r){ char t[160]; snprintf(t,160,"%.17g %.17g %.17g %.17g",r.min.x+0.0,r.min.y+0.0,r.max.x+0.0,r.max.y+0.0); return t; }
static string xy(tg_point p){ char t[80]; snprintf(t,80,"%.17g %.17g",p.x+0.0,p.y+0.0); return t; }
// extra members of the parts of a geometry collection, a missing geometry and missing properties have no place in GeoBIN
static G binform(const G&g,bool top=true){ G o=g; if(!top) o.extra=""; bool keep=g.fc; for(auto&k:o.kids) k=binform(k,keep); return o; }
// given: some extra coordinates were not given to the constructor, and the rectangle is of those that were
static void geobin_round(const tg_geom*t,const G&g0,bool given=false){ G g=binform(g0); mc::trans(); string s=w_geobin(t),want=C(g); G r; uint8_t*p=(uint8_t*)malloc(s.size()); memcpy(p,s.data(),s.size());
    if(!ref::parse_geobin(s,r)) mc::fail("invalid","not GeoBIN: %s",ref::hex(s).c_str()); else if(C(r)!=want) mc::fail("written","%s is written as %s (%s)",want.c_str(),ref::hex(s).c_str(),C(r).c_str());
    tg_geom*q=tg_parse_geobin(p,s.size()); reread("GeoBIN",q,want,ref::hex(s),false,true); if(!tg_geom_error(q)){ string s2=w_geobin(q); if(given){ size_t h=2+(s.size()>1?(uint8_t)s[1]:0)*16; if(s2.size()!=s.size()||(h<=s.size()&&s2.substr(h)!=s.substr(h))) mc::fail("again","%s is written, read and written as %s",ref::hex(s).c_str(),ref::hex(s2).c_str()); } else if(s2!=s) mc::fail("again","%s is written, read and written as %s",ref::hex(s).c_str(),ref::hex(s2).c_str()); } tg_geom_free(q);
    bool plainempty=s[0]==1&&g.empty(); // a point without a position has no header
    if(!plainempty){ double a[4],b[4]; int d=tg_geom_fullrect(t,a,b); string w=std::to_string(d)+"dims"; for(int i=0;i<d;i++){ char x[80]; snprintf(x,80," %.17g..%.17g",a[i]+0.0,b[i]+0.0); w+=x; } string h=rects(p,s.size()); if(h!=w) mc::fail("fullrect","header of %s says %s, the geometry has %s",ref::hex(s).c_str(),h.c_str(),w.c_str()); tg_rect rr=tg_geom_rect(t); if(xy(tg_geobin_rect(p,s.size()))!=xy(rr)) mc::fail("rect","header of %s says %s, the geometry has %s",ref::hex(s).c_str(),xy(tg_geobin_rect(p,s.size())).c_str(),xy(rr).c_str()); tg_point c=tg_geobin_point(p,s.size()); tg_point m=tg_geom_point(t); tg_point m2=tg_rect_center(rr); if(xy(c)!=xy(m2)&&xy(c)!=xy(m)) mc::fail("centre","header of %s says %s, the geometry has %s",ref::hex(s).c_str(),xy(c).c_str(),xy(m2).c_str()); }
    free(p); }
// what a header may answer: nothing, or what a complete header holds
static void header(const string&s){ uint8_t*p=(uint8_t*)malloc(s.size()?s.size():1); memcpy(p,s.data(),s.size()); size_t n=s.size(); mc::state(mc::hash(s)); mc::trans(); string want="0dims",wr,wp; wr=xy(tg_rect{{0,0},{0,0}}); wp=xy(tg_point{0,0}); bool either=false;
    auto num=[&](size_t i){ double d; memcpy(&d,s.data()+i,8); return d; };
    if(n>=2&&p[0]>=2&&p[0]<=4&&p[1]>=2&&p[1]<=4&&n>=2+(size_t)p[1]*16){ int d=p[1]; want=std::to_string(d)+"dims"; for(int i=0;i<d;i++){ char x[80]; snprintf(x,80," %.17g..%.17g",num(2+i*8)+0.0,num(2+d*8+i*8)+0.0); want+=x; } tg_rect r={{num(2),num(10)},{num(2+d*8),num(2+d*8+8)}}; wr=xy(r); wp=xy(tg_rect_center(r)); }
    else if(n>=5&&p[0]==1){ // a bare point
        uint32_t t; memcpy(&t,p+1,4); int d=t==1?2:t==1001||t==2001?3:t==3001?4:0; if(d&&n>=5+(size_t)d*8){ want=std::to_string(d)+"dims"; for(int i=0;i<d;i++){ char x[80]; snprintf(x,80," %.17g..%.17g",num(5+i*8)+0.0,num(5+i*8)+0.0); want+=x; } wr=xy(tg_rect{{num(5),num(13)},{num(5),num(13)}}); wp=xy(tg_point{num(5),num(13)}); } else if(d&&n>=21) either=true; else if(d==0) either=t!=0&&n>=21&&((t&0xFF)==1||(t%1000)==1); }
    string a=rects(p,n),b=xy(tg_geobin_rect(p,n)),c=xy(tg_geobin_point(p,n)); if(!either){ if(a!=want) mc::fail("header","%s: the full rectangle is %s, not %s",ref::hex(s).c_str(),a.c_str(),want.c_str()); if(b!=wr) mc::fail("header","%s: the rectangle is %s, not %s",ref::hex(s).c_str(),b.c_str(),wr.c_str()); if(c!=wp) mc::fail("header","%s: the centre is %s, not %s",ref::hex(s).c_str(),c.c_str(),wp.c_str()); } free(p); }
static void c23(){ sizespace([](const tg_geom*t,const G&g){ geobin_round(t,g); }); shortspace([](const tg_geom*t,const G&g){ geobin_round(t,g,true); }); gf::Opt o; o.special=false; familyspace("family",o,[](const tg_geom*t,const G&g){ geobin_round(t,g); });
    catspace([](const tg_geom*t,const G&g){ auto bad=[](auto&self,const tg_geom*t,const G&g)->bool{ if(g.feature||g.fc){ string j=w_json(t); if(j.find("\"geometry\":null")!=string::npos) return true; } return false; }; size_t pos=g.pts.size(); for(auto&r:g.rings) pos+=r.size(); for(auto&p:g.polys) for(auto&r:p) pos+=r.size(); if(g.type!=ref::POINT&&(size_t)tg_geom_num_extra_coords(t)!=pos*(g.z+g.m)) return; // not as many coordinates as its vertices need
        if(!bad(bad,t,g)&&!nanpoint(g)) geobin_round(t,g); });
    { gf::Opt p; p.lists=false; auto F=std::make_shared<vector<G>>(gf::family(p)); // features and feature collections of everything
      static const char*X[]={"","{\"properties\":{\"a\":1}}","{\"id\":1,\"x\":\"\\u00e9\"}","[{},{\"u\":1}]"}; uint64_t per=4+2+4; mc::space("features",F->size()*per,[=](uint64_t i){ auto&g=(*F)[i/per]; int k=i%per; auto bin=[&](int h,const char*x,const G&g){ string s; s+=(char)h; s+=(char)0; s+=x; s+='\0'; return s+ref::wkb(g); }; string s; if(k<4) s=bin(3,X[k],g); else if(k<6) s=bin(2,X[k-2],g); else { s+=(char)4; s+=(char)0; s+=X[k-6]; s+='\0'; ref::o32(s,2,false); s+=bin(3,X[k%4],g); s+=bin(3,"",(*F)[(i/per+1)%F->size()]); } tg_geom*t=parse_bytes(tg_parse_geobin,s); mc::state(mc::hash(s)); if(tg_geom_error(t)) mc::fail("unreadable","%s: %s",ref::hex(s).c_str(),tg_geom_error(t)); else { G e; ref::parse_geobin(s,e); mc::nontrivial(); geobin_round(t,e); } tg_geom_free(t); },[=](uint64_t i){ return "feature form "+std::to_string(i%per)+" of "+C((*F)[i/per]); },32); }
    { auto D=std::make_shared<vector<string>>(); for(const char*w:{"POINT(1 2)","POINT Z(1 2 3)","POINT M(1 2 3)","POINT ZM(1 2 3 4)","LINESTRING(1 2,3 5)","LINESTRING Z(1 2 3,4 5 7)","POLYGON ZM((0 0 1 2,4 0 3 4,4 4 5 6,0 0 7 8))","POINT EMPTY","GEOMETRYCOLLECTION(POINT(1 2),LINESTRING(3 4,5 9))"}){ G g; ref::parse_wkt(w,g); tg_geom*t=ref::totg(g); D->push_back(w_geobin(t)); tg_geom_free(t); } for(const char*j:{"{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"properties\":{\"a\":1}}","{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2,3]}}]}"}){ tg_geom*t=tg_parse_geojson(j); D->push_back(w_geobin(t)); tg_geom_free(t); }
      uint64_t off=0; vector<uint64_t> st; for(auto&d:*D){ st.push_back(off); off+=d.size()+1; } auto S=std::make_shared<vector<uint64_t>>(st); auto mk=[=](uint64_t i){ int k=std::upper_bound(S->begin(),S->end(),i)-S->begin()-1; return (*D)[k].substr(0,i-(*S)[k]); }; mc::space("cut",off,[=](uint64_t i){ header(mk(i)); },[=](uint64_t i){ return ref::hex(mk(i)); });
      // the first two bytes take every value; the third to fifth, where they are a type, every value singly
      auto mk2=[=](uint64_t i){ static const int L[]={2,3,5,6,17,18,20,21,22,29,33,34,37,49,50,51,65,66,67,90,300}; string s; s+=(char)(i%256); i/=256; s+=(char)(i%256); i/=256; int n=L[i]; while((int)s.size()<n) s+=(char)(s.size()%7?s.size()*3:0x40); s.resize(n); return s; }; mc::space("first bytes",65536ull*21,[=](uint64_t i){ header(mk2(i)); },[=](uint64_t i){ return ref::hex(mk2(i)); });
      auto mk3=[=](uint64_t i){ static const uint32_t T[]={0,1,2,3,4,5,6,7,8,999,1000,1001,1002,1007,2000,2001,2002,3000,3001,3002,4001,0x101,0x80000001u,0x40000001u,0xC0000001u,0x20000001u,0xA0000001u,0x01000000,0xFFFFFFFFu}; string s; s+=(char)(i%3==2?0:i%3==1?1:2); i/=3; int be=s[0]==0; ref::o32(s,T[i%29],be); i/=29; for(int k=0;k<6;k++) ref::od(s,k*1.5+1,be); s.resize(i); return s; }; mc::space("types",3*29*53,[=](uint64_t i){ string s=mk3(i); if(s.size()>0&&s[0]==0) { return; } header(s); },[=](uint64_t i){ return ref::hex(mk3(i)); }); }
}
// ---- C29 writing ----
static bool jsonnum(const char*s,size_t n){ ref::JP p{(const unsigned char*)s,n}; J j; return n&&p.num(j)&&p.i==n; }
static int sigdigits(const char*s,size_t n){ string d; for(size_t i=0;i<n;i++){ if(s[i]=='e'||s[i]=='E') break; if(s[i]>='0'&&s[i]<='9') d+=s[i]; } size_t a=0; while(a<d.size()&&d[a]=='0') a++; size_t b=d.size(); while(b>a&&d[b-1]=='0') b--; return b-a; }
static void number(double d,const char*s,size_t n,bool fixed,const char*where){ mc::trans(); if(!jsonnum(s,n)){ mc::fail("number","%.17g is written as %.*s in %s",d,(int)n,s,where); return; } char b[2000]; if(n>=sizeof b){ mc::fail("number","%.17g is written with %zu characters",d,n); return; } memcpy(b,s,n); b[n]=0; double e=strtod(b,0); uint64_t u,v; memcpy(&u,&d,8); memcpy(&v,&e,8); if(u!=v&&!(d==0&&e==0)){ mc::fail("value","%.17g is written as %s in %s",d,b,where); return; }
    if(fixed&&strpbrk(b,"eE")) mc::fail("exponent","%.17g is written as %s in the fixed style",d,b); int k=sigdigits(b,n); if(k>17) mc::fail("digits","%.17g is written with %d digits: %s",d,k,b); else if(k>1){ char t[60]; snprintf(t,60,"%.*e",k-2,d); if(strtod(t,0)==d) mc::fail("digits","%.17g is written as %s though %s would do",d,b,t); } }
static void numbers4(const double*d){ tg_geom*g=tg_geom_new_point_zm({d[0],d[1]},d[2],d[3]); for(int fixed=0;fixed<2;fixed++){ tg_env_set_print_fixed_floats(fixed); char b[6000]; for(int f=0;f<2;f++){ size_t n=f?tg_geom_geojson(g,b,sizeof b):tg_geom_wkt(g,b,sizeof b); const char*p=f?strstr(b,"[")+1:strchr(b,'(')+1; if(n>=sizeof b){ mc::fail("number","%zu characters",n); continue; } for(int k=0;k<4;k++){ size_t l=strcspn(p,f?",]":" )"); number(d[k],p,l,fixed,f?"GeoJSON":"WKT"); if(!p[l]&&k<3){ mc::fail("number","too few numbers in %s",b); break; } p+=l+1; } } } tg_env_set_print_fixed_floats(false); tg_geom_free(g); }
template<class F> static void numspace(string name,uint64_t n,F val){ // four at a time
    mc::space(name,(n+3)/4,[=](uint64_t i){ double d[4]; for(int k=0;k<4;k++){ uint64_t q=i*4+k; d[k]=val(q<n?q:n-1); if(d[k]!=d[k]||d[k]-d[k]!=0||(d[k]!=0&&fabs(d[k])<2.2250738585072014e-308)) d[k]=1; uint64_t u; memcpy(&u,d+k,8); mc::state(mc::hash(&u,8)); } numbers4(d); mc::nontrivial(); },[=](uint64_t i){ char b[200]; snprintf(b,200,"%.17g %.17g %.17g %.17g",val(i*4),val(std::min(i*4+1,n-1)),val(std::min(i*4+2,n-1)),val(std::min(i*4+3,n-1))); return string(b); }); }
static double near(double d,int k){ uint64_t u; memcpy(&u,&d,8); u+=k; memcpy(&d,&u,8); return d; }
static void c29(){ bool big=mc::thorough(); auto M=std::make_shared<vector<uint64_t>>(); uint64_t full=0xFFFFFFFFFFFFFull; for(int k=0;k<52;k++){ M->push_back(1ull<<k); M->push_back((1ull<<k)-1); M->push_back(full^(1ull<<k)); M->push_back(full<<k&full); if(big) for(int j=0;j<k;j++) M->push_back(1ull<<k|1ull<<j); } for(uint64_t m:{0x5555555555555ull,0xAAAAAAAAAAAAAull,0x123456789ABCDull,0xCCCCCCCCCCCCCull}) M->push_back(m);
    std::sort(M->begin(),M->end()); M->erase(std::unique(M->begin(),M->end()),M->end());
    numspace("bit patterns",M->size()*2046*2,[=](uint64_t i){ uint64_t u=(i&1)<<63; i/=2; u|=(i%2046+1)<<52; u|=(*M)[i/2046]; return gf::bits(u); });
    int D=big?99999:big?99999:2999, E=330; numspace("short decimals",(uint64_t)D*(2*E+1)/(big?1:1)/ (big?4:1),[=](uint64_t i){ char b[40]; snprintf(b,40,"%de%d",(int)(i%D)+1,(int)(i/D)*(big?4:1)-E); return strtod(b,0); });
    int D2=big?999:199; numspace("neighbours of short decimals",(uint64_t)D2*651*4,[=](uint64_t i){ static const int o[]={-2,-1,1,2}; char b[40]; snprintf(b,40,"%de%d",(int)(i/4%D2)+1,(int)(i/4/D2)-325); return near(strtod(b,0),o[i%4]); });
    numspace("integers",big?4000000:400000,[=](uint64_t i){ return (double)i-1000; }); { auto V=std::make_shared<vector<double>>(); for(int e=0;e<64;e++) for(int k=-64;k<=64;k++){ V->push_back(ldexp(1,e)+k); V->push_back(-(ldexp(1,e)+k/4.0)); } for(int e=0;e<=23;e++){ char b[20]; snprintf(b,20,"1e%d",e); double d=strtod(b,0); for(int k=-64;k<=64;k++){ V->push_back(near(d,k)); V->push_back(d+k); } } numspace("around powers",V->size(),[=](uint64_t i){ return (*V)[i]; }); }
    numspace("money",big?2000000:200000,[=](uint64_t i){ return (double)((int64_t)i-50000)/100; }); numspace("coordinates",big?3600000:360001,[=](uint64_t i){ return ((double)i-180000)/1000; }); numspace("fractions",big?4000000:400000,[=](uint64_t i){ return (double)(i%2000+1)/(double)(i/2000+1); });
}
// memory holds numbers that are nobody's: what is read past the end of a block shows
int main(int c,char**v){ mc::init(c,v); MURKY(); auto&p=mc::prop; if(p=="C19") c19(); else if(p=="C20") c20(); else if(p=="C21") c21(); else if(p=="C22") c22(); else if(p=="C23") c23(); else if(p=="C29") c29(); return mc::finish(); }
