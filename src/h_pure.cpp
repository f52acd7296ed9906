// C34: answers come from the arguments alone. The same calls under different surroundings must answer the same: what memory
// held before, what is left on the stack, where the input lies and what lies around it, which calls came before, the locale.
#include "sig.hpp"
#include "cat.hpp"
#include "alloc.hpp"
#include "gfam.hpp"
#include "hard.hpp"
#include <filesystem>
#include <locale.h>
#include <unistd.h>
using namespace std;
static const unsigned char FILL[]={0x00,0xFF,0xA5,0x7F,0x01,0x80}; static const int NF=6;
__attribute__((noinline)) static void dirty(unsigned char p,size_t n=0){ char b[65536]; if(!n) n=sizeof b; memset(b+sizeof b-n,p,n); asm volatile(""::"r"(b):"memory"); }
template<class F> static string under(unsigned char p,F f){ unsigned char o=al::pat; al::pat=p; dirty(p); string s=f(); al::pat=o; return s; }
static string where(const string&a,const string&b){ int k=diffat(a,b); auto cut=[&](const string&s){ string o; for(int i=max(0,k-20);i<k+30&&i<(int)s.size();i++) o+=s[i]>=32&&s[i]<127?s[i]:'.'; return o; }; return "at byte "+to_string(k)+" of what is observed: \""+cut(a)+"\" / \""+cut(b)+"\""; }
struct CB { string*o; };
static bool got(const tg_geom*c,int i,void*u){ CB*b=(CB*)u; sv(*b->o,i); SigOpt q; q.text=false; sig_geom(*b->o,c,q,1); return true; }
static double rd(tg_rect r,int*,void*){ double x=max(max(r.min.x-1.0,1.0-r.max.x),0.0),y=max(max(r.min.y-2.0,2.0-r.max.y),0.0); return x*x+y*y; }
static double sd(tg_segment s,int*m,void*u){ return rd(tg_segment_rect(s),m,u); }
static bool ns(tg_segment s,double d,int i,void*u){ string*o=(string*)u; sv(*o,i); sv(*o,d); return o->size()<4000; }
static bool ls(tg_segment a,int i,tg_segment b,int j,void*u){ string*o=(string*)u; sv(*o,i); sv(*o,j); sv(*o,a.a.x+b.b.y); return o->size()<4000; }
// everything there is to ask of one object
static string asked(const tg_geom*g){ string o=sig(g); unsigned char p=al::pat; if(!g||tg_geom_error(g)) return o; CB b{&o};
    tg_rect qs[]={{{-1e9,-1e9},{1e9,1e9}},{{1,1},{5,5}},{{0,0},{0,0}},{{2,0},{2.5,40}}}; for(auto&r:qs){ dirty(p,8192); tg_geom_search(g,r,got,&b); dirty(p,8192); sv(o,(char)tg_geom_intersects_rect(g,r)); }
    auto near=[&](const tg_ring*r,const tg_line*l){ string n; dirty(p,16384); if(l) tg_line_nearest_segment(l,rd,sd,ns,&n); else tg_ring_nearest_segment(r,rd,sd,ns,&n); o+=n; };
    if(tg_geom_line(g)) near(0,tg_geom_line(g)); if(tg_geom_poly(g)&&tg_poly_exterior(tg_geom_poly(g))) near(tg_poly_exterior(tg_geom_poly(g)),0);
    for(int x=0;x<40;x++){ dirty(p,4096); o+=tg_geom_intersects_xy(g,x%8*.75,x/8)?'1':'0'; }
    dirty(p); tg_geom*c=tg_geom_copy(g); o+=sig(c); tg_geom_free(c); return o; }
static string related(const tg_geom*a,const tg_geom*b){ string o; unsigned char p=al::pat; static bool(*R[])(const tg_geom*,const tg_geom*)={tg_geom_equals,tg_geom_disjoint,tg_geom_contains,tg_geom_within,tg_geom_covers,tg_geom_coveredby,tg_geom_touches,tg_geom_intersects};
    for(auto r:R){ dirty(p,8192); o+=r(a,b)?'1':'0'; mc::trans(); }
    const tg_line*la=tg_geom_line(a),*lb=tg_geom_line(b); auto ra=tg_geom_poly(a)?tg_poly_exterior(tg_geom_poly(a)):nullptr,rb=tg_geom_poly(b)?tg_poly_exterior(tg_geom_poly(b)):nullptr; string n; dirty(p,8192);
    if(la&&lb) tg_line_line_search(la,lb,ls,&n); else if(ra&&lb) tg_ring_line_search(ra,lb,ls,&n); else if(ra&&rb) tg_ring_ring_search(ra,rb,ls,&n); return o+n; }
static void c34(bool T){
    auto C=new vector<CItem>(catalogue(true)); auto D=new vector<CItem>(catalogue(false));
    auto under_all=[](function<tg_geom*()> make){ string S; for(int f=0;f<NF;f++){ string s=under(FILL[f],[&]{ tg_geom*g=make(); string o=asked(g); tg_geom_free(g); return o; }); mc::trans(); if(!f){ S=s; mc::state(mc::hash(s)); mc::nontrivial(); } else if(s!=S) mc::fail("old memory","with memory that held 0x%02x, %s",FILL[f],where(S,s).c_str()); } };
    mc::space("objects over old memory",C->size(),[=](uint64_t i){ under_all([&]{ return (*C)[i].make(); }); },[=](uint64_t i){ return (*C)[i].name; },1);
    // a family of geometries, built and read from each format
    auto fam=new vector<ref::G>(gf::family({true,true,T,true})); mc::space("a family over old memory",fam->size()*3,[=](uint64_t i){ auto&g=(*fam)[i/3]; int k=i%3; string b=k==1?ref::wkb(g):k==2?gf::json(g,i&1):""; 
        string S; for(int f=0;f<NF;f++){ string s=under(FILL[f],[&]{ tg_geom*x=k==0?ref::totg(g):k==1?tg_parse_wkb((const uint8_t*)b.data(),b.size()):tg_parse_geojsonn(b.data(),b.size()); string o=sig(x); tg_geom_free(x); return o; }); mc::trans(); if(!f){ S=s; mc::state(mc::hash(s)); mc::nontrivial(); } else if(s!=S) mc::fail("old memory","with memory that held 0x%02x, %s",FILL[f],where(S,s).c_str()); } },
        [=](uint64_t i){ return string(i%3==0?"built ":i%3==1?"wkb of ":"geojson of ")+gf::wkt((*fam)[i/3],false); },16);
    { int hi=T?300:80; static const tg_index IX[]={TG_NONE,TG_NATURAL,TG_YSTRIPES}; mc::space("every size over old memory",(uint64_t)(hi+1)*gf::NSIZED*4*4,[=](uint64_t i){ int kind=i%gf::NSIZED,src=i/gf::NSIZED%4,dm=i/gf::NSIZED/4%4,n=i/gf::NSIZED/16; ref::G g; if(src==3&&!n) return; if(!gf::sized(kind,n,dm,n%3,g)) return; string b=src<3?ref::wkb(g):""; under_all([&]{ return src==3?ref::totg(g):tg_parse_wkb_ix((const uint8_t*)b.data(),b.size(),IX[src]); }); },
        [=](uint64_t i){ return "kind "+to_string(i%gf::NSIZED)+(i/gf::NSIZED%4==3?" built":" read with index "+to_string(1+i/gf::NSIZED%4))+", dims "+to_string(i/gf::NSIZED/4%4)+", size "+to_string(i/gf::NSIZED/16); },16); }
    // pairs: the two made over one kind of memory, and asked over one kind of stack
    { auto W=new vector<tg_geom*>[3]; auto idx=new vector<int>; for(int f=0;f<3;f++){ al::pat=FILL[f]; for(size_t k=0;k<D->size();k++){ dirty(FILL[f]); tg_geom*g=(*D)[k].make(); W[f].push_back(g); if(!f&&g&&!tg_geom_error(g)) idx->push_back(k); } } al::pat=0xA5; uint64_t n=idx->size();
      mc::space("pairs over old memory",n*n,[=](uint64_t i){ int a=(*idx)[i/n],b=(*idx)[i%n]; string S; for(int f=0;f<3;f++){ string s=under(FILL[f],[&]{ return related(W[f][a],W[f][b]); }); if(!f){ S=s; if(s[0]!='0'||s[1]!='1') mc::nontrivial(); } else if(s!=S) mc::fail("old memory","with memory that held 0x%02x the answers are %s, not %s",FILL[f],s.substr(0,8).c_str(),S.substr(0,8).c_str()); } },
        [=](uint64_t i){ return (*D)[(*idx)[i/n]].name+" and "+(*D)[(*idx)[i%n]].name; },32);
      // one call, any other in between, and the first again
      uint64_t m=D->size(); auto base=new vector<uint64_t>; for(auto&it:*D){ tg_geom*g=it.make(); base->push_back(mc::hash(sig(g))); tg_geom_free(g); } mc::space("calls in between",m*m,[=](uint64_t i){ auto&a=(*D)[i/m]; size_t j=i%m; auto once=[&]{ tg_geom*g=a.make(); string o=sig(g); if(mc::hash(o)!=(*base)[i/m]) mc::fail("earlier calls","not what it was in the beginning"); if(g&&!tg_geom_error(g)&&W[0][j]) o+=related(g,W[0][j]); tg_geom_free(g); return o; }; string s=once(); tg_geom*x=(*D)[j].make(); string e=asked(x); tg_geom_free(x); string t=once(); mc::trans(2); if(j==0) mc::state(mc::hash(s)); mc::nontrivial(); if(s!=t) mc::fail("earlier calls","%s",where(s,t).c_str()); },
        [=](uint64_t i){ return (*D)[i/m].name+", before and after "+(*D)[i%m].name; },32); }
    // many calls of one kind, most of them failing, and then what goes deep
    { auto deep=[](int k,int n){ string o; switch(k){ case 0: for(int i=0;i<n;i++) o+="GEOMETRYCOLLECTION("; o+="POINT(1 2)"; o+=string(n,')'); break; case 1: for(int i=0;i<n;i++) o+="{\"type\":\"GeometryCollection\",\"geometries\":["; o+="{\"type\":\"Point\",\"coordinates\":[1,2]}"; for(int i=0;i<n;i++) o+="]}"; break;
          case 2: case 3: { for(int i=0;i<n;i++) o+=string("\1\7\0\0\0\1\0\0\0",9); o+=string("\1\1\0\0\0",5)+string(16,'\0'); if(k==3){ string h; for(unsigned char c:o){ char b[3]; snprintf(b,3,"%02x",c); h+=b; } o=h; } break; } default: { auto g=ref::G(); g.type=ref::POINT; g.pts={{1,2,0,0}}; tg_geom*x=ref::totg(g); for(int i=0;i<n;i++){ const tg_geom*k[]={x}; tg_geom*y=tg_geom_new_geometrycollection(k,1); tg_geom_free(x); x=y; } string b=w_geobin(x); tg_geom_free(x); return b; } } return o; };
      auto read=[](int k,const string&d){ auto p=d.data(); size_t n=d.size(); tg_geom*g=k==0?tg_parse_wktn(p,n):k==1?tg_parse_geojsonn(p,n):k==2?tg_parse_wkb((const uint8_t*)p,n):k==3?tg_parse_hexn(p,n):tg_parse_geobin((const uint8_t*)p,n); string o; if(!g) o="none"; else if(tg_geom_error(g)) o=tg_geom_error(g); else { SigOpt q; q.text=false; o=sig(g,q); } tg_geom_free(g); return o; };
      auto docs=new vector<pair<int,string>>; auto say=new vector<string>; for(int k=0;k<5;k++) for(int n:{1,3,30,1020}){ string d=deep(k,n); for(size_t cut:{d.size(),d.size()-1,d.size()/2,d.size()/3,d.size()/4+3}){ docs->push_back({k,d.substr(0,cut)}); say->push_back(string((const char*[]){"wkt","geojson","wkb","hex","geobin"}[k])+" of depth "+to_string(n)+" cut at "+to_string(cut)); string e=d.substr(0,cut); if(cut>4){ e[cut-4]^=0x15; docs->push_back({k,e}); say->push_back(say->back()+" with a wrong byte"); } } }
      mc::space("many calls before",docs->size(),[=](uint64_t i){ auto&d=(*docs)[i]; string S[5],t; for(int k=0;k<5;k++) S[k]=read(k,deep(k,1000)); int reps=d.second.size()>3000?40:3000; string e=read(d.first,d.second); mc::state(mc::hash(d.second)); mc::nontrivial(); for(int r=0;r<reps;r++){ if(r%64==0) mc::alive(); string f=read(d.first,d.second); mc::trans(); if(f!=e){ mc::fail("earlier calls","the same call answers otherwise at time %d: %s",r+2,where(e,f).c_str()); return; } }
          for(int k=0;k<5;k++){ t=read(k,deep(k,1000)); if(t!=S[k]) mc::fail("earlier calls","after %d calls a document of depth 1000 reads otherwise: %s",reps,where(S[k],t).c_str()); } },[=](uint64_t i){ return (*say)[i]; },1); }
    // settings changed and put back
    { auto set=[](int k){ switch(k){ case 0: tg_env_set_index(TG_NONE); break; case 1: tg_env_set_index(TG_NATURAL); break; case 2: tg_env_set_index_spread(2); break; case 3: tg_env_set_index_spread(64); break; case 4: tg_env_set_print_fixed_floats(true); break; } }; auto put=[]{ tg_env_set_index(TG_YSTRIPES); tg_env_set_index_spread(16); tg_env_set_print_fixed_floats(false); };
      mc::space("settings put back",D->size()*5,[=](uint64_t i){ put(); auto once=[&]{ tg_geom*g=(*D)[i/5].make(); string o=asked(g); tg_geom_free(g); return o; }; string s=once(); set(i%5); once(); put(); string t=once(); mc::trans(3); mc::nontrivial(); if(s!=t) mc::fail("earlier settings","%s",where(s,t).c_str()); },[=](uint64_t i){ return (*D)[i/5].name+", setting "+to_string(i%5); },4); }
    // documents cut anywhere, laid anywhere, with anything around them
    auto doc=new vector<pair<int,string>>; for(auto&it:*D){ tg_geom*g=it.make(); if(g&&!tg_geom_error(g)&&tg_geom_num_geometries(g)<6&&tg_geom_num_polys(g)<6) for(int k=0;k<5;k++){ string s=k==0?w_wkt(g):k==1?w_json(g):k==2?w_wkb(g):k==3?w_hex(g):w_geobin(g); if(s.size()<(T?600:200)) doc->push_back({k,s}); } tg_geom_free(g); }
    for(auto t:JSON_T) doc->push_back({1,t}); sort(doc->begin(),doc->end()); doc->erase(unique(doc->begin(),doc->end()),doc->end());
    static const unsigned char AFTER[]={0,'"','5',']','}',0xFF,' ',',',')','e','.','['}; 
    auto read=[](int k,const char*p,size_t n){ tg_geom*g=k==0?tg_parse_wktn(p,n):k==1?tg_parse_geojsonn(p,n):k==2?tg_parse_wkb((const uint8_t*)p,n):k==3?tg_parse_hexn(p,n):k==4?tg_parse_geobin((const uint8_t*)p,n):tg_parse(p,n); string o=g?sig(g):"none"; tg_geom_free(g); return o; };
    auto first=new vector<uint64_t>{0}; for(auto&d:*doc) first->push_back(first->back()+d.second.size()+1); auto at=[=](uint64_t i){ return upper_bound(first->begin(),first->end(),i)-first->begin()-1; };
    mc::space("documents cut anywhere and what follows",first->back(),[=](uint64_t i){ size_t d=at(i); auto&D=(*doc)[d]; size_t n=i-(*first)[d]; string S[2]; mc::state(mc::hash(D.second.data(),n)); mc::nontrivial();
        for(int f=0;f<(int)sizeof AFTER;f++){ vector<char> m(n+96,(char)AFTER[f]); size_t off=32+(f*3)%8; memcpy(m.data()+off,D.second.data(),n); for(int w=0;w<2;w++){ string s=under(FILL[f%NF],[&]{ return read(w?5:D.first,m.data()+off,n); }); mc::trans(); if(!f) S[w]=s; else if(s!=S[w]) mc::fail("surroundings","%s followed by bytes 0x%02x, %zu past a word, over memory that held 0x%02x: %s",w?"detected":"read",AFTER[f],off%8,FILL[f%NF],where(S[w],s).c_str()); } } },
        [=](uint64_t i){ size_t d=at(i); size_t n=i-(*first)[d]; string o=string((const char*[]){"wkt ","geojson ","wkb ","hex ","geobin "}[(*doc)[d].first]); if((*doc)[d].first<2||(*doc)[d].first==3) return o+(*doc)[d].second.substr(0,n); for(size_t k=0;k<n;k++){ char b[4]; snprintf(b,4,"%02x",(unsigned char)(*doc)[d].second[k]); o+=b; } return o; },8);
    // locales: another decimal point, letters above 127, another idea of upper case
    static const char*LN[]={"de_DE.ISO-8859-1","ps_AF.UTF-8","tr_TR.ISO-8859-9"}; auto L=new vector<locale_t>; char dir[]="/tmp/mcloc.XXXXXX"; 
    if(mkdtemp(dir)){ setenv("LOCPATH",dir,1); for(auto n:LN){ string s=n,l=s.substr(0,5),c=s.substr(6); string cmd="localedef -c -i "+l+" -f "+c+" --no-archive "+dir+"/"+s+" >/dev/null 2>&1"; int r=system(cmd.c_str()); (void)r; locale_t x=newlocale(LC_ALL_MASK,n,(locale_t)0); if(x) L->push_back(x); } error_code ec; filesystem::remove_all(dir,ec); }
    uint64_t nl=L->size(); auto local=[=](function<string()> f){ string S=f(); mc::state(mc::hash(S)); for(uint64_t k=0;k<nl;k++){ locale_t o=uselocale((*L)[k]); string s=f(); uselocale(o); mc::trans(); mc::nontrivial(); if(s!=S) mc::fail("locale","in %s, %s",LN[k],where(S,s).c_str()); } };
    if(nl){
    mc::space("documents in other locales",doc->size()*2,[=](uint64_t i){ auto&d=(*doc)[i/2]; local([&]{ return read(i%2?5:d.first,d.second.data(),d.second.size()); }); },[=](uint64_t i){ return (*doc)[i/2].second; },16);
    mc::space("objects in other locales",D->size(),[=](uint64_t i){ local([&]{ tg_geom*g=(*D)[i].make(); string o=asked(g); tg_geom_free(g); return o; }); },[=](uint64_t i){ return (*D)[i].name; },1);
    static const char*FR[][2]={{"POINT("," 2)"},{"LINESTRING(7 ",",3 4)"},{"MULTIPOINT(1 ",")"},{"{\"type\":\"Point\",\"coordinates\":[",",2]}"},{"{\"type\":\"LineString\",\"coordinates\":[[1,","],[3,4]]}"},{"{\"type\":\"Point\",\"coordinates\":[1,2, "," ]}"}};
    auto num=[=](const string&t,int k){ string s=FR[k][0]+t+FR[k][1]; local([&]{ return read(k<3?0:1,s.data(),s.size()); }); };
    auto H=new vector<string>(hardnumbers(T)); mc::space("hard numbers in other locales",H->size()*6,[=](uint64_t i){ num((*H)[i/6],i%6); },[=](uint64_t i){ return FR[i%6][0]+(*H)[i/6]+FR[i%6][1]; },16);
    { const char*A="019-.,e+"; int len=T?6:5; uint64_t n=0,p=1; for(int k=1;k<=len;k++){ p*=8; n+=p; } auto text=[=](uint64_t i){ uint64_t p=8; int k=1; while(i>=p){ i-=p; p*=8; k++; } string s; for(;k--;i/=8) s+=A[i%8]; return s; };
      mc::space("short numbers in other locales",n*6,[=](uint64_t i){ num(text(i/6),i%6); },[=](uint64_t i){ return FR[i%6][0]+text(i/6)+FR[i%6][1]; },64); }
    static const char*TAIL[]={"","POINT(1 2)","{\"type\":\"Point\",\"coordinates\":[1,2]}","0101000000000000000000F03F0000000000000040"}; 
    mc::space("beginnings in other locales",65536*4,[=](uint64_t i){ string s; s+=(char)(i&255); s+=(char)(i>>8&255); s+=TAIL[i>>16]; local([&]{ return read(5,s.data(),s.size()); }); },[=](uint64_t i){ char b[40]; snprintf(b,40,"bytes %02x %02x then ",(int)(i&255),(int)(i>>8&255)); return b+string(TAIL[i>>16]); },256);
    }
}
int main(int argc,char**argv){ mc::init(argc,argv); al::pad=64; tg_env_set_allocator(al::mal,al::rea,al::fre); if(mc::prop=="C34") c34(mc::thorough()); return mc::finish(); }
