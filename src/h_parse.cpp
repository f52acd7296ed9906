// C24 C25 C26: every short token sequence and every small edit of a corpus, judged by the reference parsers.
// C27: the same and nesting, under the sanitizers, with everything that parses used afterwards.
// C28: detection and the sized, terminated and index-choosing variants.  C29 (reading): numbers.
#include "gfam.hpp"
#include "sig.hpp"
#include "alloc.hpp"
#include <ctype.h>
using std::vector;
enum Fmt { F_WKT, F_JSON, F_WKB, F_HEX, F_BIN }; static const char*FN[]={"wkt","geojson","wkb","hex","geobin"};
static tg_geom*tgparse(Fmt f,const char*p,size_t n,enum tg_index ix=TG_DEFAULT){ switch(f){ case F_WKT: return tg_parse_wktn_ix(p,n,ix); case F_JSON: return tg_parse_geojsonn_ix(p,n,ix); case F_WKB: return tg_parse_wkb_ix((const uint8_t*)p,n,ix); case F_HEX: return tg_parse_hexn_ix(p,n,ix); default: return tg_parse_geobin_ix((const uint8_t*)p,n,ix); } }
static bool refparse(Fmt f,const string&s,ref::G&g){ switch(f){ case F_WKT: return ref::parse_wkt(s,g)&&ref::parens(s)<=1024; case F_JSON: return ref::parse_geojson(s,g); case F_WKB: return ref::parse_wkb(s,g); case F_HEX: return ref::parse_hex(s,g); default: return ref::parse_geobin(s,g); } }
static bool c27=false,c28=false;
static void use(const tg_geom*g){ string s=sig(g); tg_geom*c=tg_geom_copy(g); string t=sig(c); if(s!=t) mc::fail("copy","a copy of what was parsed differs at byte %d",diffat(s,t)); tg_geom_free(c); c=tg_geom_clone(g); tg_geom_free(c); tg_point z={0,0}; tg_geom*pt=tg_geom_new_point(z); tg_geom_intersects(g,pt); tg_geom_covers(g,g); tg_geom_touches(pt,g); tg_geom_within(g,pt); tg_geom_free(pt); }
static size_t maxwork(size_t n){ return 4000+n*600; }
// the bytes are placed in memory of exactly their size
static void judge(Fmt f,const string&s){
    mc::state(mc::hash(s)^(f*0x9E3779B97F4A7C15ull)); char*p=(char*)malloc(s.size()?s.size():1); memcpy(p,s.data(),s.size());
    if(c27){ al::peak=al::bytes; long b0=al::bytes,l0=al::live; tg_geom*g=tgparse(f,p,s.size()); mc::trans(); size_t used=al::peak-b0; free(p); if(!g) mc::fail("nothing","no result for %s %s",FN[f],ref::show(s).c_str()); if(used>maxwork(s.size())) mc::fail("memory","%zu bytes of memory for %zu bytes of %s",used,s.size(),FN[f]);
        if(g){ if(!tg_geom_error(g)){ mc::nontrivial(); use(g); } else if(!*tg_geom_error(g)||strncmp(tg_geom_error(g),"ParseError: ",12)) mc::fail("error text","the error reads '%s'",ref::show(tg_geom_error(g)).c_str()); tg_geom_free(g); } if(al::live!=l0) mc::fail("leak","%ld blocks are left after %s %s",al::live-l0,FN[f],ref::show(s).c_str()); return; }
    tg_geom*g=tgparse(f,p,s.size()); mc::trans(); ref::G r; bool ok=refparse(f,s,r); const char*e=tg_geom_error(g);
    if(!e!=ok) mc::fail(ok?"rejected":"accepted","%s %s: %s",FN[f],ref::show(s).c_str(),ok?e:("read as "+ref::canon(ref::fromtg(g))).c_str());
    else if(ok){ mc::nontrivial(); string a=ref::canon(ref::fromtg(g)),b=ref::canon(r); if(a!=b) mc::fail("value","%s %s is read as %s, it says %s",FN[f],ref::show(s).c_str(),a.c_str(),b.c_str()); }
    tg_geom_free(g); free(p); }
// sequences over an alphabet of strings, shortest first
static uint64_t seqcount(uint64_t k,int maxlen){ uint64_t n=0,p=1; for(int l=0;l<=maxlen;l++){ n+=p; p*=k; } return n; }
static string seqat(uint64_t i,const vector<string>&A,string pre="",string post=""){ uint64_t p=1; int l=0; while(i>=p){ i-=p; p*=A.size(); l++; } string o=pre; for(int k=0;k<l;k++){ o+=A[i%A.size()]; i/=A.size(); } return o+post; }
static void seqspace(string name,Fmt f,vector<string> A,int maxlen,string pre,string post){ auto mk=[=](uint64_t i){ return seqat(i,A,pre,post); }; mc::space(name,seqcount(A.size(),maxlen),[=](uint64_t i){ judge(f,mk(i)); },[=](uint64_t i){ return string(FN[f])+" "+ref::show(mk(i)); }); }
// edits of a document
static string bytes256(){ string s; for(int i=0;i<256;i++) s+=(char)i; return s; }
static uint64_t editcount(size_t L,const string&B){ return L*B.size()+(L+1)*B.size()+L+L+(L?L-1:0)+L*(L+1)/2*(L<60); }
static string edited(const string&d,uint64_t e,const string&B){ size_t L=d.size(); string o=d; if(e<L*B.size()){ o[e/B.size()]=B[e%B.size()]; return o; } e-=L*B.size(); if(e<(L+1)*B.size()){ o.insert(e/B.size(),1,B[e%B.size()]); return o; } e-=(L+1)*B.size(); if(e<L){ o.erase(e,1); return o; } e-=L; if(e<L){ o.resize(e); return o; } e-=L; if(e<L-1){ std::swap(o[e],o[e+1]); return o; } e-=L-1; for(size_t i=0;i<L;i++){ if(e<L-i){ o.insert(i+e+1,d.substr(i,e+1)); return o; } e-=L-i; } return o; }
struct Doc { Fmt f; string s; };
static void editspace(string name,vector<Doc> D,string B){ auto off=std::make_shared<vector<uint64_t>>(); uint64_t n=0; for(auto&d:D){ off->push_back(n); n+=editcount(d.s.size(),B)+1; } auto mk=[=](uint64_t i,Fmt&f){ size_t k=std::upper_bound(off->begin(),off->end(),i)-off->begin()-1; uint64_t e=i-(*off)[k]; f=D[k].f; return e==0?D[k].s:edited(D[k].s,e-1,B); };
    mc::space(name,n,[=](uint64_t i){ Fmt f; string s=mk(i,f); judge(f,s); },[=](uint64_t i){ Fmt f; string s=mk(i,f); return string(FN[f])+" "+ref::show(s); }); }
static void editspace2(string name,vector<Doc> D,string B){ // two edits
    auto off=std::make_shared<vector<uint64_t>>(); uint64_t n=0; for(auto&d:D){ off->push_back(n); uint64_t a=editcount(d.s.size(),B); n+=a*editcount(d.s.size(),B); } auto mk=[=](uint64_t i,Fmt&f){ size_t k=std::upper_bound(off->begin(),off->end(),i)-off->begin()-1; uint64_t e=i-(*off)[k]; f=D[k].f; uint64_t a=editcount(D[k].s.size(),B); string s=edited(D[k].s,e/a,B); uint64_t c=editcount(s.size(),B); return c?edited(s,e%a%c,B):s; };
    mc::space(name,n,[=](uint64_t i){ Fmt f; string s=mk(i,f); judge(f,s); },[=](uint64_t i){ Fmt f; string s=mk(i,f); return string(FN[f])+" "+ref::show(s); }); }
// ---- every number of positions, rings, parts and levels; cut anywhere; one position in it wrong ----
static string doc(Fmt f,const ref::G&g,int style){ switch(f){ case F_WKT: return gf::wkt(g,style); case F_JSON: return gf::json(g,style); case F_HEX: { ref::WO w; w.be=style; string b=ref::wkb(g,w),o; for(unsigned char c:b){ char x[3]; snprintf(x,3,style?"%02X":"%02x",c); o+=x; } return o; } default: { ref::WO w; w.be=style; return ref::wkb(g,w); } } }
static void sizespaces(vector<Fmt> F,bool big,void(*f)(Fmt,const string&)){ static const int X[]={255,256,257,512,1024,1025,4096,32768,65535,65536,65537}; int hi=c28?48:c27?60:mc::deep()?1100:big?400:150; uint64_t nn=hi+11,nf=F.size(); auto mk=[=](uint64_t i,Fmt&fm)->string{ int st=i%2,k=i/2%gf::NSIZED; i/=2*gf::NSIZED; fm=F[i%nf]; i/=nf; int dm=i%4; int n=(int)(i/4); n=n<11?X[10-n]:hi-(n-11); if(n>hi&&dm!=(k&3)) return ""; if(n>5000&&c27) return ""; if(c28&&(n>257||(n>hi&&k>4))) return ""; ref::G g; if(fm==F_JSON&&dm==2) return ""; if(!gf::sized(k,n,dm,fm==F_WKT||fm==F_JSON?n%3:n%4,g)) return ""; return doc(fm,g,st); };
    mc::space("every size",nn*4*nf*gf::NSIZED*2,[=](uint64_t i){ Fmt fm; string s=mk(i,fm); if(!s.empty()) f(fm,s); },[=](uint64_t i){ Fmt fm; string s=mk(i,fm); return string(FN[fm])+" "+ref::show(s,1500); },16);
    static vector<int> N={3,6,17,34}; if(c28) N={5}; if(big){ N.push_back(65); N.push_back(130); } static const char*BAD[]={"","x","1","1 2 3 4 5","-","(",")","[","]",",","EMPTY","null","1e","NaN","\"\""}; // the k-th position of a text replaced
    for(auto fm:F) if(fm==F_WKT||fm==F_JSON){ auto D=std::make_shared<vector<std::pair<string,vector<std::pair<int,int>>>>>(); auto off=std::make_shared<vector<uint64_t>>(); uint64_t tot=0; for(int n:N) for(int k=0;k<gf::NSIZED;k++) for(int dm:{0,3}){ ref::G g; if((k==2||k==6||k==9||k==13)&&n>34) continue; if(!gf::sized(k,n,dm,0,g)) continue; string s=doc(fm,g,0); vector<std::pair<int,int>> at; auto num=[](char c){ return (c>='0'&&c<='9')||c=='-'||c=='+'||c=='.'||c=='e'; }; for(size_t i=0;i<s.size();){ if(num(s[i])&&(s[i]!='e')){ size_t j=i; while(j<s.size()&&(num(s[j])||((fm==F_WKT?s[j]==' ':s[j]==',')&&j+1<s.size()&&num(s[j+1])))) j++; at.push_back({(int)i,(int)j}); i=j; } else i++; } off->push_back(tot); tot+=at.size()*15; D->push_back({s,at}); }
        auto mk2=[=](uint64_t i){ size_t k=std::upper_bound(off->begin(),off->end(),i)-off->begin()-1; uint64_t e=i-(*off)[k]; auto&d=(*D)[k]; auto p=d.second[e/15]; return d.first.substr(0,p.first)+BAD[e%15]+d.first.substr(p.second); };
        mc::space(string("one wrong position in ")+FN[fm],tot,[=](uint64_t i){ f(fm,mk2(i)); },[=](uint64_t i){ return ref::show(mk2(i),1500); }); }
    static vector<int> NC={2,7,18}; if(c28) NC={3}; if(big) NC={2,7,18,40,70}; struct Cut { Fmt f; string s; }; auto D=std::make_shared<vector<Cut>>(); auto off=std::make_shared<vector<uint64_t>>(); uint64_t tot=0; for(auto fm:F) for(int n:NC) for(int k=0;k<gf::NSIZED;k++) for(int st=0;st<2;st++){ ref::G g; if(!gf::sized(k,n,(k+n)%4==2&&fm==F_JSON?0:(k+n)%4,0,g)) continue; off->push_back(tot); D->push_back({fm,doc(fm,g,st)}); tot+=D->back().s.size(); }
    auto mk3=[=](uint64_t i,Fmt&fm){ size_t k=std::upper_bound(off->begin(),off->end(),i)-off->begin()-1; fm=(*D)[k].f; return (*D)[k].s.substr(0,i-(*off)[k]); }; mc::space("cut anywhere",tot,[=](uint64_t i){ Fmt fm; string s=mk3(i,fm); f(fm,s); },[=](uint64_t i){ Fmt fm; string s=mk3(i,fm); return string(FN[fm])+" "+ref::show(s,1500); }); }
// ---- corpora ----
static const char*WT[]={"POINT#(@)","LINESTRING#(@,@)","LINESTRING#(@,@,@)","POLYGON#((@,@,@,!))","POLYGON#((@,@,@,@,!),(@,@,@,!))","MULTIPOINT#(@,@)","MULTIPOINT#((@),(@))","MULTILINESTRING#((@,@),(@,@))","MULTIPOLYGON#(((@,@,@,!)),((@,@,@,!),(@,@,@,!)))","GEOMETRYCOLLECTION#(POINT#(@),LINESTRING#(@,@))","GEOMETRYCOLLECTION(GEOMETRYCOLLECTION(POINT#(@),POINT EMPTY),MULTIPOINT#(@,@))"};
// ---- one number, name, text or gap of every length ----
static void lenspace(vector<Fmt> F,bool big,void(*f)(Fmt,const string&)){
    static vector<int> L; int hi=c28?80:c27?(big?1500:140):big?5000:1100; for(int n=0;n<=hi;n++) L.push_back(n); for(int c:{256,512,1024,2048,4096,32768,65536}) for(int k=-6;k<=6;k++) if(c+k>hi&&(c<=4096||(!c27&&k>=-1&&k<=1))) L.push_back(c+k);
    auto r=[](const char*t,int n){ string o; for(int i=0;i<n;i++) o+=t; return o; };
    typedef std::function<string(int)> Fill; struct X { const char*n; Fill f; };
    vector<X> N={{"3.33",[=](int n){ return n<2?r("3",n):"3."+r("3",n-2); }},{"999",[=](int n){ return r("9",n); }},{"0.007",[=](int n){ return n<3?r("7",n):"0."+r("0",n-3)+"7"; }},{"1e005",[=](int n){ return n<3?r("1",n):"1e"+r("0",n-3)+"5"; }},{"-1.5e-01",[=](int n){ return n<8?"-"+r("2",n-1):"-1."+r("5",n-6)+"e-01"; }},{"100.0",[=](int n){ return n<4?r("1",n):"1"+r("0",n-3)+".0"; }},{"12345",[=](int n){ string o; for(int i=0;i<n;i++) o+="1234567890"[i%10]; return o; }}};
    vector<X> S={{"a",[=](int n){ return r("a",n); }},{"e acute",[=](int n){ return r("\xC3\xA9",n/2)+r("a",n%2); }},{"u0061",[=](int n){ return r("\\u0061",n/6)+r("a",n%6); }},{"\\n",[=](int n){ return r("\\n",n/2)+r("a",n%2); }},{"emoji",[=](int n){ return r("\xF0\x9F\x98\x80",n/4)+r("a",n%4); }},{"pair",[=](int n){ return r("\\ud83d\\ude00",n/12)+r("a",n%12); }},{"control",[=](int n){ return n?r("a",n-1)+"\x01":""; }},{"quote",[=](int n){ return n<2?r("a",n):r("a",n-2)+"\\\""; }}};
    vector<X> W={{"spaces",[=](int n){ return r(" ",n); }},{"line ends",[=](int n){ return r("\r\n",n/2)+r("\t",n%2); }},{"bad gap",[=](int n){ return n?r(" ",n-1)+"\v":""; }}};
    vector<X> A={{"letters",[=](int n){ return r("Z",n); }},{"NT",[=](int n){ return n?r("N",n-1)+"T":""; }}};
    struct T { Fmt f; string t; X x; }; auto V=std::make_shared<vector<T>>(); auto has=[&](Fmt q){ return std::find(F.begin(),F.end(),q)!=F.end(); }; auto add=[&](Fmt q,const vector<X>&x,vector<string> t){ if(has(q)) for(auto&s:t) for(auto&y:x) V->push_back({q,s,y}); };
    add(F_JSON,N,{"{\"type\":\"Point\",\"coordinates\":[@,2]}","{\"type\":\"Point\",\"coordinates\":[1,@]}","{\"type\":\"Point\",\"coordinates\":[1,2,3,4,@]}","{\"type\":\"LineString\",\"coordinates\":[[1,2,@],[3,4,@]]}","{\"coordinates\":[[[0,0],[@,0],[0,9],[0,0]]],\"type\":\"Polygon\"}","{\"type\":\"MultiPoint\",\"coordinates\":[[@,@]]}","{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"id\":@,\"properties\":{\"a\":[@]}}","{\"type\":\"Point\",\"coordinates\":[1,2],\"bbox\":[@,@]}","{\"type\":@,\"coordinates\":[1,2]}","@"});
    add(F_JSON,S,{"{\"type\":\"@\",\"coordinates\":[1,2]}","{\"type\":\"Point@\",\"coordinates\":[1,2]}","{\"type\":\"Point\",\"@\":\"@\",\"coordinates\":[1,2]}","{\"type\":\"Feature\",\"geometry\":null,\"id\":\"@\",\"properties\":{\"@\":\"@\"}}","{\"type\":\"Feature\",\"properties\":null,\"@\":1,\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2],\"@\":[\"@\"]}}","{\"type\":\"FeatureCollection\",\"features\":[],\"@\":{}}","\"@\"","{\"type\":\"Point\",\"coordinates\":\"@\"}"});
    add(F_JSON,W,{"@{\"type\":\"Point\",\"coordinates\":[1,2]}","{@\"type\":\"Point\",\"coordinates\":[1,2]}","{\"type\"@:@\"Point\",\"coordinates\":[1,2]}","{\"type\":\"Point\"@,@\"coordinates\":[1,2]}","{\"type\":\"Point\",\"coordinates\":@[@1@,@2@]@}","{\"type\":\"Point\",\"coordinates\":[1,2]}@","{\"type\":\"LineString\",\"coordinates\":[[1,2]@,@[3,4]]}","{\"type\":\"Feature\",\"geometry\":@null,\"id\":@1@,\"properties\":@{@}@}","@"});
    add(F_WKT,N,{"POINT(@ 2)","POINT(1 @)","POINT Z(1 2 @)","POINT(1 2 3 @)","POINT M(@ @ @)","LINESTRING(1 2,@ 3)","POLYGON((0 0,1 0,@ 1,0 0))","MULTIPOINT(@ 1,(2 @))","GEOMETRYCOLLECTION(POINT(@ @),POINT(1 1))","POINT(1 2 3 4 @)","@"});
    add(F_WKT,W,{"@POINT(1 2)","POINT@(1 2)","POINT(@1 2)","POINT(1@2)","POINT(1 2@)","POINT(1 2)@","POINT@Z@(1 2 3)","POINT@EMPTY","LINESTRING(1 2@,@3 4)","POLYGON(@(0 0,1 0,0 1,0 0)@,@(0 0,1 0,0 1,0 0))","GEOMETRYCOLLECTION@(@POINT(1 1)@,@POINT EMPTY@)"}); add(F_WKT,A,{"@","@(1 2)","POI@(1 2)","POINT @(1 2 3)","POINT@","POINT @","POINT Z @","MULTIPOINT(@)","LINESTRING @(1 2,3 4)"});
    for(auto q:{F_BIN,F_HEX}) if(has(q)) for(auto t:{"{\"a\":\"@\"}","{\"@\":1}","{\"id\":\"@\"}"}) for(auto&x:S) V->push_back({q,t,x}); if(has(F_BIN)) for(auto&x:N) V->push_back({F_BIN,"{\"id\":@}",x}); for(auto&x:W) if(has(F_BIN)) V->push_back({F_BIN,"{@\"a\"@:1}@",x});
    uint64_t nl=L.size(); auto mk=[=](uint64_t i,Fmt&q){ auto&t=(*V)[i/nl]; q=t.f; string y=t.x.f(L[i%nl]),o; for(char c:t.t) if(c=='@') o+=y; else o+=c; if(q==F_BIN||q==F_HEX){ double d[2]={1,2}; string w=string("\x01\x01\0\0\0",5)+string((char*)d,16); o=string(i%2?"\x03\0":"\x02\0",2)+o+string(1,'\0')+w; if(q==F_HEX) o=ref::hex(o); } return o; };
    mc::space("every length",V->size()*nl,[=](uint64_t i){ Fmt q; string o=mk(i,q); f(q,o); },[=](uint64_t i){ Fmt q; string o=mk(i,q); return string(FN[q])+" length "+std::to_string(L[i%nl])+" of "+(*V)[i/nl].x.n+" in "+(*V)[i/nl].t; }); }
static string fill(const char*t,const char*label,int nd){ string o,first; int k=1; for(const char*c=t;*c;c++){ if(*c=='#') o+=label; else if(*c=='@'){ string p; for(int q=0;q<nd;q++){ if(q) p+=' '; p+=std::to_string((k*7+q*3)%10); } if(c>t&&c[-1]=='(') first=p; o+=p; k++; } else if(*c=='!') o+=first; else o+=*c; } return o; }
static vector<string> wkts(){ vector<string> v; for(auto t:WT){ v.push_back(fill(t,"",2)); v.push_back(fill(t,"",3)); v.push_back(fill(t,"",4)); v.push_back(fill(t," Z ",3)); v.push_back(fill(t,"M",3)); v.push_back(fill(t,"zm",4)); } for(auto t:{"POINT","LINESTRING","POLYGON","MULTIPOINT","MULTILINESTRING","MULTIPOLYGON","GEOMETRYCOLLECTION"}){ v.push_back(string(t)+" EMPTY"); v.push_back(string(t)+" ZM\tempty"); } for(auto t:{" point ( -1.5e-3  +2 ) ","POINT(.5 -.25)","MULTIPOINT(.5 1,2 3)","LineString(0.5 1E2 , 3e+1 4)","MULTIPOINT()","MULTILINESTRING( )","MULTIPOLYGON()","GEOMETRYCOLLECTION()","GEOMETRYCOLLECTION( point empty , LINESTRING z empty\n)"}) v.push_back(t); return v; }
static vector<string> jsons(){ vector<string> v; for(auto t:{
 "{\"type\":\"Point\",\"coordinates\":[1,2]}","{\"type\":\"Point\",\"coordinates\":[1,2,3,4,5]}"," { \"coordinates\" : [ ] , \"type\" : \"Point\" } ","{\"type\":\"LineString\",\"coordinates\":[[1,2,3],[3,4,5]],\"x\":[{}]}","{\"type\":\"Polygon\",\"coordinates\":[[[0,0],[4,0],[4,4],[0,0]],[[1,0.5],[2,0.5],[2,1],[1,0.5]]]}","{\"type\":\"MultiPoint\",\"coordinates\":[[1,2],[3,4]]}","{\"type\":\"MultiLineString\",\"coordinates\":[[[1,2],[3,4]],[[5,6],[7,8]]]}","{\"type\":\"MultiPolygon\",\"coordinates\":[[[[0,0,1],[4,0,1],[4,4,1],[0,0,1]]],[[[0,0,1],[4,0,2],[4,4,1],[0,0,1]]]]}","{\"type\":\"GeometryCollection\",\"geometries\":[{\"type\":\"Point\",\"coordinates\":[1,2]},{\"type\":\"MultiPoint\",\"coordinates\":[]}]}",
 "{\"type\":\"Feature\",\"id\":7,\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"properties\":{\"a\":1}}","{\"type\":\"Feature\",\"geometry\":null,\"properties\":null}","{\"type\":\"Feature\",\"geometry\":{\"type\":\"LineString\",\"coordinates\":[[1,2],[3,4]],\"u\":\"\\u00e9\\n\"},\"properties\":{}}","{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"id\":\"a\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[]}}],\"n\":-1.5e+3}","{\"type\":\"FeatureCollection\",\"features\":[]}","{\"t\\u0079pe\":\"P\\u006fint\",\"coordinates\":[1e1,-2.5],\"\xC3\xA9\":true,\"a\":false}" }) v.push_back(t); return v; }
static vector<string> wkbs(bool all){ vector<string> v; vector<string> w=wkts(); for(auto&t:w){ ref::G g; if(!ref::parse_wkt(t,g)) continue; if(!all&&v.size()%3==1&&v.size()>20) { v.push_back(ref::wkb(g)); continue; } v.push_back(ref::wkb(g)); ref::WO o; o.be=true; v.push_back(ref::wkb(g,o)); o=ref::WO(); o.srid=1; v.push_back(ref::wkb(g,o)); o.flags=true; o.srid=0; v.push_back(ref::wkb(g,o)); o.srid=2; o.mixed=true; v.push_back(ref::wkb(g,o)); } std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); return v; }
static string bin(int h,int dims,string x,string body){ string o; o+=(char)h; o+=(char)dims; for(int i=0;i<dims*2;i++) ref::od(o,i,false); return o+x+string(1,'\0')+body; }
static string u32(uint32_t c){ string o; ref::o32(o,c,false); return o; }
static vector<string> bins(){ vector<string> v; vector<string> ws; for(auto t:{"POINT(1 2)","POINT EMPTY","LINESTRING(1 2,3 4)","POLYGON Z((0 0 1,4 0 1,4 4 1,0 0 1))","GEOMETRYCOLLECTION(POINT(1 2),MULTIPOINT(1 2,3 4))"}){ ref::G g; ref::parse_wkt(t,g); ws.push_back(ref::wkb(g)); } for(auto&w:ws){ v.push_back(w); v.push_back(bin(2,2,"",w)); v.push_back(bin(2,0,"{\"a\":1}",w)); v.push_back(bin(3,3,"",w)); v.push_back(bin(3,4,"{\"properties\":{}}",w)); v.push_back(bin(4,2,"{\"n\":[]}",u32(2)+bin(3,2,"",w)+bin(3,2,"{\"id\":1}",w))); } v.push_back(bin(4,0,"",u32(0))); v.push_back(bin(4,2,"",u32(1)+bin(4,2,"",u32(1)+ws[0]))); v.push_back(bin(3,2,"[{\"id\":1},{\"u\":2}]",ws[2])); v.push_back(bin(2,2,"1",ws[2])); return v; }
static vector<Doc> docs(Fmt f,bool all=true){ vector<Doc> d; auto add=[&](const vector<string>&v){ for(auto&s:v) d.push_back({f,s}); }; switch(f){ case F_WKT: add(wkts()); break; case F_JSON: add(jsons()); break; case F_WKB: add(wkbs(all)); break; case F_HEX: { vector<string> v; for(auto&s:wkbs(false)){ if(s.size()<120) v.push_back(ref::hex(s,v.size()%2)); } v.resize(std::min<size_t>(v.size(),all?60:25)); for(auto&s:bins()) if(s.size()<70) v.push_back(ref::hex(s)); for(int n:{126,127,128,129,140}){ ref::G g; g.type=2; for(int i=0;i<n/16;i++) g.pts.push_back({(double)i,1,0,0}); string w=ref::wkb(g); w.resize(std::max<size_t>(w.size(),n)); v.push_back(ref::hex(w)); } add(v); break; } default: add(bins()); } return d; }
// the number of dimensions of every position (and the type of every child of a binary value) chosen independently
static void dimspace(Fmt f,bool big){ static const char*SH[]={"2@@@","2@@@@@","3(@@!)","3(@@!)(@@!)","3(@!)(@!)(@!)","5(@@)(@@)","5(@@)(@@)(@@)","4@@@@","6[(@@!)][(@@!)]","6[(@@!)(@@!)][(@@!)]","6[(@!)][(@!)][(@!)]","6[(@!)(@!)][(@!)]","7@@@","8@@@"}; // '!' closes the ring of x,y with its own Z and M
    static const char*LB[]={""," Z","M"," ZM"}; for(auto sh:SH){ int np=0; for(const char*c=sh+1;*c;c++) np+=*c=='@'||*c=='!'; bool json=f==F_JSON; if(json&&*sh=='8') continue; vector<int> A; for(auto B:{vector<int>{1,2,3,4,5},{1,2,3,4},{2,3,4},{2,3}}){ A=B; if(pow(A.size(),np)<=(big?2e6:2e5)) break; } uint64_t n=json?1:4; for(int k=0;k<np;k++) n*=A.size();
        auto mk=[=](uint64_t i){ int lab=0; if(!json){ lab=i%4; i/=4; } string o; const char*op=json?"[":"(",*cl=json?"]":")"; int t=*sh-'0'; if(t==8) t=4; if(json) o=string("{\"type\":\"")+ref::JNAME[t]+"\","+(t==7?"\"geometries\":":"\"coordinates\":"); else o=string(ref::NAME[t])+(t==7?"":LB[lab]); o+=op; int k=0,first=0; bool sep=false;
            for(const char*c=sh+1;*c;c++){ if(*c=='('||*c=='['){ if(sep) o+=','; o+=op; sep=false; first=k; continue; } if(*c==')'||*c==']'){ o+=cl; sep=true; continue; } if(sep) o+=','; int nd=A[i%A.size()]; i/=A.size(); string q; static const int X[]={0,3,1,5,4,2,7,6,9,8}; int v=*c=='!'?first:k; for(int e=0;e<nd;e++){ if(e) q+=json?',':' '; q+=std::to_string(e==0?X[v%10]:e==1?X[(v*3+1)%10]:10*e+k); }
                o+=json?(*sh=='7'?"{\"type\":\"Point\",\"coordinates\":["+q+"]}":"["+q+"]"):*sh=='7'?string("POINT")+LB[lab]+"("+q+")":*sh=='8'?"("+q+")":q; k++; sep=true; } return o+cl+(json?"}":""); };
        mc::space(string("dimensions of every position ")+sh,n,[=](uint64_t i){ judge(f,mk(i)); },[=](uint64_t i){ return string(FN[f])+" "+mk(i); }); } }
static void kidspace(bool big){ // parent type and Z, M; each child's type and Z, M; byte orders, styles of the type word
    auto part=[](int t,int zm,bool be,int style,int v){ uint32_t w=t; if(style==0) w+=zm*1000; else w|=(zm&1?0x80000000u:0)|(zm&2?0x40000000u:0)|(style==2?0x20000000u:0); string o; o+=(char)!be; ref::o32(o,w,be); if(style==2) ref::o32(o,4326,be); int nd=2+(zm&1)+(zm>>1); auto pos=[&](int k){ for(int e=0;e<nd;e++) ref::od(o,10*v+k*3+(e>1?e*100:e*(k%2)),be); };
        switch(t){ case 1: pos(0); break; case 2: ref::o32(o,2,be); pos(0); pos(1); break; case 3: ref::o32(o,1,be); ref::o32(o,4,be); pos(0); pos(1); pos(2); pos(0); break; default: ref::o32(o,0,be); } return o; };
    for(int kids:{2,3}){ int ck=kids==2?28:16; static const int small[16]={0,1,2,3,4,5,6,7,8,9,10,11,12,15,20,25}; uint64_t n=16; for(int k=0;k<kids;k++) n*=ck; int sty=big?3:kids==2?3:1,bes=kids==2?8:2; uint64_t tot=n*sty*bes;
        auto mk=[=](uint64_t i){ int be=i%bes; i/=bes; int st=i%sty; i/=sty; int pt=4+i%4; i/=4; int pz=i%4; i/=4; string o=part(pt,pz,be&1,st,0); o.resize(o.size()-4); ref::o32(o,kids,be&1); for(int k=0;k<kids;k++){ int c=i%ck; i/=ck; if(ck==16) c=small[c]; o+=part(1+c/4,c%4,bes==2?be:(be>>(k+1))&1,st,k+1); } return o; };
        mc::space("types of "+std::to_string(kids)+" children",tot,[=](uint64_t i){ judge(F_WKB,mk(i)); },[=](uint64_t i){ return "wkb "+ref::show(mk(i)); }); } }
// ---- C24 ----
static string numtail(){ return "0123456789+-.eE ,()ZMnNaAiIxXpP\t\n\0"; }
static vector<string> toks(const char*s){ vector<string> v; string t; for(const char*c=s;;c++){ if(*c=='|'||!*c){ v.push_back(t); t.clear(); if(!*c) break; } else t+=*c; } return v; }
static void wkt_spaces(bool big){
    dimspace(F_WKT,big);
    for(int q=1;q<=7;q++) for(const char*l:{""," Z","M"}){ if(q==7&&*l) continue; seqspace(string("body ")+ref::NAME[q]+l,F_WKT,toks("(|)|,| |1|2 3"),big?7:*l?5:6,string(ref::NAME[q])+l,""); }
    seqspace("rings",F_WKT,toks("(|)|,|1 2|3 4"),big?11:9,"POLYGON","");  seqspace("multi rings",F_WKT,toks("(|)|,|1 2|3 4|5 6 7"),big?8:7,"MULTIPOLYGON(",")"); seqspace("multi lines",F_WKT,toks("(|)|,|1 2|3 4 5"),big?10:8,"MULTILINESTRING",""); seqspace("points",F_WKT,toks("(|)|,|1 2|3 4 5| "),big?9:7,"MULTIPOINT","");
    seqspace("dimensions",F_WKT,toks("1 2|3 4 5|1 2 3 4|,|),(|)|("),big?8:6,"POLYGON((","))"); seqspace("dimensions of lines",F_WKT,toks("1 2|3 4 5|1 2 3 4|,|),(|1|1 2 3 4 5"),big?7:6,"MULTILINESTRING((","))");
    for(const char*t:{"POINT","LINESTRING","GEOMETRYCOLLECTION","MULTIPOINT"}){ vector<string> A=toks(" |Z|M|ZM|z|m|EMPTY|empty|\t|X|("); A.push_back(string(1,'\0')); const char*body=!strcmp(t,"POINT")?"(1 2 3)":!strcmp(t,"GEOMETRYCOLLECTION")?"(POINT(1 2))":"(1 2 3,4 5 6)"; seqspace(string("label of ")+t,F_WKT,A,big?5:4,t,body); seqspace(string("end of ")+t,F_WKT,A,big?5:4,t,""); seqspace(string("after ")+t,F_WKT,A,big?5:3,string(t)+body,""); seqspace(string("before ")+t,F_WKT,A,3,"",string(t)+body); }
    seqspace("parts",F_WKT,toks("POINT(1 2)|POINT EMPTY|LINESTRING Z(1 2 3,4 5 6)|,| |(|)|GEOMETRYCOLLECTION(|EMPTY|POINT|MULTIPOINT()"),big?6:5,"GEOMETRYCOLLECTION(",")");
    seqspace("parts of parts",F_WKT,toks("POINT(1 2)|LINESTRING EMPTY|,|(|)|GEOMETRYCOLLECTION"),big?8:7,"GEOMETRYCOLLECTION","");
    seqspace("words",F_WKT,toks("POINT|LINESTRING|POLYGON|MULTI|GEOMETRY|COLLECTION| |Z|M|EMPTY|(1 2)|(1 2,3 4)"),big?6:5,"","");
    vector<string> N=toks("0|1|-|+|.|e|E"); for(auto pp:{std::make_pair("POINT("," 2)"),{"POINT(2 ",")"},{"LINESTRING("," 2,3 4)"},{"MULTIPOINT(3 4,1 ",")"},{"LINESTRING(1 2,3 "," 4,5 6 7)"}}) seqspace(string("numbers ")+pp.first,F_WKT,N,big?7:5,pp.first,pp.second);
    editspace("one edit",docs(F_WKT),bytes256());
    vector<Doc> sh; for(auto t:{"POINT(1 2)","POINT Z(1 2 3)","POINT EMPTY","MULTIPOINT(1 2)","LINESTRING(1 2,3 4)"}) sh.push_back({F_WKT,t}); if(big) for(auto t:{"MULTIPOINT((1 2))","GEOMETRYCOLLECTION(POINT(1 2))","POLYGON((1 2,3 4,5 6,1 2))","MULTIPOLYGON M EMPTY"}) sh.push_back({F_WKT,t}); editspace2("two edits",sh,string("(), 1.-eZMEx\0\t",14)); }
// ---- C25 ----
static string hd(uint32_t t,bool be=false){ string o; o+=(char)!be; ref::o32(o,t,be); return o; }
static void json_spaces(bool big){
    dimspace(F_JSON,big);
    string P="{\"type\":\"Point\",\"coordinates\":[1,2],\"x\":"; seqspace("values",F_JSON,toks("{|}|[|]|,|:|\"a\"|1|true|null| |-0.5e1"),big?7:5,P,"}"); seqspace("nested values",F_JSON,toks("{|}|[|]|,|\"a\":|1"),big?8:7,P,"}");
    { vector<string> A; for(const char*s:{"a","\\","\"","u","0","D","8","n","/","\xC3","\xA9","\xED","\xA0","\xF4","\x8F","\x90","\xE0","\xF0","\xC0","\x1F","\x7F","\xFF","\\u00e9","\\uD83D","\\uDE00"}) A.push_back(s); A.push_back(string(1,'\0')); seqspace("strings",F_JSON,A,big?5:4,P+"\"","\"}"); seqspace("keys",F_JSON,A,big?4:3,"{\"type\":\"Point\",\"coordinates\":[1,2],\"","\":1}"); { vector<string> E; for(auto x:{"\\","}","]",",","\"","u","0","a",":","\\\""}) E.push_back(x); seqspace("ends of strings",F_JSON,E,big?6:5,P+"\"",""); seqspace("ends of keys",F_JSON,E,big?6:5,"{\"type\":\"Point\",\"coordinates\":[1,2],\"",""); seqspace("ends of later strings",F_JSON,E,big?6:5,P+"\"b\",\"y\":\"abcdefghijklmnop",""); seqspace("ends of strings in geobin",F_BIN,E,big?5:4,string("\x03\x00",2)+"{\"a\":\"",string(1,'\0')+hd(1)+string(16,'\0')); }
      seqspace("long strings",F_JSON,A,big?4:3,P+"\"abcdefghijklmn","opqrstuvwxyzabcdefgh\"}"); 
      seqspace("type names",F_JSON,[]{ vector<string> v=toks("Point|LineString|Polygon|Multi|Feature|Collection|Geometry|p|\\u0050oint|P\\u006Fint|\\u0000|x| "); return v; }(),4,"{\"type\":\"","\",\"coordinates\":[],\"geometry\":null,\"geometries\":[],\"features\":[]}"); }
    for(int q=1;q<=6;q++){ seqspace(string("coordinates of ")+ref::JNAME[q],F_JSON,toks("[|]|,|1|[1,2]|[3,4]|[5,6,7]|\"a\"|null"),big?7:5,string("{\"type\":\"")+ref::JNAME[q]+"\",\"coordinates\":","}"); }
    seqspace("rings",F_JSON,toks("[|]|,|[1,2]|[3,4]"),big?11:9,"{\"type\":\"Polygon\",\"coordinates\":","}"); seqspace("multi rings",F_JSON,toks("[|]|,|[1,2]|[3,4]"),big?11:9,"{\"type\":\"MultiPolygon\",\"coordinates\":[[[[0,0],[1,1],[0,0]]]","]}"); seqspace("multi lines",F_JSON,toks("[|]|,|[1,2]|[3,4,5]"),big?10:8,"{\"type\":\"MultiLineString\",\"coordinates\":","}");
    seqspace("position",F_JSON,toks("1|2.5|,|null|\"1\"|[]|{}|true| "),big?8:7,"{\"type\":\"LineString\",\"coordinates\":[[1,2],[","]]}");
    { vector<string> M; for(auto t:{"Point","LineString","MultiPoint","GeometryCollection","Feature","FeatureCollection","Nope"}) M.push_back(string("\"type\":\"")+t+"\""); for(auto t:{"\"type\":1","\"coordinates\":[]","\"coordinates\":[1,2]","\"coordinates\":[[1,2],[3,4]]","\"coordinates\":null","\"coordinates\":{}","\"geometry\":null","\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2,3]}","\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2],\"u\":1}","\"geometry\":{\"type\":\"Feature\",\"geometry\":null}","\"geometry\":{\"type\":\"FeatureCollection\",\"features\":[]}","\"geometry\":5","\"geometry\":{\"type\":\"GeometryCollection\",\"geometries\":[]}","\"geometries\":[]","\"geometries\":[{\"type\":\"Point\",\"coordinates\":[1,2]}]","\"geometries\":[{\"type\":\"Feature\",\"geometry\":null}]","\"geometries\":[1]","\"geometries\":[{\"type\":\"FeatureCollection\",\"features\":[]}]","\"geometries\":1","\"features\":[]","\"features\":[{\"type\":\"Feature\",\"geometry\":null,\"id\":1}]","\"features\":[{\"type\":\"Point\",\"coordinates\":[1,2]}]","\"features\":[{\"type\":\"FeatureCollection\",\"features\":[]}]","\"features\":null","\"properties\":null","\"properties\":{}","\"properties\":{ \"a\" : 1 }","\"properties\":1","\"properties\":[]","\"id\":1","\"id\":\"a\"","\"id\":null","\"id\":{}","\"bbox\":[1,2,3,4]","\"x\":null"}) M.push_back(t);
      int K=big?4:3; auto mk=[M](uint64_t i){ uint64_t p=1; int l=0; while(i>=p){ i-=p; p*=M.size(); l++; } string o="{"; for(int k=0;k<l;k++){ if(k) o+=','; o+=M[i%M.size()]; i/=M.size(); } return o+"}"; }; mc::space("members",seqcount(M.size(),K),[=](uint64_t i){ judge(F_JSON,mk(i)); },mk);
      if(!big){ vector<string> M2; for(auto&m:M) if(m.find("Feature\"")!=string::npos||m.find("geom")!=string::npos||m.find("id")==1||m.find("prop")==1||m.find("\"x\"")==0) M2.push_back(m); auto mk2=[M2](uint64_t i){ string o="{\"type\":\"Feature\",\"geometry\":null"; for(int k=0;k<3;k++){ o+=','; o+=M2[i%M2.size()]; i/=M2.size(); } return o+"}"; }; mc::space("members of features",(uint64_t)M2.size()*M2.size()*M2.size(),[=](uint64_t i){ judge(F_JSON,mk2(i)); },mk2); } }
    seqspace("around",F_JSON,[]{ vector<string> v=toks(" |{\"type\":\"Point\",\"coordinates\":[1,2]}|\t|,|{}|[|]|\n|\r|\v"); v.push_back(string(1,'\0')); v.push_back("\xEF\xBB\xBF"); return v; }(),big?5:4,"","");
    vector<string> N=toks("0|1|-|+|.|e|E"); for(auto pp:{std::make_pair("{\"type\":\"Point\",\"coordinates\":[",",2]}"),{"{\"type\":\"LineString\",\"coordinates\":[[1,2],[3,","]]}"},{"{\"type\":\"Feature\",\"geometry\":null,\"id\":","}"}}) seqspace(string("numbers ")+std::to_string(strlen(pp.first)),F_JSON,N,big?7:6,pp.first,pp.second);
    editspace("one edit",docs(F_JSON),bytes256());
    vector<Doc> sh; for(auto t:{"{\"type\":\"Point\",\"coordinates\":[1,2]}"}) sh.push_back({F_JSON,t}); if(big) for(auto t:{"{\"type\":\"Feature\",\"geometry\":null}","{\"type\":\"LineString\",\"coordinates\":[[1,2],[3,4]]}"}) sh.push_back({F_JSON,t}); editspace2("two edits",sh,string("[]{},:\"\\1.-et \x80",15)); }
// ---- C26 ----
static void bin_spaces(bool big){
    kidspace(big);
    auto d=[](double x){ string o; ref::od(o,x,false); return o; }; string P=d(1)+d(2),Q=d(3)+d(4),T=d(5); double nan; uint64_t nb=0x7ff8000000000000ull; memcpy(&nan,&nb,8);
    vector<string> W={hd(1),hd(2),hd(3),hd(4),hd(5),hd(6),hd(7),hd(1001),hd(3004),hd(0x20000002),u32(0),u32(1),u32(2),P,T};
    for(auto h:{std::make_pair("",string()),{"point",hd(1)},{"line",hd(2)},{"line m",hd(2002)},{"polygon",hd(3)},{"multipoint",hd(4)},{"multiline",hd(5)},{"multipolygon z",hd(1006)},{"collection",hd(7)+u32(2)}}) seqspace(string("words after ")+h.first,F_WKB,W,big?6:*h.first?4:5,h.second,"");
    seqspace("rings",F_WKB,{u32(1),u32(3),u32(4),P,Q},big?10:8,hd(3),""); seqspace("lines",F_WKB,{u32(0),u32(1),u32(2),P,Q,hd(2),hd(5)},big?8:7,hd(5)+u32(1),""); seqspace("points",F_WKB,{P,T,d(nan),hd(1),hd(2001),hd(4)},big?8:7,hd(4)+u32(2),""); seqspace("polygons",F_WKB,{u32(1),u32(2),u32(3),P,Q,hd(3),hd(0x20000003)},big?9:7,hd(6)+u32(2),"");
    seqspace("big endian",F_WKB,[&]{ auto b=[](double x){ string o; ref::od(o,x,true); return o; }; auto c=[](uint32_t x){ string o; ref::o32(o,x,true); return o; }; return vector<string>{hd(1,true),hd(2,true),hd(1003,true),c(0),c(1),c(2),c(3),b(1)+b(2),b(3)+b(4),b(5),hd(1),P}; }(),big?6:5,hd(7,true)+string("\0\0\0\1",4),"");
    for(uint32_t base:{1u,2u,4u,7u}) { string body=base==1?P+T+T:base==2?u32(2)+P+T+P+T+P:base==4?u32(1)+hd(1)+P+T:u32(1)+hd(1)+P+T; auto mk=[=](uint64_t i){ uint32_t t; if(i<65536) t=(uint32_t)i<<16|base; else if(i<131072) t=(uint32_t)(i-65536); else t=((uint32_t)(i-131072)<<16)|(1000+base); string h=hd(t); if((t>>16)&0x2000) h+=u32(4326); return h+body; }; mc::space("every type word "+std::to_string(base),3*65536,[=](uint64_t i){ judge(F_WKB,mk(i)); },[=](uint64_t i){ return "wkb "+ref::show(mk(i)); }); }
    { auto mk=[=](uint64_t i){ static const uint32_t c[]={0,1,2,3,4,5,0x7f,0x80,0xff,0x100,0x7fff,0xffff,0x10000,0x7fffff,0xffffff,0x1000000,0x0fffffff,0x10000000,0x1fffffff,0x20000000,0x3fffffff,0x40000000,0x7fffffff,0x80000000,0x80000001,0xaaaaaaab,0xfffffffe,0xffffffff}; const int N=28; static const int types[]={2,3,4,5,6,7,1002,2003,3004,1005,3006,2007}; int be=i%2; i/=2; uint32_t a=c[i%N]; i/=N; uint32_t b=c[i%N]; i/=N; int t=types[i%12]; i/=12; string o=hd(t,be); ref::o32(o,a,be); if(t%1000>=4&&t%1000<7) o+=hd(t-3,be); else if(t%1000==7) o+=hd(2,be); ref::o32(o,b,be); for(uint64_t k=0;k<i;k++) ref::od(o,k%3+1.0,be); return o; }; mc::space("counts",2ull*28*28*12*10,[=](uint64_t i){ judge(F_WKB,mk(i)); },[=](uint64_t i){ return "wkb "+ref::show(mk(i)); }); }
    string w1=hd(1)+P,w2=hd(2)+u32(2)+P+Q; auto rect=[&](int n){ string o; for(int i=0;i<n;i++) o+=d(i); return o; };
    vector<string> GB={"\x02","\x03","\x04",string(1,'\0'),"\x05",rect(4),rect(2),"{}","{\"a\":1}","1","{",u32(1),u32(2),w1,w2,bin(3,2,"",w1)};
    seqspace("geobin words",F_BIN,GB,big?6:5,"",""); for(int h=2;h<=4;h++) for(int q=0;q<=5;q++) seqspace("geobin head "+std::to_string(h)+" "+std::to_string(q),F_BIN,GB,big?4:3,string(1,(char)h)+string(1,(char)q)+rect(2*q),""); 
    seqspace("geobin features",F_BIN,{u32(0),u32(1),u32(2),u32(0xffffffff),w1,w2,bin(3,2,"",w1),bin(3,0,"{\"id\":1}",w2),bin(4,0,"",""),hd(9),"\x03"},big?6:5,bin(4,0,"",""),"");
    { vector<string> X; for(auto s:{"a","\"","\\",":","{","}","[","]","1",",","\xC3","\xA9"," "}) X.push_back(s); seqspace("geobin json",F_BIN,X,big?6:5,string("\x03\x00",2),string(1,'\0')+w1); }
    seqspace("hex digits",F_HEX,toks("0|1|a|F|g| |:|@|`|G|/|x|\xff"),big?5:4,ref::hex(hd(1)),ref::hex(P)); seqspace("hex tail",F_HEX,{ref::hex(P),ref::hex(hd(1)),ref::hex(hd(7)),ref::hex(u32(1)),ref::hex(u32(0)),"0","2","f","02","04","G"},big?6:5,"",""); { vector<string> H; for(auto&s:GB) H.push_back(ref::hex(s)); seqspace("hex of geobin",F_HEX,H,big?5:4,"",""); }
    editspace("one edit of wkb",docs(F_WKB,big),big?bytes256():string("\x00\x01\x02\x03\x04\x05\x06\x07\x08\x10\x20\x40\x7f\x80\xe9\xea\xd1\xbf\xc0\xf0\xf8\xff\xb9\x0b",24)); editspace("one edit of geobin",docs(F_BIN),bytes256()); editspace("one edit of hex",docs(F_HEX,big),numtail()+string("ABCDEFabcdefgG@`:/\x80\xff",20));
    vector<Doc> sh={{F_WKB,w1},{F_BIN,bin(2,0,"",w1)},{F_WKB,hd(4)+u32(1)+w1},{F_WKB,hd(7)+u32(0)}}; if(big){ sh.push_back({F_BIN,bin(4,0,"",u32(1)+bin(3,0,"1",w1))}); sh.push_back({F_WKB,w2}); } editspace2("two edits",sh,string("\x00\x01\x02\x03\x04\x07\x20\x7f\x80\xe9\xff",11)); }
// ---- C27 ----
static string rep(const string&s,size_t n){ string o; for(size_t i=0;i<n;i++) o+=s; return o; }
static void nest_spaces(bool big){
    static vector<size_t> D={1,2,3,4,10,127,128,200,512,1000}; for(int k=1016;k<=1032;k++) D.push_back(k); for(size_t k:{2000,5000,20000,100000}) D.push_back(k); if(big) for(size_t k:{65535,65536,1000000}) D.push_back(k);
    struct N { const char*name; Fmt f; std::function<string(size_t)> mk; }; auto v=std::make_shared<vector<N>>(); string w1=hd(1)+string(16,'\0');
    auto add=[&](const char*n,Fmt f,std::function<string(size_t)> m){ v->push_back({n,f,m}); };
    add("wkt collections",F_WKT,[](size_t n){ return rep("GEOMETRYCOLLECTION(",n)+"POINT(1 2)"+string(n,')'); }); add("wkt collections open",F_WKT,[](size_t n){ return rep("GEOMETRYCOLLECTION(",n); }); add("wkt parentheses",F_WKT,[](size_t n){ return "POLYGON"+string(n,'(')+"1 2"+string(n,')'); }); add("wkt multipoint parentheses",F_WKT,[](size_t n){ return "MULTIPOINT"+string(n,'(')+"1 2"+string(n,')'); }); add("wkt open",F_WKT,[](size_t n){ return "MULTIPOLYGON"+string(n,'('); }); add("wkt wide",F_WKT,[](size_t n){ return "GEOMETRYCOLLECTION(POINT(1 2)"+rep(",POINT(1 2)",n)+")"; }); add("wkt points",F_WKT,[](size_t n){ return "LINESTRING(1 2"+rep(",3 4",n)+")"; }); add("wkt rings",F_WKT,[](size_t n){ return "POLYGON((0 0,1 0,1 1,0 0)"+rep(",(0 0,1 0,1 1,0 0)",n)+")"; }); add("wkt spaces",F_WKT,[](size_t n){ return string(n,' ')+"POINT"+string(n,'\t')+"("+string(n,'\n')+"1"+string(n,' ')+"2"+string(n,' ')+")"+string(n,' '); }); add("wkt number",F_WKT,[](size_t n){ return "POINT("+string(n,'1')+" 0."+string(n,'0')+"1)"; }); add("wkt word",F_WKT,[](size_t n){ return string(n,'A')+"(1 2)"; }); add("wkt siblings in a deep place",F_WKT,[](size_t n){ size_t k=n>1000?1000:n; return rep("GEOMETRYCOLLECTION(POINT(1 2),",k)+"POINT(1 2)"+rep(",POINT(1 2)",n/8)+string(k,')'); });
    add("geojson arrays",F_JSON,[](size_t n){ return "{\"type\":\"Polygon\",\"coordinates\":"+string(n,'[')+string(n,']')+"}"; }); add("geojson value",F_JSON,[](size_t n){ return "{\"type\":\"Point\",\"coordinates\":[1,2],\"x\":"+string(n,'[')+string(n,']')+"}"; }); add("geojson objects",F_JSON,[](size_t n){ return "{\"type\":\"Point\",\"coordinates\":[1,2],\"x\":"+rep("{\"a\":",n)+"1"+string(n,'}')+"}"; }); add("geojson open",F_JSON,[](size_t n){ return string(n,'['); }); add("geojson open objects",F_JSON,[](size_t n){ return rep("{\"a\":",n); }); add("geojson collections",F_JSON,[](size_t n){ return rep("{\"type\":\"GeometryCollection\",\"geometries\":[",n)+"{\"type\":\"Point\",\"coordinates\":[1,2]}"+rep("]}",n); }); add("geojson features",F_JSON,[](size_t n){ return rep("{\"type\":\"Feature\",\"geometry\":",n)+"null"+string(n,'}'); }); add("geojson wide",F_JSON,[](size_t n){ return "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":null}"+rep(",{\"type\":\"Feature\",\"geometry\":null}",n)+"]}"; }); add("geojson members",F_JSON,[](size_t n){ return "{\"type\":\"Point\",\"coordinates\":[1,2]"+rep(",\"a\":1",n)+"}"; }); add("geojson string",F_JSON,[](size_t n){ return "{\"type\":\"Point\",\"coordinates\":[1,2],\"s\":\""+string(n,'a')+"\\n"+string(n%7,'b')+"\"}"; }); add("geojson type",F_JSON,[](size_t n){ return "{\"type\":\""+string(n,'P')+"\"}"; }); add("geojson number",F_JSON,[](size_t n){ return "{\"type\":\"Point\",\"coordinates\":["+string(n,'1')+",0."+string(n,'0')+"1]}"; }); add("geojson positions",F_JSON,[](size_t n){ return "{\"type\":\"MultiPoint\",\"coordinates\":[[1,2]"+rep(",[1,2]",n)+"]}"; }); add("geojson long position",F_JSON,[](size_t n){ return "{\"type\":\"Point\",\"coordinates\":[1"+rep(",1",n)+"]}"; });
    add("wkb collections",F_WKB,[=](size_t n){ return rep(hd(7)+u32(1),n)+w1; }); add("wkb collections open",F_WKB,[=](size_t n){ return rep(hd(7)+u32(2),n); }); add("wkb multipoints",F_WKB,[=](size_t n){ return rep(hd(4)+u32(1),n)+w1; }); add("wkb multilines",F_WKB,[=](size_t n){ return rep(hd(1005,true)+string("\0\0\0\1",4),n); }); add("wkb wide",F_WKB,[=](size_t n){ return hd(7)+u32(n)+rep(w1,n); }); add("wkb empties",F_WKB,[=](size_t n){ return hd(7)+u32(n)+rep(hd(7)+u32(0),n); }); add("wkb polygons",F_WKB,[=](size_t n){ return hd(6)+u32(n)+rep(hd(3)+u32(0),n); });
    add("geobin collections",F_BIN,[=](size_t n){ return rep(bin(4,0,"",u32(1)),n)+w1; }); add("geobin collections of wkb",F_BIN,[=](size_t n){ return rep(bin(4,0,"",u32(1)),n/2)+rep(hd(7)+u32(1),n-n/2)+w1; }); add("geobin wide",F_BIN,[=](size_t n){ return bin(4,0,"",u32(n)+rep(w1,n)); }); add("geobin json",F_BIN,[=](size_t n){ return bin(2,0,string(n,'[')+string(n,']'),w1); }); add("hex collections",F_HEX,[=](size_t n){ return ref::hex(rep(hd(7)+u32(1),n)+w1); }); add("hex of geobin collections",F_HEX,[=](size_t n){ return ref::hex(rep(bin(4,0,"",u32(1)),n)+w1); }); add("hex long",F_HEX,[=](size_t n){ return ref::hex(w1)+string(n,'0'); });
    size_t nd=D.size(); mc::space("nesting and length",v->size()*nd,[=](uint64_t i){ judge((*v)[i/nd].f,(*v)[i/nd].mk(D[i%nd])); },[=](uint64_t i){ return string((*v)[i/nd].name)+" "+std::to_string(D[i%nd]); },1); }
// shapes big enough for an index with special values in their coordinates
static double rect0(tg_rect r,int*,void*){ double x=std::max(std::max(r.min.x-1,1-r.max.x),0.0),y=std::max(std::max(r.min.y-1,1-r.max.y),0.0); return x*x+y*y; }
static void special_spaces(bool big){
    static const double V[]={NAN,-NAN,INFINITY,-INFINITY,1.7976931348623157e308,-1.7976931348623157e308,5e-324,-0.0,1e300,-1e300,1e-300,3.4028236e38,-1e39,4294967296.0,1e19}; static const int NV=15; static const int SZ[]={4,33,100,400,1200}; int ns=big?5:4; static const char*K[]={"polygon","linestring","polygon with hole","multipoint","multilinestring"};
    // how the value is placed: in x, y or both of one vertex, of every other vertex, of all, or as the scale of the shape
    auto mk=[=](uint64_t i,enum tg_index&ix){ ix=(enum tg_index)(i%4); i/=4; double v=V[i%NV]; i/=NV; int where=i%10; i/=10; int xy=i%3; i/=3; int n=SZ[i%ns]; i/=ns; int kind=i; ref::Seq s; for(int k=0;k<n;k++){ double a=6.283185307179586*k/n; ref::P4 p={std::round(cos(a)*1000)/8+k%3,std::round(sin(a)*1000)/8,0,0}; bool hit=where==0?k==0:where==1?k==n/2:where==2?k==n-1:where==3?k%2==0:where==4?true:where==5?k<n/2:where==6?k%16==3:where==7?k==1||k==n-2:false; for(int q=0;q<2;q++) if(xy!=1-q){ if(hit) p[q]=v; else if(where==8) p[q]*=v; else if(where==9) p[q]+=v; } s.push_back(p); }
        ref::G g; switch(kind){ case 0: g.type=3; s.push_back(s[0]); g.rings={s}; break; case 1: g.type=2; g.pts=s; break; case 2: { g.type=3; ref::Seq o={{-1e6,-1e6,0,0},{1e6,-1e6,0,0},{0,1e6,0,0},{-1e6,-1e6,0,0}}; s.push_back(s[0]); g.rings={o,s}; break; } case 3: g.type=4; g.pts=s; break; default: g.type=5; for(size_t k=0;k+1<s.size();k++) g.rings.push_back({s[k],s[k+1]}); } return ref::wkb(g); };
    auto name=[=](uint64_t i){ char b[200]; uint64_t j=i; int ix=j%4; j/=4; double v=V[j%NV]; j/=NV; int where=j%10; j/=10; int xy=j%3; j/=3; snprintf(b,200,"%s of %d vertices with %g (place %d, axis %d), index %d",K[j/ns],SZ[j%ns],v,where,xy,ix); return string(b); };
    mc::space("special coordinates",5ull*ns*3*10*NV*4,[=](uint64_t i){ enum tg_index ix; string s=mk(i,ix); mc::state(mc::hash(s)+ix); mc::trans(); char*p=(char*)malloc(s.size()); memcpy(p,s.data(),s.size()); tg_geom*g=tg_parse_wkb_ix((const uint8_t*)p,s.size(),ix); free(p); long l0=0; if(!g){ mc::fail("nothing","no result"); return; } if(!tg_geom_error(g)){ mc::nontrivial(); use(g); tg_rect r={{-5,-5},{50,50}}; tg_geom_search(g,r,[](const tg_geom*,int,void*){ return true; },nullptr); for(double x:{-130.0,0.0,1.0,124.5,1e300,(double)NAN}){ tg_geom_intersects_xy(g,x,0.5); tg_geom_intersects_xy(g,0.5,x); tg_geom_intersects_rect(g,tg_rect{{x,x},{x+1,x}}); }
        auto sd=[](tg_segment s,int*,void*){ return rect0(tg_segment_rect(s),0,0); }; auto it=[](tg_segment,double,int,void*u){ return ++*(int*)u<50; }; int c=0; if(tg_geom_line(g)) tg_line_nearest_segment(tg_geom_line(g),rect0,sd,it,&c); if(tg_geom_poly(g)) tg_ring_nearest_segment(tg_poly_exterior(tg_geom_poly(g)),rect0,sd,it,&c); tg_geom*o=tg_parse_wkt_ix("POLYGON((0 0,90 0,90 90,0 0))",ix); tg_geom_intersects(g,o); tg_geom_intersects(o,g); tg_geom_covers(g,o); tg_geom_covers(o,g); tg_geom_contains(o,g); tg_geom_touches(g,o); tg_geom_free(o); } tg_geom_free(g); (void)l0; },name); }
// ---- C28 ----
static void agree(Fmt f,const string&s){
    mc::state(mc::hash(s)^f); size_t n=s.size(); SigOpt so; auto sg=[&](tg_geom*g){ string o=sig(g,so); tg_geom_free(g); return o; };
    auto err=[](const string&x){ return x.compare(0,7,"[error ")==0||x.substr(0,6)=="[null]"; };
    char*e=(char*)malloc(n?n:1); memcpy(e,s.data(),n); string a=sg(tgparse(f,e,n)); mc::trans(); if(!err(a)) mc::nontrivial();
    auto same=[&](const char*what,const string&b){ mc::trans(); if(a!=b) mc::fail(what,"%s %s: %s gives %s at byte %d instead of %s",FN[f],ref::show(s).c_str(),what,ref::show(b,200).c_str(),diffat(a,b),ref::show(a,200).c_str()); };
    const uint8_t*ue=(const uint8_t*)e; switch(f){ case F_WKT: same("sized",sg(tg_parse_wktn(e,n))); break; case F_JSON: same("sized",sg(tg_parse_geojsonn(e,n))); break; case F_HEX: same("sized",sg(tg_parse_hexn(e,n))); break; case F_WKB: same("sized",sg(tg_parse_wkb(ue,n))); break; default: same("sized",sg(tg_parse_geobin(ue,n))); }
    if(f<=F_JSON||f==F_HEX) if(!memchr(s.data(),0,n)){ const char*c=s.c_str(); same("terminated",sg(f==F_WKT?tg_parse_wkt(c):f==F_JSON?tg_parse_geojson(c):tg_parse_hex(c))); same("terminated with index",sg(f==F_WKT?tg_parse_wkt_ix(c,TG_DEFAULT):f==F_JSON?tg_parse_geojson_ix(c,TG_DEFAULT):tg_parse_hex_ix(c,TG_DEFAULT))); }
    // what follows does not matter
    for(const string&t:{string("0"),string(")"),string("}"),string("5 6)"),string(" "),string("e5"),string(",\"a\":1}"),string("\0\0\0\0\0\0\0\0",8),string("\xff\xff\xff\xff\xff\xff\xff\xff",8),string("EMPTY"),string("\""),string("\xa9\x82\x80\"}"),string("\x80"),string("041\"}")}){ string u=s+t; same("followed by other bytes",sg(tgparse(f,u.data(),n))); }
    // detection: which format the text is of, by its first bytes
    { Fmt k=f; if(n){ size_t i=0; unsigned char c=s[0]; auto isws=[](unsigned char c){ return c==' '||(c>=9&&c<=13); }; auto hx=[](unsigned char c){ return ref::JP::hexv(c)>=0; }; while(i<n&&isws(s[i])) i++; if(c=='{'||(i&&i<n&&s[i]=='{')) k=F_JSON; else if(i) k=F_WKT; else if(isalpha(c)||hx(c)){ bool h=true; for(size_t q=0;q<n&&q<16;q++) if(!hx(s[q])) h=false; k=h?F_HEX:F_WKT; } else if(c<=1) k=F_WKB; else k=F_BIN;
        string d=sg(tg_parse(e,n)); mc::trans(); string want=k==f?a:sg(tgparse(k,e,n)); if(d!=want) mc::fail("detect","%s %s is detected as something else: %s",FN[f],ref::show(s).c_str(),ref::show(d,200).c_str()); ref::G g; if(refparse(f,s,g)&&err(d)) mc::fail("detect valid","valid %s %s gives an error after detection",FN[f],ref::show(s).c_str()); string di=sg(tg_parse_ix(e,n,TG_DEFAULT)); if(di!=d) mc::fail("detect ix","tg_parse_ix differs from tg_parse for %s",ref::show(s).c_str()); } }
    free(e);
    // index choice
    if(!err(a)) for(auto ix:{TG_NONE,TG_NATURAL,TG_YSTRIPES}){ string x=sg(tgparse(f,s.data(),n,ix)),y=sg(tg_parse_ix(s.data(),n,ix)); if(x!=y&&f!=F_BIN) mc::fail("index of detection","%s with index %d",ref::show(s).c_str(),ix); if(f==F_WKT){ if(!memchr(s.data(),0,n)&&sg(tg_parse_wkt_ix(s.c_str(),ix))!=x) mc::fail("index of terminated","%s with index %d",ref::show(s).c_str(),ix); }
        SigOpt no; no.index=false; no.mem=false; tg_geom*g=tgparse(f,s.data(),n,ix),*h=tgparse(f,s.data(),n); if(sig(g,no)!=sig(h,no)) mc::fail("index content","the index changes what %s is read as",ref::show(s).c_str()); tg_geom_free(g); tg_geom_free(h); } }
static void agree_spaces(bool big){
    auto all=std::make_shared<vector<Doc>>(); for(int f=0;f<5;f++) for(auto&d:docs((Fmt)f,true)) all->push_back(d); for(auto&s:wkbs(true)) all->push_back({F_BIN,s}); // wkb is geobin when it is little endian
    for(auto&d:docs(F_BIN)) if(d.s.size()<60) all->push_back({F_HEX,ref::hex(d.s,true)}); for(const char*w:{" ","\n\t","  \r\n "}){ for(auto&s:jsons()) all->push_back({F_JSON,w+s}); for(auto&s:wkts()) all->push_back({F_WKT,w+s}); } for(auto&s:bins()) for(int k=0;k<2;k++) all->push_back({k?F_HEX:F_BIN,k?ref::hex(s):s});
    { string big1="LINESTRING("; ref::G g; g.type=2; for(int i=0;i<200;i++){ if(i) big1+=','; big1+=std::to_string(i%17)+" "+std::to_string(i*7%31); g.pts.push_back({(double)(i%17),(double)(i*7%31),0,0}); } big1+=")"; all->push_back({F_WKT,big1}); g.pts.push_back(g.pts[0]); ref::G p; p.type=3; p.rings={g.pts}; all->push_back({F_WKB,ref::wkb(p)}); all->push_back({F_HEX,ref::hex(ref::wkb(p))}); all->push_back({F_BIN,bin(3,2,"{}",ref::wkb(p))}); string js="{\"type\":\"Polygon\",\"coordinates\":[["; for(size_t i=0;i<g.pts.size();i++){ if(i) js+=','; js+="["+std::to_string((int)g.pts[i][0])+","+std::to_string((int)g.pts[i][1])+"]"; } all->push_back({F_JSON,js+"]]}"}); }
    mc::space("documents",all->size(),[=](uint64_t i){ agree((*all)[i].f,(*all)[i].s); },[=](uint64_t i){ return string(FN[(*all)[i].f])+" "+ref::show((*all)[i].s); });
    string B=big?bytes256():string(" 0aG{}()\"\0\1\2\5\x80,-",16); auto off=std::make_shared<vector<uint64_t>>(); auto sel=std::make_shared<vector<Doc>>(); for(size_t k=0;k<all->size();k++) if((*all)[k].s.size()<(big?120u:70u)&&(big||k%4==0)) sel->push_back((*all)[k]); uint64_t n=0; for(auto&d:*sel){ off->push_back(n); n+=editcount(d.s.size(),B); } auto mk=[=](uint64_t i,Fmt&f){ size_t k=std::upper_bound(off->begin(),off->end(),i)-off->begin()-1; f=(*sel)[k].f; return edited((*sel)[k].s,i-(*off)[k],B); };
    mc::space("edited documents",n,[=](uint64_t i){ Fmt f; string s=mk(i,f); agree(f,s); },[=](uint64_t i){ Fmt f; string s=mk(i,f); return string(FN[f])+" "+ref::show(s); });
    { vector<string> A; for(auto s:{" ","\n","\v","{","}","P","POINT(1 2)","{\"type\":\"Point\",\"coordinates\":[1,2]}","01","0A","f","G","(","-","1"}) A.push_back(s); for(int c:{0,1,2,3,4,5,127,128,255}) A.push_back(string(1,(char)c)); A.push_back(hd(1)+string(16,'\0')); A.push_back(ref::hex(hd(1)+string(16,'\0'))); int K=big?4:3; auto mk2=[=](uint64_t i){ return seqat(i,A); }; mc::space("beginnings",seqcount(A.size(),K),[=](uint64_t i){ string s=mk2(i); for(int f=0;f<5;f++) agree((Fmt)f,s); },[=](uint64_t i){ return ref::show(mk2(i)); }); }
    { vector<string> A; for(int c:{0xC3,0xA9,0xE2,0x82,0xF0,0x9F,0xED,0xC0,0xBF}) A.push_back(string(1,(char)c)); for(auto s:{"\"","\\","u","d","8","0","}","]"}) A.push_back(s); static const char*PRE[]={"{\"","{\"a\":\"","{\"type\":\"","{\"type\":\"Point\",\"coordinates\":[1,2],\"id\":\"","{\"type\":\"Point\",\"coordinates\":[1,2],\"a\":[\"\\u"}; int K=big?5:3; uint64_t m=seqcount(A.size(),K); auto mk3=[=](uint64_t i){ return PRE[i%5]+seqat(i/5,A); };
      mc::space("broken characters",m*5,[=](uint64_t i){ agree(F_JSON,mk3(i)); },[=](uint64_t i){ return ref::show(mk3(i)); }); }
    mc::space("missing",1,[](uint64_t){ if(tg_parse(nullptr,0)||tg_parse(nullptr,5)||tg_parse("x",0)||tg_parse_ix(nullptr,3,TG_NATURAL)) mc::fail("missing","something is detected in missing input"); for(auto g:{tg_parse_wkt(nullptr),tg_parse_geojson(nullptr),tg_parse_hex(nullptr),tg_parse_wktn(nullptr,0),tg_parse_geojsonn(nullptr,0),tg_parse_hexn(nullptr,0),tg_parse_wkb(nullptr,0),tg_parse_geobin(nullptr,0),tg_parse_wkt_ix(nullptr,TG_NONE)}){ if(!tg_geom_error(g)) mc::fail("missing","missing input parses"); tg_geom_free(g); } },nullptr); }
// ---- C29: reading ----
#include "hard.hpp"
static void readnum(const string&t,bool jsonok,bool wktok){ double want=strtod(t.c_str(),0); char b[40]; auto chk=[&](const char*f,tg_geom*g,double got){ mc::trans(); if(tg_geom_error(g)) mc::fail("number rejected","%s %s: %s",f,t.substr(0,200).c_str(),tg_geom_error(g)); else if(memcmp(&got,&want,8)) mc::fail("number","%s %s is read as %.17g instead of %.17g",f,t.substr(0,200).c_str(),got,want); };
    if(wktok) for(auto pp:{std::make_pair("POINT("," 1)"),{"POINT(1 ",")"},{"LINESTRING(2 2,3 ",")"},{"MULTIPOINT(("," 5))"}}){ string s=pp.first+t+pp.second; tg_geom*g=tg_parse_wkt(s.c_str()); tg_rect r=tg_geom_rect(g); auto T=tg_geom_typeof(g); double got=T==TG_POINT?(pp.first[6]=='1'?tg_geom_point(g).y:tg_geom_point(g).x):T==TG_LINESTRING?tg_line_point_at(tg_geom_line(g),1).y:tg_geom_point_at(g,0).x; chk("wkt",g,got); tg_geom_free(g); }
    if(jsonok) for(auto pp:{std::make_pair("{\"type\":\"Point\",\"coordinates\":[",",1]}"),{"{\"type\":\"LineString\",\"coordinates\":[[2,2],[3,","]]}"},{"{\"type\":\"Point\",\"coordinates\":[1,2,","]}"},{"{\"type\":\"MultiPoint\",\"coordinates\":[[ "," ,1]]}"}}){ string s=pp.first+t+pp.second; tg_geom*g=tg_parse_geojson(s.c_str()); auto T=tg_geom_typeof(g); double got=T==TG_POINT?(tg_geom_has_z(g)?tg_geom_z(g):tg_geom_point(g).x):T==TG_LINESTRING?tg_line_point_at(tg_geom_line(g),1).y:tg_geom_point_at(g,0).x; chk("geojson",g,got); tg_geom_free(g); } }
static void read_spaces(bool big){
    // every digit string with a point and an exponent
    { int K=big?5:4; uint64_t p10=1; for(int i=0;i<K;i++) p10*=10; static vector<int> E; for(int e=-330;e<=310;e+=big?1:3) E.push_back(e); for(int e=-25;e<=25;e++) E.push_back(e); auto mk=[=](uint64_t i){ char b[64]; uint64_t d=i%p10; i/=p10; int e=E[i%E.size()]; snprintf(b,64,"%llue%d",(unsigned long long)d,e); return string(b); }; mc::space("digits and exponents",p10*E.size(),[=](uint64_t i){ string t=mk(i); mc::state(mc::hash(t)); readnum(t,true,false); },mk); }
    { int K=big?6:5; uint64_t p10=1; for(int i=0;i<K;i++) p10*=10; auto mk=[=](uint64_t i){ char b[64]; uint64_t d=i%p10; int pt=i/p10; snprintf(b,64,"%0*llu",K,(unsigned long long)d); string s=b; int at=pt%(K-1)+1; s.insert(at,"."); size_t z=s.find_first_not_of('0'); if(z>0) s.erase(0,s[z]=='.'?z-1:z); return (pt>=K-1?"-":"")+s; }; mc::space("decimals",p10*2*(K-1),[=](uint64_t i){ string t=mk(i); mc::state(mc::hash(t)); readnum(t,true,i%4==0); },mk); }
    auto H=std::make_shared<vector<string>>(hardnumbers(big)); mc::space("hard numbers",H->size()*2,[=](uint64_t i){ string t=(i%2?"-":"")+(*H)[i/2]; if(t[0]=='-'&&t[1]=='-') t.erase(0,2); mc::state(mc::hash(t)); readnum(t,true,true); },[=](uint64_t i){ return (i%2?"-":"")+(*H)[i/2].substr(0,200); });
    { auto v=std::make_shared<vector<string>>(); for(int e=0;e<=17;e++){ uint64_t b=1; for(int k=0;k<e;k++) b*=10; for(int64_t d=-120;d<=120;d++){ v->push_back(std::to_string((int64_t)b+d)); v->push_back(std::to_string((int64_t)b*9+d)); } } for(int e=50;e<=63;e++) for(int64_t d=-120;d<=120;d++){ v->push_back(std::to_string((1ull<<e)+d)); } mc::space("integers",v->size(),[=](uint64_t i){ mc::state(mc::hash((*v)[i])); readnum((*v)[i],true,true); },[=](uint64_t i){ return (*v)[i]; }); } }
int main(int argc,char**argv){ mc::init(argc,argv); MURKY(); string p=mc::prop; bool big=mc::thorough(); al::head.next=nullptr;
    if(p=="C24"){ sizespaces({F_WKT},big,judge); lenspace({F_WKT},big,judge); wkt_spaces(big); } else if(p=="C25"){ sizespaces({F_JSON},big,judge); lenspace({F_JSON},big,judge); json_spaces(big); } else if(p=="C26"){ sizespaces({F_WKB,F_HEX,F_BIN},big,judge); lenspace({F_WKB,F_HEX,F_BIN},big,judge); bin_spaces(big); } else if(p=="C28"){ c28=true; sizespaces({F_WKT,F_JSON,F_WKB,F_HEX,F_BIN},false,agree); lenspace({F_WKT,F_JSON,F_WKB,F_HEX,F_BIN},false,agree); agree_spaces(big); } else if(p=="C29") read_spaces(big);
    else if(p=="C27"){ c27=true; tg_env_set_allocator(al::mal,al::rea,al::fre); bool b2=big; sizespaces({F_WKT,F_JSON,F_WKB,F_HEX,F_BIN},false,judge); lenspace({F_WKT,F_JSON,F_WKB,F_HEX,F_BIN},b2,judge); wkt_spaces(false); json_spaces(false); bin_spaces(false); nest_spaces(b2); special_spaces(b2); }
    return mc::finish(); }
