// A reference for the formats, written from their descriptions (OGC simple features WKT and WKB, RFC 8259, RFC 7946,
// docs/GeoBIN.md) and sharing nothing with the library: values, parsers and a WKB writer.
#pragma once
#include "tgh.hpp"
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
namespace ref {
using std::string; using std::vector;
typedef std::array<double,4> P4; typedef vector<P4> Seq; typedef vector<Seq> Rings;
enum { POINT=1,LINE,POLY,MPOINT,MLINE,MPOLY,GC };
static const char*NAME[]={"?","POINT","LINESTRING","POLYGON","MULTIPOINT","MULTILINESTRING","MULTIPOLYGON","GEOMETRYCOLLECTION"};
static const char*JNAME[]={"?","Point","LineString","Polygon","MultiPoint","MultiLineString","MultiPolygon","GeometryCollection"};
struct G { int type=0; bool z=false,m=false; Seq pts; Rings rings; vector<Rings> polys; vector<G> kids; bool feature=false,fc=false; string extra; // extra: canonical form of the extra members ("" none)
    int nd()const{ return 2+z+m; }
    bool empty()const{ switch(type){ case POINT: case LINE: case MPOINT: return pts.empty(); case POLY: case MLINE: return rings.empty(); case MPOLY: return polys.empty(); } for(auto&k:kids) if(!k.empty()) return false; return true; } };
static inline void cnum(string&o,double d,bool zero){ if(d!=d){ o+="nan"; return; } if(zero&&d==0) d=0; char b[20]; uint64_t u; memcpy(&u,&d,8); snprintf(b,20,"%016llx",(unsigned long long)u); o+=b; }
struct Canon { bool zero=false, meta=true; }; // zero: -0 is 0
static inline void cseq(string&o,const Seq&s,const G&g,const Canon&c){ o+='('; for(auto&p:s){ int k=0; o+=' '; for(int i=0;i<4;i++){ if((i==2&&!g.z)||(i==3&&!g.m)) continue; if(k++) o+=','; cnum(o,p[i]==0&&c.zero?0:p[i],c.zero); } } o+=')'; }
static inline string canon(const G&g,Canon c=Canon()){ string o; if(c.meta){ if(g.feature) o+="Feature "; if(g.fc) o+="FeatureCollection "; if(!g.extra.empty()) o+="extra"+g.extra+" "; } o+=NAME[g.type];
    bool nothing=g.type!=GC&&g.empty(); if(nothing) return o+" EMPTY"; if(g.type!=GC){ if(g.z) o+='Z'; if(g.m) o+='M'; }
    switch(g.type){ case POINT: case LINE: case MPOINT: cseq(o,g.pts,g,c); break; case POLY: case MLINE: o+='['; for(auto&r:g.rings) cseq(o,r,g,c); o+=']'; break;
    case MPOLY: o+='['; for(auto&p:g.polys){ o+='['; for(auto&r:p) cseq(o,r,g,c); o+=']'; } o+=']'; break; case GC: o+='['; for(auto&k:g.kids) o+=canon(k,c)+";"; o+=']'; } return o; }

// ---- JSON ----
struct J { enum T{NUL,FALSE_,TRUE_,NUM,STR,ARR,OBJ} t=NUL; string raw; string s; vector<J> a; vector<std::pair<J,J>> o; // raw: number text; for strings the text between the quotes; s: decoded
    const J*get(const char*k)const{ for(auto&p:o) if(p.first.s==k) return &p.second; return nullptr; } };
static inline void pututf(string&o,unsigned c){ if(c<0x80) o+=(char)c; else if(c<0x800){ o+=(char)(0xC0|c>>6); o+=(char)(0x80|(c&63)); } else if(c<0x10000){ o+=(char)(0xE0|c>>12); o+=(char)(0x80|((c>>6)&63)); o+=(char)(0x80|(c&63)); } else { o+=(char)(0xF0|c>>18); o+=(char)(0x80|((c>>12)&63)); o+=(char)(0x80|((c>>6)&63)); o+=(char)(0x80|(c&63)); } }
struct JP { const unsigned char*b; size_t n,i=0; int maxdepth=0;
    void ws(){ while(i<n&&(b[i]==' '||b[i]=='\t'||b[i]=='\n'||b[i]=='\r')) i++; }
    static int hexv(int c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
    bool str(J&j){ if(i>=n||b[i]!='"') return false; size_t s=++i; j.t=J::STR; while(i<n){ unsigned c=b[i]; if(c=='"'){ j.raw.assign((const char*)b+s,i-s); i++; return true; } if(c<32) return false;
            if(c=='\\'){ if(++i>=n) return false; c=b[i++]; switch(c){ case '"': case '\\': case '/': j.s+=(char)c; break; case 'b': j.s+='\b'; break; case 'f': j.s+='\f'; break; case 'n': j.s+='\n'; break; case 'r': j.s+='\r'; break; case 't': j.s+='\t'; break;
                case 'u': { auto u4=[&](unsigned&v){ if(i+4>n) return false; v=0; for(int k=0;k<4;k++){ int h=hexv(b[i+k]); if(h<0) return false; v=v*16+h; } i+=4; return true; }; unsigned v,w; if(!u4(v)) return false; if(v>=0xD800&&v<0xDC00&&i+1<n&&b[i]=='\\'&&b[i+1]=='u'){ size_t k=i; i+=2; if(!u4(w)) return false; if(w>=0xDC00&&w<0xE000) v=0x10000+((v-0xD800)<<10)+(w-0xDC00); else i=k; } pututf(j.s,v); break; }
                default: return false; } continue; }
            int k=c<0x80?0:c>=0xC2&&c<=0xDF?1:c>=0xE0&&c<=0xEF?2:c>=0xF0&&c<=0xF4?3:-1; if(k<0||i+k>=n) return false; for(int q=1;q<=k;q++) if((b[i+q]&0xC0)!=0x80) return false; if((c==0xE0&&b[i+1]<0xA0)||(c==0xED&&b[i+1]>0x9F)||(c==0xF0&&b[i+1]<0x90)||(c==0xF4&&b[i+1]>0x8F)) return false; j.s.append((const char*)b+i,k+1); i+=k+1; } return false; }
    bool num(J&j){ size_t s=i; if(i<n&&b[i]=='-') i++; if(i>=n) return false; if(b[i]=='0') i++; else if(b[i]>='1'&&b[i]<='9') while(i<n&&isdigit(b[i])) i++; else return false; if(i<n&&b[i]=='.'){ i++; size_t k=i; while(i<n&&isdigit(b[i])) i++; if(i==k) return false; } if(i<n&&(b[i]=='e'||b[i]=='E')){ i++; if(i<n&&(b[i]=='+'||b[i]=='-')) i++; size_t k=i; while(i<n&&isdigit(b[i])) i++; if(i==k) return false; } j.t=J::NUM; j.raw.assign((const char*)b+s,i-s); return true; }
    bool val(J&j,int depth){ if(depth>maxdepth) maxdepth=depth; if(depth>1100) return false; ws(); if(i>=n) return false; switch(b[i]){ case '"': return str(j); case '{': { j.t=J::OBJ; i++; ws(); if(i<n&&b[i]=='}'){ i++; return true; } for(;;){ ws(); J k,v; if(!str(k)) return false; ws(); if(i>=n||b[i++]!=':') return false; if(!val(v,depth+1)) return false; j.o.emplace_back(std::move(k),std::move(v)); ws(); if(i>=n) return false; if(b[i]==','){ i++; continue; } if(b[i]=='}'){ i++; return true; } return false; } }
        case '[': { j.t=J::ARR; i++; ws(); if(i<n&&b[i]==']'){ i++; return true; } for(;;){ J v; if(!val(v,depth+1)) return false; j.a.push_back(std::move(v)); ws(); if(i>=n) return false; if(b[i]==','){ i++; continue; } if(b[i]==']'){ i++; return true; } return false; } }
        case 't': if(n-i>=4&&!memcmp(b+i,"true",4)){ i+=4; j.t=J::TRUE_; return true; } return false; case 'f': if(n-i>=5&&!memcmp(b+i,"false",5)){ i+=5; j.t=J::FALSE_; return true; } return false; case 'n': if(n-i>=4&&!memcmp(b+i,"null",4)){ i+=4; j.t=J::NUL; return true; } return false; default: return num(j); } } };
static const int JSONDEPTH=1024;
static inline bool json(const string&s,J&j,bool limit=true){ JP p{(const unsigned char*)s.data(),s.size()}; if(!p.val(j,1)) return false; p.ws(); return p.i==p.n&&(!limit||p.maxdepth<=JSONDEPTH); }
// the same text without insignificant spaces
static inline string mini(const J&j){ switch(j.t){ case J::NUL: return "null"; case J::TRUE_: return "true"; case J::FALSE_: return "false"; case J::NUM: return j.raw; case J::STR: return "\""+j.raw+"\""; case J::ARR: { string o="["; for(size_t i=0;i<j.a.size();i++){ if(i) o+=','; o+=mini(j.a[i]); } return o+"]"; } default: { string o="{"; for(size_t i=0;i<j.o.size();i++){ if(i) o+=','; o+=mini(j.o[i].first)+":"+mini(j.o[i].second); } return o+"}"; } } }

// ---- GeoJSON ----
static inline bool jpos(const J&j,P4&p,int&dims){ if(j.t!=J::ARR) return false; int d=0; p={0,0,0,0}; for(auto&e:j.a){ if(e.t!=J::NUM) return false; if(d<4) p[d++]=strtod(e.raw.c_str(),0); } if(d<2) return false; if(!dims) dims=d; return d==dims; }
static inline bool jseq(const J&j,Seq&s,int&dims,int kind){ if(j.t!=J::ARR) return false; for(auto&e:j.a){ P4 p; if(!jpos(e,p,dims)) return false; s.push_back(p); } if(kind==1&&s.size()<2) return false; if(kind==2&&(s.size()<3||s[0][0]!=s.back()[0]||s[0][1]!=s.back()[1])) return false; return true; }
static inline bool jrings(const J&j,Rings&r,int&dims,int kind){ if(j.t!=J::ARR) return false; for(auto&e:j.a){ Seq s; if(!jseq(e,s,dims,kind)) return false; r.push_back(s); } return true; }
static inline bool geojson(const J&j,G&g){ // geometry, feature or feature collection
    if(j.t!=J::OBJ) return false; const J*t=j.get("type"); if(!t||t->t!=J::STR) return false; int k=0; for(int i=1;i<=7;i++) if(t->s==JNAME[i]) k=i; bool feat=t->s=="Feature",fc=t->s=="FeatureCollection"; if(!k&&!feat&&!fc) return false;
    const char*tn=feat?"geometry":fc?"features":k==GC?"geometries":"coordinates"; const J*target=nullptr; string extra; bool props=false,id=false;
    for(auto&m:j.o){ const string&n=m.first.s; if(n=="type") continue; if(n==tn){ target=&m.second; continue; } bool skip=false;
        if(feat&&n=="properties"){ if(props) skip=true; else if(m.second.t==J::NUL) skip=true; else if(m.second.t==J::OBJ) skip=m.second.o.empty(); else return false; props=true; }
        else if(feat&&n=="id"){ if(id) skip=true; else if(m.second.t!=J::STR&&m.second.t!=J::NUM) return false; id=true; }
        if(!skip) extra+=(extra.empty()?"{":",")+mini(m.first)+":"+mini(m.second); }
    if(!extra.empty()) extra+="}"; if(!target) return false;
    if(feat){ if(target->t==J::NUL){ g.type=POINT; } else { if(!geojson(*target,g)||g.feature||g.fc) return false; } g.feature=true; if(!g.extra.empty()) extra="["+(extra.empty()?string("{}"):extra)+","+g.extra+"]"; g.extra=extra; return true; }
    if(target->t!=J::ARR) return false; g.extra=extra;
    if(fc||k==GC){ g.type=GC; g.fc=fc; for(auto&e:target->a){ G c; if(!geojson(e,c)||c.fc||c.feature!=fc) return false; g.kids.push_back(std::move(c)); } return true; }
    g.type=k; int dims=0; if(target->a.empty()) return true;
    switch(k){ case POINT: { P4 p; if(!jpos(*target,p,dims)) return false; g.pts={p}; break; } case LINE: if(!jseq(*target,g.pts,dims,1)) return false; break; case POLY: if(!jrings(*target,g.rings,dims,2)) return false; break; case MPOINT: if(!jseq(*target,g.pts,dims,0)) return false; break; case MLINE: if(!jrings(*target,g.rings,dims,1)) return false; break;
    case MPOLY: for(auto&e:target->a){ Rings r; if(!jrings(e,r,dims,2)||r.empty()) return false; g.polys.push_back(r); } }
    g.z=dims>=3; g.m=dims==4; return true; }
static inline bool parse_geojson(const string&s,G&g){ J j; return json(s,j)&&geojson(j,g); }

// ---- WKT ----
struct WP { const char*b; size_t n,i=0; 
    static bool sp(char c){ return c==' '||c=='\t'||c=='\n'||c=='\r'; }
    bool ws(){ size_t s=i; while(i<n&&sp(b[i])) i++; return i>s; }
    bool word(string&w){ w.clear(); while(i<n&&((b[i]>='a'&&b[i]<='z')||(b[i]>='A'&&b[i]<='Z'))) w+=(char)(b[i++]&~32); return !w.empty(); }
    bool num(double&d){ size_t s=i; auto dig=[&]{ size_t k=i; while(i<n&&b[i]>='0'&&b[i]<='9') i++; return i>k; }; if(i<n&&b[i]=='-') i++; bool a=dig(); if(i<n&&b[i]=='.'){ i++; if(!dig()) return false; } else if(!a) return false; if(i<n&&(b[i]=='e'||b[i]=='E')){ i++; if(i<n&&(b[i]=='+'||b[i]=='-')) i++; if(!dig()) return false; } d=strtod(string(b+s,i-s).c_str(),0); return true; }
    // a position: numbers with space between; surrounding space allowed
    bool pos(P4&p,int&dims){ p={0,0,0,0}; int d=0; ws(); for(;;){ double v; if(!num(v)) return false; if(d==4) return false; p[d++]=v; if(!ws()) break; if(i<n&&(b[i]==','||b[i]==')')) break; } if(d<2) return false; if(!dims) dims=d; return d==dims; }
    bool seq(Seq&s,int&dims,int kind){ ws(); if(i>=n||b[i++]!='(') return false; ws(); if(kind==0&&i<n&&b[i]==')'){ i++; return true; } bool par=kind==0&&i<n&&b[i]=='('; for(;;){ ws(); P4 p; if(par){ if(i>=n||b[i++]!='(') return false; } if(!pos(p,dims)) return false; if(par){ ws(); if(i>=n||b[i++]!=')') return false; } s.push_back(p); ws(); if(i>=n) return false; if(b[i]==','){ i++; continue; } if(b[i]==')'){ i++; break; } return false; }
        if(kind==1&&s.size()<2) return false; if(kind==2&&(s.size()<3||s[0][0]!=s.back()[0]||s[0][1]!=s.back()[1])) return false; return true; }
    bool rings(Rings&r,int&dims,int kind){ ws(); if(i>=n||b[i++]!='(') return false; ws(); if(kind==1&&i<n&&b[i]==')'){ i++; return true; } for(;;){ Seq s; if(!seq(s,dims,kind)) return false; r.push_back(s); ws(); if(i>=n) return false; if(b[i]==','){ i++; continue; } if(b[i]==')'){ i++; return true; } return false; } }
    bool geom(G&g,int depth){ if(depth>1024) return false; ws(); string w; if(!word(w)) return false; string label; int k=0;
        for(int q=1;q<=7;q++) for(const char*l:{"","Z","M","ZM"}) if(w==string(NAME[q])+l){ k=q; label=l; } if(!k) return false;
        bool sp1=ws(); bool empty=false; size_t at=i; if(word(w)){ if(!sp1) return false; if(label.empty()&&(w=="Z"||w=="M"||w=="ZM")){ label=w; bool sp2=ws(); at=i; if(word(w)){ if(!sp2||w!="EMPTY") return false; empty=true; } } else if(w=="EMPTY") empty=true; else return false; } (void)at;
        g.type=k; g.z=label[0]=='Z'; g.m=!label.empty()&&label.back()=='M'; if(empty) return true;
        int dims=label.empty()?0:(int)label.size()+2;
        switch(k){ case POINT: { ws(); if(i>=n||b[i++]!='(') return false; P4 p; if(!pos(p,dims)) return false; ws(); if(i>=n||b[i++]!=')') return false; g.pts={p}; break; } case LINE: if(!seq(g.pts,dims,1)) return false; break; case POLY: if(!rings(g.rings,dims,2)) return false; break; case MPOINT: if(!seq(g.pts,dims,0)) return false; break; case MLINE: if(!rings(g.rings,dims,1)) return false; break;
        case MPOLY: { ws(); if(i>=n||b[i++]!='(') return false; ws(); if(i<n&&b[i]==')'){ i++; break; } for(;;){ Rings r; if(!rings(r,dims,2)) return false; g.polys.push_back(r); ws(); if(i>=n) return false; if(b[i]==','){ i++; continue; } if(b[i]==')'){ i++; break; } return false; } break; }
        case GC: { ws(); if(i>=n||b[i++]!='(') return false; for(;;){ G c; if(!geom(c,depth+1)) return false; g.kids.push_back(std::move(c)); ws(); if(i>=n) return false; if(b[i]==','){ i++; continue; } if(b[i]==')'){ i++; return true; } return false; } } }
        if(dims==4){ g.z=g.m=true; fix(g,2); } else if(dims==3){ if(!g.m) g.z=true; else fix(g,1); } return true; }
    // the third number of XYM goes to m
    static void fixs(Seq&s){ for(auto&p:s){ p[3]=p[2]; p[2]=0; } }
    static void fix(G&g,int how){ if(how!=1) return; fixs(g.pts); for(auto&r:g.rings) fixs(r); for(auto&p:g.polys) for(auto&r:p) fixs(r); } };
static inline int parens(const string&s){ int d=0,m=0; for(char c:s){ if(c=='(') m=std::max(m,++d); else if(c==')') d--; } return m; }
static inline bool parse_wkt(const string&s,G&g){ WP p{s.data(),s.size()}; if(!p.geom(g,1)) return false; p.ws(); return p.i==p.n; }

// ---- WKB, hex, GeoBIN ----
struct BP { const unsigned char*b; size_t n,i=0; bool be=false; bool toolong=false;
    bool u32(uint32_t&v){ if(n-i<4) return false; v=0; for(int k=0;k<4;k++) v|=(uint32_t)b[i+k]<<(be?24-8*k:8*k); i+=4; return true; }
    bool dbl(double&d){ if(n-i<8) return false; uint64_t v=0; for(int k=0;k<8;k++) v|=(uint64_t)b[i+k]<<(be?56-8*k:8*k); i+=8; memcpy(&d,&v,8); return true; }
    bool pos(P4&p,const G&g){ p={0,0,0,0}; if(!dbl(p[0])||!dbl(p[1])) return false; if(g.z&&!dbl(p[2])) return false; if(g.m&&!dbl(p[3])) return false; return true; }
    bool seq(Seq&s,const G&g,int kind){ uint32_t c; if(!u32(c)) return false; for(uint32_t k=0;k<c;k++){ P4 p; if(!pos(p,g)) return false; s.push_back(p); } if(kind==1&&s.size()==1) return false; if(kind==2&&(s.size()<3||!(s[0][0]==s.back()[0]&&s[0][1]==s.back()[1]))) return false; return true; }
    bool rings(Rings&r,const G&g){ uint32_t c; if(!u32(c)) return false; for(uint32_t k=0;k<c;k++){ Seq s; if(!seq(s,g,2)) return false; r.push_back(s); } return true; }
    bool geom(G&g,int depth){ if(depth>1024) return false; if(i>=n||b[i]>1) return false; be=b[i++]==0; bool my=be; uint32_t t; if(!u32(t)) return false; uint32_t fl=t>>16; t&=0xFFFF; if(fl&~0xE000u) return false; if(fl&0x2000){ uint32_t srid; if(!u32(srid)) return false; }
        if(fl&0xC000){ if(t<1||t>7) return false; g.type=t; g.z=fl&0x8000; g.m=fl&0x4000; } else { int q=t/1000; g.type=t%1000; if(q>3||g.type<1||g.type>7) return false; g.z=q&1; g.m=q&2; }
        switch(g.type){ case POINT: { P4 p; if(!pos(p,g)) return false; bool nan=p[0]!=p[0]&&p[1]!=p[1]&&(!g.z||p[2]!=p[2])&&(!g.m||p[3]!=p[3]); if(!nan) g.pts={p}; break; } case LINE: if(!seq(g.pts,g,1)) return false; break; case POLY: if(!rings(g.rings,g)) return false; break;
        default: { uint32_t c; if(!u32(c)) return false; for(uint32_t k=0;k<c;k++){ G e; if(!geom(e,depth+1)) return false; be=my; if(g.type!=GC){ if(e.type!=g.type-3) return false; if(e.empty()) continue; if(e.z!=g.z||e.m!=g.m) return false; } switch(g.type){ case MPOINT: g.pts.push_back(e.pts[0]); break; case MLINE: g.rings.push_back(e.pts); break; case MPOLY: g.polys.push_back(e.rings); break; default: g.kids.push_back(std::move(e)); } } } }
        return true; }
    bool geobin(G&g,int depth){ if(depth>1024) return false; if(i>=n) return false; if(b[i]==1) return geom(g,depth); int h=b[i++]; if(h<2||h>4) return false; if(i>=n) return false; int dims=b[i++]; if(dims==1||dims>4) return false; if(n-i<(size_t)dims*16) return false; i+=dims*16; size_t s=i; while(i<n&&b[i]) i++; if(i>=n) return false; string x((const char*)b+s,i-s); i++; string ex; if(!x.empty()){ J j; if(!json(x,j)) return false; ex=mini(j); }
        if(h==4){ be=false; uint32_t c; if(!u32(c)) return false; g.type=GC; g.fc=true; for(uint32_t k=0;k<c;k++){ G e; if(!geobin(e,depth+1)) return false; g.kids.push_back(std::move(e)); be=false; } } else { if(!geom(g,depth)) return false; g.feature=h==3; }
        g.extra=ex; return true; } };
static inline bool parse_wkb(const string&s,G&g){ BP p{(const unsigned char*)s.data(),s.size()}; return p.geom(g,0); }
static inline bool parse_geobin(const string&s,G&g){ BP p{(const unsigned char*)s.data(),s.size()}; return p.geobin(g,0); }
static inline bool unhex(const string&s,string&o){ if(s.empty()||s.size()%2) return false; for(size_t i=0;i<s.size();i+=2){ int a=JP::hexv((unsigned char)s[i]),b=JP::hexv((unsigned char)s[i+1]); if(a<0||b<0) return false; o+=(char)(a*16+b); } return true; }
static inline bool parse_hex(const string&s,G&g){ string o; if(!unhex(s,o)) return false; unsigned char c=o[0]; return c>=2&&c<=4?parse_geobin(o,g):parse_wkb(o,g); }
// the bytes of a geometry; be: big endian; srid: with the SRID flag on the outer geometry (1) or on all (2); flags: Z and M as extended flags
struct WO { bool be=false; int srid=0; bool flags=false; bool mixed=false; };
static inline void o32(string&o,uint32_t v,bool be){ for(int k=0;k<4;k++) o+=(char)(v>>(be?24-8*k:8*k)); }
static inline void od(string&o,double d,bool be){ uint64_t v; memcpy(&v,&d,8); for(int k=0;k<8;k++) o+=(char)(v>>(be?56-8*k:8*k)); }
static inline void owkb(string&o,const G&g,WO w,int depth=0){ bool be=w.be^(w.mixed&&depth%2); o+=(char)!be; bool z=g.z,m=g.m; if(g.type==GC) z=m=false; uint32_t t=g.type; if(w.flags) t|=(z?0x80000000u:0)|(m?0x40000000u:0); else t+=(z?1000:0)+(m?2000:0); bool srid=w.srid==2||(w.srid==1&&!depth); if(srid) t|=0x20000000u; o32(o,t,be); if(srid) o32(o,4326,be);
    auto pos=[&](const P4&p){ od(o,p[0],be); od(o,p[1],be); if(z) od(o,p[2],be); if(m) od(o,p[3],be); }; auto seq=[&](const Seq&s){ o32(o,s.size(),be); for(auto&p:s) pos(p); }; auto rings=[&](const Rings&r){ o32(o,r.size(),be); for(auto&s:r) seq(s); };
    auto sub=[&](const G&e){ owkb(o,e,w,depth+1); };
    switch(g.type){ case POINT: if(g.pts.empty()) pos({NAN,NAN,NAN,NAN}); else pos(g.pts[0]); break; case LINE: seq(g.pts); break; case POLY: rings(g.rings); break;
    case MPOINT: o32(o,g.pts.size(),be); for(auto&p:g.pts){ G e; e.type=POINT; e.z=z; e.m=m; e.pts={p}; sub(e); } break; case MLINE: o32(o,g.rings.size(),be); for(auto&r:g.rings){ G e; e.type=LINE; e.z=z; e.m=m; e.pts=r; sub(e); } break; case MPOLY: o32(o,g.polys.size(),be); for(auto&p:g.polys){ G e; e.type=POLY; e.z=z; e.m=m; e.rings=p; sub(e); } break;
    case GC: o32(o,g.kids.size(),be); for(auto&k:g.kids) sub(k); } }
static inline string wkb(const G&g,WO w=WO()){ string o; owkb(o,g,w); return o; }
static inline string hex(const string&b,bool lower=false){ string o; const char*d=lower?"0123456789abcdef":"0123456789ABCDEF"; for(unsigned char c:b){ o+=d[c>>4]; o+=d[c&15]; } return o; }

// ---- from and to the library ----
static inline string xcanon(const char*x){ if(!x) return ""; J j; if(!json(x,j)) return string("(not json) ")+x; return mini(j); }
static inline G fromtg(const tg_geom*g){ G r; if(!g){ r.type=0; return r; } r.type=tg_geom_typeof(g); r.z=tg_geom_has_z(g); r.m=tg_geom_has_m(g); r.feature=tg_geom_is_feature(g); r.fc=tg_geom_is_featurecollection(g); r.extra=xcanon(tg_geom_extra_json(g));
    const double*x=tg_geom_extra_coords(g); int nx=tg_geom_num_extra_coords(g),k=0; auto nextx=[&]{ double v=k<nx?x[k]:0; k++; return v; }; auto mk=[&](tg_point p){ P4 q={p.x,p.y,0,0}; if(r.z) q[2]=nextx(); if(r.m) q[3]=nextx(); return q; };
    auto line=[&](const tg_line*l){ Seq s; for(int i=0;i<tg_line_num_points(l);i++) s.push_back(mk(tg_line_point_at(l,i))); return s; }; auto ring=[&](const tg_ring*l){ Seq s; for(int i=0;i<tg_ring_num_points(l);i++) s.push_back(mk(tg_ring_point_at(l,i))); return s; };
    auto poly=[&](const tg_poly*p){ Rings rs; rs.push_back(ring(tg_poly_exterior(p))); for(int i=0;i<tg_poly_num_holes(p);i++) rs.push_back(ring(tg_poly_hole_at(p,i))); return rs; };
    bool em=tg_geom_is_empty(g);
    switch(r.type){ case POINT: if(!em){ tg_point p=tg_geom_point(g); r.pts={P4{p.x,p.y,r.z?tg_geom_z(g):0,r.m?tg_geom_m(g):0}}; } break; case LINE: if(tg_geom_line(g)) r.pts=line(tg_geom_line(g)); break; case POLY: if(tg_geom_poly(g)) { r.rings=poly(tg_geom_poly(g)); if(r.rings.size()==1&&r.rings[0].empty()) r.rings.clear(); } break;
    case MPOINT: for(int i=0;i<tg_geom_num_points(g);i++) r.pts.push_back(mk(tg_geom_point_at(g,i))); break; case MLINE: for(int i=0;i<tg_geom_num_lines(g);i++) r.rings.push_back(line(tg_geom_line_at(g,i))); break; case MPOLY: for(int i=0;i<tg_geom_num_polys(g);i++) r.polys.push_back(poly(tg_geom_poly_at(g,i))); break;
    case GC: for(int i=0;i<tg_geom_num_geometries(g);i++) r.kids.push_back(fromtg(tg_geom_geometry_at(g,i))); }
    return r; }
static inline void xc(const Seq&s,const G&g,vector<double>&o){ for(auto&p:s){ if(g.z) o.push_back(p[2]); if(g.m) o.push_back(p[3]); } }
static int keep=-1; // how many of the extra coordinates a constructor is given: -1 all; beyond all: more of them
static inline const double*some(vector<double>&x){ static vector<double*> old; if(keep<0) return x.data(); while((int)x.size()<keep) x.push_back(77.5+x.size()); x.resize(keep); double*p=(double*)malloc(keep*sizeof(double)+!keep); memcpy(p,x.data(),keep*sizeof(double)); for(auto q:old) free(q); old.clear(); old.push_back(p); return p; }
// a geometry with what is not given set to zero
static inline G padded(const G&g,int n){ G o=g; int k=0; auto seq=[&](Seq&s){ for(auto&p:s){ if(g.z&&k++>=n) p[2]=0; if(g.m&&k++>=n) p[3]=0; } }; if(o.type==POINT||o.type==GC) return o; seq(o.pts); for(auto&r:o.rings) seq(r); for(auto&q:o.polys) for(auto&r:q) seq(r); return o; }
static inline int extras(const G&g){ int n=g.pts.size(); for(auto&r:g.rings) n+=r.size(); for(auto&q:g.polys) for(auto&r:q) n+=r.size(); return n*(g.z+g.m); }
// builds the geometry with the constructors of the library; z and m of a collection and all metadata are left out
static inline tg_geom*totg(const G&g,enum tg_index ix=TG_DEFAULT){
    int d=(g.z?1:0)+(g.m?2:0); vector<double> x; auto pts=[&](const Seq&s){ vector<tg_point> v; for(auto&p:s) v.push_back({p[0],p[1]}); return v; };
    auto line=[&](const Seq&s){ auto v=pts(s); xc(s,g,x); return tg_line_new_ix(v.data(),v.size(),ix); }; auto ring=[&](const Seq&s){ auto v=pts(s); xc(s,g,x); return tg_ring_new_ix(v.data(),v.size(),ix); };
    auto poly=[&](const Rings&r){ vector<tg_ring*> h; for(auto&s:r) h.push_back(ring(s)); tg_poly*p=tg_poly_new(h[0],(const tg_ring*const*)h.data()+1,h.size()-1); for(auto q:h) tg_ring_free(q); return p; };
    tg_geom*o=nullptr;
    switch(g.type){
    case POINT: { if(g.pts.empty()) return tg_geom_new_point_empty(); auto&p=g.pts[0]; tg_point q={p[0],p[1]}; return d==0?tg_geom_new_point(q):d==1?tg_geom_new_point_z(q,p[2]):d==2?tg_geom_new_point_m(q,p[3]):tg_geom_new_point_zm(q,p[2],p[3]); }
    case LINE: { if(g.pts.empty()) return tg_geom_new_linestring_empty(); auto l=line(g.pts); auto X=some(x); o=d==0?tg_geom_new_linestring(l):(d==1?tg_geom_new_linestring_z:d==2?tg_geom_new_linestring_m:tg_geom_new_linestring_zm)(l,X,x.size()); tg_line_free(l); return o; }
    case POLY: { if(g.rings.empty()) return tg_geom_new_polygon_empty(); auto l=poly(g.rings); auto X=some(x); o=d==0?tg_geom_new_polygon(l):(d==1?tg_geom_new_polygon_z:d==2?tg_geom_new_polygon_m:tg_geom_new_polygon_zm)(l,X,x.size()); tg_poly_free(l); return o; }
    case MPOINT: { auto v=pts(g.pts); xc(g.pts,g,x); auto X=some(x); return d==0?tg_geom_new_multipoint(v.data(),v.size()):(d==1?tg_geom_new_multipoint_z:d==2?tg_geom_new_multipoint_m:tg_geom_new_multipoint_zm)(v.data(),v.size(),X,x.size()); }
    case MLINE: { vector<tg_line*> v; for(auto&s:g.rings) v.push_back(line(s)); auto L=(const tg_line*const*)v.data(); auto X=some(x); o=d==0?tg_geom_new_multilinestring(L,v.size()):(d==1?tg_geom_new_multilinestring_z:d==2?tg_geom_new_multilinestring_m:tg_geom_new_multilinestring_zm)(L,v.size(),X,x.size()); for(auto q:v) tg_line_free(q); return o; }
    case MPOLY: { vector<tg_poly*> v; for(auto&s:g.polys) v.push_back(poly(s)); auto L=(const tg_poly*const*)v.data(); auto X=some(x); o=d==0?tg_geom_new_multipolygon(L,v.size()):(d==1?tg_geom_new_multipolygon_z:d==2?tg_geom_new_multipolygon_m:tg_geom_new_multipolygon_zm)(L,v.size(),X,x.size()); for(auto q:v) tg_poly_free(q); return o; }
    default: { vector<tg_geom*> v; for(auto&k:g.kids) v.push_back(totg(k,ix)); o=tg_geom_new_geometrycollection((const tg_geom*const*)v.data(),v.size()); for(auto q:v) tg_geom_free(q); return o; } } }
static inline string show(const string&s,size_t max=300){ string o; for(unsigned char c:s){ if(o.size()>max){ o+="..."; break; } if(c>=32&&c<127&&c!='\\') o+=(char)c; else { char b[6]; snprintf(b,6,"\\x%02x",c); o+=b; } } return o; }
} // namespace ref
