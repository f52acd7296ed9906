// An enumerated family of geometries as reference values: every type, dimension, emptiness and small structure, over
// several patterns of coordinate values, alone, paired, in threes and nested.
#pragma once
#include "ref.hpp"
#include "mc.hpp"
#include <limits>
namespace gf {
using ref::G; using std::vector; using std::string;
enum { NPAT=6 }; // 0 integers, 1 decimals, 2 extremes of the normal range, 3 long digits, 4 special values, 5 signed zeros and bit patterns
static inline double bits(uint64_t u){ double d; memcpy(&d,&u,8); return d; }
static inline double value(int pat,int k,int axis){ int q=k*4+axis;
    switch(pat){ case 0: return (q*5+axis*3)%19-7; case 1: return ((q*37)%101-50)/10.0+axis*0.01; 
    case 2: { static const double v[]={1.7976931348623157e308,2.2250738585072014e-308,-1e300,3e-300,1e21,-123456789012345680000.0,9007199254740994.0,1e-7,-1e22,4.35,999999999999999.9}; return v[(q*3+axis)%11]; }
    case 3: return (q%2?-1:1)*(1.0/(q+3))*(axis==0?1:axis==1?1e9:axis==2?1e-12:1e17);
    case 4: { static const double v[]={5e-324,std::numeric_limits<double>::infinity(),-std::numeric_limits<double>::infinity(),-2e-310,0.0,-0.0,std::numeric_limits<double>::max()}; return v[(q+axis)%7]; }
    default: return k%2?-0.0:axis>=2?bits(0x7FF0000000000001ull+(q%3)*0x8000000000000000ull/2+q):bits(0x0123456789ABCDEFull*(uint64_t)(q+1)>>1); } }
struct Gen { int pat; bool z,m; int k=0;
    ref::P4 p(){ ref::P4 o={value(pat,k,0),value(pat,k,1),z?value(pat,k,2):0,m?value(pat,k,3):0}; for(int i=0;i<2;i++) if(o[i]!=o[i]) o[i]=k; k++; return o; }
    ref::Seq seq(int n){ ref::Seq s; for(int i=0;i<n;i++) s.push_back(p()); return s; }
    ref::Seq ring(int n){ ref::Seq s=seq(n); s.back()[0]=s[0][0]; s.back()[1]=s[0][1]; return s; } // z and m of the last vertex may differ
    ref::Rings rings(vector<int> v){ ref::Rings r; for(int n:v) r.push_back(ring(n)); return r; } };
struct Shape { int type; vector<vector<int>> s; };
static inline const vector<Shape>&shapes(){ static vector<Shape> v={ {ref::POINT,{{1}}}, {ref::LINE,{{2}}},{ref::LINE,{{3}}},{ref::LINE,{{5}}}, {ref::POLY,{{4}}},{ref::POLY,{{3}}},{ref::POLY,{{5}}},{ref::POLY,{{4,4}}},{ref::POLY,{{4,5,4}}}, {ref::MPOINT,{{1}}},{ref::MPOINT,{{2}}},{ref::MPOINT,{{3}}}, {ref::MLINE,{{2}}},{ref::MLINE,{{2,3}}},{ref::MLINE,{{3,2,2}}}, {ref::MPOLY,{{4}}},{ref::MPOLY,{{4,4}}},{ref::MPOLY,{{4},{5,4}}},{ref::MPOLY,{{4},{3},{4,4}}} }; return v; }
static inline G leaf(const Shape&s,int dm,int pat,int k0=0){ G g; g.type=s.type; g.z=dm==1||dm==3; g.m=dm>=2; Gen n{pat,g.z,g.m,k0}; auto&f=s.s[0];
    switch(s.type){ case ref::POINT: case ref::LINE: case ref::MPOINT: g.pts=n.seq(f[0]); break; case ref::POLY: g.rings=n.rings(f); break; case ref::MLINE: for(int q:f) g.rings.push_back(n.seq(q)); break; default: for(auto&q:s.s) g.polys.push_back(n.rings(q)); } return g; }
static inline G none(int t){ G g; g.type=t; return g; }
static inline G gc(vector<G> k){ G g; g.type=ref::GC; g.kids=k; for(auto&c:k){ g.z|=c.z; g.m|=c.m; } return g; }
struct Opt { bool special=false; bool monly=true; bool lists=true; bool empties=true; };
// the family; stable numbering for one set of options
static inline vector<G> family(Opt o=Opt()){ vector<G> v,small,mini; int np=o.special?NPAT:4;
    for(auto&s:shapes()) for(int dm=0;dm<4;dm++){ if(dm==2&&!o.monly) continue; for(int pat=0;pat<np;pat++){ v.push_back(leaf(s,dm,pat)); if(pat==(dm&1)) small.push_back(v.back()); } }
    if(o.empties) for(int t=1;t<=7;t++){ v.push_back(none(t)); small.push_back(v.back()); }
    for(int i:{0,1,4,7,10,13,16,17}) for(int dm:{0,3}) mini.push_back(leaf(shapes()[i],dm,1,dm)); if(o.empties) for(int t:{1,2,3,6,7}) mini.push_back(none(t));
    size_t n=v.size(); for(size_t i=0;i<n;i++){ v.push_back(gc({v[i]})); v.push_back(gc({gc({v[i]})})); }
    if(o.lists){ for(auto&a:small) for(auto&b:small) v.push_back(gc({a,b}));
        for(auto&a:mini) for(auto&b:mini) for(auto&c:mini) v.push_back(gc({a,b,c}));
        for(auto&a:small) for(auto&b:mini){ v.push_back(gc({a,gc({b})})); v.push_back(gc({gc({a,b}),b})); v.push_back(gc({gc({gc({b}),a}),gc({})})); } }
    return v; }
// one geometry of n positions, rings, parts or levels, each count in turn
enum { NSIZED=14 };
static inline bool sized(int kind,int n,int dm,int pat,G&g){ g=G(); g.z=dm==1||dm==3; g.m=dm>=2; Gen q{pat,g.z,g.m}; auto R=[&](int k){ return q.rings({k}); };
    switch(kind){ case 0: if(n<2) return false; g.type=ref::LINE; g.pts=q.seq(n); return true; case 1: if(n<3) return false; g.type=ref::POLY; g.rings=R(n); return true; case 2: if(n<3) return false; g.type=ref::POLY; g.rings=q.rings({4,n,3}); return true;
    case 3: g.type=ref::POLY; g.rings=q.rings(vector<int>(n,3)); return true; case 4: g.type=ref::MPOINT; g.pts=q.seq(n); return true; case 5: g.type=ref::MLINE; for(int i=0;i<n;i++) g.rings.push_back(q.seq(2+i%2)); return true; case 6: if(n<2) return false; g.type=ref::MLINE; g.rings={q.seq(2),q.seq(n),q.seq(3)}; return true;
    case 7: g.type=ref::MPOLY; for(int i=0;i<n;i++) g.polys.push_back(R(3+i%2)); return true; case 8: g.type=ref::MPOLY; g.polys={R(4),q.rings(vector<int>(n,3)),R(3)}; return true; case 9: if(n<3) return false; g.type=ref::MPOLY; g.polys={R(3),R(n)}; return true;
    case 10: case 11: { vector<G> k; for(int i=0;i<n;i++) k.push_back(kind==10||i%4==0?leaf(shapes()[0],dm,pat,i):i%4==1?leaf(shapes()[1],dm,pat,i):i%4==2?leaf(shapes()[4],dm,pat,i):none(1+i/4%6)); g=gc(k); return true; }
    case 12: if(n>250) return false; g=leaf(shapes()[1],dm,pat); for(int i=0;i<n;i++) g=i%3?gc({g}):gc({g,leaf(shapes()[0],dm,pat,i)}); return true; default: if(n<2) return false; { G a,b; sized(4,n,dm,pat,a); sized(0,n,dm,pat,b); g=gc({a,b}); } return true; } }
static inline string num17(double v){ char b[40]; snprintf(b,40,"%.17g",v); return b; }
static inline string pos(const ref::P4&p,bool z,bool m,const char*sep){ string o=num17(p[0])+sep+num17(p[1]); if(z) o+=sep+num17(p[2]); if(m) o+=sep+num17(p[3]); return o; }
// text of a geometry; spaced: with white space wherever it may be
static inline string wkt(const G&g,bool sp){ static const char*T[]={"","POINT","LINESTRING","POLYGON","MULTIPOINT","MULTILINESTRING","MULTIPOLYGON","GEOMETRYCOLLECTION"}; string w=sp?" \t\n":"",o=T[g.type]; if(g.type!=ref::GC&&(g.z||g.m)) o+=string(sp?" \n ":" ")+(g.z?"Z":"")+(g.m?"M":"");
    auto list=[&](auto&v,auto f){ string s="("; int k=0; for(auto&x:v){ if(k++) s+=w+","; s+=w+f(x); } return s+w+")"; }; auto P=[&](const ref::P4&p){ return pos(p,g.z,g.m,sp?"  ":" "); }; auto S=[&](const ref::Seq&q){ return list(q,P); }; auto RR=[&](const ref::Rings&r){ return list(r,S); };
    bool e=g.pts.empty()&&g.rings.empty()&&g.polys.empty()&&g.kids.empty(); if(e) return o+" EMPTY"; o+=w;
    switch(g.type){ case ref::POINT: case ref::LINE: return o+S(g.pts); case ref::MPOINT: return sp?o+list(g.pts,[&](const ref::P4&p){ return "("+P(p)+w+")"; }):o+S(g.pts); case ref::POLY: case ref::MLINE: return o+RR(g.rings); case ref::MPOLY: return o+list(g.polys,RR); default: return o+list(g.kids,[&](const G&k){ return wkt(k,sp); }); } }
static inline string json(const G&g,bool sp){ static const char*T[]={"","Point","LineString","Polygon","MultiPoint","MultiLineString","MultiPolygon","GeometryCollection"}; string w=sp?" \n":""; auto list=[&](auto&v,auto f){ string s="["; int k=0; for(auto&x:v){ if(k++) s+=w+","; s+=w+f(x); } return s+w+"]"; }; auto P=[&](const ref::P4&p){ return "["+w+pos(p,g.z||g.m,g.z&&g.m,sp?" , ":",")+w+"]"; }; auto S=[&](const ref::Seq&q){ return list(q,P); }; auto RR=[&](const ref::Rings&r){ return list(r,S); };
    string c; switch(g.type){ case ref::POINT: c=g.pts.empty()?"[]":P(g.pts[0]); break; case ref::LINE: case ref::MPOINT: c=S(g.pts); break; case ref::POLY: case ref::MLINE: c=RR(g.rings); break; case ref::MPOLY: c=list(g.polys,RR); break; default: c=list(g.kids,[&](const G&k){ return json(k,sp); }); }
    string m=string("\"")+(g.type==ref::GC?"geometries":"coordinates")+"\""+w+":"+w+c,t=string("\"type\"")+w+":"+w+"\""+T[g.type]+"\""; return sp?"{"+w+m+w+","+w+t+w+"}":"{"+t+","+m+"}"; }
} // namespace gf
