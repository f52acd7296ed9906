// C04: collections answer predicates part by part.
#include "alloc.hpp"
#include "fam.hpp"
#include "raster.hpp"
#include <array>
#include "mc.hpp"
using namespace std;

// parts: -1..-5 are empty geometries
struct Part { Geo g; int empty; Loc l; };
static vector<Part> U; static int NE; // the first U.size()-NE are not empty
static vector<vector<Rel>> R;
static tg_geom *mkpart(int i,int form=0){
    const Part&p=U[i];
    switch(p.empty){ case 1: return tg_geom_new_point_empty(); case 2: return tg_geom_new_linestring_empty(); case 3: return tg_geom_new_polygon_empty(); case 4: return tg_geom_new_geometrycollection_empty(); case 5: return tg_geom_new_multipoint_empty(); }
    if(form==1){ if(p.g.kind==K_LINE) return (tg_geom*)tg_line_new(tp(p.g.lines[0]),p.g.lines[0].size()); if(p.g.kind==K_POLY){ if(p.g.polys[0].holes.empty()) return (tg_geom*)mkring(p.g.polys[0].ext,TG_DEFAULT); return (tg_geom*)mkpoly(p.g.polys[0],TG_DEFAULT);} }
    if(form==2&&p.g.kind==K_POLY) return (tg_geom*)mkpoly(p.g.polys[0],TG_DEFAULT);
    return mkgeom(p.g);
}
static string pname(int i){ const Part&p=U[i]; switch(p.empty){ case 1: return "POINT EMPTY"; case 2: return "LINESTRING EMPTY"; case 3: return "POLYGON EMPTY"; case 4: return "GEOMETRYCOLLECTION EMPTY"; case 5: return "MULTIPOINT EMPTY";} return gstr(p.g); }
static string crd(P p){ char b[64]; snprintf(b,64,"[%g,%g]",p.x,p.y); return b; }
static string crds(Pts v){ string s="["; for(size_t i=0;i<v.size();i++) s+=(i?",":"")+crd(v[i]); return s+"]"; }
static string pcrds(const Poly&p){ string s="["+crds(closed(p.ext)); for(auto&h:p.holes) s+=","+crds(closed(h)); return s+"]"; }
static string pjson(int i){ const Part&p=U[i]; switch(p.empty){ case 1: return "{\"type\":\"Point\",\"coordinates\":[]}"; case 2: return "{\"type\":\"LineString\",\"coordinates\":[]}"; case 3: return "{\"type\":\"Polygon\",\"coordinates\":[]}"; case 4: return "{\"type\":\"GeometryCollection\",\"geometries\":[]}"; case 5: return "{\"type\":\"MultiPoint\",\"coordinates\":[]}"; }
    if(p.g.kind==K_POINT) return "{\"type\":\"Point\",\"coordinates\":"+crd(p.g.pts[0])+"}"; if(p.g.kind==K_LINE) return "{\"type\":\"LineString\",\"coordinates\":"+crds(p.g.lines[0])+"}"; return "{\"type\":\"Polygon\",\"coordinates\":"+pcrds(p.g.polys[0])+"}"; }

struct Obj { vector<int> parts; string name; tg_geom*t; };
static tg_geom *gc(vector<tg_geom*> v){ auto r=tg_geom_new_geometrycollection(v.data(),v.size()); for(auto x:v) tg_geom_free(x); return r; }
enum { S_PLAIN, S_GC, S_GCGC, S_GCGCGC, S_LN, S_RN, S_BOTH, S_ALLN, S_FC, S_FEAT, S_MULTI, S_FORM1, S_FORM2, S_LR };
static const char*SN[]={"","GC","GC(GC)","GC(GC(GC))","GC(GC(first),..)","GC(..,GC(last))","GC(GC,GC..)","GC(GC(all))","FeatureCollection","Feature","Multi","ring/line","poly","GC(first,GC(rest))"};
static bool mk(const vector<int>&ids,int shape,Obj&o){
    o.parts.clear(); for(int i:ids) if(!U[i].empty) o.parts.push_back(i); o.name=string(SN[shape])+":"; for(int i:ids) o.name+=" "+pname(i);
    auto P=[&](int k){ return mkpart(ids[k]); }; size_t n=ids.size(); vector<tg_geom*> v;
    switch(shape){
    case S_PLAIN: o.t=P(0); return n==1;
    case S_FORM1: if(n!=1||U[ids[0]].empty||U[ids[0]].g.kind==K_POINT) return false; o.t=mkpart(ids[0],1); return true;
    case S_FORM2: if(n!=1||U[ids[0]].empty||U[ids[0]].g.kind!=K_POLY) return false; o.t=mkpart(ids[0],2); return true;
    case S_GC: for(size_t k=0;k<n;k++) v.push_back(P(k)); o.t=gc(v); return true;
    case S_GCGC: case S_ALLN: for(size_t k=0;k<n;k++) v.push_back(P(k)); o.t=gc({gc(v)}); return shape==S_GCGC?n==1:true;
    case S_GCGCGC: for(size_t k=0;k<n;k++) v.push_back(P(k)); o.t=gc({gc({gc(v)})}); return true;
    case S_LN: v.push_back(gc({P(0)})); for(size_t k=1;k<n;k++) v.push_back(P(k)); o.t=gc(v); return true;
    case S_RN: for(size_t k=0;k+1<n;k++) v.push_back(P(k)); v.push_back(gc({P(n-1)})); o.t=gc(v); return true;
    case S_LR: { for(size_t k=1;k<n;k++) v.push_back(P(k)); auto r=gc(v); o.t=gc({P(0),r}); return true; }
    case S_BOTH: for(size_t k=0;k<n;k++) v.push_back(gc({P(k)})); o.t=gc(v); return true;
    case S_FC: { string s="{\"type\":\"FeatureCollection\",\"features\":["; for(size_t k=0;k<n;k++) s+=string(k?",":"")+"{\"type\":\"Feature\",\"geometry\":"+pjson(ids[k])+",\"properties\":{}}"; s+="]}"; o.t=tg_parse_geojson(s.c_str()); if(tg_geom_error(o.t)){ printf("%s\n",s.c_str()); abort(); } return true; }
    case S_FEAT: { if(n!=1) return false; string s="{\"type\":\"Feature\",\"geometry\":"+pjson(ids[0])+",\"properties\":{\"a\":1}}"; o.t=tg_parse_geojson(s.c_str()); if(tg_geom_error(o.t)) abort(); return true; }
    case S_MULTI: { int kd=0; for(int i:ids){ int k=U[i].empty?-1:U[i].g.kind; if(kd&&k!=kd) return false; kd=k; } if(kd<0) return false; Geo g; g.kind=kd==K_POINT?K_MPOINT:kd==K_LINE?K_MLINE:K_MPOLY; for(int i:ids){ auto&x=U[i].g; g.pts.insert(g.pts.end(),x.pts.begin(),x.pts.end()); g.lines.insert(g.lines.end(),x.lines.begin(),x.lines.end()); g.polys.insert(g.polys.end(),x.polys.begin(),x.polys.end()); } o.t=mkgeom(g); return true; }
    } return false; }
static void family(vector<Obj>&out,int len,vector<int> shapes){ vector<int> ids(len,0); for(;;){ for(int s:shapes){ Obj o; if(mk(ids,s,o)) out.push_back(o); } int k=len-1; while(k>=0&&++ids[k]==(int)U.size()) ids[k--]=0; if(k<0) break; } }

struct Ans { bool in,to,co,cn,co2,cn2; };
template<class F> static Ans expectF(const vector<int>&a,const vector<int>&b,F R){
    Ans r={}; bool T=false,bad=false; 
    for(int i:a) for(int j:b){ Rel q=R(i,j); if(q.hit){ r.in=true; if(!q.II) T=true; else bad=true; } } r.to=T&&!bad;
    auto all=[&](const vector<int>&x,const vector<int>&y,bool inner){ if(x.empty()||y.empty()) return false; for(int j:y){ bool ok=false; for(int i:x){ Rel q=R(i,j); if(!q.bout&&(!inner||q.II)) { ok=true; break; } } if(!ok) return false; } return true; };
    r.co=all(a,b,false); r.cn=all(a,b,true); r.co2=all(b,a,false); r.cn2=all(b,a,true); return r; }
static void check(const Obj&a,const Obj&b,const Ans&e){
    auto A=a.t,B=b.t; if(e.in) mc::nontrivial(); mc::state(mc::hash(a.name)*31+mc::hash(b.name));
    auto ck=[&](const char*n,bool got,bool want){ mc::trans(); if(got!=want) mc::fail(n,"%s is %d, part by part it is %d",n,got,want); };
    ck("intersects",tg_geom_intersects(A,B),e.in); ck("intersects",tg_geom_intersects(B,A),e.in); ck("disjoint",tg_geom_disjoint(A,B),!e.in);
    ck("touches",tg_geom_touches(A,B),e.to); ck("touches",tg_geom_touches(B,A),e.to);
    ck("covers",tg_geom_covers(A,B),e.co); ck("covers",tg_geom_covers(B,A),e.co2); ck("coveredby",tg_geom_coveredby(B,A),e.co);
    ck("contains",tg_geom_contains(A,B),e.cn); ck("contains",tg_geom_contains(B,A),e.cn2); ck("within",tg_geom_within(B,A),e.cn);
    ck("equals",tg_geom_equals(A,B),e.cn&&e.cn2);
}
static void check(const Obj&a,const Obj&b){ check(a,b,expectF(a.parts,b.parts,[](int i,int j){ return R[i][j]; })); }
static void cross(string name,vector<Obj>*a,vector<Obj>*b){ uint64_t nb=b->size(); mc::space(name,a->size()*nb,[=](uint64_t i){ check((*a)[i/nb],(*b)[i%nb]); },[=](uint64_t i){ return (*a)[i/nb].name+"  /  "+(*b)[i%nb].name; }); }

// collections of up to 121 parts side by side on a 24x24 board, in several orders, against every small shape, against pairs of them, against each other and against copies that lack, move or change one part
static vector<Part> BU; static vector<array<double,4>> BB;
static Rel brel(int i,int j){ auto&a=BB[i],&b=BB[j]; if(a[0]>b[1]||b[0]>a[1]||a[2]>b[3]||b[2]>a[3]){ Rel r; r.aout=r.bout=true; return r; } return relate(BU[i].l,BU[j].l); }
static tg_geom *bgeom(const vector<int>&ids,int form){ if(form==0){ vector<tg_geom*> v; for(int i:ids) v.push_back(mkgeom(BU[i].g)); return gc(v); } if(form==1){ Geo m; int kd=BU[ids[0]].g.kind; m.kind=kd==K_POINT?K_MPOINT:kd==K_LINE?K_MLINE:K_MPOLY; for(int i:ids){ auto&x=BU[i].g; m.pts.insert(m.pts.end(),x.pts.begin(),x.pts.end()); m.lines.insert(m.lines.end(),x.lines.begin(),x.lines.end()); m.polys.insert(m.polys.end(),x.polys.begin(),x.polys.end()); } return mkgeom(m); }
    size_t h=ids.size()/2; return gc({bgeom(vector<int>(ids.begin(),ids.begin()+h),0),bgeom(vector<int>(ids.begin()+h,ids.end()),0)}); }
static void board(bool T){ const int N=24; static Grid g=ogrid(N); auto D=[](int x){ return (double)x; }; map<string,int> at;
    auto add=[&](const Geo&q){ auto s=gstr(q); auto it=at.find(s); if(it!=at.end()) return it->second; Part p; p.g=q; p.empty=0; p.l=olocate(g,q); array<double,4> b={1e9,-1e9,1e9,-1e9}; auto gr=[&](const Pts&v){ for(auto&p:v){ b[0]=min(b[0],p.x); b[1]=max(b[1],p.x); b[2]=min(b[2],p.y); b[3]=max(b[3],p.y); } }; gr(q.pts); for(auto&l:q.lines) gr(l); for(auto&q2:q.polys) gr(q2.ext); BU.push_back(p); BB.push_back(b); return at[s]=(int)BU.size()-1; };
    auto part=[&](int kind,int x,int y){ switch(kind){ case 0: return g_point({D(x),D(y)}); case 1: return g_line({{D(x),D(y)},{x+1.,D(y)}}); case 2: return g_poly({{D(x),D(y)},{x+1.,D(y)},{x+1.,y+1.},{D(x),y+1.}}); case 3: return g_line({{D(x),D(y)},{x+1.,y+1.},{x+1.,D(y)}}); case 4: return g_poly({{D(x),D(y)},{x+1.,y-1.},{x+2.,D(y)},{x+1.,y+1.}}); default: return g_poly({{D(x),D(y)},{x+2.,D(y)},{x+2.,y+2.},{D(x),y+2.}}); } };
    auto small=new vector<Obj>,bigs=new vector<Obj>; auto mkobj=[&](vector<int> ids,int form,string name){ Obj o; o.parts=ids; o.t=form<0?mkgeom(BU[ids[0]].g):bgeom(ids,form); o.name=name; return o; };
    for(int x=1;x<=22;x++)for(int y=1;y<=22;y++) for(int k=0;k<6;k++){ if(!T&&(k==3||k==5)&&(x+y)%2) continue; Geo q=part(k,x,y); int i=add(q); small->push_back(mkobj({i},-1,gstr(q))); if(k==2&&(T||x%3==0)) for(int k2:{0,2}){ int j=add(part(k2,(x+7)%21+1,(y*5)%21+1)); small->push_back(mkobj({i,j},0,"GC "+gstr(q)+" "+gstr(BU[j].g))); } }
    auto order=[&](int n,int o,int w){ vector<int> v(n); for(int i=0;i<n;i++) v[i]=i; auto key=[&](int i){ int x=i/w,y=i%w; switch(o){ case 1: return y*100+x; case 2: return (x+y)*100+x; case 3: return ((i*37)%127)*10; default: return i; } }; stable_sort(v.begin(),v.end(),[&](int a,int b){ return key(a)<key(b); }); return v; };
    static vector<pair<vector<int>,int>> base; vector<string> names;
    for(int c:{63,64,65,81,121}) for(int kind=0;kind<7;kind++) for(int o=0;o<4;o++) for(int form=0;form<3;form++){ if(kind==6&&form==1) continue; if(!T&&((c<81&&o)||(form==2&&o)||c==81)) continue; vector<int> ids; for(int i:order(c,o,11)) ids.push_back(add(part(kind==6?i%5:kind,2*(i/11)+1,2*(i%11)+1))); base.push_back({ids,form}); names.push_back(to_string(c)+" parts of kind "+to_string(kind)+" order "+to_string(o)+" form "+to_string(form)); bigs->push_back(mkobj(ids,form,names.back())); }
    auto crossb=[&](string name,vector<Obj>*a,vector<Obj>*b){ uint64_t nb=b->size(); mc::space(name,a->size()*nb,[=](uint64_t i){ auto&x=(*a)[i/nb];auto&y=(*b)[i%nb]; check(x,y,expectF(x.parts,y.parts,brel)); },[=](uint64_t i){ return (*a)[i/nb].name+"  /  "+(*b)[i%nb].name; }); };
    crossb("board*small",bigs,small); crossb("board*board",bigs,bigs);
    static vector<int> repl; for(int k=0;k<6;k++) repl.push_back(add(part(k,20,1))); static vector<string> nm=names; uint64_t per=121*4;
    mc::space("copies",base.size()*per,[=](uint64_t i){ auto&b=base[i/per]; uint64_t k=i%per/4,w=i%4; if(k>=b.first.size()) return; auto v=b.first; if(w==0) v.erase(v.begin()+k); else if(w==1) v[k]=v[(k+1)%v.size()]; else if(w==2){ int kd=b.second==1?(BU[v[0]].g.kind==K_POINT?0:BU[v[0]].g.kind==K_LINE?1:2):(int)(k%6); v[k]=repl[kd]; } else rotate(v.begin(),v.begin()+k,v.end()); Obj x,y; x.parts=b.first; x.name=nm[i/per]; x.t=bgeom(x.parts,b.second); y.parts=v; y.name=x.name+" copy "+to_string(i%per); y.t=bgeom(v,b.second); check(x,y,expectF(x.parts,y.parts,brel)); tg_geom_free(x.t); tg_geom_free(y.t); },
        [=](uint64_t i){ return nm[i/per]+", part "+to_string(i%per/4)+(i%4==0?" missing":i%4==1?" replaced by the next":i%4==2?" replaced by another":" first"); },16);
}

int main(int argc,char**argv){
    mc::init(argc,argv); MURKY(); bool T=mc::thorough(); Grid g(4);
    auto add=[&](Geo x){ Part p; p.g=x; p.empty=0; p.l=locate(g,x); U.push_back(p); };
    for(P p:Pts{{0,0},{1,1},{2,1},{3,3}}) add(g_point(p));
    add(g_line({{0,0},{3,0}})); add(g_line({{1,1},{2,1}})); add(g_line({{0,0},{1,1}})); add(g_line({{0,3},{3,0}})); add(g_line({{0,0},{1,1},{2,1}})); add(g_line({{1,1},{2,1},{2,2},{1,1}}));
    add(g_poly({{0,0},{3,0},{3,3},{0,3}})); add(g_poly({{1,1},{2,1},{2,2},{1,2}})); add(g_poly({{0,0},{1,0},{1,1},{0,1}})); add(g_poly({{0,0},{3,0},{0,3}})); add(g_poly({{0,0},{3,0},{3,1},{1,1},{1,3},{0,3}})); add(g_poly({{0,0},{3,0},{3,3},{0,3}},{{{1,1},{2,1},{1,2}}}));
    // fillers for large collections: far away
    int NF=U.size(); for(int k=1;k<=5;k++){ Part p; p.empty=k; p.l=locate(g,g_point({0,0})); U.push_back(p); } NE=5; (void)NF;
    R.assign(U.size()+1,vector<Rel>(U.size()+1)); for(size_t i=0;i<U.size();i++) for(size_t j=0;j<U.size();j++) if(!U[i].empty&&!U[j].empty) R[i][j]=relate(U[i].l,U[j].l);
    int FILL=U.size(); R[FILL][FILL].II=R[FILL][FILL].hit=true; for(int i=0;i<FILL;i++){ R[i][FILL].aout=R[i][FILL].bout=R[FILL][i].aout=R[FILL][i].bout=true; }
    auto prim=new vector<Obj>; family(*prim,1,{S_PLAIN,S_FORM1,S_FORM2});
    auto one=new vector<Obj>; family(*one,1,{S_GC,S_GCGC,S_GCGCGC,S_FC,S_FEAT,S_MULTI});
    auto two=new vector<Obj>; family(*two,2,{S_GC,S_LN,S_RN,S_BOTH,S_ALLN,S_FC,S_MULTI});
    auto two0=new vector<Obj>; family(*two0,2,{S_GC,S_MULTI});
    auto three=new vector<Obj>; family(*three,3,{S_GC,S_LN,S_LR,S_MULTI});
    cross("one*prim",one,prim); cross("one*one",one,one); cross("two*prim",two,prim); cross("two*one",two,one); cross("two*two",two,two0); cross("three*prim",three,prim);
    if(T){ cross("two*twoall",two,two); cross("three*one",three,one); auto three0=new vector<Obj>; family(*three0,3,{S_GC}); cross("three*two",three0,two0); }
    // large collections: n fillers of one kind, one or two parts at given places
    auto big=new vector<Obj>; auto big1=new vector<Obj>;
    { auto mkbig=[&](int n,int pat,bool gcx,vector<pair<int,int>> ins,Obj&o)->bool{ // ins: (place, part)
        int kd=0; if(!gcx){ for(auto&x:ins){ if(U[x.second].empty) return false; int k=U[x.second].g.kind; if(kd&&k!=kd) return false; kd=k; } }
        auto fp=[&](int i)->P{ switch(pat){ case 0: return {100.0+i,50}; case 1: return {100.0+i%8,100.0+i/8}; case 2: return {-500,-500}; default: return {(i%2?1.:-1.)*(100+i),(i%3?1.:-1.)*(90+7*i%50)}; } };
        Geo m; m.kind=kd==K_POINT?K_MPOINT:kd==K_LINE?K_MLINE:K_MPOLY; vector<tg_geom*> v; o.parts.clear(); 
        auto fill=[&](int i){ P p=fp(i); Geo x; int k=kd?kd:(i%3==0?K_POINT:i%3==1?K_LINE:K_POLY); if(k==K_POINT) x=g_point(p); else if(k==K_LINE) x=g_line({p,{p.x+.25,p.y+.25}}); else x=g_poly({p,{p.x+.5,p.y},{p.x,p.y+.5}}); return x; };
        for(int i=0;i<n;i++){ int id=-1; for(auto&x:ins) if(x.first==i) id=x.second; if(gcx) v.push_back(id>=0?mkpart(id):mkgeom(fill(i))); else { Geo x=id>=0?U[id].g:fill(i); m.pts.insert(m.pts.end(),x.pts.begin(),x.pts.end()); m.lines.insert(m.lines.end(),x.lines.begin(),x.lines.end()); m.polys.insert(m.polys.end(),x.polys.begin(),x.polys.end()); } if(id>=0&&!U[id].empty) o.parts.push_back(id); }
        if((int)ins.size()<n) o.parts.push_back(FILL);
        o.t=gcx?gc(v):mkgeom(m); o.name=(gcx?"GC":"Multi")+string(" of ")+to_string(n)+" (fill "+to_string(pat)+")"; for(auto&x:ins) o.name+=" "+to_string(x.first)+":"+pname(x.second); return true; };
      vector<int> ns={63,64,65,66,96,128}; if(T) ns={3,62,63,64,65,66,67,95,96,97,127,128,129,160,1023,1024,1025,2100};
      for(int n:ns) for(int pat=0;pat<4;pat++) for(int gcx=0;gcx<2;gcx++) for(int id=0;id<(int)U.size();id++){ vector<int> pl={0,1,n/2,n-1}; if(T&&n<200){ pl.clear(); for(int i=0;i<n;i++) pl.push_back(i); } 
          for(int p:pl){ Obj o; if(mkbig(n,pat,gcx,{{p,id}},o)){ big->push_back(o); if(pat==1&&n<130&&p<2) big1->push_back(o);} }
          if(n<130) for(int id2=0;id2<(int)U.size();id2+=2){ Obj o; if(mkbig(n,pat,gcx,{{n/3,id},{n-2,id2}},o)) big->push_back(o); } }
    }
    cross("big*prim",big,prim); if(T) cross("big*one",big,one);
    // big against big: the fillers of both are the same points only when the pattern, type and order agree, so no covers here
    (void)big1;
    board(T);
    return mc::finish();
}
