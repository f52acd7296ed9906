// C01 C02 C03: predicates of points, lines and polygons against exact DE-9IM relations.
#include "alloc.hpp"
#include "fam.hpp"
#include "raster.hpp"
#include "mc.hpp"
using namespace std;

struct Var { const char*name; int m; enum tg_index ix; int spread; int map=0; };
// relations are affine invariant: the same shapes squeezed into slivers with large coordinates (the maps have determinant 1 or -1, every product is exact)
static P amap(P p,int m){ switch(m){ case 1: return {2178309*p.x+1346269*p.y,1346269*p.x+832040*p.y}; case 2: return {1048576-2178308*p.x+p.y*1089154+p.y,5-p.x*2+p.y}; case 3: return {13*p.x-8*p.y,5*p.y-8*p.x-1}; default: return p; } }
struct Built { vector<tg_geom*> t; };
static tg_geom *build(const Geo&g,const Var&v){ tg_env_set_index_spread(v.spread); Geo q=dense(g,v.m); if(v.map) q=map_geo(q,[&](P p){ return amap(p,v.map); }); auto r=mkgeom(q,v.ix); tg_env_set_index_spread(16); return r; }
static vector<Fam*> fams;
static Built *built(Fam*f,const Var&v){ static map<pair<Fam*,string>,Built*> cache; auto k=make_pair(f,string(v.name)); auto&b=cache[k]; if(!b){ b=new Built; for(auto&i:f->v) b->t.push_back(build(i.g,v)); } return b; }

static void check(const Item&a,const Item&b,tg_geom*A,tg_geom*B,uint64_t salt){
    Rel r=relate(a.l,b.l);
    mc::state((a.h?a.h:ghash(a.g))*31+(b.h?b.h:ghash(b.g))*17+salt); if(r.hit) mc::nontrivial();
    auto ck=[&](const char*n,bool got,bool want){ mc::trans(); if(got!=want){ 
        const char*key=n; if(got&&(!strcmp(n,"covers")||!strcmp(n,"contains")||!strcmp(n,"within")||!strcmp(n,"coveredby"))&&hole_twin(a.g,b.g)) key="hole-twin";
        mc::fail(key,"%s is %d, exact answer %d",n,got,want);} };
    if(mc::prop=="C01"){ ck("intersects",tg_geom_intersects(A,B),r.hit); ck("disjoint",tg_geom_disjoint(A,B),!r.hit); }
    if(mc::prop=="C02"){ ck("covers",tg_geom_covers(A,B),!r.bout); ck("coveredby",tg_geom_coveredby(B,A),!r.bout); ck("contains",tg_geom_contains(A,B),r.II&&!r.bout); ck("within",tg_geom_within(B,A),r.II&&!r.bout); }
    if(mc::prop=="C03"){ ck("touches",tg_geom_touches(A,B),r.hit&&!r.II); ck("equals",tg_geom_equals(A,B),!r.aout&&!r.bout); }
}
static void pairs(Fam*a,Fam*b,Var va,Var vb){
    Built*A=built(a,va),*B=built(b,vb); uint64_t nb=b->v.size(); uint64_t salt=mc::hash(string(va.name)+vb.name);
    mc::space(a->name+"*"+b->name+"/"+va.name+"-"+vb.name,a->v.size()*nb,[=](uint64_t i){ check(a->v[i/nb],b->v[i%nb],A->t[i/nb],B->t[i%nb],salt); },
        [=](uint64_t i){ return gstr(a->v[i/nb].g)+" / "+gstr(b->v[i%nb].g)+" ["+va.name+","+vb.name+"]"; });
}
static void both(Fam*a,Fam*b,Var va,Var vb){ pairs(a,b,va,vb); if(a!=b) pairs(b,a,vb,va); else if(strcmp(va.name,vb.name)) pairs(a,b,vb,va); }

static Fam* rings(Grid&g,const char*name,int lo,int hi){ vector<Geo> v; for(int n=lo;n<=hi;n++){ vector<Pts> r; all_rings(g.K,n,r); for(auto&x:r) v.push_back(g_poly(x)); } auto f=new Fam(mkfam(g,name,v)); return f; }
static Fam* lines(Grid&g,const char*name,int n,int canon=0){ vector<Pts> r; all_lines(g.K,n,r); vector<Geo> v; for(auto&x:r){ if(canon){ Pts y(x.rbegin(),x.rend()); if(y<x) continue; } v.push_back(g_line(x)); } return new Fam(mkfam(g,name,v)); }
static Fam* points(Grid&g,const char*name){ vector<Geo> v; for(auto p:grid_points(g.K)) v.push_back(g_point(p)); return new Fam(mkfam(g,name,v)); }
static Fam* holes1(Grid&g,const char*name,vector<Pts> exts,vector<Pts> hs,int nmax){
    vector<Geo> v; vector<Loc> hl; for(auto&h:hs) hl.push_back(locate(g,g_poly(h)));
    for(auto&e:exts){ Loc el=locate(g,g_poly(e)); vector<int> ok; for(size_t i=0;i<hs.size();i++) if(holes_valid(el,{hl[i]})) { ok.push_back(i); v.push_back(g_poly(e,{hs[i]})); }
        if(nmax>=2) for(int i:ok) for(int j:ok) if(i<j&&holes_valid(el,{hl[i],hl[j]})) { v.push_back(g_poly(e,{hs[i],hs[j]}));
            if(nmax>=3) for(int k:ok) if(k>j&&holes_valid(el,{hl[i],hl[j],hl[k]})) v.push_back(g_poly(e,{hs[i],hs[j],hs[k]})); } }
    return new Fam(mkfam(g,name,v)); }

// large shapes with hundreds of vertices and up to a hundred holes, against every small shape of the board, against each other and against copies of themselves that differ in one unit cell
static void board(bool T){ const int N=24; static Grid g=ogrid(N); auto ms=masks(N),mr=masks(N/2,1); auto fam=[&](const char*name,const vector<Geo>&v){ auto f=new Fam; f->name=name; for(auto&q:v) f->v.push_back({q,olocate(g,q),ghash(q)}); return f; };
    vector<Geo> sparse,dense_,rot,pts,segs,segs2,els,boxes,boxes2,tris,lines;
    for(auto&m:ms){ sparse.push_back(mask_poly(m)); dense_.push_back(mask_poly(m,true)); } for(size_t i=0;i<mr.size();i++) rot.push_back(turned(mask_poly(mr[i],i%2),N/2));
    for(size_t i=0;i<ms.size();i+=3){ Pts e=mask_poly(ms[i],i%2).polys[0].ext; Pts c=e; c.push_back(e[0]); lines.push_back(g_line(c)); e.pop_back(); lines.push_back(g_line(e)); } { Pts w; for(int i=2;i<=22;i++){ w.push_back({(double)i,i%2?22.0:2.0}); w.push_back({(double)i,i%2?2.0:22.0}); } for(int i=22;i>=2;i--){ w.push_back({i%2?2.0:22.0,(double)i}); w.push_back({i%2?22.0:2.0,(double)i}); } w.erase(std::unique(w.begin(),w.end()),w.end()); lines.push_back(g_line(w)); Pts z; for(int i=0;i<=20;i++) z.push_back({2.0+i,i%2?3.0:2.0}); for(int i=20;i>=0;i--) z.push_back({2.0+i,i%2?13.0:12.0}); lines.push_back(g_line(z)); }
    auto D=[](int x){ return (double)x; }; auto in=[](int x,int y){ return x>=1&&y>=1&&x<=23&&y<=23; }; static const int dx[]={1,1,0,-1,-1,-1,0,1},dy[]={0,1,1,1,0,-1,-1,-1};
    for(int x=1;x<=23;x++)for(int y=1;y<=23;y++){ pts.push_back(g_point({D(x),D(y)})); pts.push_back(g_point({x+.5,y+.5})); pts.push_back(g_point({x+.5,D(y)})); pts.push_back(g_point({D(x),y-.5}));
        for(int d=0;d<8;d++) for(int l:{1,2,3,8}){ int X=x+l*dx[d],Y=y+l*dy[d]; if(!in(X,Y)) continue; if(d<4) (l<3?segs:segs2).push_back(g_line({{D(x),D(y)},{D(X),D(Y)}})); if(l<3) for(int e=0;e<8;e++) for(int k:{1,2}){ int X2=X+k*dx[e],Y2=Y+k*dy[e]; if(in(X2,Y2)&&(T||(k==1&&l==1&&(e!=d)))) els.push_back(g_line({{D(x),D(y)},{D(X),D(Y)},{D(X2),D(Y2)}})); } }
        for(int w:{1,2,3,5,9})for(int h:{1,2,3,5,9}) if(in(x+w,y+h)) (w<4&&h<4&&w+h<6?boxes:boxes2).push_back(g_poly({{D(x),D(y)},{D(x+w),D(y)},{D(x+w),D(y+h)},{D(x),D(y+h)}}));
        for(int s:{1,2}){ if(in(x-s,y-s)&&in(x+s,y+s)) tris.push_back(g_poly({{D(x-s),D(y)},{D(x),D(y-s)},{D(x+s),D(y)},{D(x),D(y+s)}})); for(int q=0;q<4;q++){ int sx=q&1?s:-s,sy=q&2?s:-s; if(in(x+sx,y+sy)) tris.push_back(g_poly({{D(x),D(y)},{D(x+sx),D(y)},{D(x),D(y+sy)}})); } } }
    Var pl={"plain",1,TG_DEFAULT,16},none={"none",1,TG_NONE,16},n4={"nat/4",1,TG_NATURAL,4},n2={"nat/2",1,TG_NATURAL,2},ys={"stripe",1,TG_YSTRIPES,16},sh={"sheared",1,TG_DEFAULT,16,1};
    Fam*S=fam("wide",sparse),*Dn=fam("wideunits",dense_),*R=fam("wideturned",rot),*L=fam("widelines",lines); vector<Fam*> big={S,Dn,R,L},small={fam("bpt",pts),fam("bseg",segs),fam("bbox",boxes),fam("btri",tris),fam("bseg2",segs2),fam("bbox2",boxes2),fam("bel",els)};
    for(auto s:small){ both(S,s,pl,pl); both(Dn,s,n4,pl); both(R,s,ys,pl); both(L,s,n2,pl); if(T||s->v.size()<2600){ both(Dn,s,ys,pl); both(S,s,none,none); both(R,s,n2,pl); } if(T){ both(S,s,sh,sh); both(Dn,s,none,pl); } }
    vector<Var> vs={n4,ys}; if(T) vs={n4,ys,pl,n2,none,sh}; for(auto&v:vs){ for(auto a:big) for(auto b:big) pairs(a,b,v,v); pairs(S,Dn,v,none); pairs(Dn,S,none,v); }
    // a shape and its copy with one cell more or one cell less, and its copy moved by a unit
    static vector<Mask> M; M=ms; for(auto&v:vs) for(int dense=0;dense<2;dense++){ uint64_t per=N*N+25; auto mod=[=](uint64_t i,Mask&m)->int{ m=M[i/per]; uint64_t k=i%per; if(k<N*N){ int x=k/N,y=k%N; m.set(x,y,!m.at(x,y)); return good(m); } k-=N*N; m=shifted(m,(int)(k%5)-2,(int)(k/5)-2); return 1; };
        if(!T&&dense==(v.ix==TG_YSTRIPES)) continue;
        mc::space(string("copies/")+v.name+(dense?"-units":""),M.size()*per,[=](uint64_t i){ Mask m; if(!mod(i,m)) return; const Mask&o=M[i/per]; Item a{mask_poly(o,dense),mask_loc(g,o),i/per+1},b{mask_poly(m,dense),mask_loc(g,m),i+100}; tg_geom*A=build(a.g,v),*B=build(b.g,v); check(a,b,A,B,7777+dense); check(b,a,B,A,7777+dense); tg_geom_free(A); tg_geom_free(B); },
            [=](uint64_t i){ Mask m; mod(i,m); return M[i/per].name+" / case "+to_string(i%per)+" "+gstr(mask_poly(m,dense)).substr(0,1500); },64); }
}

int main(int argc,char**argv){
    mc::init(argc,argv); MURKY(); bool T=mc::thorough();
    Grid g3(3),g4(4);
    Var pl={"plain",1,TG_DEFAULT,16}, none={"none",1,TG_NONE,16}, n16={"nat16x",16,TG_NATURAL,16}, y16={"stripe16x",16,TG_YSTRIPES,16}, s2={"nat8x/2",8,TG_NATURAL,2}, n128={"nat128x",128,TG_NATURAL,16}, y128={"stripe128x",128,TG_YSTRIPES,16}, s3={"nat4x/3",4,TG_NATURAL,3};
    // 3x3: everything against everything
    Fam *p3=points(g3,"pt3"),*s3f=lines(g3,"seg3",2),*l3=lines(g3,"line3",3),*r3=rings(g3,"poly3",3,9),*r3s=rings(g3,"poly3s",3,4);
    vector<Fam*> U={p3,s3f,l3,r3};
    for(auto a:U) for(auto b:U) pairs(a,b,pl,pl);
    Fam *l4=lines(g3,"line4",4,!T);
    for(auto b:{p3,s3f,r3s}) both(l4,b,pl,pl);
    if(T){ both(l4,l3,pl,pl); both(l4,r3,pl,pl); pairs(l4,l4,pl,pl); }
    // 3x3 with many vertices: the same point sets, deep indexes
    vector<Var> dv={n16,y16,s2}; if(T){ dv.push_back(n128); dv.push_back(y128); dv.push_back(s3); }
    for(auto&v:dv){ both(r3s,p3,v,pl); both(r3s,s3f,v,pl); pairs(r3s,r3s,v,v); both(r3s,r3s,v,none); pairs(s3f,s3f,v,v); both(r3s,s3f,v,v); both(l3,p3,v,pl); both(l3,r3s,v,none); if(T) pairs(l3,l3,v,v); }
    // sheared
    { vector<Var> av={{"sheared",1,TG_DEFAULT,16,1},{"flattened",1,TG_DEFAULT,16,2},{"sheared/2",1,TG_NATURAL,2,3}}; for(auto&v:av){ for(auto a:{p3,s3f,r3s}) for(auto b:{p3,s3f,l3,r3s}){ if(b==l3&&!T&&v.map!=1) continue; both(a,b,v,v); } } }
    // 4x4
    Fam *p4=points(g4,"pt4"),*s4=lines(g4,"seg4",2),*t4=rings(g4,"tri4",3,3),*q4=rings(g4,"quad4",4,4);
    both(p4,t4,pl,pl); both(p4,q4,pl,pl); both(s4,t4,pl,pl); both(s4,q4,pl,pl); pairs(t4,t4,pl,pl); both(t4,q4,pl,pl); pairs(s4,s4,pl,pl);
    if(T){ pairs(q4,q4,pl,pl); Fam*f4=rings(g4,"pent4",5,5); both(f4,p4,pl,pl); both(f4,s4,pl,pl); both(f4,t4,pl,pl); Fam*l43=lines(g4,"line43",3,1); both(l43,t4,pl,pl); both(l43,s4,pl,pl); both(l43,q4,pl,pl);}
    { Var sh={"sheared",1,TG_DEFAULT,16,1},fl={"flattened",1,TG_DEFAULT,16,2}; for(auto&v:{sh,fl}){ both(s4,t4,v,v); both(q4,p4,v,v); both(q4,s4,v,v); pairs(s4,s4,v,v); if(T){ pairs(t4,t4,v,v); both(t4,q4,v,v); } } }
    // holes on 4x4: every exterior of 3 or 4 vertices, every hole of 3 (or 4) vertices, one or two of them
    { vector<Pts> ex,hs; all_rings(4,3,ex); all_rings(4,4,ex); all_rings(4,3,hs); all_rings(4,4,hs);
      Fam*h=holes1(g4,"hole4",ex,hs,2); if(mc::opts.list) printf("# hole4 %zu\n",h->v.size());
      both(h,p4,pl,pl); both(h,s4,pl,pl); both(h,t4,pl,pl); if(T){ both(h,q4,pl,pl); pairs(h,h,pl,pl);} 
      Fam*hs2=new Fam; hs2->name="hole4s"; for(size_t i=0;i<h->v.size();i+=(T?3:11)) hs2->v.push_back(h->v[i]); pairs(hs2,hs2,pl,pl); if(!T) both(hs2,q4,pl,pl);
      for(auto&v:dv){ both(hs2,p4,v,pl); both(hs2,s4,v,pl); if(T) both(hs2,t4,v,pl); } 
      if(T){ Fam*l43=lines(g4,"line43",3,1); both(hs2,l43,pl,pl);} Var sh={"sheared",1,TG_DEFAULT,16,1}; both(hs2,p4,sh,sh); both(hs2,s4,sh,sh); both(hs2,t4,sh,sh); if(T) pairs(hs2,hs2,sh,sh); }
    // 5x5: up to three holes
    { Grid g5(5); vector<Pts> ex={{{0,0},{4,0},{4,4},{0,4}},{{0,0},{4,0},{4,4},{2,3},{0,4}}}, hs={{{1,1},{2,1},{2,2},{1,2}},{{1,1},{3,1},{3,3},{1,3}},{{2,2},{3,2},{3,3},{2,3}},{{1,2},{2,2},{2,3},{1,3}},{{2,1},{3,1},{3,2},{2,2}},{{1,1},{3,1},{2,2}},{{1,1},{2,2},{1,3}},{{0,0},{2,1},{1,2}},{{4,4},{3,2},{3,3}},{{1,3},{2,2},{3,3}},{{1,1},{3,1},{3,2},{1,2}},{{2,1},{3,2},{2,3},{1,2}},{{0,2},{1,1},{1,3}}};
      Fam*h=holes1(g5,"hole5",ex,hs,3); vector<Geo> rects; for(int x=0;x<5;x++)for(int X=x+1;X<5;X++)for(int y=0;y<5;y++)for(int Y=y+1;Y<5;Y++) rects.push_back(g_poly({{(double)x,(double)y},{(double)X,(double)y},{(double)X,(double)Y},{(double)x,(double)Y}}));
      Fam*rc=new Fam(mkfam(g5,"rect5",rects)); Fam*s5=lines(g5,"seg5",2,1); Fam*t5=rings(g5,"tri5",3,3); 
      if(mc::opts.list) printf("# hole5 %zu\n",h->v.size());
      pairs(h,h,pl,pl); both(h,rc,pl,pl); both(h,s5,pl,pl); if(T) both(h,t5,pl,pl); for(auto&v:dv){ pairs(h,rc,v,pl); pairs(rc,h,pl,v);} }
    board(T);
    return mc::finish();
}
