// C05: laws between predicates, for any geometries.  C07: rewriting an operand changes nothing.
#include "alloc.hpp"
#include "fam.hpp"
#include "mc.hpp"
#include "raster.hpp"
#include <memory>
using namespace std;
struct O { tg_geom*t; string name; bool empty,valid; Geo g; };
static vector<O> U;
static tg_geom *gc(vector<tg_geom*> v){ auto r=tg_geom_new_geometrycollection(v.data(),v.size()); for(auto x:v) tg_geom_free(x); return r; }
static void put(tg_geom*t,string n,bool e=false,bool v=true,Geo g=Geo()){ U.push_back({t,n,e,v,g}); }
static tg_geom *wkt(const char*s){ auto g=tg_parse_wkt(s); if(tg_geom_error(g)){ printf("%s: %s\n",s,tg_geom_error(g)); abort(); } return g; }
static tg_geom *js(const char*s){ auto g=tg_parse_geojson(s); if(tg_geom_error(g)){ printf("%s: %s\n",s,tg_geom_error(g)); abort(); } return g; }

// polygons with a hole on the 4x4 grid
static vector<Geo> holed(int max){
    vector<Geo> o; Grid g4(4); vector<Pts> ex,hs; all_rings(4,4,ex); all_rings(4,3,hs); vector<Loc> hl; for(auto&h:hs) hl.push_back(locate(g4,g_poly(h)));
    int k=0; for(auto&e:ex){ if(area2(e)<8||k++%3) continue; Loc el=locate(g4,g_poly(e)); int m=0; for(size_t i=0;i<hs.size();i++) if(holes_valid(el,{hl[i]})&&m++%7==0){ o.push_back(g_poly(e,{hs[i]})); if((int)o.size()>=max) return o; } }
    return o; }
static void laws(uint64_t i){
    uint64_t n=U.size(); const O&a=U[i/n],&b=U[i%n]; auto A=a.t,B=b.t;
    bool in=tg_geom_intersects(A,B),di=tg_geom_disjoint(A,B),to=tg_geom_touches(A,B),eq=tg_geom_equals(A,B),co=tg_geom_covers(A,B),cn=tg_geom_contains(A,B),wi=tg_geom_within(A,B),cb=tg_geom_coveredby(A,B);
    bool in2=tg_geom_intersects(B,A),to2=tg_geom_touches(B,A),eq2=tg_geom_equals(B,A),co2=tg_geom_covers(B,A),cn2=tg_geom_contains(B,A); mc::trans(13);
    if(in) mc::nontrivial(); mc::state(i*2+1);
    auto law=[&](const char*k,bool ok){ if(!ok) mc::fail(k,"broken: %s (intersects %d/%d disjoint %d touches %d/%d equals %d/%d covers %d/%d contains %d/%d within %d coveredby %d)",k,in,in2,di,to,to2,eq,eq2,co,co2,cn,cn2,wi,cb); };
    law("disjoint negates intersects",di==!in); law("intersects is symmetric",in==in2);
    law("within is contains swapped",wi==cn2); law("coveredby is covers swapped",cb==co2); law("equals is contains both ways",eq==(cn&&cn2)); law("equals is symmetric",eq==eq2);
    if(!A||!B||a.empty||b.empty){ law("empty or missing: no relation but disjoint",!in&&di&&!to&&!eq&&!co&&!cn&&!wi&&!cb); return; }
    law("contains implies covers",!cn||co); law("equals implies covers",!eq||(co&&co2));
    if(a.valid&&b.valid){ law("covers implies intersects",!co||in); law("touches implies intersects",!to||in); law("touches is symmetric",to==to2);
        if(to&&(cn||cn2)) mc::fail((cn&&hole_twin(a.g,b.g))||(cn2&&hole_twin(b.g,a.g))?"hole-twin":"touches excludes contains","touches %d, contains %d, within %d",to,cn,cn2); }
    if(i/n==i%n&&a.valid){ law("a geometry equals itself",eq&&co&&cn&&in&&!to); }
}
static void build_universe(bool T){
    put(nullptr,"NULL",true);
    for(const char*s:{"POINT EMPTY","LINESTRING EMPTY","POLYGON EMPTY","MULTIPOINT EMPTY","MULTILINESTRING EMPTY","MULTIPOLYGON EMPTY","GEOMETRYCOLLECTION EMPTY","POINT Z EMPTY","GEOMETRYCOLLECTION(POINT EMPTY)","GEOMETRYCOLLECTION(GEOMETRYCOLLECTION EMPTY,LINESTRING EMPTY)","MULTIPOINT(EMPTY)","MULTIPOLYGON(EMPTY)","MULTILINESTRING(EMPTY,EMPTY)"}){ auto g=tg_parse_wkt(s); if(!tg_geom_error(g)) put(g,s,true); else tg_geom_free(g); }
    put(js("{\"type\":\"Feature\",\"geometry\":null,\"properties\":null}"),"Feature(null)",true); put(js("{\"type\":\"FeatureCollection\",\"features\":[]}"),"FeatureCollection()",true);
    put(tg_geom_new_error("no"),"ERROR",true);
    Grid g(3); auto gp=grid_points(3); 
    for(auto p:gp) put(mkgeom(g_point(p)),gstr(g_point(p)));
    vector<Pts> l; all_lines(3,2,l); for(auto&x:l) put(mkgeom(g_line(x)),gstr(g_line(x)));
    l.clear(); all_lines(3,3,l); { int k=0; for(auto&x:l) if(k++%(T?1:3)==0) put(mkgeom(g_line(x)),gstr(g_line(x))); }
    for(auto p:gp){ Geo q=g_line({p,p}); put(mkgeom(q),gstr(q),false,false); }
    vector<Pts> r; all_rings(3,3,r); all_rings(3,4,r); for(auto&x:r){ put(mkgeom(g_poly(x)),gstr(g_poly(x)),false,true,g_poly(x)); }
    { int k=0; for(auto&x:r) if(k++%5==0){ put((tg_geom*)mkring(x,TG_DEFAULT),"ring"+pstr(x),false,true,g_poly(x)); put((tg_geom*)mkpoly({x,{}},TG_NONE),"poly"+pstr(x),false,true,g_poly(x)); } }
    // self-intersecting, degenerate and repeated: every cyclic sequence of 4 positions from a 2x2 grid plus selected 3x3 ones
    { auto g2=grid_points(2); for(auto a:g2)for(auto b:g2)for(auto c:g2)for(auto d:g2){ Geo q=g_poly({a,b,c,d}); put(mkgeom(q),gstr(q)+" any",false,false); } }
    { Geo q=g_poly({{0,0},{2,2},{2,0},{0,2}}); put(mkgeom(q),gstr(q)+" bow",false,false); q=g_poly({{0,0},{2,0},{2,2},{1,0},{0,2}}); put(mkgeom(q),gstr(q),false,false); q=g_poly({{0,0},{2,0},{2,2},{0,2}},{{{0,0},{2,0},{2,2},{0,2}}}); put(mkgeom(q),gstr(q)+" hole=ext",false,false); q=g_poly({{0,0},{1,0},{1,1},{0,1}},{{{1,1},{2,1},{2,2}}}); put(mkgeom(q),gstr(q)+" hole outside",false,false); }
    for(const char*s:{"POINT Z(1 1 5)","POINT M(1 1 5)","POINT ZM(0 0 1 2)","LINESTRING Z(0 0 1,2 2 1)","POLYGON ZM((0 0 1 1,2 0 1 1,2 2 1 1,0 0 1 1))","MULTIPOINT(0 0,1 1)","MULTIPOINT(0 0,0 0)","MULTIPOINT Z(0 0 1,2 1 3)","MULTILINESTRING((0 0,1 1),(1 1,2 2))","MULTILINESTRING((0 0,2 0),(0 1,2 1))","MULTIPOLYGON(((0 0,1 0,1 1,0 0)),((1 1,2 1,2 2,1 1)))","MULTIPOLYGON(((0 0,2 0,2 2,0 2,0 0)),((0 0,1 0,1 1,0 0)))","GEOMETRYCOLLECTION(POINT(0 0),POINT EMPTY)","GEOMETRYCOLLECTION(POINT EMPTY,LINESTRING(0 0,2 2))","GEOMETRYCOLLECTION(GEOMETRYCOLLECTION(POLYGON((0 0,2 0,2 2,0 0))))","GEOMETRYCOLLECTION(POINT(1 1),LINESTRING(0 0,2 0),POLYGON((0 0,2 0,0 2,0 0)))","MULTIPOLYGON(((0 0,1 0,1 1,0 1,0 0)),((1 0,2 0,2 1,1 1,1 0)))","LINESTRING(0 0,1 0,1 1,0 0)"}) put(wkt(s),s);
    put(js("{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,1]},\"properties\":{}}"),"Feature(point)"); put(js("{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,1]},\"properties\":{}},{\"type\":\"Feature\",\"geometry\":{\"type\":\"LineString\",\"coordinates\":[[0,0],[2,2]]},\"properties\":{}},{\"type\":\"Feature\",\"geometry\":null,\"properties\":{}}]}"),"FC(point,line,null)");
    for(auto&q:holed(40)) put(mkgeom(q),gstr(q),false,true,q);
    { int N=14; auto ms=masks(N,1); for(size_t i=0;i<ms.size();i++){ Geo q=mask_poly(ms[i],i%3==1); if(i%2) q=turned(q,N); put(mkgeom(q),ms[i].name,false,true,q); if(i%4==0){ for(auto&p:q.polys[0].ext) p.x+=1; for(auto&h:q.polys[0].holes) for(auto&p:h) p.x+=1; put(mkgeom(q),ms[i].name+" moved",false,true,q); } if(i%4==2){ Geo l=g_line(closed(q.polys[0].ext)); put(mkgeom(l),ms[i].name+" outline",false,true,l); Geo f=g_poly(q.polys[0].ext); put(mkgeom(f),ms[i].name+" filled",false,true,f); } } }
    vector<tg_geom*> many; for(int i=0;i<70;i++){ Geo q=g_point({i%3*1.0,(double)(i/3)}); many.push_back(mkgeom(q)); } put(gc(many),"GC of 70 points");
}

// ---- C07
struct Rw { string name; function<Geo(const Geo&)> f; };
static Pts rev(Pts v){ reverse(v.begin(),v.end()); return v; }
static Geo each(Geo g,function<Pts(Pts,bool)> f){ for(auto&l:g.lines) l=f(l,false); for(auto&p:g.polys){ p.ext=f(p.ext,true); for(auto&h:p.holes) h=f(h,true);} return g; }
struct V { tg_geom*t; string name; };
static vector<vector<V>> C7; static vector<Geo> G7;
static string q8(const tg_geom*A,const tg_geom*B){ bool v[8]={tg_geom_intersects(A,B),tg_geom_disjoint(A,B),tg_geom_touches(A,B),tg_geom_equals(A,B),tg_geom_covers(A,B),tg_geom_contains(A,B),tg_geom_within(A,B),tg_geom_coveredby(A,B)}; string s; for(bool x:v) s+=x?'1':'0'; mc::trans(8); return s; }
static string wpts(const Pts&p,const char*x){ string s="("; char b[99]; for(size_t i=0;i<p.size();i++){ snprintf(b,99,"%s%.17g %.17g%s",i?",":"",p[i].x,p[i].y,x); s+=b; } return s+")"; }
static string wktof(const Geo&g,const char*dim,const char*x){ string s; if(g.kind==K_POINT) return string("POINT")+dim+wpts(g.pts,x); if(g.kind==K_LINE) return string("LINESTRING")+dim+wpts(g.lines[0],x); s=string("POLYGON")+dim+"("+wpts(closed(g.polys[0].ext),x); for(auto&h:g.polys[0].holes) s+=","+wpts(closed(h),x); return s+")"; }
static string jpts(const Pts&p){ string s="["; char b[99]; for(size_t i=0;i<p.size();i++){ snprintf(b,99,"%s[%.17g,%.17g]",i?",":"",p[i].x,p[i].y); s+=b; } return s+"]"; }
static string jsof(const Geo&g){ char b[200]; if(g.kind==K_POINT){ snprintf(b,200,"{\"type\":\"Point\",\"coordinates\":[%.17g,%.17g]}",g.pts[0].x,g.pts[0].y); return b; } if(g.kind==K_LINE) return "{\"type\":\"LineString\",\"coordinates\":"+jpts(g.lines[0])+"}"; string s="{\"coordinates\":["+jpts(closed(g.polys[0].ext)); for(auto&h:g.polys[0].holes) s+=","+jpts(closed(h)); return s+"],\"type\":\"Polygon\"}"; }
static bool isrect(const Pts&r){ if(r.size()!=4) return false; set<double> x,y; for(auto p:r){ x.insert(p.x); y.insert(p.y);} return x.size()==2&&y.size()==2; }

static void variants(const Geo&g,vector<V>&o,bool T){
    auto add=[&](string n,tg_geom*t){ o.push_back({t,n}); };
    add("as is",mkgeom(g));
    if(g.kind!=K_POINT){
        add("reversed",mkgeom(each(g,[](Pts v,bool){ return rev(v); })));
        size_t n=g.kind==K_LINE?1:g.polys[0].ext.size(); for(size_t k=1;k<n;k++) add("started at "+to_string(k),mkgeom(each(g,[&](Pts v,bool r){ if(r) rotate(v.begin(),v.begin()+k%v.size(),v.end()); return v; })));
        if(g.kind==K_POLY) for(size_t k=0;k<n;k++) add("reversed, started at "+to_string(k),mkgeom(each(g,[&](Pts v,bool r){ v=rev(v); if(r) rotate(v.begin(),v.begin()+k%v.size(),v.end()); return v; })));
        size_t m=g.kind==K_LINE?g.lines[0].size():n; for(size_t k=0;k<m;k++) add("vertex "+to_string(k)+" repeated",mkgeom(each(g,[&](Pts v,bool){ size_t q=k%v.size(); v.insert(v.begin()+q,v[q]); return v; })));
        add("all vertices repeated",mkgeom(each(g,[&](Pts v,bool){ Pts w; for(auto p:v){ w.push_back(p); w.push_back(p); w.push_back(p);} return w; })));
        for(size_t k=0;k<m;k++) add("middle of edge "+to_string(k)+" added",mkgeom(each(g,[&](Pts v,bool r){ size_t q=k%v.size(); if(!r&&q+1>=v.size()) return v; P a=v[q],b=v[(q+1)%v.size()]; v.insert(v.begin()+q+1,P{(a.x+b.x)/2,(a.y+b.y)/2}); return v; })));
        add("every edge in four",mkgeom(dense(g,4))); 
        if(g.kind==K_LINE){ auto&l=g.lines[0]; if(l.size()==2){ Geo h=g_line({l[0],l[1],l[0],l[1]}); (void)h; } }
    }
    if(g.kind==K_LINE) add("a line",(tg_geom*)tg_line_new(tp(g.lines[0]),g.lines[0].size()));
    if(g.kind==K_POLY){ add("a poly",(tg_geom*)mkpoly(g.polys[0],TG_DEFAULT)); if(g.polys[0].holes.empty()){ add("a ring",(tg_geom*)mkring(g.polys[0].ext,TG_DEFAULT)); add("an unclosed ring",(tg_geom*)mkring(g.polys[0].ext,TG_DEFAULT,false)); add("a reversed ring",(tg_geom*)mkring(rev(g.polys[0].ext),TG_NONE)); add("a ring in a polygon",tg_geom_new_polygon((tg_poly*)mkring(g.polys[0].ext,TG_DEFAULT))); } }
    add("WKT",tg_parse_wkt(wktof(g,"","").c_str())); add("with Z",tg_parse_wkt(wktof(g," Z"," 7").c_str())); add("with M",tg_parse_wkt(wktof(g," M"," 8").c_str())); add("with ZM",tg_parse_wkt(wktof(g," ZM"," 1e9 -3").c_str()));
    add("GeoJSON",tg_parse_geojson(jsof(g).c_str())); add("a feature",tg_parse_geojson(("{\"id\":1,\"type\":\"Feature\",\"geometry\":"+jsof(g)+",\"properties\":{}}").c_str()));
    { size_t n=tg_geom_wkb(o[0].t,0,0); vector<uint8_t> b(n); tg_geom_wkb(o[0].t,b.data(),n); add("WKB",tg_parse_wkb(b.data(),n)); n=tg_geom_geobin(o[0].t,0,0); b.resize(n); tg_geom_geobin(o[0].t,b.data(),n); add("GeoBIN",tg_parse_geobin(b.data(),n)); }
    add("a copy",tg_geom_copy(o[0].t)); add("a clone",tg_geom_clone(o[0].t));
}
static void c7(bool T){
    Grid g3(3); vector<Geo> gs; for(auto p:grid_points(3)) gs.push_back(g_point(p)); vector<Pts> l; all_lines(3,2,l); { int k=0; for(auto&x:l) if(T||k++%2==0) gs.push_back(g_line(x)); } l.clear(); all_lines(3,3,l); { int k=0; for(auto&x:l) if(k++%(T?2:8)==0) gs.push_back(g_line(x)); }
    { vector<Pts> l4; all_lines(3,4,l4); int k=0; for(auto&x:l4) if(k++%(T?24:240)==0) gs.push_back(g_line(x)); }
    vector<Pts> r; all_rings(3,3,r); all_rings(3,4,r); for(auto&x:r) gs.push_back(g_poly(x)); { vector<Pts> r5; for(int n=5;n<=8;n++) all_rings(3,n,r5); int k=0; for(auto&x:r5) if(k++%(T?1:5)==0) gs.push_back(g_poly(x)); }
    for(auto&q:holed(T?200:40)) gs.push_back(q);
    G7=gs; C7.resize(gs.size()); for(size_t i=0;i<gs.size();i++) variants(gs[i],C7[i],T);
    uint64_t n=gs.size(); vector<uint64_t> *off=new vector<uint64_t>{0}; 
    mc::space("rewritten operand",n*n,[=](uint64_t i){ auto&a=C7[i/n],&b=C7[i%n]; string w=q8(a[0].t,b[0].t); mc::state(i); if(w[0]=='1') mc::nontrivial();
        auto cmp=[&](const V&x,const V&y){ string s=q8(x.t,y.t); if(s!=w){ string key="rewrite: "+(x.name=="as is"?y.name:x.name); while(!key.empty()&&(isdigit(key.back())||key.back()==' ')) key.pop_back(); mc::fail(key.substr(0,80).c_str(),"%s, %s: intersects disjoint touches equals covers contains within coveredby = %s, as is %s",x.name.c_str(),y.name.c_str(),s.c_str(),w.c_str()); } };
        for(size_t k=1;k<a.size();k++) cmp(a[k],b[0]); for(size_t k=1;k<b.size();k++) cmp(a[0],b[k]); size_t m=min(a.size(),b.size()); for(size_t k=1;k<m;k++) cmp(a[k],b[b.size()-k]); },
        [=](uint64_t i){ return gstr(G7[i/n])+" / "+gstr(G7[i%n]); });
    struct Mp { string name; function<P(P)> f; }; auto maps=new vector<Mp>;
    for(int k=1;k<8;k++) maps->push_back({"symmetry "+to_string(k),[k](P p){ if(k&1) p.x=2-p.x; if(k&2) p.y=2-p.y; if(k&4) swap(p.x,p.y); return p; }});
    for(double s:{0x1p20,0x1p-20,0x1p-300,0x1p300,0x1p-10}) maps->push_back({"scale",[s](P p){ return P{p.x*s,p.y*s}; }});
    maps->push_back({"stretch",[](P p){ return P{p.x*0x1p12,p.y*0x1p-12}; }}); for(double s:{0x1p20,-0x1p33,1.0,-1.0,-3.0}) maps->push_back({"shift",[s](P p){ return P{p.x+s,p.y-s}; }});
    auto mapped=new vector<vector<tg_geom*>>; for(auto&m:*maps){ vector<tg_geom*> v; for(auto&g:gs) v.push_back(mkgeom(map_geo(g,m.f))); mapped->push_back(v); }
    mc::space("both operands mapped",n*n,[=](uint64_t i){ string w=q8(C7[i/n][0].t,C7[i%n][0].t); mc::state(i*2+1);
        for(size_t k=0;k<maps->size();k++){ string s=q8((*mapped)[k][i/n],(*mapped)[k][i%n]); if(s!=w) mc::fail(("map: "+(*maps)[k].name).c_str(),"map %zu (%s): intersects disjoint touches equals covers contains within coveredby = %s, before %s",k,(*maps)[k].name.c_str(),s.c_str(),w.c_str()); } },
        [=](uint64_t i){ return gstr(G7[i/n])+" / "+gstr(G7[i%n]); });
    // a rectangle and the polygon around it, coordinates and the point
    vector<tg_rect> *rs=new vector<tg_rect>; for(int x=0;x<3;x++)for(int X=x;X<3;X++)for(int y=0;y<3;y++)for(int Y=y;Y<3;Y++) rs->push_back({{(double)x,(double)y},{(double)X,(double)Y}});
    mc::space("intersects_rect and intersects_xy",n*rs->size(),[=](uint64_t i){ auto A=C7[i/rs->size()][0].t; auto r=(*rs)[i%rs->size()]; mc::trans(2); mc::state(i+0x5000000000ull);
        bool got=tg_geom_intersects_rect(A,r); tg_geom*B; if(r.min.x==r.max.x&&r.min.y==r.max.y) B=tg_geom_new_point(r.min); else if(r.min.x==r.max.x||r.min.y==r.max.y) B=mkgeom(g_line({{r.min.x,r.min.y},{r.max.x,r.max.y}})); else B=mkgeom(g_poly({{r.min.x,r.min.y},{r.max.x,r.min.y},{r.max.x,r.max.y},{r.min.x,r.max.y}}));
        bool want=tg_geom_intersects(A,B); tg_geom_free(B); if(got!=want) mc::fail("intersects_rect","intersects_rect %d, as a geometry %d",got,want);
        tg_geom*Q=tg_geom_new_point(r.max); want=tg_geom_intersects(A,Q); tg_geom_free(Q); got=tg_geom_intersects_xy(A,r.max.x,r.max.y); if(got!=want) mc::fail("intersects_xy","intersects_xy %d, as a point %d",got,want); },
        [=](uint64_t i){ auto r=(*rs)[i%rs->size()]; char b[99]; snprintf(b,99," / rect %g %g %g %g",r.min.x,r.min.y,r.max.x,r.max.y); return gstr(G7[i/rs->size()])+b; });
}
// large polygons: every start, direction, repeated vertex and divided edge, and every format, against shapes along their edges, across them and of their size
struct Wide { string name; Geo g; tg_geom*t; vector<tg_geom*> q; vector<Geo> qg; vector<string> base; size_t n; };
static tg_geom*wide_variant(const Geo&g,const tg_geom*t,size_t k,string&name){ size_t n=g.polys[0].ext.size(); size_t m=k%n,c=k/n; auto go=[&](function<Pts(Pts)> f){ return mkgeom(each(g,[&](Pts v,bool){ return f(v); })); };
    switch(c){ case 0: name="started at "+to_string(m); return go([&](Pts v){ rotate(v.begin(),v.begin()+m%v.size(),v.end()); return v; });
    case 1: name="reversed, started at "+to_string(m); return go([&](Pts v){ v=rev(v); rotate(v.begin(),v.begin()+m%v.size(),v.end()); return v; });
    case 2: name="vertex "+to_string(m)+" repeated"; return go([&](Pts v){ size_t q=m%v.size(); v.insert(v.begin()+q,v[q]); return v; });
    case 3: name="middle of edge "+to_string(m)+" added"; return go([&](Pts v){ size_t q=m%v.size(); P a=v[q],b=v[(q+1)%v.size()]; v.insert(v.begin()+q+1,P{(a.x+b.x)/2,(a.y+b.y)/2}); return v; }); }
    size_t x=k-4*n; static const char*N[]={"all vertices repeated","every edge in four","WKT","with Z","with ZM","GeoJSON","a feature","WKB","GeoBIN","a copy","a poly","natural index","stripes","no index","holes in reverse order"}; if(x>=15) return nullptr; name=N[x];
    switch(x){ case 0: return go([](Pts v){ Pts w; for(auto p:v) w.insert(w.end(),3,p); return w; }); case 1: return mkgeom(dense(g,4)); case 2: return tg_parse_wkt(wktof(g,"","").c_str()); case 3: return tg_parse_wkt(wktof(g," Z"," 7").c_str()); case 4: return tg_parse_wkt(wktof(g," ZM"," 1e9 -3").c_str()); case 5: return tg_parse_geojson(jsof(g).c_str()); case 6: return tg_parse_geojson(("{\"id\":1,\"type\":\"Feature\",\"geometry\":"+jsof(g)+",\"properties\":{}}").c_str());
    case 7: { size_t n=tg_geom_wkb(t,0,0); vector<uint8_t> b(n); tg_geom_wkb(t,b.data(),n); return tg_parse_wkb(b.data(),n); } case 8: { size_t n=tg_geom_geobin(t,0,0); vector<uint8_t> b(n); tg_geom_geobin(t,b.data(),n); return tg_parse_geobin(b.data(),n); } case 9: return tg_geom_copy(t); case 10: return (tg_geom*)mkpoly(g.polys[0],TG_DEFAULT); case 11: return tg_geom_new_polygon(mkpoly(g.polys[0],TG_NATURAL)); case 12: return tg_geom_new_polygon(mkpoly(g.polys[0],TG_YSTRIPES)); case 13: return tg_geom_new_polygon(mkpoly(g.polys[0],TG_NONE)); default: { Geo h=g; reverse(h.polys[0].holes.begin(),h.polys[0].holes.end()); return mkgeom(h); } } }
static void c7wide(bool T){ int N=T?24:14; auto ms=masks(N,1); auto W=new vector<Wide>; for(size_t i=0;i<ms.size();i++) for(int tu=0;tu<2;tu++){ if(!T&&(i+tu)%2) continue; Wide w; w.g=mask_poly(ms[i],i%3==1); if(tu) w.g=turned(w.g,N); w.name=ms[i].name+(tu?" turned":""); W->push_back(w); }
    for(size_t i=0;i<W->size();i++){ auto&w=(*W)[i]; w.t=mkgeom(w.g); w.n=w.g.polys[0].ext.size(); auto put=[&](Geo g){ w.qg.push_back(g); w.q.push_back(mkgeom(g)); }; vector<Pts> rings={w.g.polys[0].ext}; for(auto&h:w.g.polys[0].holes) if(rings.size()<4) rings.push_back(h);
        for(auto&r:rings){ size_t n=r.size(),st=max<size_t>(1,n/(T?24:8)); for(size_t k=0;k<n;k+=st){ P a=r[k],b=r[(k+1)%n],z=r[(k+2)%n]; P m={(a.x+b.x)/2,(a.y+b.y)/2}; put(g_point(a)); put(g_point(m)); put(g_line({a,b})); put(g_line({b,z,a})); put(g_line({m,{m.x+.5,m.y+.5}})); put(g_line({m,{m.x-.5,m.y+.5},{m.x-.5,m.y-.5}})); put(g_poly({m,{m.x+.5,m.y},{m.x,m.y+.5}})); put(g_poly({a,{a.x-1,a.y},{a.x,a.y-1}})); put(g_poly({b,{b.x-1,b.y-1},{b.x+1,b.y-1},{b.x+1,b.y+1},{b.x-1,b.y+1}})); if(!(b==a)&&cross3(a,b,z)!=0) put(g_poly({a,b,z})); } for(double d:{.25,N/2.+.25}) put(g_line({{-1,d},{(double)N+1,d+.5}})); if(&r!=&rings[0]) put(g_poly(r)); }
        for(size_t j:{i,i+1,i+2,i+7}) if(j<W->size()) put((*W)[j].g); { Geo s=w.g; for(auto&p:s.polys[0].ext) p.x+=1; for(auto&h:s.polys[0].holes) for(auto&p:h) p.x+=1; put(s); } put(g_line(closed(w.g.polys[0].ext))); put(g_poly(w.g.polys[0].ext));
        for(auto q:w.q) w.base.push_back(q8(w.t,q)+q8(q,w.t)); }
    auto off=new vector<uint64_t>{0}; for(auto&w:*W) off->push_back(off->back()+4*w.n+15); auto at=[=](uint64_t i,size_t&k){ size_t s=upper_bound(off->begin(),off->end(),i)-off->begin()-1; k=i-(*off)[s]; return s; };
    mc::space("large polygon rewritten",off->back(),[=](uint64_t i){ size_t k,s=at(i,k); auto&w=(*W)[s]; string nm; tg_geom*t=wide_variant(w.g,w.t,k,nm); if(!t||tg_geom_error(t)){ mc::fail("rewrite","%s: cannot be built",nm.c_str()); return; } mc::state(i+0x6000000000ull); mc::nontrivial();
        for(size_t j=0;j<w.q.size();j++){ string r=q8(t,w.q[j])+q8(w.q[j],t); if(r!=w.base[j]){ string key="large: "+nm; while(!key.empty()&&(isdigit(key.back())||key.back()==' ')) key.pop_back(); mc::fail(key.substr(0,80).c_str(),"%s against %s: intersects disjoint touches equals covers contains within coveredby, and swapped, = %s, as is %s",nm.c_str(),gstr(w.qg[j]).substr(0,200).c_str(),r.c_str(),w.base[j].c_str()); break; } }
        string e=q8(t,w.t); if(e[3]!='1'||e[4]!='1'||e[7]!='1') mc::fail("large: equals","%s is not equal to the polygon as is: %s",nm.c_str(),e.c_str()); tg_geom_free(t); },
        [=](uint64_t i){ size_t k,s=at(i,k); string nm; tg_geom_free(wide_variant((*W)[s].g,(*W)[s].t,k,nm)); return (*W)[s].name+", "+nm; },4);
    struct Mp { string name; function<P(P)> f; }; auto maps=new vector<Mp>; for(int k=1;k<8;k++) maps->push_back({"symmetry "+to_string(k),[k,N](P p){ if(k&1) p.x=N-p.x; if(k&2) p.y=N-p.y; if(k&4) swap(p.x,p.y); return p; }}); for(double s:{0x1p20,0x1p-300,0x1p300}) maps->push_back({"scale",[s](P p){ return P{p.x*s,p.y*s}; }}); maps->push_back({"stretch",[](P p){ return P{p.x*0x1p12,p.y*0x1p-12}; }}); for(double s:{0x1p20,-0x1p33,-3.0}) maps->push_back({"shift",[s](P p){ return P{p.x+s,p.y-s}; }});
    uint64_t nm=maps->size(); mc::space("large polygons mapped",W->size()*nm,[=](uint64_t i){ auto&w=(*W)[i/nm]; auto&m=(*maps)[i%nm]; tg_geom*t=mkgeom(map_geo(w.g,m.f)); mc::state(i+0x6800000000ull); mc::nontrivial(); for(size_t j=0;j<w.q.size();j++){ tg_geom*q=mkgeom(map_geo(w.qg[j],m.f)); string r=q8(t,q)+q8(q,t); tg_geom_free(q); if(r!=w.base[j]){ mc::fail(("large map: "+m.name).c_str(),"map %d against %s: %s, before %s",(int)(i%nm),gstr(w.qg[j]).substr(0,200).c_str(),r.c_str(),w.base[j].c_str()); break; } } tg_geom_free(t); },[=](uint64_t i){ return (*W)[i/nm].name+", "+(*maps)[i%nm].name; },1);
}
int main(int argc,char**argv){
    mc::init(argc,argv); MURKY(); bool T=mc::thorough();
    if(mc::prop=="C05"){ build_universe(T); uint64_t n=U.size(); mc::space("laws",n*n,laws,[n](uint64_t i){ return U[i/n].name+"  /  "+U[i%n].name; }); }
    else { c7(T); c7wide(T); }
    return mc::finish();
}
