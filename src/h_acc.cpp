// C30: every accessor of every geometry at every kind of index, against what the geometry was built from.
// C31: every short sequence of global settings followed by every way to make a geometry, against a model of the settings.
#include "gfam.hpp"
#include "cat.hpp"
#include "sig.hpp"
#include "alloc.hpp"
#include <limits.h>
#include <algorithm>
#include <functional>
using std::vector; using ref::G;
static vector<int> indices(int n){ vector<int> v={INT_MIN,INT_MIN+1,-65536,-2,-1}; for(int i=0;i<=std::min(n,8);i++) v.push_back(i); for(int i:{n-2,n-1,n,n+1,n+2,2*n,n+31,n+63,65536,INT_MAX-1,INT_MAX}) if(i>8) v.push_back(i); return v; }
static bool zero(tg_point p){ return p.x==0&&p.y==0; }
static bool zero(tg_rect r){ return zero(r.min)&&zero(r.max); }
static bool same(tg_point p,const ref::P4&q){ return !memcmp(&p.x,&q[0],8)&&!memcmp(&p.y,&q[1],8); }
#define BADK(k,...) mc::fail(k,__VA_ARGS__)
#define BAD(...) mc::fail(key,__VA_ARGS__)
// truth: the vertices it was built from; NULL when only the accessors are compared with each other
static void series(const char*key,bool ring,const void*o,const ref::Seq*truth){ auto R=(const tg_ring*)o; auto L=(const tg_line*)o;
    int n=ring?tg_ring_num_points(R):tg_line_num_points(L); mc::trans(); if(truth&&n!=(int)truth->size()){ BAD("%d points, built from %zu",n,truth->size()); return; } auto P=ring?tg_ring_points(R):tg_line_points(L); if(n&&!P) BAD("no points"); if(!o&&P) BAD("points of nothing");
    if(truth) for(int i=0;i<n;i++) if(!same(P[i],(*truth)[i])) BAD("point %d is %.17g %.17g",i,P[i].x,P[i].y);
    for(int i:indices(n)){ tg_point p=ring?tg_ring_point_at(R,i):tg_line_point_at(L,i); mc::trans(); if(i>=0&&i<n?memcmp(&p,P+i,sizeof p):!zero(p)) BAD("point at %d of %d",i,n); }
    int m=ring?tg_ring_num_segments(R):tg_line_num_segments(L); if(m!=(ring?(n>=3?n-1:0):(n>=2?n-1:0))&&!(ring&&n>=3&&m==n)) BAD("%d segments of %d points",m,n);
    for(int i:indices(m)){ tg_segment s=ring?tg_ring_segment_at(R,i):tg_line_segment_at(L,i); mc::trans(); if(i>=0&&i<m){ tg_point a=P[i],b=i+1<n?P[i+1]:P[0]; if(memcmp(&s.a,&a,16)||memcmp(&s.b,&b,16)) BAD("segment at %d of %d",i,m); } else if(!zero(s.a)||!zero(s.b)) BAD("segment at %d of %d",i,m); }
    int sp=ring?tg_ring_index_spread(R):tg_line_index_spread(L),lv=ring?tg_ring_index_num_levels(R):tg_line_index_num_levels(L); if(sp<0||lv<0||(sp==0&&lv)||sp==1) BAD("index of spread %d with %d levels",sp,lv); int up=-1;
    for(int l:indices(lv)){ int k=ring?tg_ring_index_level_num_rects(R,l):tg_line_index_level_num_rects(L,l); mc::trans(); if(l>=0&&l<lv?k<1:k!=0) BAD("level %d of %d has %d rectangles",l,lv,k); for(int i:indices(k)){ tg_rect r=ring?tg_ring_index_level_rect(R,l,i):tg_line_index_level_rect(L,l,i); mc::trans(); if(l>=0&&l<lv&&i>=0&&i<k){ tg_rect w=ring?tg_ring_rect(R):tg_line_rect(L); if(r.max.x<w.min.x||r.min.x>w.max.x||r.max.y<w.min.y||r.min.y>w.max.y||r.min.x>r.max.x||r.min.y>r.max.y) BAD("rectangle %d of level %d lies outside",i,l); } else if(!zero(r)) BAD("rectangle %d of level %d is not zero",i,l); } (void)up; }
    if(o&&!(ring?tg_ring_memsize(R):tg_line_memsize(L))) BAD("no size"); if(!o&&(ring?tg_ring_memsize(R):tg_line_memsize(L))) BAD("size of nothing"); if(!n){ if(ring?tg_ring_area(R)!=0||tg_ring_perimeter(R)!=0:tg_line_length(L)!=0) BAD("nothing has a length"); if(!zero(ring?tg_ring_rect(R):tg_line_rect(L))) BAD("nothing has a rectangle"); } }
static void polyacc(const char*key,const tg_poly*p,const ref::Rings*truth){ int h=tg_poly_num_holes(p); mc::trans(); if(truth&&h!=(int)truth->size()-1){ BAD("%d holes, built from %zu rings",h,truth->size()); return; } if(p&&!tg_poly_exterior(p)) BAD("no exterior"); if(!p&&(h||tg_poly_exterior(p))) BAD("parts of nothing"); series(key,true,tg_poly_exterior(p),truth?&(*truth)[0]:nullptr);
    for(int i:indices(h)){ auto r=tg_poly_hole_at(p,i); mc::trans(); if(i>=0&&i<h?!r:!!r) BAD("hole at %d of %d",i,h); if(r) series(key,true,r,truth?&(*truth)[i+1]:nullptr); } tg_rect a=tg_poly_rect(p),b=tg_ring_rect(tg_poly_exterior(p)); if(memcmp(&a,&b,sizeof a)) BAD("rectangle of a polygon"); if(tg_poly_clockwise(p)!=tg_ring_clockwise(tg_poly_exterior(p))) BAD("winding of a polygon"); if(p?!tg_poly_memsize(p):!!tg_poly_memsize(p)) BAD("size of a polygon"); }
static bool iterc(const tg_geom*,int,void*u){ ++*(int*)u; return true; }
static bool iterss(tg_segment,int,tg_segment,int,void*u){ ++*(int*)u; return true; } static bool itern(tg_segment,double,int,void*u){ ++*(int*)u; return true; } static double sd(tg_segment,int*,void*){ return 0; } static double rd(tg_rect,int*,void*){ return 0; }
// truth NULL: the accessors are compared with each other only
static void geomacc(const char*key,const tg_geom*g,const G*t,bool meta=true){
    auto ty=tg_geom_typeof(g); const char*names[]={"Point","LineString","Polygon","MultiPoint","MultiLineString","MultiPolygon","GeometryCollection"}; if(t&&(int)ty!=t->type){ BAD("type %d",ty); return; } bool err=g&&tg_geom_error(g); if(g&&!err&&(ty<1||ty>7)){ BAD("type %d",ty); return; } if(ty>=1&&ty<=7&&strcmp(tg_geom_type_string(ty),names[ty-1])) BAD("type %s",tg_geom_type_string(ty));
    bool em=tg_geom_is_empty(g); if(t&&em!=t->empty()) BAD("empty is %d",em); bool z=tg_geom_has_z(g),m=tg_geom_has_m(g); int d=tg_geom_dims(g); if(d!=(g?2+z+m:0)) BAD("%d dimensions, z %d, m %d",d,z,m); if(t&&t->type!=ref::GC&&!t->empty()&&(z!=t->z||m!=t->m)) BAD("z %d m %d, built with %d %d",z,m,t->z,t->m);
    if(!g||err){ if(tg_geom_is_feature(g)||tg_geom_is_featurecollection(g)||tg_geom_extra_json(g)) BAD("metadata of nothing"); if(!zero(tg_geom_rect(g))||!zero(tg_geom_point(g))) BAD("position of nothing"); }
    if(meta&&t&&(tg_geom_is_feature(g)!=t->feature||tg_geom_is_featurecollection(g)!=t->fc)) BAD("feature kind"); if(meta&&t&&ref::xcanon(tg_geom_extra_json(g))!=t->extra) BAD("extra json %s",tg_geom_extra_json(g)?tg_geom_extra_json(g):"(none)"); if(g&&!err&&!tg_geom_memsize(g)) BAD("no size"); if(!g&&tg_geom_memsize(g)) BAD("size of nothing");
    tg_point p=tg_geom_point(g); tg_rect r=tg_geom_rect(g); if(ty==TG_POINT&&!err){ if(t&&!t->pts.empty()){ if(!same(p,t->pts[0])) BAD("point %.17g %.17g",p.x,p.y); double zz=tg_geom_z(g),mm=tg_geom_m(g); if(t->z&&memcmp(&zz,&t->pts[0][2],8)) BAD("z %.17g",zz); if(t->m&&memcmp(&mm,&t->pts[0][3],8)) BAD("m %.17g",mm); if((!t->z&&zz!=0)||(!t->m&&mm!=0)) BAD("z %g m %g without them",zz,mm); } else if(t&&!zero(p)) BAD("a point without a position is at %g %g",p.x,p.y); } else if(g&&!err){ tg_point c=tg_rect_center(r); if(memcmp(&p,&c,sizeof p)&&!(p.x!=p.x||p.y!=p.y)) BAD("point is %.17g %.17g instead of the centre",p.x,p.y); if(tg_geom_z(g)!=0||tg_geom_m(g)!=0) BAD("z and m of what is no point"); }
    auto L=tg_geom_line(g); auto P=tg_geom_poly(g); if(ty!=TG_LINESTRING&&L) BAD("a line of %s",tg_geom_type_string(ty)); if(ty!=TG_POLYGON&&P) BAD("a polygon of %s",tg_geom_type_string(ty)); if(t&&t->type==ref::LINE&&!t->empty()){ if(!L) BAD("no line"); else series(key,false,L,&t->pts); } else if(L) series(key,false,L,nullptr); if(t&&t->type==ref::POLY&&!t->empty()){ if(!P) BAD("no polygon"); else polyacc(key,P,&t->rings); } else if(P) polyacc(key,P,nullptr);
    int np=tg_geom_num_points(g),nl=tg_geom_num_lines(g),nq=tg_geom_num_polys(g),ng=tg_geom_num_geometries(g); auto cnt=[&](int k,int n,size_t want){ if(ty==k&&g&&!err?(t&&n!=(int)want):n!=0) BAD("%d children of kind %d in %s",n,k,tg_geom_type_string(ty)); }; cnt(TG_MULTIPOINT,np,t?t->pts.size():0); cnt(TG_MULTILINESTRING,nl,t?t->rings.size():0); cnt(TG_MULTIPOLYGON,nq,t?t->polys.size():0); cnt(TG_GEOMETRYCOLLECTION,ng,t?t->kids.size():0);
    for(int i:indices(np)){ tg_point q=tg_geom_point_at(g,i); mc::trans(); bool in=i>=0&&i<np; if(in?(t&&!same(q,t->pts[i])):!zero(q)) BAD("point at %d of %d",i,np); }
    for(int i:indices(nl)){ auto q=tg_geom_line_at(g,i); mc::trans(); bool in=i>=0&&i<nl; if(in!=!!q) BAD("line at %d of %d",i,nl); if(q) series(key,false,q,t?&t->rings[i]:nullptr); }
    for(int i:indices(nq)){ auto q=tg_geom_poly_at(g,i); mc::trans(); bool in=i>=0&&i<nq; if(in!=!!q) BAD("polygon at %d of %d",i,nq); if(q) polyacc(key,q,t?&t->polys[i]:nullptr); }
    for(int i:indices(ng)){ auto q=tg_geom_geometry_at(g,i); mc::trans(); bool in=i>=0&&i<ng; if(in!=!!q) BAD("geometry at %d of %d",i,ng); if(q) geomacc(key,q,t?&t->kids[i]:nullptr,meta); }
    int nx=tg_geom_num_extra_coords(g); auto X=tg_geom_extra_coords(g); if(nx<0||(nx>0&&!X)||(ty==TG_POINT&&(nx||X))||(!g&&(nx||X))||(err&&(nx||X))) BAD("%d extra coordinates at %p",nx,(void*)X); if(t&&t->type!=ref::POINT&&t->type!=ref::GC){ vector<double> x; ref::xc(t->pts,*t,x); for(auto&s:t->rings) ref::xc(s,*t,x); for(auto&q:t->polys) for(auto&s:q) ref::xc(s,*t,x); if(nx!=(int)x.size()||(nx&&memcmp(X,x.data(),8*nx))) BAD("%d extra coordinates, built from %zu",nx,x.size()); }
    // a geometry that is not of a type with children has none to search
    int hits=0; tg_geom_search(g,tg_rect{{-INFINITY,-INFINITY},{INFINITY,INFINITY}},iterc,&hits); int kids=np+nl+nq+ng; if(kids==0&&hits) BAD("%d children found of none",hits); if(hits>kids) BAD("%d children found of %d",hits,kids); tg_geom_search(g,tg_rect{{0,0},{1,1}},nullptr,nullptr); mc::trans(2); }
static void c30(){
    { gf::Opt o; o.special=true; auto F=std::make_shared<vector<G>>(gf::family(o)); mc::space("family",F->size()*2,[=](uint64_t i){ auto&g=(*F)[i/2]; string b=ref::wkb(g); tg_geom*t=i%2?tg_parse_wkb((const uint8_t*)b.data(),b.size()):ref::totg(g); mc::state(mc::hash(ref::canon(g))*2+i%2); mc::nontrivial(); geomacc("accessor",t,&g); tg_geom*c=tg_geom_copy(t); geomacc("accessor of a copy",c,&g); tg_geom_free(t); tg_geom_free(c); },[=](uint64_t i){ return string(i%2?"read ":"built ")+ref::canon((*F)[i/2]); },64); }
    { auto K=std::make_shared<vector<CItem>>(catalogue(true)); mc::space("catalogue",K->size(),[=](uint64_t i){ tg_geom*t=(*K)[i].make(); mc::state(i+77); mc::nontrivial(); geomacc("accessor",t,nullptr); tg_geom_free(t); },[=](uint64_t i){ return (*K)[i].name; },4); }
    { // features: metadata comes from the document
      vector<string> D; for(auto j:JSON_T) D.push_back(j); for(auto j:{"{\"type\":\"Feature\",\"geometry\":{\"type\":\"MultiPoint\",\"coordinates\":[[1,2,3],[4,5,6]]},\"id\":1}","{\"type\":\"Feature\",\"geometry\":{\"type\":\"Polygon\",\"coordinates\":[[[0,0],[4,0],[4,4],[0,0]]]},\"properties\":{\"x\":2}}","{\"type\":\"Feature\",\"geometry\":{\"type\":\"LineString\",\"coordinates\":[]},\"properties\":{}}","{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":{\"type\":\"GeometryCollection\",\"geometries\":[]},\"a\":0}],\"b\":1}"}) D.push_back(j); auto V=std::make_shared<vector<string>>(D);
      mc::space("features",V->size()*2,[=](uint64_t i){ G g; if(!ref::parse_geojson((*V)[i/2],g)) return; tg_geom*t=tg_parse_geojson((*V)[i/2].c_str()); if(i%2){ tg_geom*c=tg_geom_copy(t); tg_geom_free(t); t=c; } mc::state(mc::hash((*V)[i/2])+i%2); mc::nontrivial(); geomacc("feature",t,&g); tg_geom_free(t); },[=](uint64_t i){ return (*V)[i/2]; }); }
    // rings and lines of every length around the index thresholds, wrapped in every way
    mc::space("sizes",130*4*2,[](uint64_t i){ int n=i%130,ix=i/130%4; bool ring=i/520; ref::Seq s; for(int k=0;k<n;k++) s.push_back({(double)(k%2?k:-k),(double)(k*k%17),0,0}); if(ring&&n>1) s.back()=s[0]; vector<tg_point> p; for(auto&q:s) p.push_back({q[0],q[1]}); mc::state(i); mc::nontrivial(); if(ring){ tg_ring*r=tg_ring_new_ix(p.data(),n,(tg_index)ix); series("ring",true,r,&s); tg_poly*a=tg_poly_new(r,0,0); const tg_ring*hs[]={r,r}; tg_poly*b=tg_poly_new(r,hs,2); ref::Rings one={s},three={s,s,s}; polyacc("ring as polygon",(tg_poly*)r,&one); polyacc("polygon",a,&one); polyacc("polygon",b,&three); tg_geom*g=tg_geom_new_polygon(b); G t; t.type=ref::POLY; t.rings=three; geomacc("polygon",g,n>2?&t:nullptr); G t1=t; t1.rings=one; geomacc("ring as geometry",(tg_geom*)r,n>2?&t1:nullptr); geomacc("polygon as geometry",(tg_geom*)b,n>2?&t:nullptr); for(auto q:{g,(tg_geom*)r,(tg_geom*)b}) if(tg_geom_is_empty(q)!=(n<3)) BADK("polygon","empty"); tg_geom_free(g); tg_poly_free(a); tg_poly_free(b); tg_ring_free(r); }
        else { tg_line*l=tg_line_new_ix(p.data(),n,(tg_index)ix); series("line",false,l,&s); tg_geom*g=tg_geom_new_linestring(l); G t; t.type=ref::LINE; t.pts=s; geomacc("linestring",g,n>1?&t:nullptr); geomacc("line as geometry",(tg_geom*)l,n>1?&t:nullptr); if(tg_geom_is_empty(g)!=(n<2)) BADK("linestring","empty"); tg_geom_free(g); tg_line_free(l); } },[](uint64_t i){ return string(i/520?"ring":"line")+" of "+std::to_string(i%130)+" index "+std::to_string(i/130%4); },8);
    mc::space("missing",4,[](uint64_t i){ const char*key="missing"; mc::state(i+5); mc::nontrivial(); if(i==0){ geomacc(key,nullptr,nullptr); series(key,true,nullptr,nullptr); series(key,false,nullptr,nullptr); polyacc(key,nullptr,nullptr); if(tg_ring_convex(nullptr)||tg_ring_clockwise(nullptr)||tg_line_clockwise(nullptr)) BAD("a missing ring has a shape"); if(!tg_geom_error(nullptr)) BAD("no error for a missing geometry"); double a[4],b[4]; if(tg_geom_fullrect(nullptr,a,b)) BAD("a missing geometry has dimensions"); tg_geom_type_string((tg_geom_type)0); tg_geom_type_string((tg_geom_type)8); tg_geom_type_string((tg_geom_type)-1); tg_geom_type_string((tg_geom_type)INT_MAX); }
        if(i==1){ if(tg_geom_clone(nullptr)||tg_geom_copy(nullptr)||tg_ring_clone(nullptr)||tg_ring_copy(nullptr)||tg_line_clone(nullptr)||tg_line_copy(nullptr)||tg_poly_clone(nullptr)||tg_poly_copy(nullptr)) BAD("a copy of nothing"); tg_geom_free(nullptr); tg_ring_free(nullptr); tg_line_free(nullptr); tg_poly_free(nullptr); { tg_point p[]={{0,0},{4,0},{4,4},{0,0}},q[]={{2,1},{3,1},{3,2},{2,1}}; tg_ring*r=tg_ring_new(p,4),*h=tg_ring_new(q,4); for(int n=0;n<4;n++) for(int m=0;m<(1<<n);m++) for(int e=0;e<2;e++){ const tg_ring*hs[3]; bool all=!e; for(int k=0;k<n;k++){ hs[k]=m>>k&1?h:nullptr; if(!hs[k]) all=false; } long before=al::live; tg_poly*o=tg_poly_new(e?nullptr:r,hs,n); mc::trans(); if(!!o!=all) BAD("a polygon of %d holes, mask %d, %s exterior is %s",n,m,e?"no":"an",o?"made":"not made"); tg_poly_free(o); if(al::live!=before) BAD("a polygon that was not made is left"); } tg_ring_free(r); tg_ring_free(h); } int n=0; tg_ring_ring_search(nullptr,nullptr,iterss,&n); tg_ring_line_search(nullptr,nullptr,iterss,&n); tg_line_line_search(nullptr,nullptr,iterss,&n); tg_ring_nearest_segment(nullptr,rd,sd,itern,&n); tg_line_nearest_segment(nullptr,rd,sd,itern,&n); if(n) BAD("something found in nothing"); }
        if(i==2){ for(auto e:{tg_geom_new_error("e"),tg_geom_new_error(""),tg_parse_wkt("POINT("),tg_parse_geojson("{}")}){ geomacc("error",e,nullptr); if(!tg_geom_error(e)) BAD("no error text"); tg_geom*c=tg_geom_copy(e); if(!c||!tg_geom_error(c)||strcmp(tg_geom_error(c),tg_geom_error(e))) BAD("copy of an error"); tg_geom_free(c); c=tg_geom_clone(e); tg_geom_free(c); tg_geom_free(e); } }
        if(i==3){ tg_point p[]={{0,0},{1,0},{1,1},{0,0}}; tg_ring*r=tg_ring_new(p,4); tg_line*l=tg_line_new(p,4); int n=0; for(auto q:{(const tg_ring*)nullptr,(const tg_ring*)r}) for(auto k:{(const tg_line*)nullptr,(const tg_line*)l}) if(!q||!k){ tg_ring_line_search(q,k,iterss,&n); tg_line_line_search((tg_line*)q,k,iterss,&n); tg_ring_ring_search(q,(tg_ring*)k,iterss,&n); } if(n) BAD("something found in nothing"); tg_ring_ring_search(r,r,nullptr,nullptr); tg_ring_nearest_segment(r,rd,nullptr,itern,&n); if(n) BAD("nearest without distances"); tg_ring_nearest_segment(r,nullptr,sd,itern,&n); if(n!=3) BAD("%d segments without a distance for rectangles",n); 
            if(tg_geom_new_linestring(nullptr)||tg_geom_new_polygon(nullptr)) BAD("a geometry of nothing"); tg_geom*g[]={tg_geom_new_multipoint(nullptr,0),tg_geom_new_multilinestring(nullptr,0),tg_geom_new_multipolygon(nullptr,0),tg_geom_new_geometrycollection(nullptr,0),tg_geom_new_multipoint(p,-1),tg_geom_new_geometrycollection(nullptr,-5)}; int ty[]={4,5,6,7,4,7}; for(int k=0;k<6;k++){ G t; t.type=ty[k]; geomacc("made of nothing",g[k],&t); tg_geom_free(g[k]); } tg_ring*e=tg_ring_new(nullptr,0); ref::Seq none; series("ring of nothing",true,e,&none); tg_ring_free(e); e=tg_ring_new(p,-3); series("ring of nothing",true,e,&none); tg_ring_free(e); tg_ring_free(r); tg_line_free(l); } },[](uint64_t i){ return "missing arguments, group "+std::to_string(i); },1);
}
// ---- C31 ----
struct Model { int ix=2, spread=16; bool fixed=false; int alloc=0; };
static const int EN[]={TG_DEFAULT,TG_NONE,TG_NATURAL,TG_YSTRIPES};
struct Act { int kind; long v; };
static const vector<Act>&acts(){ static vector<Act> a; if(a.empty()){ for(long v:{(long)TG_NONE,(long)TG_NATURAL,(long)TG_YSTRIPES,(long)TG_DEFAULT,99L,-1L,(long)TG_YSTRIPES+1,(long)TG_YSTRIPES+16}) a.push_back({0,v}); for(long v:{2L,3L,5L,16L,17L,60L,4096L,1L,0L,-1L,-16L,4097L,(long)INT_MAX,(long)INT_MIN}) a.push_back({1,v}); a.push_back({2,0}); a.push_back({2,1}); for(long v:{0L,1L,2L}) a.push_back({3,v}); } return a; }
static string actname(const Act&a){ const char*n[]={"index ","spread ","fixed floats ","allocator "}; return n[a.kind]+std::to_string(a.v); }
// two allocators that count, and the one of the C library counted from outside
namespace A { static long live[2],calls[3]; static bool in=false; struct H { uint64_t who; uint64_t size; };
template<int K> static void*mal(size_t n){ calls[K+1]++; bool o=in; in=false; H*h=(H*)malloc(sizeof(H)+n); in=o; h->who=0xA110C000+K; h->size=n; live[K]++; memset(h+1,0xA5,n); return h+1; }
static bool wrong=false; template<int K> static void fre(void*p){ if(!p) return; H*h=(H*)p-1; if(h->who!=0xA110C000+K){ wrong=true; abort(); } h->who=0; live[K]--; bool o=in; in=false; free(h); in=o; }
template<int K> static void*rea(void*p,size_t n){ void*q=mal<K>(n); if(p){ H*h=(H*)p-1; memcpy(q,p,std::min<size_t>(n,h->size)); fre<K>(p); } return q; } }
#if !defined(__SANITIZE_ADDRESS__)
extern "C" void*__libc_malloc(size_t); extern "C" void*__libc_realloc(void*,size_t); extern "C" void __libc_free(void*); extern "C" void*__libc_calloc(size_t,size_t);
extern "C" void*malloc(size_t n){ if(A::in) A::calls[0]++; return __libc_malloc(n); } extern "C" void*realloc(void*p,size_t n){ if(A::in) A::calls[0]++; return __libc_realloc(p,n); } extern "C" void free(void*p){ __libc_free(p); } extern "C" void*calloc(size_t a,size_t b){ if(A::in) A::calls[0]++; return __libc_calloc(a,b); }
#endif
static void apply(const Act&a,Model&m){ switch(a.kind){ case 0: tg_env_set_index((tg_index)a.v); if(a.v==TG_NONE||a.v==TG_NATURAL||a.v==TG_YSTRIPES) m.ix=a.v; break; case 1: tg_env_set_index_spread(a.v); if(a.v>=2&&a.v<=4096) m.spread=a.v; break; case 2: tg_env_set_print_fixed_floats(a.v); m.fixed=a.v; break; default: m.alloc=a.v; if(a.v==0) tg_env_set_allocator(nullptr,nullptr,nullptr); else if(a.v==1) tg_env_set_allocator(A::mal<0>,A::rea<0>,A::fre<0>); else tg_env_set_allocator(A::mal<1>,A::rea<1>,A::fre<1>); } }
static void defaults(){ tg_env_set_index(TG_NATURAL); tg_env_set_index_spread(16); tg_env_set_print_fixed_floats(false); tg_env_set_allocator(nullptr,nullptr,nullptr); }
static const int NV=47; static vector<tg_point> verts(bool ring){ vector<tg_point> p; for(int i=0;i<NV;i++){ double a=i*2*M_PI/NV; p.push_back({floor(cos(a)*1e6)*1e3,floor(sin(a)*1e6)*1e15}); } if(ring) p.back()=p[0]; return p; }
static vector<string> BASE[3]; static string JF; // text of a ring, a line, both
static void texts(){ if(!BASE[0].empty()) return; for(int k=0;k<3;k++){ auto R=verts(true),L=verts(false); tg_ring*r=tg_ring_new(R.data(),NV); tg_line*l=tg_line_new(L.data(),NV); tg_geom*g; if(k==0) g=tg_geom_clone((tg_geom*)r); else if(k==1) g=tg_geom_clone((tg_geom*)l); else { const tg_geom*gs[]={(tg_geom*)r,(tg_geom*)l}; g=tg_geom_new_geometrycollection(gs,2); } BASE[k]={w_wkt(g),w_json(g),w_wkb(g),w_hex(g),w_geobin(g)}; tg_geom_free(g); tg_ring_free(r); tg_line_free(l); } JF="{\"type\":\"Feature\",\"geometry\":"+BASE[0][1]+",\"properties\":{}}"; }
// what index a ring or line shows: spread, levels, memory
static string ixsig(const tg_ring*r){ return std::to_string(tg_ring_index_spread(r))+"/"+std::to_string(tg_ring_index_num_levels(r))+"/"+std::to_string(tg_ring_memsize(r)); }
static string ixsig(const tg_geom*g){ string o; if(tg_geom_error(g)) return string("error ")+tg_geom_error(g); if(auto l=tg_geom_line(g)) o+="L"+ixsig((const tg_ring*)l); if(auto p=tg_geom_poly(g)){ o+="P"+ixsig(tg_poly_exterior(p)); for(int i=0;i<tg_poly_num_holes(p);i++) o+="h"+ixsig(tg_poly_hole_at(p,i)); } for(int i=0;i<tg_geom_num_lines(g);i++) o+="l"+ixsig((const tg_ring*)tg_geom_line_at(g,i)); for(int i=0;i<tg_geom_num_polys(g);i++) o+="p"+ixsig(tg_poly_exterior(tg_geom_poly_at(g,i))); for(int i=0;i<tg_geom_num_geometries(g);i++) o+="("+ixsig(tg_geom_geometry_at(g,i))+")"; return o; }
// every way to make a geometry with a choice of index: 0 none given
typedef std::function<tg_geom*(int)> Way; static vector<std::pair<string,Way>> ways(){ vector<std::pair<string,Way>> v; texts(); auto R=verts(true),L=verts(false);
    v.push_back({"ring",[=](int x){ return (tg_geom*)(x<0?tg_ring_new(R.data(),NV):tg_ring_new_ix(R.data(),NV,(tg_index)x)); }}); v.push_back({"line",[=](int x){ return (tg_geom*)(x<0?tg_line_new(L.data(),NV):tg_line_new_ix(L.data(),NV,(tg_index)x)); }});
    for(int k=0;k<3;k++){ auto b=BASE[k]; v.push_back({"wkt",[=](int x){ return x<0?tg_parse_wkt(b[0].c_str()):tg_parse_wkt_ix(b[0].c_str(),(tg_index)x); }}); v.push_back({"wktn",[=](int x){ return x<0?tg_parse_wktn(b[0].data(),b[0].size()):tg_parse_wktn_ix(b[0].data(),b[0].size(),(tg_index)x); }}); v.push_back({"geojson",[=](int x){ return x<0?tg_parse_geojson(b[1].c_str()):tg_parse_geojson_ix(b[1].c_str(),(tg_index)x); }}); v.push_back({"geojsonn",[=](int x){ return x<0?tg_parse_geojsonn(b[1].data(),b[1].size()):tg_parse_geojsonn_ix(b[1].data(),b[1].size(),(tg_index)x); }});
        v.push_back({"wkb",[=](int x){ return x<0?tg_parse_wkb((const uint8_t*)b[2].data(),b[2].size()):tg_parse_wkb_ix((const uint8_t*)b[2].data(),b[2].size(),(tg_index)x); }}); v.push_back({"hex",[=](int x){ return x<0?tg_parse_hex(b[3].c_str()):tg_parse_hex_ix(b[3].c_str(),(tg_index)x); }}); v.push_back({"hexn",[=](int x){ return x<0?tg_parse_hexn(b[3].data(),b[3].size()):tg_parse_hexn_ix(b[3].data(),b[3].size(),(tg_index)x); }}); v.push_back({"geobin",[=](int x){ return x<0?tg_parse_geobin((const uint8_t*)b[4].data(),b[4].size()):tg_parse_geobin_ix((const uint8_t*)b[4].data(),b[4].size(),(tg_index)x); }});
        for(int f=0;f<5;f++) v.push_back({"detect",[=](int x){ return x<0?tg_parse(b[f].data(),b[f].size()):tg_parse_ix(b[f].data(),b[f].size(),(tg_index)x); }}); }
    string jf=JF; v.push_back({"feature",[=](int x){ return x<0?tg_parse_geojson(jf.c_str()):tg_parse_geojson_ix(jf.c_str(),(tg_index)x); }}); string fc="{\"type\":\"FeatureCollection\",\"features\":["+jf+","+jf+"]}"; v.push_back({"feature collection",[=](int x){ return x<0?tg_parse_geojson(fc.c_str()):tg_parse_geojson_ix(fc.c_str(),(tg_index)x); }});
    string w=BASE[0][0].substr(7),lw=BASE[1][0].substr(10); for(string t:{"MULTIPOLYGON("+w+","+w+")","MULTILINESTRING("+lw+","+lw+")","POLYGON("+w.substr(1,w.size()-2)+","+w.substr(1,w.size()-2)+")","GEOMETRYCOLLECTION(GEOMETRYCOLLECTION(MULTIPOLYGON("+w+")))"}){ v.push_back({"wkt "+t.substr(0,12),[=](int x){ return x<0?tg_parse_wkt(t.c_str()):tg_parse_wkt_ix(t.c_str(),(tg_index)x); }}); tg_geom*g=tg_parse_wkt(t.c_str()); string j=w_json(g),b=w_wkb(g),n=w_geobin(g); tg_geom_free(g); v.push_back({"geojson of "+t.substr(0,12),[=](int x){ return x<0?tg_parse_geojson(j.c_str()):tg_parse_geojson_ix(j.c_str(),(tg_index)x); }}); v.push_back({"wkb of "+t.substr(0,12),[=](int x){ return x<0?tg_parse_wkb((const uint8_t*)b.data(),b.size()):tg_parse_wkb_ix((const uint8_t*)b.data(),b.size(),(tg_index)x); }}); v.push_back({"geobin of "+t.substr(0,12),[=](int x){ return x<0?tg_parse_geobin((const uint8_t*)n.data(),n.size()):tg_parse_geobin_ix((const uint8_t*)n.data(),n.size(),(tg_index)x); }}); }
    return v; }
static const vector<std::pair<string,Way>>&W(){ static auto v=ways(); return v; }
// what the plain constructor shows when asked for exactly this index under this spread
static const string&expected(size_t way,int ix,int spread){ static std::map<std::tuple<size_t,int,int>,string> memo; auto k=std::make_tuple(way,ix,spread); auto it=memo.find(k); if(it!=memo.end()) return it->second; defaults(); tg_env_set_index_spread(spread); tg_geom*g=W()[way].second(ix); string s=ixsig(g); tg_geom_free(g); // and the spread itself
    if(way==0){ int sp=tg_ring_index_spread((tg_ring*)(g=W()[0].second(ix))); bool want=ix!=TG_NONE&&NV>=2*spread; if(sp!=(want?spread:0)) mc::fail("spread","a ring of %d vertices has index spread %d under spread %d and index %d",NV,sp,spread,ix); tg_geom_free(g); } return memo[k]=s; }
static void history(const vector<Act>&h,bool deep){ Model m; vector<const string*> want; { defaults(); for(auto&a:h) apply(a,m); for(size_t w=0;w<W().size();w++) for(int x:{-1,0,1,2,3}) want.push_back(nullptr); }
    // the expected answers are made under settings of their own
    size_t q=0; for(size_t w=0;w<W().size();w++) for(int x:{-1,0,1,2,3}){ int eff=x<=0?m.ix:x; want[q++]=&expected(w,eff,m.spread); }
    defaults(); Model m2; for(auto&a:h){ if(deep){ /* something is made and freed between the settings */ tg_geom*g=W()[0].second(-1); tg_geom_free(g); } apply(a,m2); } A::calls[0]=A::calls[1]=A::calls[2]=0; long l0=A::live[0],l1=A::live[1]; q=0;
    for(size_t w=0;w<W().size();w++) for(int x:{-1,0,1,2,3}){ A::in=true; tg_geom*g=W()[w].second(x); A::in=false; mc::trans(); string s=ixsig(g); if(s!=*want[q]) mc::fail(x>0?"explicit":"default","%s with index %d: %s instead of %s",W()[w].first.c_str(),x,s.c_str(),want[q]->c_str()); A::in=true; tg_geom*c=tg_geom_copy(g); A::in=false; if(ixsig(c)!=s) mc::fail("copy","%s: the copy has %s instead of %s",W()[w].first.c_str(),ixsig(c).c_str(),s.c_str()); if(w%7==0&&x==-1){ string t=w_wkt(g),b=w_wkb(g),j=w_json(g); bool e=t.find('e')!=string::npos||t.find("e",4)!=string::npos; bool je=j.find("e+")!=string::npos||j.find("e1")!=string::npos||j.find("e2")!=string::npos||j.find("e6")!=string::npos; tg_geom*p=tg_parse_wkt(t.c_str()); if(w_wkb(p)!=b) mc::fail("style","the style of numbers changes the values"); tg_geom_free(p); if(e==m.fixed||je==m.fixed) mc::fail("style","fixed floats is %d, the text is %s",m.fixed,t.substr(0,100).c_str()); }
        A::in=true; tg_geom_free(g); tg_geom_free(c); A::in=false; q++; }
    // writers take memory from nobody, and what was taken was given back to where it came from
    if(A::live[0]!=l0||A::live[1]!=l1) mc::fail("allocator","%ld and %ld blocks are left",A::live[0]-l0,A::live[1]-l1); if(m.alloc==1&&(!A::calls[1]||A::calls[2])) mc::fail("allocator","memory comes from another allocator"); if(m.alloc==2&&(!A::calls[2]||A::calls[1])) mc::fail("allocator","memory comes from another allocator"); if(m.alloc==0&&(A::calls[1]||A::calls[2])) mc::fail("allocator","memory comes from an allocator that was taken away");
#if !defined(__SANITIZE_ADDRESS__)
    if(m.alloc&&A::calls[0]) mc::fail("allocator","%ld calls to the C library for memory though an allocator is set",A::calls[0]);
#endif
    defaults(); mc::nontrivial(); string st=std::to_string(m.ix)+" "+std::to_string(m.spread)+" "+std::to_string(m.fixed)+" "+std::to_string(m.alloc); mc::state(mc::hash(st)); }
static void c31(){ int depth=mc::thorough()?4:3; const auto&A=acts(); uint64_t n=0,p=1; for(int l=0;l<=depth;l++){ n+=p; p*=A.size(); } auto mk=[=](uint64_t i){ uint64_t p=1; int l=0; const auto&A=acts(); while(i>=p){ i-=p; p*=A.size(); l++; } vector<Act> h; while(l--){ h.push_back(A[i%A.size()]); i/=A.size(); } return h; }; mc::space("histories",n,[=](uint64_t i){ history(mk(i),i%2); },[=](uint64_t i){ string o; for(auto&a:mk(i)) o+=actname(a)+"; "; return o; },32);
    // everything the library does takes memory from the allocator that is set
    auto K=std::make_shared<vector<CItem>>(catalogue(false)); mc::space("allocator",K->size()*2,[=](uint64_t i){ Model m; defaults(); apply({3,(long)(1+i%2)},m); A::calls[0]=A::calls[1]=A::calls[2]=0; long l0=A::live[0],l1=A::live[1]; auto&it=(*K)[i/2]; tg_geom*g=it.make(); A::in=true; tg_geom*c=tg_geom_copy(g); tg_geom*d=tg_geom_clone(g); char buf[64]; tg_geom_wkt(g,buf,64); tg_geom_geojson(g,buf,64); tg_geom_hex(g,buf,64); tg_geom_wkb(g,(uint8_t*)buf,64); tg_geom_geobin(g,(uint8_t*)buf,64); tg_geom_intersects(g,c); tg_geom_covers(g,c); tg_geom_touches(g,c); tg_geom_contains(c,g); tg_geom_intersects_xy(g,1,1); if(tg_geom_line(g)){ int n=0; tg_line_nearest_segment(tg_geom_line(g),rd,sd,itern,&n); } if(tg_geom_poly(g)){ int n=0; tg_ring_nearest_segment(tg_poly_exterior(tg_geom_poly(g)),rd,sd,itern,&n); } tg_geom_free(c); tg_geom_free(d); tg_geom_free(g); A::in=false; mc::trans(20); mc::nontrivial(); mc::state(i+1000);
#if !defined(__SANITIZE_ADDRESS__)
        if(A::calls[0]) mc::fail("allocator","%ld calls to the C library for memory though an allocator is set",A::calls[0]);
#endif
        if(A::live[0]!=l0||A::live[1]!=l1) mc::fail("allocator","%ld and %ld blocks are left",A::live[0]-l0,A::live[1]-l1); if(A::calls[1+(i+1)%2]) mc::fail("allocator","memory comes from another allocator"); if(!A::calls[1+i%2]) mc::fail("allocator","nothing was taken from the allocator"); defaults(); },[=](uint64_t i){ return "allocator "+std::to_string(1+i%2)+", "+(*K)[i/2].name; },8); }
int main(int c,char**v){ mc::init(c,v); MURKY(); texts(); if(mc::prop=="C30"){ tg_env_set_allocator(al::mal,al::rea,al::fre); c30(); } else c31(); return mc::finish(); }
