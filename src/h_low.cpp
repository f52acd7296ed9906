// C32: operations that the library exports for other code to link to, though tg.h does not declare them.
#include "alloc.hpp"
#include "fam.hpp"
#include "shapes.hpp"
#include "mc.hpp"
#include "sig.hpp"
#include <climits>
using namespace std;
extern "C" {
struct ring_result { bool hit; int idx; };
enum tg_raycast_result { TG_OUT, TG_IN, TG_ON };
ring_result tg_ring_contains_point(const tg_ring*,tg_point,bool); tg_raycast_result tg_raycast(tg_segment,tg_point);
bool tg_ring_intersects_segment(const tg_ring*,tg_segment,bool); bool tg_ring_contains_segment(const tg_ring*,tg_segment,bool); bool tg_ring_contains_ring(const tg_ring*,const tg_ring*,bool); bool tg_ring_intersects_ring(const tg_ring*,const tg_ring*,bool); bool tg_ring_intersects_line(const tg_ring*,const tg_line*,bool); bool tg_ring_contains_line(const tg_ring*,const tg_line*,bool,bool);
bool tg_ring_empty(const tg_ring*); bool tg_line_empty(const tg_line*); bool tg_poly_empty(const tg_poly*);
typedef bool (*seg_iter)(tg_segment,int,void*);
void tg_rect_search(tg_rect,tg_rect,seg_iter,void*); void tg_ring_search(const tg_ring*,tg_rect,seg_iter,void*); void tg_line_search(const tg_line*,tg_rect,seg_iter,void*);
double tg_ring_polsby_popper_score(const tg_ring*); double tg_line_polsby_popper_score(const tg_line*);
int tg_rect_num_points(tg_rect); tg_point tg_rect_point_at(tg_rect,int); int tg_rect_num_segments(tg_rect); tg_segment tg_rect_segment_at(tg_rect,int);
#define REL2(A,TA,B,TB) bool tg_##A##_covers_##B(TA,TB); bool tg_##A##_contains_##B(TA,TB); bool tg_##A##_touches_##B(TA,TB); bool tg_##A##_intersects_##B(TA,TB);
typedef const tg_line*cline; typedef const tg_poly*cpoly;
REL2(point,tg_point,point,tg_point) REL2(point,tg_point,line,cline) REL2(point,tg_point,poly,cpoly) REL2(line,cline,point,tg_point) REL2(line,cline,line,cline) REL2(line,cline,poly,cpoly) REL2(poly,cpoly,point,tg_point) REL2(poly,cpoly,line,cline) REL2(poly,cpoly,poly,cpoly)
bool tg_point_contains_geom(tg_point,const tg_geom*); bool tg_line_contains_geom(tg_line*,const tg_geom*); bool tg_poly_contains_geom(tg_poly*,const tg_geom*); bool tg_point_touches_geom(tg_point,const tg_geom*); bool tg_line_touches_geom(tg_line*,const tg_geom*); bool tg_poly_touches_geom(tg_poly*,const tg_geom*);
bool tg_geom_covers_point(const tg_geom*,tg_point); bool tg_geom_covers_xy(const tg_geom*,double,double); bool tg_geom_intersects_point(const tg_geom*,tg_point); bool tg_poly_covers_xy(cpoly,double,double);
bool tg_point_covers_rect(tg_point,tg_rect); bool tg_segment_covers_segment(tg_segment,tg_segment); bool tg_segment_covers_point(tg_segment,tg_point); bool tg_segment_covers_rect(tg_segment,tg_rect); bool tg_rect_covers_point(tg_rect,tg_point); bool tg_rect_covers_xy(tg_rect,double,double); bool tg_rect_covers_rect(tg_rect,tg_rect); bool tg_rect_covers_line(tg_rect,cline); bool tg_rect_covers_poly(tg_rect,cpoly); bool tg_line_covers_rect(cline,tg_rect); bool tg_line_intersects_rect(cline,tg_rect); bool tg_rect_intersects_line(tg_rect,cline); bool tg_rect_intersects_poly(tg_rect,cpoly); bool tg_poly_covers_rect(cpoly,tg_rect); bool tg_poly_intersects_rect(cpoly,tg_rect);
tg_point tg_point_move(tg_point,double,double); tg_segment tg_segment_move(tg_segment,double,double); tg_rect tg_rect_move(tg_rect,double,double); tg_line*tg_line_move(cline,double,double); tg_ring*tg_ring_move(const tg_ring*,double,double); tg_poly*tg_poly_move(cpoly,double,double);
double tg_point_distance_point(tg_point,tg_point); double tg_point_distance_rect(tg_point,tg_rect); double tg_point_distance_segment(tg_point,tg_segment); double tg_rect_distance_rect(tg_rect,tg_rect);
tg_ring*tg_circle_new(tg_point,double,int); tg_ring*tg_circle_new_ix(tg_point,double,int,tg_index);
tg_index tg_index_with_spread(tg_index,int); tg_index tg_index_extract_spread(tg_index,int*); tg_index tg_env_get_default_index(void); int tg_env_get_index_spread(void);
void tg_geom_foreach(const tg_geom*,bool(*)(const tg_geom*,void*),void*); int tg_geom_de9im_dims(const tg_geom*); size_t tg_aligned_size(size_t); bool tg_geom_crosses(const tg_geom*,const tg_geom*); bool tg_geom_overlaps(const tg_geom*,const tg_geom*);
}
static tg_point T(P p){ return {p.x,p.y}; }
static bool eq(tg_point a,tg_point b){ return a.x==b.x&&a.y==b.y; }
static bool eq(tg_rect a,tg_rect b){ return eq(a.min,b.min)&&eq(a.max,b.max); }
static bool eq(tg_segment a,tg_segment b){ return eq(a.a,b.a)&&eq(a.b,b.b); }
static bool meets(tg_rect a,tg_rect b){ return a.min.x<=b.max.x&&b.min.x<=a.max.x&&a.min.y<=b.max.y&&b.min.y<=a.max.y; }
static string rn(tg_rect r){ char s[100]; snprintf(s,100,"[%g %g %g %g]",r.min.x,r.min.y,r.max.x,r.max.y); return s; }
static vector<double> ival(int K,bool hi){ vector<double> v; for(int a=0;a<K;a++) for(int b=a;b<K;b++) v.push_back(hi?b:a); return v; }
static vector<tg_rect> rects(int K){ auto lo=ival(K,false),hi=ival(K,true); vector<tg_rect> v; for(size_t i=0;i<lo.size();i++) for(size_t j=0;j<lo.size();j++) v.push_back({{lo[i],lo[j]},{hi[i],hi[j]}}); return v; }
// the set of points of a rectangle: a point, a segment or a polygon
static Geo rgeo(tg_rect r){ P a={r.min.x,r.min.y},b={r.max.x,r.max.y}; if(a==b) return g_point(a); if(a.x==b.x||a.y==b.y) return g_line({a,b}); return g_poly({a,{b.x,a.y},b,{a.x,b.y}}); }
struct One { Geo g; Loc l; tg_geom*t; tg_line*line=nullptr; tg_poly*poly=nullptr; };
static vector<One>*ones(const Grid&gr,const vector<Geo>&v,int m,tg_index ix,int spread){ auto o=new vector<One>; tg_env_set_index_spread(spread); for(auto&g:v){ One x; x.g=g; x.l=locate(gr,g); Geo d=dense(g,m); x.t=mkgeom(d,ix); if(g.kind==K_LINE) x.line=(tg_line*)tg_geom_line(x.t); if(g.kind==K_POLY) x.poly=(tg_poly*)tg_geom_poly(x.t); o->push_back(x); } tg_env_set_index_spread(16); return o; }
static void ck(const char*n,bool got,bool want){ mc::trans(); if(got!=want) mc::fail(n,"%s is %d, exact answer %d",n,got,want); }

static void typed(const One&a,const One&b){ Rel r=relate(a.l,b.l); bool cov=!r.bout,con=r.II&&cov,tou=r.hit&&!r.II,ints=r.hit; if(ints) mc::nontrivial();
    auto all=[&](const char*n,bool c,bool k,bool t,bool i){ char s[60]; auto q=[&](const char*op,bool g,bool w){ mc::trans(); if(g!=w){ snprintf(s,60,"tg_%s_%s",n,op); mc::fail(g&&op[0]=='c'&&hole_twin(a.g,b.g)?"hole-twin":s,"%s is %d, exact answer %d",s,g,w); } }; q("covers",c,cov); q("contains",k,con); q("touches",t,tou); q("intersects",i,ints); };
#define ALL(A,x,B,y) all(#A"*"#B,tg_##A##_covers_##B(x,y),tg_##A##_contains_##B(x,y),tg_##A##_touches_##B(x,y),tg_##A##_intersects_##B(x,y))
    int ka=a.g.kind,kb=b.g.kind; tg_point p=ka==K_POINT?T(a.g.pts[0]):tg_point{0,0},q=kb==K_POINT?T(b.g.pts[0]):tg_point{0,0};
    if(ka==K_POINT){ if(kb==K_POINT) ALL(point,p,point,q); if(kb==K_LINE) ALL(point,p,line,b.line); if(kb==K_POLY) ALL(point,p,poly,b.poly); ck("tg_point_contains_geom",tg_point_contains_geom(p,b.t),con); ck("tg_point_touches_geom",tg_point_touches_geom(p,b.t),tou); }
    if(ka==K_LINE){ if(kb==K_POINT) ALL(line,a.line,point,q); if(kb==K_LINE) ALL(line,a.line,line,b.line); if(kb==K_POLY) ALL(line,a.line,poly,b.poly); ck("tg_line_contains_geom",tg_line_contains_geom(a.line,b.t),con); ck("tg_line_touches_geom",tg_line_touches_geom(a.line,b.t),tou); }
    if(ka==K_POLY){ if(kb==K_POINT){ ALL(poly,a.poly,point,q); ck("tg_poly_covers_xy",tg_poly_covers_xy(a.poly,q.x,q.y),cov); } if(kb==K_LINE) ALL(poly,a.poly,line,b.line); if(kb==K_POLY) ALL(poly,a.poly,poly,b.poly); if(!hole_twin(a.g,b.g)) ck("tg_poly_contains_geom",tg_poly_contains_geom(a.poly,b.t),con); ck("tg_poly_touches_geom",tg_poly_touches_geom(a.poly,b.t),tou); }
    if(kb==K_POINT){ ck("tg_geom_covers_point",tg_geom_covers_point(a.t,q),cov); ck("tg_geom_covers_xy",tg_geom_covers_xy(a.t,q.x,q.y),cov); ck("tg_geom_intersects_point",tg_geom_intersects_point(a.t,q),ints); }
    ck("unsupported",tg_geom_crosses(a.t,b.t)||tg_geom_overlaps(a.t,b.t),false); }

struct Found { vector<int> i; vector<tg_segment> s; long stop; };
static bool fit(tg_segment s,int i,void*u){ auto f=(Found*)u; f->i.push_back(i); f->s.push_back(s); return (long)f->i.size()!=f->stop; }
template<class F> static void searched(const char*n,F run,const vector<tg_segment>&segs,tg_rect q){ vector<int> w; for(size_t k=0;k<segs.size();k++) if(meets(tg_segment_rect(segs[k]),q)) w.push_back(k); Found f; f.stop=-1; run(&f); mc::trans(); if(!w.empty()) mc::nontrivial();
    for(size_t k=0;k<f.i.size();k++) if(f.i[k]<0||f.i[k]>=(int)segs.size()||!eq(f.s[k],segs[f.i[k]])){ mc::fail(n,"segment %d reported, or not with its ends",f.i[k]); return; } auto s=f.i; sort(s.begin(),s.end()); if(s!=w) mc::fail(n,"%zu segments reported, %zu expected",s.size(),w.size());
    for(long k:{1l,(long)w.size()/2,(long)w.size()}) if(k>0&&k<=(long)w.size()){ Found h; h.stop=k; run(&h); if((long)h.i.size()!=k) mc::fail(n,"refused at report %ld of %zu, got %zu",k,w.size(),h.i.size()); } }

// trees of collections and what is left when they are flattened
struct Tree { tg_geom*g; vector<string> leaves; int dim,depth; string name; }; // leaves: those with positions, in order
static string wk(const tg_geom*g){ char b[400]; size_t n=tg_geom_wkt(g,b,sizeof b); return string(b,n<sizeof b?n:sizeof b-1); }
static void leaf(vector<Tree>&v,const char*w,vector<string> l,int dim){ tg_geom*g=tg_parse_wkt(w); if(tg_geom_error(g)) fprintf(stderr,"bad leaf %s\n",w); v.push_back({g,l,dim,0,w}); }
static vector<Tree> leaves(){ vector<Tree> v; leaf(v,"POINT(1 2)",{"POINT(1 2)"},0); leaf(v,"LINESTRING(1 2,3 4)",{"LINESTRING(1 2,3 4)"},1); leaf(v,"POLYGON((0 0,1 0,1 1,0 0))",{"POLYGON((0 0,1 0,1 1,0 0))"},2); leaf(v,"MULTIPOINT(5 6,7 8)",{"POINT(5 6)","POINT(7 8)"},0); leaf(v,"MULTILINESTRING((5 6,7 8),(7 8,9 9))",{"LINESTRING(5 6,7 8)","LINESTRING(7 8,9 9)"},1); leaf(v,"MULTIPOLYGON(((0 0,1 0,1 1,0 0)),((5 5,6 5,6 6,5 5)))",{"POLYGON((0 0,1 0,1 1,0 0))","POLYGON((5 5,6 5,6 6,5 5))"},2); leaf(v,"POINT EMPTY",{},-1); leaf(v,"LINESTRING EMPTY",{},-1); leaf(v,"POLYGON EMPTY",{},-1); leaf(v,"MULTIPOINT EMPTY",{},-1); leaf(v,"MULTIPOLYGON EMPTY",{},-1); leaf(v,"GEOMETRYCOLLECTION EMPTY",{},-1); leaf(v,"POINT Z(1 2 3)",{"POINT(1 2 3)"},0); return v; }
static Tree gather(const vector<const Tree*>&k){ vector<const tg_geom*> c; Tree t; t.dim=-1; t.depth=0; t.name="GC("; for(auto x:k){ c.push_back(x->g); for(auto&l:x->leaves) t.leaves.push_back(l); t.dim=max(t.dim,x->dim); t.depth=max(t.depth,x->depth); t.name+=(t.name.size()>3?",":"")+x->name; } t.name+=")"; t.depth++; t.g=tg_geom_new_geometrycollection(c.data(),c.size()); return t; }
struct Each { vector<string> w; long n=0,stop=-1; bool again=false,over=false; };
static bool eachit(const tg_geom*g,void*u){ auto e=(Each*)u; e->n++; if(e->over) e->again=true; if(tg_geom_is_empty(g)) return true; e->w.push_back(wk(g)); if((long)e->w.size()==e->stop){ e->over=true; return false; } return true; }
static void flattened(const Tree&t){ mc::state(mc::hash(t.name)); if(t.leaves.size()>1) mc::nontrivial(); Each e; tg_geom_foreach(t.g,eachit,&e); mc::trans(); if(e.w!=t.leaves) mc::fail("foreach","%zu parts, expected %zu, or other parts or another order",e.w.size(),t.leaves.size());
    for(size_t k=1;k<=t.leaves.size();k++){ Each s; s.stop=k; tg_geom_foreach(t.g,eachit,&s); mc::trans(); if(s.again||s.w!=vector<string>(t.leaves.begin(),t.leaves.begin()+k)) mc::fail("foreach stop","asked to stop at part %zu of %zu, got %zu%s",k,t.leaves.size(),s.w.size(),s.again?" and went on":""); }
    int d=tg_geom_de9im_dims(t.g); if(t.leaves.size()&&d<t.dim) mc::fail("dimension","%d, has a part of dimension %d",d,t.dim); if(t.name.find("EMPTY")==string::npos&&d!=t.dim) mc::fail("dimension","%d, the largest of its parts is %d",d,t.dim); }

int main(int argc,char**argv){ mc::init(argc,argv); MURKY(); bool TT=mc::thorough(); mc::prop="C32";
    auto g3=new Grid(3),g4=new Grid(4); vector<Geo> pts3,segs3,lines3,quads3,pts4,segs4,tri4,quad4,h4,line43; for(auto p:grid_points(3)) pts3.push_back(g_point(p)); for(auto p:grid_points(4)) pts4.push_back(g_point(p));
    auto addl=[](int K,int n,vector<Geo>&o){ vector<Pts> r; all_lines(K,n,r); for(auto&x:r) o.push_back(g_line(x)); }; auto addr=[](int K,int n,vector<Geo>&o){ vector<Pts> r; all_rings(K,n,r); for(auto&x:r) o.push_back(g_poly(x)); };
    addl(3,2,segs3); addl(3,3,lines3); for(int n=3;n<=(TT?8:5);n++) addr(3,n,quads3); addl(4,2,segs4); addl(4,3,line43); addr(4,3,tri4); addr(4,4,quad4);
    { vector<Pts> ex,hs; all_rings(4,3,ex); all_rings(4,4,ex); all_rings(4,3,hs); all_rings(4,4,hs); vector<Loc> hl; for(auto&h:hs) hl.push_back(locate(*g4,g_poly(h))); int k=0; for(auto&e:ex){ Loc el=locate(*g4,g_poly(e)); for(size_t i=0;i<hs.size();i++) if(holes_valid(el,{hl[i]})&&(TT||k++%3==0)) h4.push_back(g_poly(e,{hs[i]})); } }
    struct V { const char*n; int m; tg_index ix; int sp; }; vector<V> vs={{"plain",1,TG_DEFAULT,16},{"natural/2",8,TG_NATURAL,2},{"stripes",16,TG_YSTRIPES,16}};
    // typed relations
    { struct F { const char*n; const Grid*g; vector<Geo>*v; }; vector<F> fs={{"pt3",g3,&pts3},{"seg3",g3,&segs3},{"line3",g3,&lines3},{"poly3",g3,&quads3}}; for(auto&v:vs){ vector<vector<One>*> o; for(auto&f:fs) o.push_back(ones(*f.g,*f.v,v.m,v.ix,v.sp)); for(size_t a=0;a<fs.size();a++) for(size_t b=0;b<fs.size();b++){ if(v.m>1&&!TT&&(a==2||b==2)) continue; auto A=o[a],B=o[b]; uint64_t nb=B->size(); mc::space(string("typed ")+fs[a].n+"*"+fs[b].n+"/"+v.n,A->size()*nb,[=](uint64_t i){ mc::state(i*131+a*7+b+v.m*1000003ull*1000003ull); typed((*A)[i/nb],(*B)[i%nb]); },[=](uint64_t i){ return gstr((*A)[i/nb].g)+" / "+gstr((*B)[i%nb].g)+" ["+v.n+"]"; }); } }
      auto H=ones(*g4,h4,1,TG_DEFAULT,16),Q=ones(*g4,pts4,1,TG_DEFAULT,16),S=ones(*g4,segs4,1,TG_DEFAULT,16),R=ones(*g4,tri4,1,TG_DEFAULT,16); struct PR { const char*n; vector<One>*a,*b; }; for(auto&p:vector<PR>{{"hole4*pt4",H,Q},{"hole4*seg4",H,S},{"seg4*hole4",S,H},{"hole4*tri4",H,R},{"tri4*hole4",R,H}}){ auto A=p.a,B=p.b; uint64_t nb=B->size(); uint64_t salt=mc::hash(string(p.n)); mc::space(string("typed ")+p.n,A->size()*nb,[=](uint64_t i){ mc::state(i^salt); typed((*A)[i/nb],(*B)[i%nb]); },[=](uint64_t i){ return gstr((*A)[i/nb].g)+" / "+gstr((*B)[i%nb].g); }); } }
    // rectangles against lines and polygons
    { auto R=new vector<tg_rect>(rects(4)); auto RL=new vector<One>; for(auto&r:*R){ One x; x.g=rgeo(r); x.l=locate(*g4,x.g); RL->push_back(x); } for(auto&v:vs){ struct F { const char*n; vector<One>*v; }; vector<F> fs={{"seg4",ones(*g4,segs4,v.m,v.ix,v.sp)},{"tri4",ones(*g4,tri4,v.m,v.ix,v.sp)}}; if(v.m==1||TT){ fs.push_back({"line4",ones(*g4,line43,v.m,v.ix,v.sp)}); fs.push_back({"quad4",ones(*g4,quad4,v.m,v.ix,v.sp)}); fs.push_back({"hole4",ones(*g4,h4,v.m,v.ix,v.sp)}); }
        for(auto&f:fs){ auto B=f.v; uint64_t nb=B->size(),salt=mc::hash(string(f.n)+v.n); mc::space(string("rect*")+f.n+"/"+v.n,R->size()*nb,[=](uint64_t i){ auto&x=(*RL)[i/nb]; auto&b=(*B)[i%nb]; tg_rect r=(*R)[i/nb]; Rel ab=relate(x.l,b.l),ba=relate(b.l,x.l); mc::state(i^salt); if(ab.hit) mc::nontrivial();
            if(b.line){ ck("tg_rect_intersects_line",tg_rect_intersects_line(r,b.line),ab.hit); ck("tg_line_intersects_rect",tg_line_intersects_rect(b.line,r),ab.hit); ck("tg_rect_covers_line",tg_rect_covers_line(r,b.line),!ab.bout); ck("tg_line_covers_rect",tg_line_covers_rect(b.line,r),!ba.bout); }
            else { ck("tg_rect_intersects_poly",tg_rect_intersects_poly(r,b.poly),ab.hit); ck("tg_poly_intersects_rect",tg_poly_intersects_rect(b.poly,r),ab.hit); ck("tg_rect_covers_poly",tg_rect_covers_poly(r,b.poly),!ab.bout); bool got=tg_poly_covers_rect(b.poly,r); mc::trans(); if(got!=!ba.bout) mc::fail(got&&hole_twin(b.g,x.g)?"hole-twin":"tg_poly_covers_rect","tg_poly_covers_rect is %d, exact answer %d",got,!ba.bout); } },[=](uint64_t i){ return "rectangle "+rn((*R)[i/nb])+" / "+gstr((*B)[i%nb].g); }); } } }
    // rectangles, segments and points among themselves
    { auto R=new vector<tg_rect>(rects(5)); uint64_t nr=R->size(); mc::space("rect*rect",nr*nr,[=](uint64_t i){ tg_rect a=(*R)[i/nr],b=(*R)[i%nr]; mc::state(i+0x1000000000ull); bool cov=a.min.x<=b.min.x&&b.max.x<=a.max.x&&a.min.y<=b.min.y&&b.max.y<=a.max.y; if(cov) mc::nontrivial(); ck("tg_rect_covers_rect",tg_rect_covers_rect(a,b),cov); double dx=max(0.,max(a.min.x-b.max.x,b.min.x-a.max.x)),dy=max(0.,max(a.min.y-b.max.y,b.min.y-a.max.y)),w=sqrt(dx*dx+dy*dy); mc::trans(2); if(tg_rect_distance_rect(a,b)!=w) mc::fail("tg_rect_distance_rect","%g, expected %g",tg_rect_distance_rect(a,b),w);
        vector<tg_segment> sg; tg_point c[5]={a.min,{a.max.x,a.min.y},a.max,{a.min.x,a.max.y},a.min}; for(int k=0;k<4;k++) sg.push_back({c[k],c[k+1]}); bool ok=tg_rect_num_points(a)==5&&tg_rect_num_segments(a)==4; for(int k=0;k<5;k++) ok=ok&&eq(tg_rect_point_at(a,k),c[k]); for(int k=0;k<4;k++) ok=ok&&eq(tg_rect_segment_at(a,k),sg[k]); for(int k:{-1,4,5,INT_MIN,INT_MAX}) ok=ok&&eq(tg_rect_segment_at(a,k),tg_segment{{0,0},{0,0}})&&(k==4||eq(tg_rect_point_at(a,k),tg_point{0,0})); if(!ok) mc::fail("rect ring","points or segments of a rectangle"); searched("tg_rect_search",[&](Found*f){ tg_rect_search(a,b,fit,f); },sg,b);
        tg_rect m=tg_rect_move(a,b.min.x-7,b.max.y*0.5); if(!eq(m,{{a.min.x+b.min.x-7,a.min.y+b.max.y*0.5},{a.max.x+b.min.x-7,a.max.y+b.max.y*0.5}})) mc::fail("tg_rect_move","wrong"); },[=](uint64_t i){ return rn((*R)[i/nr])+" "+rn((*R)[i%nr]); });
      mc::space("rect*point",nr*49,[=](uint64_t i){ tg_rect a=(*R)[i/49]; tg_point p={(double)(i%7)-1,(double)(i/7%7)-1}; bool w=a.min.x<=p.x&&p.x<=a.max.x&&a.min.y<=p.y&&p.y<=a.max.y; mc::state(i+0x2000000000ull); if(w) mc::nontrivial(); ck("tg_rect_covers_point",tg_rect_covers_point(a,p),w); ck("tg_rect_covers_xy",tg_rect_covers_xy(a,p.x,p.y),w); ck("tg_point_covers_rect",tg_point_covers_rect(p,a),eq(a.min,p)&&eq(a.max,p)); double dx=max(0.,max(a.min.x-p.x,p.x-a.max.x)),dy=max(0.,max(a.min.y-p.y,p.y-a.max.y)); if(tg_point_distance_rect(p,a)!=sqrt(dx*dx+dy*dy)) mc::fail("tg_point_distance_rect","wrong"); if(!eq(tg_point_move(p,a.min.x,-a.max.y),{p.x+a.min.x,p.y-a.max.y})) mc::fail("tg_point_move","wrong"); if(tg_point_distance_point(p,a.min)!=sqrt((p.x-a.min.x)*(p.x-a.min.x)+(p.y-a.min.y)*(p.y-a.min.y))) mc::fail("tg_point_distance_point","wrong"); },[=](uint64_t i){ char b[60]; snprintf(b,60," point %d %d",(int)(i%7)-1,(int)(i/7%7)-1); return rn((*R)[i/49])+b; });
      int K=TT?7:5; uint64_t np=K*K; auto pt=[K](uint64_t i){ return P{(double)(i%K),(double)(i/K)}; }; auto on=[](P a,P b,P p){ return cross3(a,b,p)==0&&min(a.x,b.x)<=p.x&&p.x<=max(a.x,b.x)&&min(a.y,b.y)<=p.y&&p.y<=max(a.y,b.y); };
      mc::space("segment*segment",np*np*np*np,[=](uint64_t i){ P a=pt(i/np/np/np),b=pt(i/np/np%np),c=pt(i/np%np),d=pt(i%np); bool oc=on(a,b,c),od=on(a,b,d); if((i&7)==0) mc::state(i+0x3000000000ull); if(oc&&od) mc::nontrivial(); tg_segment s={T(a),T(b)}; ck("tg_segment_covers_segment",tg_segment_covers_segment(s,{T(c),T(d)}),oc&&od); if(i%np==0) ck("tg_segment_covers_point",tg_segment_covers_point(s,T(c)),oc); if(c.x<=d.x&&c.y<=d.y) ck("tg_segment_covers_rect",tg_segment_covers_rect(s,{T(c),T(d)}),oc&&od&&on(a,b,{c.x,d.y})&&on(a,b,{d.x,c.y}));
        if(i%np==0){ if(!eq(tg_segment_move(s,c.x,-c.y),{{a.x+c.x,a.y-c.y},{b.x+c.x,b.y-c.y}})) mc::fail("tg_segment_move","wrong"); 
          // crossing of the ray from the point to the right
          int w; if(on(a,b,c)) w=TG_ON; else { P lo=a.y<=b.y?a:b,hi=a.y<=b.y?b:a; w=lo.y<=c.y&&c.y<hi.y&&cross3(lo,hi,c)>0?TG_IN:TG_OUT; } int g=tg_raycast(s,T(c)); mc::trans(); if((g==TG_ON)!=(w==TG_ON)) mc::fail("tg_raycast","%d, expected %d",g,w); if(g!=w&&c.y!=a.y&&c.y!=b.y) mc::fail("tg_raycast","%d, expected %d",g,w);
          long double dx=b.x-a.x,dy=b.y-a.y,e=dx*dx+dy*dy,t=e?((c.x-a.x)*dx+(c.y-a.y)*dy)/e:0; t=t<0?0:t>1?1:t; long double ex=a.x+t*dx-c.x,ey=a.y+t*dy-c.y,wd=sqrtl(ex*ex+ey*ey); double gd=tg_point_distance_segment(T(c),s); if(fabsl(gd-wd)>1e-14L*16) mc::fail("tg_point_distance_segment","%.17g, expected %.17Lg",gd,wd); } },[=](uint64_t i){ P a=pt(i/np/np/np),b=pt(i/np/np%np),c=pt(i/np%np),d=pt(i%np); char s[120]; snprintf(s,120,"segments (%g %g,%g %g) and (%g %g,%g %g)",a.x,a.y,b.x,b.y,c.x,c.y,d.x,d.y); return string(s); }); }
    // rings: closed region, edges included, and the place of a point
    { for(auto&v:vs){ auto A=ones(*g3,quads3,v.m,v.ix,v.sp),S=ones(*g3,segs3,1,TG_DEFAULT,16),L=ones(*g3,lines3,v.m,v.ix,v.sp),B=ones(*g3,quads3,v.m,v.ix,v.sp); uint64_t ns=S->size(),nl=L->size(),nb=B->size(),salt=mc::hash(string(v.n)); auto R=[](const One&o){ return tg_poly_exterior(o.poly); };
        mc::space(string("ring*segment/")+v.n,A->size()*ns,[=](uint64_t i){ auto&a=(*A)[i/ns]; auto&b=(*S)[i%ns]; Rel r=relate(a.l,b.l); mc::state(i+salt); if(r.hit) mc::nontrivial(); tg_segment s={T(b.g.lines[0][0]),T(b.g.lines[0][1])}; ck("tg_ring_intersects_segment",tg_ring_intersects_segment(R(a),s,true),r.hit); ck("tg_ring_contains_segment",tg_ring_contains_segment(R(a),s,true),!r.bout);{ bool touchb=false; for(size_t w=0;w<a.l.B.size();w++) if(a.l.B[w]&(b.l.I[w]|b.l.B[w])) touchb=true; ck("tg_ring_contains_segment strictly",tg_ring_contains_segment(R(a),s,false),!r.bout&&!touchb); bool ii=false; for(size_t w=0;w<a.l.B.size();w++) if(a.l.I[w]&(b.l.I[w]|b.l.B[w])) ii=true; ck("tg_ring_intersects_segment inside",tg_ring_intersects_segment(R(a),s,false),ii); } },[=](uint64_t i){ return gstr((*A)[i/ns].g)+" / "+gstr((*S)[i%ns].g)+" ["+v.n+"]"; });
        if(v.m==1||TT) mc::space(string("ring*line/")+v.n,A->size()*nl,[=](uint64_t i){ auto&a=(*A)[i/nl]; auto&b=(*L)[i%nl]; Rel r=relate(a.l,b.l); if((i&3)==0) mc::state(i+salt*3); if(r.hit) mc::nontrivial(); ck("tg_ring_intersects_line",tg_ring_intersects_line(R(a),b.line,true),r.hit); ck("tg_ring_contains_line",tg_ring_contains_line(R(a),b.line,true,false),!r.bout);{ bool touchb=false; for(size_t w=0;w<a.l.B.size();w++) if(a.l.B[w]&(b.l.I[w]|b.l.B[w])) touchb=true; bool ii=false; for(size_t w=0;w<a.l.B.size();w++) if(a.l.I[w]&(b.l.I[w]|b.l.B[w])) ii=true; ck("tg_ring_contains_line strictly",tg_ring_contains_line(R(a),b.line,false,false),!r.bout&&!touchb); ck("tg_ring_intersects_line inside",tg_ring_intersects_line(R(a),b.line,false),ii); } },[=](uint64_t i){ return gstr((*A)[i/nl].g)+" / "+gstr((*L)[i%nl].g)+" ["+v.n+"]"; });
        mc::space(string("ring*ring/")+v.n,A->size()*nb,[=](uint64_t i){ auto&a=(*A)[i/nb]; auto&b=(*B)[i%nb]; Rel r=relate(a.l,b.l); mc::state(i+salt*5); if(r.hit) mc::nontrivial(); ck("tg_ring_intersects_ring",tg_ring_intersects_ring(R(a),R(b),true),r.hit); ck("tg_ring_contains_ring",tg_ring_contains_ring(R(a),R(b),true),!r.bout);{ bool touchb=false; for(size_t w=0;w<a.l.B.size();w++) if(a.l.B[w]&(b.l.I[w]|b.l.B[w])) touchb=true; ck("tg_ring_contains_ring strictly",tg_ring_contains_ring(R(a),R(b),false),!r.bout&&!touchb); { bool g=tg_ring_intersects_ring(R(a),R(b),false); mc::trans(); if(g!=r.II) mc::fail(!g&&!r.aout&&!r.bout?"same-ring":"tg_ring_intersects_ring inside","without its edges, tg_ring_intersects_ring is %d, exact answer %d",g,r.II); }  } },[=](uint64_t i){ return gstr((*A)[i/nb].g)+" / "+gstr((*B)[i%nb].g)+" ["+v.n+"]"; });
        mc::space(string("ring*point/")+v.n,A->size()*121,[=](uint64_t i){ auto&a=(*A)[i/121]; P p={(double)(i%11)/4-0.25,(double)(i/11%11)/4-0.25}; int w=ring_loc(a.g.polys[0].ext,p); mc::state(i+salt*7); if(w) mc::nontrivial(); auto r=R(a); for(int e=0;e<2;e++){ mc::trans(); ring_result g=tg_ring_contains_point(r,T(p),e); bool hit=w==2||(w==1&&e); if(g.hit!=hit) mc::fail("tg_ring_contains_point","edges %d: %d, expected %d",e,g.hit,hit); else if(w==1){ if(g.idx<0||g.idx>=tg_ring_num_segments(r)){ mc::fail("tg_ring_contains_point","edge %d",g.idx); } else { tg_segment s=tg_ring_segment_at(r,g.idx); if(!on_seg({s.a.x,s.a.y},{s.b.x,s.b.y},p)) mc::fail("tg_ring_contains_point","edge %d does not have the point",g.idx); } } else if(g.idx!=-1) mc::fail("tg_ring_contains_point","edge %d for a point on none",g.idx); } },[=](uint64_t i){ char b[60]; snprintf(b,60," point %g %g",(double)(i%11)/4-0.25,(double)(i/11%11)/4-0.25); return gstr((*A)[i/121].g)+b; }); } }
    // segment searches and moves, small and large
    { struct Sh { string n; Pts p; bool ring; }; auto M=new vector<Sh>; vector<Pts> sm; all_rings(3,3,sm); all_rings(3,4,sm); all_rings(3,5,sm); for(size_t i=0;i<sm.size();i++) M->push_back({"ring "+pstr(sm[i]),closed(sm[i]),true}); vector<Pts> sl; all_lines(3,2,sl); all_lines(3,3,sl); if(TT) all_lines(3,4,sl); for(auto&l:sl) M->push_back({"line "+pstr(l),l,false}); size_t nsmall=M->size();
      for(int n:{33,40,64,100,257}){ M->push_back({"saw line "+to_string(n),saw_line(n,3),false}); M->push_back({"snake "+to_string(n),snake_line(n),false}); M->push_back({"comb "+to_string(n),closed(comb_ring(n/2,6)),true}); M->push_back({"round "+to_string(n),closed(round_ring(n)),true}); M->push_back({"wave "+to_string(n),closed(wave_ring(n/4)),true}); } struct C { const char*n; tg_index ix; int sp; }; auto CF=new vector<C>{{"none",TG_NONE,16},{"natural",TG_NATURAL,16},{"natural/2",TG_NATURAL,2},{"natural/3",TG_NATURAL,3},{"stripes",TG_YSTRIPES,16},{"default",TG_DEFAULT,16}}; uint64_t nc=CF->size();
      auto mk=[=](const Sh&s,const C&c){ tg_env_set_index_spread(c.sp); auto r=s.ring?tg_ring_new_ix(tp(s.p),s.p.size(),c.ix):(tg_ring*)tg_line_new_ix(tp(s.p),s.p.size(),c.ix); tg_env_set_index_spread(16); return r; };
      mc::space("search and move",M->size()*nc,[=](uint64_t i){ auto&s=(*M)[i/nc]; auto&c=(*CF)[i%nc]; mc::state(i+0x7700000000ull); auto r=mk(s,c); vector<tg_segment> sg; for(size_t k=0;k+1<s.p.size();k++) sg.push_back({T(s.p[k]),T(s.p[k+1])}); tg_rect b=s.ring?tg_ring_rect(r):tg_line_rect((tg_line*)r); bool small=i/nc<nsmall; int N=small?5:7; vector<double> xs,ys; for(int k=0;k<N;k++){ xs.push_back(b.min.x-1+(b.max.x-b.min.x+2)*k/(N-1)); ys.push_back(b.min.y-1+(b.max.y-b.min.y+2)*k/(N-1)); } xs.push_back(s.p[s.p.size()/2].x); ys.push_back(s.p[s.p.size()/2].y); sort(xs.begin(),xs.end()); sort(ys.begin(),ys.end());
          for(size_t x=0;x<xs.size();x++)for(size_t X=x;X<xs.size();X++)for(size_t y=0;y<ys.size();y++)for(size_t Y=y;Y<ys.size();Y++){ tg_rect q={{xs[x],ys[y]},{xs[X],ys[Y]}}; if(s.ring) searched("tg_ring_search",[&](Found*f){ tg_ring_search(r,q,fit,f); },sg,q); else searched("tg_line_search",[&](Found*f){ tg_line_search((tg_line*)r,q,fit,f); },sg,q); }
          for(auto d:{P{0,0},P{1,-2},P{0.5,1024},P{-1e6,3},P{1e300,-1e300}}){ mc::trans(); Pts q=s.p; for(auto&v:q){ v.x+=d.x; v.y+=d.y; } Sh t=s; t.p=q; string A,B; SigOpt o; if(c.sp!=16) o.index=o.mem=false; auto want=mk(t,c); if(s.ring){ auto m=tg_ring_move(r,d.x,d.y); auto mp=tg_poly_move((tg_poly*)r,d.x,d.y); string C; sig_ring(A,m,o); sig_ring(B,want,o); sig_ring(C,tg_poly_exterior(mp),o); if(A!=B) mc::fail("tg_ring_move","not the ring of the moved points"); if(C!=B) mc::fail("tg_poly_move","not the polygon of the moved points"); 
              const tg_ring*hs[]={r,m}; auto pl=tg_poly_new(want,hs,2); auto pm=tg_poly_move(pl,-d.x,d.y); bool ok=tg_poly_num_holes(pm)==2; for(int k=0;ok&&k<3;k++){ const tg_ring*u=k==0?tg_poly_exterior(pl):tg_poly_hole_at(pl,k-1),*v=k==0?tg_poly_exterior(pm):tg_poly_hole_at(pm,k-1); int n=tg_ring_num_points(u); ok=n==tg_ring_num_points(v); for(int z=0;ok&&z<n;z++){ tg_point a=tg_ring_point_at(u,z),e=tg_ring_point_at(v,z); ok=e.x==a.x-d.x&&e.y==a.y+d.y; } ok=ok&&tg_ring_index_num_levels(u)==tg_ring_index_num_levels(v)|| (ok&&c.sp!=16); } if(!ok) mc::fail("tg_poly_move","wrong with holes"); tg_poly_free(pl); tg_poly_free(pm); tg_ring_free(m); tg_poly_free(mp); tg_ring_free(want); }
            else { auto m=tg_line_move((tg_line*)r,d.x,d.y); sig_line(A,m,o); sig_line(B,(tg_line*)want,o); if(A!=B) mc::fail("tg_line_move","not the line of the moved points"); tg_line_free(m); tg_line_free((tg_line*)want); } }
          double per=0,ar=0; for(auto&e:sg) per+=sqrt((e.a.x-e.b.x)*(e.a.x-e.b.x)+(e.a.y-e.b.y)*(e.a.y-e.b.y)); for(size_t k=0;k<s.p.size();k++){ auto a=s.p[k],z=s.p[(k+1)%s.p.size()]; ar+=a.x*z.y-z.x*a.y; } ar=fabs(ar)/2; if(s.ring){ double w=per>0?ar*4*M_PI/(per*per):0,g=tg_ring_polsby_popper_score(r); mc::trans(); if(fabs(w-g)>1e-12) mc::fail("score","%g, expected %g",g,w); }
          ck("empty",s.ring?tg_ring_empty(r)||tg_poly_empty((tg_poly*)r):tg_line_empty((tg_line*)r),false); tg_ring_free(r); },[=](uint64_t i){ return (*M)[i/nc].n+" "+(*CF)[i%nc].n; },4); }
    // circles
    { auto ST=new vector<int>; for(int n=-3;n<=(TT?2000:600);n++) ST->push_back(n); for(int n:{1000,1024,1025,4096,10000,65537,100000}) ST->push_back(n); ST->push_back(INT_MIN+1); struct Q { P c; double r; }; auto CQ=new vector<Q>{{{0,0},1},{{-112,33},0.5},{{10,-10},0},{{3,4},-2},{{0,0},1e6}}; uint64_t nq=CQ->size(); mc::space("circles",ST->size()*nq*3,[=](uint64_t i){ int st=(*ST)[i/3/nq]; auto&q=(*CQ)[i/3%nq]; tg_index ix=i%3==0?TG_NATURAL:i%3==1?TG_YSTRIPES:TG_NONE; mc::state(i+0x8800000000ull); mc::nontrivial(); mc::trans(); auto r=tg_circle_new_ix({q.c.x,q.c.y},q.r,st,ix); int n=max(st,4); if(!r||tg_ring_num_points(r)!=n){ mc::fail("circle","%d points for %d steps",tg_ring_num_points(r),st); tg_ring_free(r); return; } double R=max(q.r,0.),tol=1e-12*(R+fabs(q.c.x)+fabs(q.c.y)); const tg_point*p=tg_ring_points(r); bool ok=eq(p[0],p[n-1]); for(int k=0;k<n-1;k++){ double th=2*M_PI*k/(n-1); if(fabs(p[k].x-(q.c.x+R*cos(th)))>tol*n*4||fabs(p[k].y-(q.c.y+R*sin(th)))>tol*n*4) ok=false; if(fabs(hypot(p[k].x-q.c.x,p[k].y-q.c.y)-R)>tol*4) ok=false; } if(!ok) mc::fail("circle","points are not on the circle at equal steps"); if(R>0&&tg_ring_clockwise(r)) mc::fail("circle","clockwise"); if(R>0&&R<1e5&&n<300&&!tg_ring_convex(r)) mc::fail("circle","not convex");
        if(i%3==0){ auto s=tg_circle_new({q.c.x,q.c.y},q.r,st); auto d=tg_circle_new_ix({q.c.x,q.c.y},q.r,st,TG_DEFAULT); string a,b; sig_ring(a,s,{}); sig_ring(b,d,{}); if(a!=b) mc::fail("circle","tg_circle_new differs from the default index"); tg_ring_free(s); tg_ring_free(d); } bool ixd=tg_ring_index_num_levels(r)>0; if(ix==TG_NONE&&ixd) mc::fail("circle","index though none was asked for"); if(ix==TG_NATURAL&&n>=40&&!ixd) mc::fail("circle","no index"); tg_ring_free(r); },[=](uint64_t i){ auto&q=(*CQ)[i/3%nq]; char b[100]; snprintf(b,100,"circle at %g %g radius %g steps %d",q.c.x,q.c.y,q.r,(*ST)[i/3/nq]); return string(b); },8); }
    // spread carried in an index value, missing arguments
    { mc::space("index value",8200,[=](uint64_t i){ int s=(int)i-3; mc::state(i+0x9900000000ull); mc::nontrivial(); for(auto ix:{TG_DEFAULT,TG_NONE,TG_NATURAL,TG_YSTRIPES}){ mc::trans(); int g=-1; auto x=tg_index_extract_spread(tg_index_with_spread(ix,s),&g); int w=s==0?tg_env_get_index_spread():s<2?2:s>4096?4096:s; if(x!=ix||g!=w) mc::fail("spread","index %d spread %d gives %d, %d (expected %d)",ix,s,x,g,w); if(tg_index_extract_spread(tg_index_with_spread(ix,s),nullptr)!=ix) mc::fail("spread","index lost"); } if(s>=2&&s<=4096){ tg_env_set_index_spread(s); if(tg_env_get_index_spread()!=s) mc::fail("spread","setting"); Pts p=flat_line(s<300?2*s+3:5); auto a=tg_line_new_ix(tp(p),p.size(),TG_NATURAL); tg_env_set_index_spread(16); auto b=tg_line_new_ix(tp(p),p.size(),tg_index_with_spread(TG_NATURAL,s)); string A,B; sig_line(A,a,{}); sig_line(B,b,{}); if(A!=B) mc::fail("spread","a spread in the index value differs from the same setting"); tg_line_free(a); tg_line_free(b); } },[](uint64_t i){ return "spread "+to_string((int)i-3); });
      mc::space("missing",1,[=](uint64_t){ mc::state(0xaa00000000ull); mc::nontrivial(); Pts tri={{0,0},{4,0},{0,4}}; auto po=mkpoly({tri,{}},TG_DEFAULT); auto li=tg_line_new(tp(tri),3); auto ge=tg_geom_new_point({1,1}); tg_point p={1,1}; tg_rect r={{0,0},{0,0}}; tg_line*nl=nullptr; tg_poly*np=nullptr; auto el=tg_line_new(tp(tri),0); auto ep=(tg_poly*)tg_ring_new(tp(tri),0);
        for(auto l:{nl,el}){ if(tg_point_intersects_line(p,l)||tg_point_covers_line(p,l)||tg_point_contains_line(p,l)||tg_point_touches_line(p,l)||tg_line_intersects_point(l,p)||tg_line_covers_point(l,p)||tg_line_contains_point(l,p)||tg_line_touches_point(l,p)||tg_line_intersects_line(l,li)||tg_line_intersects_line(li,l)||tg_line_covers_line(l,li)||tg_line_covers_line(li,l)||tg_line_contains_line(l,li)||tg_line_contains_line(li,l)||tg_line_touches_line(l,li)||tg_line_touches_line(li,l)||tg_line_intersects_poly(l,po)||tg_poly_intersects_line(po,l)||tg_line_covers_poly(l,po)||tg_poly_covers_line(po,l)||tg_line_contains_poly(l,po)||tg_poly_contains_line(po,l)||tg_line_touches_poly(l,po)||tg_poly_touches_line(po,l)||tg_rect_covers_line(r,l)||tg_line_covers_rect(l,r)||tg_rect_intersects_line(r,l)||tg_line_intersects_rect(l,r)) mc::fail("missing line","something relates to a missing or empty line"); if(!tg_line_empty(l)) mc::fail("missing line","not empty"); }
        for(auto q:{np,ep}){ if(tg_point_intersects_poly(p,q)||tg_point_covers_poly(p,q)||tg_point_contains_poly(p,q)||tg_point_touches_poly(p,q)||tg_poly_intersects_point(q,p)||tg_poly_covers_point(q,p)||tg_poly_covers_xy(q,1,1)||tg_poly_contains_point(q,p)||tg_poly_touches_point(q,p)||tg_poly_intersects_poly(q,po)||tg_poly_intersects_poly(po,q)||tg_poly_covers_poly(q,po)||tg_poly_covers_poly(po,q)||tg_poly_contains_poly(q,po)||tg_poly_contains_poly(po,q)||tg_poly_touches_poly(q,po)||tg_poly_touches_poly(po,q)||tg_line_intersects_poly(li,q)||tg_line_covers_poly(li,q)||tg_poly_covers_line(q,li)||tg_rect_covers_poly(r,q)||tg_poly_covers_rect(q,r)||tg_rect_intersects_poly(r,q)||tg_poly_intersects_rect(q,r)) mc::fail("missing polygon","something relates to a missing or empty polygon"); if(!tg_poly_empty(q)) mc::fail("missing polygon","not empty"); }
        if(tg_geom_covers_point(nullptr,p)||tg_geom_covers_xy(nullptr,1,1)||tg_geom_intersects_point(nullptr,p)||tg_point_contains_geom(p,nullptr)||tg_line_contains_geom(li,nullptr)||tg_poly_contains_geom(po,nullptr)||tg_point_touches_geom(p,nullptr)||tg_line_touches_geom(li,nullptr)||tg_poly_touches_geom(po,nullptr)) mc::fail("missing geometry","something relates to a missing geometry"); if(tg_ring_move(nullptr,1,1)||tg_line_move(nullptr,1,1)||tg_poly_move(nullptr,1,1)) mc::fail("missing move","something came out of nothing"); if(!tg_ring_empty(nullptr)) mc::fail("missing ring","not empty"); Found f; f.stop=-1; tg_ring_search(nullptr,r,fit,&f); tg_line_search(nullptr,r,fit,&f); if(!f.i.empty()) mc::fail("missing search","found"); tg_ring_search((tg_ring*)po,r,nullptr,nullptr); mc::trans(70);
        tg_poly_free(po); tg_line_free(li); tg_geom_free(ge); tg_line_free(el); tg_poly_free(ep); },[](uint64_t){ return string("missing arguments"); }); }
    // flattening
    { auto L0=new vector<Tree>(leaves()); auto L1=new vector<Tree>; L1->push_back(gather({})); for(auto&a:*L0) L1->push_back(gather({&a})); for(auto&a:*L0) for(auto&b:*L0) L1->push_back(gather({&a,&b})); auto L=new vector<const Tree*>; for(auto&a:*L0) L->push_back(&a); for(auto&a:*L1) L->push_back(&a); uint64_t n=L->size(),m=TT?n:L0->size()+20;
      auto mk=[=](uint64_t i){ if(i<n) return gather({(*L)[i]}); i-=n; if(i<n*n) return gather({(*L)[i/n],(*L)[i%n]}); i-=n*n; return gather({(*L)[i%n],(*L)[i/n%m],(*L)[i/n/m]}); };
      mc::space("leaves",n,[=](uint64_t i){ flattened(*(*L)[i]); },[=](uint64_t i){ return (*L)[i]->name; }); mc::space("trees",n+n*n+n*m*m,[=](uint64_t i){ Tree t=mk(i); flattened(t); tg_geom_free(t.g); },[=](uint64_t i){ Tree t=mk(i); return t.name; },64);
      int hi=TT?3000:300; mc::space("wide and deep",hi*2,[=](uint64_t i){ Tree t; if(i%2){ vector<const Tree*> k; for(uint64_t j=0;j<=i/2;j++) k.push_back(&(*L0)[(j*7+i)%L0->size()]); t=gather(k); } else { t=(*L0)[i/2%L0->size()]; tg_geom*own=nullptr; for(uint64_t j=0;j<i/2&&j<1000;j++){ Tree u=gather(j%3?vector<const Tree*>{&t}:vector<const Tree*>{&t,&(*L0)[j%L0->size()]}); u.name="EMPTY somewhere, deep"+to_string(i); if(own) tg_geom_free(own); own=u.g; t=u; } if(!own) t.g=tg_geom_clone(t.g); } flattened(t); tg_geom_free(t.g); },[](uint64_t i){ return (i%2?"a collection of "+to_string(i/2+1)+" parts":"collections nested "+to_string(i/2)+" deep"); },2);
      mc::space("flatten nothing",1,[=](uint64_t){ Each e; tg_geom_foreach(nullptr,eachit,&e); if(e.n) mc::fail("foreach","found something in nothing"); if(tg_geom_de9im_dims(nullptr)!=-1) mc::fail("dimension","of nothing"); for(size_t k=0;k<100000;k++){ size_t a=tg_aligned_size(k); if(a<k||a%8||a>=k+8) mc::fail("aligned size","%zu for %zu",a,k); } mc::trans(); mc::state(1); mc::nontrivial(); },[](uint64_t){ return string("nothing"); }); }
    return mc::finish(); }
