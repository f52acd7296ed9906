// C11 primitives, C12 point in polygon, C13 facts of rings and lines, C14 bounding rectangles and child search.
#include "alloc.hpp"
#include "shapes.hpp"
#include "mc.hpp"
#include <climits>
#include <cfloat>
using namespace std;
typedef long long ll;
struct IP { int x,y; };
static bool iseg(IP a,IP b,IP c,IP d){ auto cr=[](IP o,IP p,IP q){ ll v=(ll)(p.x-o.x)*(q.y-o.y)-(ll)(p.y-o.y)*(q.x-o.x); return v>0?1:v<0?-1:0; }; auto on=[&](IP a,IP b,IP p){ return cr(a,b,p)==0&&min(a.x,b.x)<=p.x&&p.x<=max(a.x,b.x)&&min(a.y,b.y)<=p.y&&p.y<=max(a.y,b.y); };
    if(cr(a,b,c)*cr(a,b,d)<0&&cr(c,d,a)*cr(c,d,b)<0) return true; return on(a,b,c)||on(a,b,d)||on(c,d,a)||on(c,d,b); }
static void c11(bool T){
    int K=mc::deep()?12:T?10:8; uint64_t np=K*K,ns=np*np; auto pt=[K](uint64_t i){ return IP{(int)(i%K),(int)(i/K)}; };
    struct M { double sx,sy,dx,dy; bool t; }; auto maps=new vector<M>{{1,1,0,0,0},{0x1p-30,0x1p40,0,0,0},{1,1,-0x1p30,0x1p31,1},{-3,0.5,7,-1,0},{0x1p-400,0x1p-400,0,0,0},{0x1p200,0x1p200,0,0,1}}; 
    auto mp=[](const M&m,IP p){ double x=p.x*m.sx+m.dx,y=p.y*m.sy+m.dy; return m.t?tg_point{y,x}:tg_point{x,y}; };
    auto sname=[=](uint64_t i){ IP a=pt(i/ns/np),b=pt(i/ns%np),c=pt(i%ns/np),d=pt(i%np); char s[120]; snprintf(s,120,"segments (%d %d,%d %d) and (%d %d,%d %d)",a.x,a.y,b.x,b.y,c.x,c.y,d.x,d.y); return string(s); };
    mc::space("segment*segment",ns*ns,[=](uint64_t i){ IP a=pt(i/ns/np),b=pt(i/ns%np),c=pt(i%ns/np),d=pt(i%np); bool w=iseg(a,b,c,d); if(w) mc::nontrivial(); if((i&15)==0) mc::state(i); size_t nm=T?1:(i%7==0?maps->size():1);
        for(size_t k=0;k<nm;k++){ auto&m=(*maps)[k]; bool g=tg_segment_intersects_segment({mp(m,a),mp(m,b)},{mp(m,c),mp(m,d)}); mc::trans(); if(g!=w) mc::fail(k?"segments (mapped)":"segments","map %zu: intersects is %d, exact %d",k,g,w); } },sname);
    { int k=T?8:6; uint64_t n5=k*k,m5=n5*n5; auto p5=[k](uint64_t i){ return IP{(int)(i%k),(int)(i/k)}; }; mc::space("segment*segment mapped",m5*m5,[=](uint64_t i){ IP a=p5(i/m5/n5),b=p5(i/m5%n5),c=p5(i%m5/n5),d=p5(i%n5); bool w=iseg(a,b,c,d); for(size_t k=2;k<maps->size();k++){ auto&m=(*maps)[k]; bool g=tg_segment_intersects_segment({mp(m,a),mp(m,b)},{mp(m,c),mp(m,d)}); mc::trans(); if(g!=w) mc::fail("segments (mapped)","map %zu: intersects is %d, exact %d",k,g,w); } },
        [=](uint64_t i){ IP a=p5(i/m5/n5),b=p5(i/m5%n5),c=p5(i%m5/n5),d=p5(i%n5); char s[120]; snprintf(s,120,"segments (%d %d,%d %d) and (%d %d,%d %d)",a.x,a.y,b.x,b.y,c.x,c.y,d.x,d.y); return string(s); }); }
    // long segments that nearly meet: ends with large coordinates whose slopes differ as little as they can (products stay exact)
    { auto L=new vector<int>{0,1,-1,5702887,9227465,14930352,16777216,-16777215}; if(T){ L->push_back(3524578); L->push_back(8388607); } int n=L->size(); uint64_t q=(uint64_t)n*n; auto lp=[=](uint64_t i){ return IP{(*L)[i%n],(*L)[i/n]}; }; // the first end is one of three
      mc::space("long segments",3*q*q*q,[=](uint64_t i){ IP a=IP{(i/q/q/q)==0?0:1,(i/q/q/q)==2?1:0},b=lp(i/q/q%q),c=lp(i/q%q),d=lp(i%q); bool w=iseg(a,b,c,d); if(w) mc::nontrivial(); mc::state(i+0x7000000000ull); auto T=[](IP p){ return tg_point{(double)p.x,(double)p.y}; }; for(int k=0;k<2;k++){ bool g=k?tg_segment_intersects_segment({T(c),T(d)},{T(b),T(a)}):tg_segment_intersects_segment({T(a),T(b)},{T(c),T(d)}); mc::trans(); if(g!=w) mc::fail("long segments","order %d: intersects is %d, exact %d",k,g,w); } },[=](uint64_t i){ IP a=IP{(i/q/q/q)==0?0:1,(i/q/q/q)==2?1:0},b=lp(i/q/q%q),c=lp(i/q%q),d=lp(i%q); char s[160]; snprintf(s,160,"segments (%d %d,%d %d) and (%d %d,%d %d)",a.x,a.y,b.x,b.y,c.x,c.y,d.x,d.y); return string(s); }); }
    // rectangles: on each axis every interval
    auto V=new vector<double>{-3,-1,0,0x1p-30,1,2.5}; if(T) V->push_back(1e300); auto I=new vector<array<double,2>>; for(double a:*V) for(double b:*V) if(a<=b) I->push_back({a,b}); uint64_t ni=I->size(),nr=ni*ni;
    auto rc=[=](uint64_t i){ auto&x=(*I)[i%ni],&y=(*I)[i/ni]; return tg_rect{{x[0],y[0]},{x[1],y[1]}}; }; auto eq=[](tg_rect a,tg_rect b){ return a.min.x==b.min.x&&a.min.y==b.min.y&&a.max.x==b.max.x&&a.max.y==b.max.y; };
    auto rn=[](tg_rect r){ char s[100]; snprintf(s,100,"[%g %g %g %g]",r.min.x,r.min.y,r.max.x,r.max.y); return string(s); };
    mc::space("rect*rect",nr*nr,[=](uint64_t i){ tg_rect a=rc(i/nr),b=rc(i%nr); mc::state(i+0x9000000000ull); bool w=a.min.x<=b.max.x&&b.min.x<=a.max.x&&a.min.y<=b.max.y&&b.min.y<=a.max.y; mc::trans(2); if(w) mc::nontrivial(); if(tg_rect_intersects_rect(a,b)!=w) mc::fail("rect rect","intersects is %d",!w);
        tg_rect e={{min(a.min.x,b.min.x),min(a.min.y,b.min.y)},{max(a.max.x,b.max.x),max(a.max.y,b.max.y)}}; if(!eq(tg_rect_expand(a,b),e)) mc::fail("expand","tg_rect_expand is not the union"); },[=](uint64_t i){ return rn(rc(i/nr))+" "+rn(rc(i%nr)); });
    uint64_t nv=V->size(); mc::space("rect*point",nr*nv*nv,[=](uint64_t i){ tg_rect a=rc(i/nv/nv); tg_point p={(*V)[i%nv],(*V)[i/nv%nv]}; mc::state(i+0x8000000000ull); bool w=a.min.x<=p.x&&p.x<=a.max.x&&a.min.y<=p.y&&p.y<=a.max.y; mc::trans(5); if(w) mc::nontrivial(); if(tg_rect_intersects_point(a,p)!=w||tg_point_intersects_rect(p,a)!=w) mc::fail("rect point","intersects is wrong, exact %d",w);
        tg_rect e={{min(a.min.x,p.x),min(a.min.y,p.y)},{max(a.max.x,p.x),max(a.max.y,p.y)}}; if(!eq(tg_rect_expand_point(a,p),e)) mc::fail("expand","tg_rect_expand_point is not the union"); if(!eq(tg_point_rect(p),{p,p})) mc::fail("point rect","wrong rect of a point");
        tg_rect s=tg_segment_rect({{a.min.x,a.max.y},p}); tg_rect sw={{min(a.min.x,p.x),min(a.max.y,p.y)},{max(a.min.x,p.x),max(a.max.y,p.y)}}; if(!eq(s,sw)) mc::fail("segment rect","wrong rect of a segment"); tg_point c=tg_rect_center(a); if(c.x!=(a.min.x+a.max.x)/2||c.y!=(a.min.y+a.max.y)/2) mc::fail("center","wrong centre"); },[=](uint64_t i){ char s[60]; snprintf(s,60," point %g %g",(*V)[i%nv],(*V)[i/nv%nv]); return rn(rc(i/nv/nv))+s; });
}
// ---- C12
struct PG { string name; Poly p; vector<pair<string,tg_geom*>> t; };
static void pip(const PG&g,P p,int w,bool full){ // w: 2 inside, 1 on the boundary, 0 outside
    mc::trans(); if(w) mc::nontrivial(); 
    tg_geom*Q=full?tg_geom_new_point({p.x,p.y}):nullptr;
    for(auto&v:g.t){ auto A=v.second; auto ck=[&](const char*n,bool got,bool want){ if(got!=want) mc::fail(n,"%s: %s is %d, the point is %s",v.first.c_str(),n,got,w==2?"inside":w==1?"on the boundary":"outside"); };
        ck("intersects_xy",tg_geom_intersects_xy(A,p.x,p.y),w>0);
        if(full){ ck("covers point",tg_geom_covers(A,Q),w>0); ck("contains point",tg_geom_contains(A,Q),w==2); ck("intersects point",tg_geom_intersects(A,Q),w>0); ck("point intersects",tg_geom_intersects(Q,A),w>0); ck("point within",tg_geom_within(Q,A),w==2); ck("point coveredby",tg_geom_coveredby(Q,A),w>0); ck("touches",tg_geom_touches(A,Q),w==1); ck("point touches",tg_geom_touches(Q,A),w==1); ck("intersects_rect",tg_geom_intersects_rect(A,{{p.x,p.y},{p.x,p.y}}),w>0); } }
    if(Q) tg_geom_free(Q); }
static void addvar(PG&g,string n,int m,enum tg_index ix,int spread,bool closedring=true){ tg_env_set_index_spread(spread); Geo q=g_poly(g.p.ext,g.p.holes); q=dense(q,m); tg_geom*t; if(!closedring&&g.p.holes.empty()) t=(tg_geom*)mkring(q.polys[0].ext,ix,false); else t=mkgeom(q,ix); tg_env_set_index_spread(16); g.t.push_back({n,t}); }
static void c12(bool T){
    // every simple polygon of the 3x3 grid and of the 4x4 grid up to n vertices, each point of a fine grid
    struct FF { int K,lo,hi,sub; bool full; }; vector<FF> fs={{3,3,9,4,true},{4,3,5,2,true},{4,6,T?8:6,2,T}}; if(T) fs.push_back({4,3,4,8,true}); if(T) fs.push_back({5,3,4,2,true}); if(mc::deep()) fs.push_back({5,5,5,2,false});
    for(auto&f:fs){ auto R=new vector<Pts>; for(int n=f.lo;n<=f.hi;n++) all_rings(f.K,n,*R); int w=(f.K-1)*f.sub+3; uint64_t np=(uint64_t)w*w; auto pt=[=](uint64_t i){ return P{(double)((int)(i%w)-1)/f.sub,(double)((int)(i/w)-1)/f.sub}; };
        mc::space("grid"+to_string(f.K)+" n="+to_string(f.lo)+".."+to_string(f.hi)+" points/"+to_string(f.sub),R->size(),[=](uint64_t i){ PG g; g.p={(*R)[i],{}}; addvar(g,"plain",1,TG_DEFAULT,16); if(f.full){ addvar(g,"natural/2",1,TG_NATURAL,2); addvar(g,"stripes/2",1,TG_YSTRIPES,2); addvar(g,"unclosed/2",1,TG_NATURAL,2,false); } mc::state(i*131+f.K*7+f.lo*3+f.sub);
            for(uint64_t k=0;k<np;k++){ P p=pt(k); pip(g,p,ring_loc((*R)[i],p),f.full&&(k+i)%3==0); } for(auto&v:g.t) tg_geom_free(v.second); },[=](uint64_t i){ return "POLYGON"+pstr((*R)[i]); },32); }
    // the same shapes with many vertices
    { auto R=new vector<Pts>; all_rings(3,3,*R); all_rings(3,4,*R); all_rings(3,5,*R); if(T) all_rings(3,6,*R); mc::space("dense",R->size(),[=](uint64_t i){ PG g; g.p={(*R)[i],{}}; addvar(g,"8 per edge, none",8,TG_NONE,16); addvar(g,"8 per edge, natural/3",8,TG_NATURAL,3); addvar(g,"16 per edge, natural",16,TG_NATURAL,16); addvar(g,"16 per edge, stripes",16,TG_YSTRIPES,16); addvar(g,"16 per edge, unclosed",16,TG_YSTRIPES,16,false); if(T){ addvar(g,"128 per edge, stripes",128,TG_YSTRIPES,16); addvar(g,"128 per edge, natural/5",128,TG_NATURAL,5);} mc::state(i+0x3300000000ull);
            for(int x=-1;x<=33;x++)for(int y=-1;y<=33;y++){ P p={x/16.,y/16.}; pip(g,p,ring_loc((*R)[i],p),((x|y)&7)==0); } for(auto&v:g.t) tg_geom_free(v.second); },[=](uint64_t i){ return "POLYGON"+pstr((*R)[i]); },4); }
    // slivers: triangles with large coordinates whose edges pass points as closely as they can
    { auto L=new vector<int>{0,1,-1,5702887,9227465,14930352,16777216,-16777215,14930353}; int n=L->size(); uint64_t q=(uint64_t)n*n; auto lp=[=](uint64_t i){ return P{(double)(*L)[i%n],(double)(*L)[i/n]}; }; mc::space("slivers",q*q,[=](uint64_t i){ P a={i%3==0?1.:0.,0},b=lp(i/q),c=lp(i%q); double cr=(b.x-a.x)*(c.y-a.y)-(b.y-a.y)*(c.x-a.x); if(cr==0) return; Pts r={a,b,c}; PG g; g.p={r,{}}; addvar(g,"plain",1,TG_DEFAULT,16); addvar(g,"natural/2",1,TG_NATURAL,2); addvar(g,"stripes/2",1,TG_YSTRIPES,2); mc::state(i+0x6600000000ull);
        for(uint64_t k=0;k<q;k++){ P p=lp(k); pip(g,p,ring_loc(r,p),(k+i)%16==0); } for(P p:{P{(b.x+c.x)/2,(b.y+c.y)/2},P{(b.x+a.x)/2,(b.y+a.y)/2},P{(b.x+c.x)/2+1,(b.y+c.y)/2},P{(b.x+c.x)/2,(b.y+c.y)/2-1}}) pip(g,p,ring_loc(r,p),false); for(auto&v:g.t) tg_geom_free(v.second); },[=](uint64_t i){ return "POLYGON"+pstr({P{i%3==0?1.:0.,0},lp(i/q),lp(i%q)}); },16); }
    // polygons with holes
    { auto H=new vector<Poly>; Grid g4(4); vector<Pts> ex,hs; all_rings(4,3,ex); all_rings(4,4,ex); all_rings(4,3,hs); all_rings(4,4,hs); vector<Loc> hl; for(auto&h:hs) hl.push_back(locate(g4,g_poly(h))); for(auto&e:ex){ Loc el=locate(g4,g_poly(e)); vector<int> ok; for(size_t i=0;i<hs.size();i++) if(holes_valid(el,{hl[i]})){ ok.push_back(i); H->push_back({e,{hs[i]}}); } for(int i:ok) for(int j:ok) if(i<j&&holes_valid(el,{hl[i],hl[j]})) H->push_back({e,{hs[i],hs[j]}}); }
      mc::space("holes",H->size(),[=](uint64_t i){ PG g; g.p=(*H)[i]; addvar(g,"plain",1,TG_DEFAULT,16); addvar(g,"natural/2",1,TG_NATURAL,2); if(T||i%5==0){ addvar(g,"16 per edge, natural",16,TG_NATURAL,16); addvar(g,"16 per edge, stripes",16,TG_YSTRIPES,16);} mc::state(i+0x4400000000ull); for(int x=-1;x<=13;x++)for(int y=-1;y<=13;y++){ P p={x/4.,y/4.}; pip(g,p,poly_loc(g.p,p),((x|y)&1)==0); } for(auto&v:g.t) tg_geom_free(v.second); },[=](uint64_t i){ return "POLYGON"+polystr((*H)[i]); },16); }
    // rings of every size, asked at and around every vertex and edge
    { int hi=mc::deep()?1100:420; static const int SPR[]={2,3,5,16,33}; static const int HN[]={65537,65536,32769,4096}; auto sz=[=](uint64_t i){ i/=8; return i<4?HN[i]:hi-(int)(i-4); }; mc::space("every size",(uint64_t)(hi+2)*8,[=](uint64_t i){ int n=sz(i),kind=i%4; Pts r=profile_ring(n,kind,i/4%2); PG g; g.p={r,{}}; int s=SPR[n%5]; addvar(g,"none",1,TG_NONE,16); addvar(g,"natural",1,TG_NATURAL,s); addvar(g,"natural/16",1,TG_NATURAL,16); addvar(g,"stripes",1,TG_YSTRIPES,s); addvar(g,"unclosed",1,i%3?TG_NATURAL:TG_YSTRIPES,SPR[(n+2)%5],false); mc::state(i+0x8800000000ull);
        auto ask=[&](P p,int salt){ pip(g,p,ring_loc(r,p),(salt+i)%8==0); }; int step=n>2000?n/60:mc::deep()||n<160?1:2; for(int k=(int)i%step;k<n;k+=n>2000&&(k<4||(k>32763&&k<32770)||k>n-6)?1:n>2000&&k<32764&&k+step>32764?32764-k:n>2000&&k+step>=n?(n-5>k?n-5-k:1):step){ P a=r[k],b=r[(k+1)%n],m={(a.x+b.x)/2,(a.y+b.y)/2}; ask(a,k); ask(m,k+1); for(double d:{-.25,.25}){ ask({m.x,m.y+d},k+2); ask({m.x+d,m.y},k+3); ask({a.x,a.y+d},k+4); ask({a.x+d,a.y},k+5); } ask({b.x,m.y},k+6); ask({-9,a.y},k+7); } for(auto&v:g.t) tg_geom_free(v.second); },
        [=](uint64_t i){ return to_string(sz(i))+" vertices, profile "+to_string(i%4)+(i/4%2?" standing":""); },2); }
    // large shapes
    { auto L=new vector<PG>; auto A=[&](string n,Pts p,vector<Pts> h={}){ PG g; g.name=n; g.p={p,h}; addvar(g,"none",1,TG_NONE,16); addvar(g,"natural/2",1,TG_NATURAL,2); addvar(g,"natural/16",1,TG_NATURAL,16); addvar(g,"natural/5",1,TG_NATURAL,5); addvar(g,"stripes",1,TG_YSTRIPES,16); addvar(g,"stripes/2",1,TG_YSTRIPES,2); addvar(g,"unclosed",1,TG_NATURAL,3,false); L->push_back(g); };
      for(int n:T?vector<int>{3,8,15,16,17,40,100,200}:vector<int>{8,16,40}){ A("comb"+to_string(n),comb_ring(n,3)); A("tall comb"+to_string(n),comb_ring(n,40)); } for(int n:{8,20,50}) A("stairs"+to_string(n),stairs_ring(n)); for(int n:{8,17,50}) A("wave"+to_string(n),wave_ring(n)); for(int n:{3,6}) A("spiral"+to_string(n),spiral_ring(n)); for(int n:{16,40,100,300}) A("round"+to_string(n),round_ring(n)); A("frame",dense_ring({{0,0},{32,0},{32,32},{0,32}},32),{dense_ring({{8,8},{24,8},{24,24},{8,24}},16)});
      for(auto m:vector<function<P(P)>>{[](P p){return P{p.y,p.x};},[](P p){return P{-p.x,p.y};},[](P p){return P{p.x,-p.y};}}){ A("mapped comb",map_pts(comb_ring(16,3),m)); A("mapped wave",map_pts(wave_ring(9),m)); A("mapped stairs",map_pts(stairs_ring(9),m)); }
      for(size_t k=0;k<L->size();k++){ auto&g=(*L)[k]; double x0=1e9,x1=-1e9,y0=1e9,y1=-1e9; for(auto p:g.p.ext){ x0=min(x0,p.x); x1=max(x1,p.x); y0=min(y0,p.y); y1=max(y1,p.y);} double st=(x1-x0)*(y1-y0)<(T?20000:2500)?.5:1; while((x1-x0)*(y1-y0)/st/st>(T?200000:20000)) st*=2; uint64_t w=(x1-x0)/st+5,h=(y1-y0)/st+5; 
        mc::space("large/"+g.name+"#"+to_string(k),w*h,[=](uint64_t i){ P p={x0-2*st+(i%w)*st,y0-2*st+(i/w)*st}; mc::state(mc::hash(&p,sizeof p)+k); pip((*L)[k],p,poly_loc((*L)[k].p,p),i%4==0); },[=](uint64_t i){ char b[80]; snprintf(b,80," point %g %g",x0-2*st+(i%w)*st,y0-2*st+(i/w)*st); return (*L)[k].name+b; }); } }
}
// ---- C13
static void facts(const Pts&p,bool ring,const tg_ring*r,const char*vn,bool simple){
    mc::trans(); int n=p.size(); auto F=[&](const char*k,bool ok,const string&m){ if(!ok) mc::fail(k,"%s: %s",vn,m.c_str()); }; const tg_line*l=(const tg_line*)r;
    int np=ring?tg_ring_num_points(r):tg_line_num_points(l); F("number of points",np==n,to_string(np)); if(np!=n) return;
    bool closedlist=n>=1&&p[0]==p[n-1]; int ns=ring?(n<3?0:closedlist?n-1:n):(n<2?0:n-1); int gs=ring?tg_ring_num_segments(r):tg_line_num_segments(l); F("number of segments",gs==ns,to_string(gs)+", expected "+to_string(ns)); if(gs!=ns) return;
    const tg_point*pp=ring?tg_ring_points(r):tg_line_points(l); bool ok=true; for(int i=0;i<n;i++){ tg_point q=ring?tg_ring_point_at(r,i):tg_line_point_at(l,i); if(!(q.x==p[i].x&&q.y==p[i].y)||memcmp(&pp[i],&q,sizeof q)) ok=false; } F("points",ok,"differ"); 
    ok=true; double per=0; for(int i=0;i<ns;i++){ tg_segment s=ring?tg_ring_segment_at(r,i):tg_line_segment_at(l,i); P a=p[i],b=i+1<n?p[i+1]:p[0]; if(!(s.a.x==a.x&&s.a.y==a.y&&s.b.x==b.x&&s.b.y==b.y)) ok=false; per+=sqrt((a.x-b.x)*(a.x-b.x)+(a.y-b.y)*(a.y-b.y)); } F("segments",ok,"differ");
    if(n<2||(ring&&n<3)) return;
    double x0=p[0].x,x1=x0,y0=p[0].y,y1=y0; for(auto q:p){ x0=min(x0,q.x); x1=max(x1,q.x); y0=min(y0,q.y); y1=max(y1,q.y);} tg_rect g=ring?tg_ring_rect(r):tg_line_rect(l); F("rect",g.min.x==x0&&g.min.y==y0&&g.max.x==x1&&g.max.y==y1,"wrong");
    double gp=ring?tg_ring_perimeter(r):tg_line_length(l); F(ring?"perimeter":"length",fabs(gp-per)<=1e-12*(1+per),to_string(gp)+", expected "+to_string(per));
    double a2=0; for(int i=0;i<n;i++){ P a=p[i],b=p[(i+1)%n]; a2+=a.x*b.y-b.x*a.y; }
    bool cw=ring?tg_ring_clockwise(r):tg_line_clockwise(l); if(fabs(a2)>1e-9*(1+fabs(x1)*fabs(y1))) F("clockwise",cw==(a2<0),to_string(cw)); else if(a2==0&&ring) F("clockwise",!cw,"clockwise without area");
    if(ring){ double ga=tg_ring_area(r); F("area",fabs(ga-fabs(a2)/2)<=1e-9*(1+fabs(a2)),to_string(ga)+", expected "+to_string(fabs(a2)/2));
        Pts q; for(auto x:p) if(q.empty()||!(q.back()==x)) q.push_back(x); while(q.size()>1&&q[0]==q.back()) q.pop_back(); bool lt=false,rt=false; size_t m=q.size(); for(size_t i=0;i<m;i++){ double c=cross3(q[i],q[(i+1)%m],q[(i+2)%m]); if(c>1e-9) lt=true; if(c<-1e-9) rt=true; } bool cv=tg_ring_convex(r); if(lt&&rt) F("convex",!cv,"a ring that turns both ways is called convex"); else if(simple) F("convex",cv,"a convex ring is not called convex"); }
}
static void all_forms(const Pts&p,bool ring,bool simple,int nix){
    static const enum tg_index IX[]={TG_DEFAULT,TG_NONE,TG_NATURAL,TG_YSTRIPES}; static const char*IN[]={"default","none","natural","stripes"};
    for(int k=0;k<nix;k++){ tg_ring*r=ring?tg_ring_new_ix(tp(p),p.size(),IX[k]):(tg_ring*)tg_line_new_ix(tp(p),p.size(),IX[k]); if(!r){ mc::fail("new","no ring with memory available"); return; } facts(p,ring,r,IN[k],simple);
        if(k%2==0||nix<2){ tg_ring*c=ring?tg_ring_copy(r):(tg_ring*)tg_line_copy((tg_line*)r); tg_ring*d=ring?tg_ring_clone(r):(tg_ring*)tg_line_clone((tg_line*)r); tg_ring_free(r); r=d; if(!c) mc::fail("copy","no copy with memory available"); else { facts(p,ring,c,"copy",simple); tg_ring_free(c); } facts(p,ring,r,"clone",simple); }
        if(ring) tg_ring_free(r); else tg_line_free((tg_line*)r); } }
static void c13(bool T){
    for(int ring=0;ring<2;ring++) for(int n=0;n<=(mc::deep()?8:T?7:6);n++){ uint64_t c=1; for(int k=0;k<n;k++) c*=9; int z=n>=7?1:0; if(z) c/=9; // seven vertices: the first one fixed
        mc::space(string(ring?"ring":"line")+" of "+to_string(n)+" vertices on 3x3",c,[=](uint64_t i){ Pts p; uint64_t v=i; for(int k=0;k<n;k++){ if(z&&!k){ p.push_back({1,0}); continue; } p.push_back({(double)(v%3),(double)(v/3%3)}); v/=9; } bool sm=false; if(ring&&n>=3){ Pts q=p; if(q[0]==q.back()) q.pop_back(); sm=simple_ring(q); } if((i&7)==0||n<6) mc::state(i*8+n+ring*0x600000000ull); if(sm) mc::nontrivial(); tg_env_set_index_spread(2); all_forms(p,ring,sm,n<6?4:1); if(n>5&&i%3==0){ tg_ring*r=ring?tg_ring_new_ix(tp(p),n,TG_YSTRIPES):(tg_ring*)tg_line_new_ix(tp(p),n,TG_NATURAL); facts(p,ring,r,"indexed",sm); tg_ring_free(r);} tg_env_set_index_spread(16); },
            [=](uint64_t i){ Pts p; uint64_t v=i; for(int k=0;k<n;k++){ if(z&&!k){ p.push_back({1,0}); continue; } p.push_back({(double)(v%3),(double)(v/3%3)}); v/=9; } return (ring?"ring":"line")+pstr(p); }); }
    // every simple ring of the 4x4 grid with up to 6 vertices: each start, both directions, unclosed and closed, with repeats
    { auto R=new vector<Pts>; for(int n=3;n<=(T?7:6);n++) all_rings(4,n,*R); mc::space("simple rings on 4x4",R->size(),[=](uint64_t i){ Pts p=(*R)[i]; mc::state(i+0x550000000ull); mc::nontrivial(); for(int d=0;d<2;d++){ for(size_t k=0;k<p.size();k++){ Pts q=p; rotate(q.begin(),q.begin()+k,q.end()); all_forms(q,true,true,1); all_forms(closed(q),true,true,1); if(k==i%p.size()){ Pts w; for(auto x:q){ w.push_back(x); w.push_back(x);} all_forms(w,true,true,2); w.push_back(w[0]); w.push_back(w[0]); all_forms(closed(w),true,true,2); } } reverse(p.begin(),p.end()); } },[=](uint64_t i){ return "ring"+pstr((*R)[i]); },64); }
    // lengths around every threshold
    { auto N=new vector<int>; for(int n=0;n<=(T?600:140);n++) N->push_back(n); for(int n:{255,256,257,511,512,513,1023,1024,1025,4097,10000,32769,65535,65536,65537}) if(n>N->back()) N->push_back(n); int SPN=T?6:4; static int SP[]={16,2,3,5,33,100};
      mc::space("long",N->size()*SPN*5,[=](uint64_t i){ int n=(*N)[i/5/SPN],kind=i%5; Pts p; switch(kind){ case 0: p=saw_line(n,3); break; case 1: p=flat_line(n); break; case 2: { Pts c=round_ring(n<8?8:n); for(int k=0;k<n;k++) p.push_back(c[k%c.size()]); break; } case 3: for(int k=0;k<n;k++) p.push_back({5,-7}); break; case 4: p=snake_line(n/2); break; } mc::state(i+0x770000000ull); tg_env_set_index_spread(SP[i/5%SPN]);
        bool sm=kind==2&&(int)round_ring(n<8?8:n).size()>=n&&n>=3; all_forms(p,true,sm,4); all_forms(closed(p),true,sm,4); all_forms(p,false,false,4); tg_env_set_index_spread(16); },[=](uint64_t i){ return to_string((*N)[i/5/SPN])+" vertices, kind "+to_string(i%5)+", spread "+to_string(SP[i/5%SPN]); },8); }
}
// ---- C14
struct SR { vector<int> got; vector<const tg_geom*> kid; long stop; const tg_geom*g; bool bad; };
static const tg_geom*child_at(const tg_geom*g,int i,tg_point*pt){ switch(tg_geom_typeof(g)){ case TG_MULTIPOINT: *pt=tg_geom_point_at(g,i); return nullptr; case TG_MULTILINESTRING: return (const tg_geom*)tg_geom_line_at(g,i); case TG_MULTIPOLYGON: return (const tg_geom*)tg_geom_poly_at(g,i); default: return tg_geom_geometry_at(g,i); } }
static bool sit(const tg_geom*c,int i,void*u){ SR*s=(SR*)u; s->got.push_back(i); tg_point p; const tg_geom*w=child_at(s->g,i,&p); if(tg_geom_typeof(s->g)==TG_MULTIPOINT){ tg_point q=tg_geom_point(c); if(tg_geom_typeof(c)!=TG_POINT||q.x!=p.x||q.y!=p.y) s->bad=true; } else if(w!=c) s->bad=true; return (long)s->got.size()!=s->stop; }
struct MG { string name; tg_geom*g; vector<tg_rect> r; vector<char> empty; int dims; double mn[4],mx[4]; bool any; };
static tg_rect rof(const Geo&g){ tg_rect r={{1e308,1e308},{-1e308,-1e308}}; auto a=[&](const Pts&v){ for(auto p:v){ r.min.x=min(r.min.x,p.x); r.min.y=min(r.min.y,p.y); r.max.x=max(r.max.x,p.x); r.max.y=max(r.max.y,p.y);} }; a(g.pts); for(auto&l:g.lines) a(l); for(auto&p:g.polys) a(p.ext); for(auto&k:g.kids){ tg_rect q=rof(k); a({{q.min.x,q.min.y},{q.max.x,q.max.y}}); } return r; }
static MG mkmg(int n,int pat,int kind){ // kind: 4 points, 5 lines, 6 polygons, 7 mixed, 8 mixed with empties, 9 feature collection style nested
    MG m; m.name=to_string(n)+" children, layout "+to_string(pat)+", kind "+to_string(kind); Geo g; vector<tg_geom*> v;
    auto pos=[&](int i)->P{ switch(pat){ case 0: return {(double)(i%10),(double)(i/10)}; case 1: return {(double)i,0}; case 2: return {3,4}; case 3: { uint64_t h=mc::hash(&i,4); return {(double)(h%64)-32,(double)(h>>8)*0+(double)(h>>16&63)-32}; } case 4: return {0,-(double)i}; case 5: return {ldexp(1,i%40),-ldexp(1,(i*7)%40)}; case 6: return {(i&1)?-5.0:15.0,(i&2)?-5.0:15.0}; default: return {1e300*(i%3-1),1e-300*(i%5)}; } };
    for(int i=0;i<n;i++){ P p=pos(i); int k=kind<7?kind-3:(kind==9&&i%4==3)?7:i%3+1; bool e=kind==8&&i%3==2; double w=(i%4)*0.5; Geo c; if(k==1||k==4) c=g_point(p); else if(k==2) c=g_line({p,{p.x+w,p.y+1}}); else if(k==3) c=g_poly({p,{p.x+1+w,p.y},{p.x,p.y+1}}); else { c.kind=K_GC; c.kids={g_point(p),g_line({p,{p.x-1,p.y-w}})}; }
        if(kind==4) g.pts.push_back(p); else if(kind==5) g.lines.push_back(c.lines[0]); else if(kind==6) g.polys.push_back(c.polys[0]); else if(e) v.push_back(i%2?tg_geom_new_point_empty():tg_geom_new_geometrycollection_empty()); else v.push_back(mkgeom(c));
        m.r.push_back(rof(c)); m.empty.push_back(e); }
    if(kind<7){ g.kind=kind==4?K_MPOINT:kind==5?K_MLINE:K_MPOLY; m.g=mkgeom(g); } else { m.g=tg_geom_new_geometrycollection(v.data(),v.size()); for(auto x:v) tg_geom_free(x); }
    return m; }
static bool meets(tg_rect a,tg_rect b){ return a.min.x<=b.max.x&&b.min.x<=a.max.x&&a.min.y<=b.max.y&&b.min.y<=a.max.y; }
static void c14(bool T){
    auto M=new vector<MG>; vector<int> ns={1,2,3,31,32,33,63,64,65,66,95,96,97,100,127,128,129,160,400,800,1023,1024,1025,1056,1057,2500}; if(T){ ns.clear(); for(int n=1;n<=200;n++) ns.push_back(n); for(int n:{255,256,257,512,1023,1024,1025,1056,2000,5000,33000}) ns.push_back(n); } for(int n:ns) for(int pat=0;pat<8;pat++) for(int kind=4;kind<=9;kind++) if(n<=(T?1100:160)||((kind==4||kind==8)&&(pat==0||pat==3||pat==6))) M->push_back(mkmg(n,pat,kind));
    vector<double> cs={-6,-1,0,0.5,3,4,4.5,9,16}; auto Q=new vector<tg_rect>; for(double a:cs)for(double b:cs)for(double c:cs)for(double d:cs) if(a<=b&&c<=d&&(T||a==b||c==d||((int)(a*2+b+c*3+d)&3)==0)) Q->push_back({{a,c},{b,d}}); Q->push_back({{-1e308,-1e308},{1e308,1e308}}); Q->push_back({{1e299,0},{1e300,1e-299}}); Q->push_back({{64,-1e9},{1e9,-64}});
    uint64_t nq=Q->size();
    mc::space("search",M->size()*nq,[=](uint64_t i){ auto&m=(*M)[i/nq]; tg_rect q=(*Q)[i%nq];  mc::state(i); SR s; s.stop=-1; s.g=m.g; s.bad=false; mc::trans(); tg_geom_search(m.g,q,sit,&s); vector<int> w; bool allempty=true; for(size_t k=0;k<m.r.size();k++) if(!m.empty[k]){ allempty=false; if(meets(m.r[k],q)) w.push_back(k); } (void)allempty;
        vector<int> g; for(int k:s.got) if(k<0||k>=(int)m.r.size()){ mc::fail("position","child %d reported",k); return; } else if(!m.empty[k]) g.push_back(k); long full=s.got.size(); sort(g.begin(),g.end()); if(!w.empty()) mc::nontrivial();
        if(g!=w) { vector<int> a,b; set_difference(w.begin(),w.end(),g.begin(),g.end(),back_inserter(a)); set_difference(g.begin(),g.end(),w.begin(),w.end(),back_inserter(b)); mc::fail("search","%zu reported, %zu expected (%zu missing, first %d; %zu extra, first %d)",g.size(),w.size(),a.size(),a.empty()?-1:a[0],b.size(),b.empty()?-1:b[0]); } if(s.bad) mc::fail("child","a reported child is not the one at its position");
        long st[]={1,2,full/2,full-1,full}; for(long k:st) if(k>0&&k<=full){ s.got.clear(); s.stop=k; tg_geom_search(m.g,q,sit,&s); if((long)s.got.size()!=k) mc::fail("stop","refused at report %ld, got %zu",k,s.got.size()); } },
      [=](uint64_t i){ tg_rect q=(*Q)[i%nq]; char b[120]; snprintf(b,120," search [%g %g %g %g]",q.min.x,q.min.y,q.max.x,q.max.y); return (*M)[i/nq].name+b; });
    // every number of children (so every shape of the index over them): each child is found alone by a search of its own place
    { int N=mc::deep()?9000:T?3300:2200; static const int HN[]={66000,65537,65536,65535,33000,32769,32768}; mc::space("every size",N+7,[=](uint64_t i){ int n=i<7?HN[i]:(int)i-6; mc::state(i+0x300000000ull); mc::nontrivial(); vector<tg_point> p(n); int w=n%3==0?1:n%3==1?50:7; for(int k=0;k<n;k++) p[k]={(double)(k%w),(double)(k/w)}; vector<tg_geom*> gs; gs.push_back(tg_geom_new_multipoint(p.data(),n)); if(n%32<3||n%32>30||n<200){ vector<tg_geom*> v(n); for(int k=0;k<n;k++) v[k]=tg_geom_new_point(p[k]); gs.push_back(tg_geom_new_geometrycollection(v.data(),n)); for(auto x:v) tg_geom_free(x); }
        for(auto g:gs) for(int k=0;k<n;k++){ SR s; s.stop=-1; s.g=g; s.bad=false; mc::trans(); tg_geom_search(g,{p[k],p[k]},sit,&s); if(s.got.size()!=1||s.got[0]!=k||s.bad){ mc::fail("every size","of %d children, %zu are found at the place of child %d (first %d)",n,s.got.size(),k,s.got.empty()?-1:s.got[0]); break; } }
        for(auto g:gs){ tg_rect r=tg_geom_rect(g); SR s; s.stop=-1; s.g=g; s.bad=false; tg_geom_search(g,r,sit,&s); sort(s.got.begin(),s.got.end()); bool ok=(int)s.got.size()==n; for(int k=0;ok&&k<n;k++) ok=s.got[k]==k; if(!ok) mc::fail("every size","search of the whole rectangle of %d children reports %zu",n,s.got.size()); tg_geom_free(g); } },[](uint64_t i){ return to_string(i<7?HN[i]:(int)i-6)+" points in rows"; },16); }
    mc::space("rect of a collection",M->size(),[=](uint64_t i){ auto&m=(*M)[i]; tg_rect w={{1e308,1e308},{-1e308,-1e308}}; bool any=false; for(size_t k=0;k<m.r.size();k++) if(!m.empty[k]){ any=true; w.min.x=min(w.min.x,m.r[k].min.x); w.min.y=min(w.min.y,m.r[k].min.y); w.max.x=max(w.max.x,m.r[k].max.x); w.max.y=max(w.max.y,m.r[k].max.y); } if(!any) return; mc::trans(3); mc::nontrivial(); mc::state(i+0x100000000ull);
        tg_geom*c=tg_geom_copy(m.g); tg_geom*kids[]={m.g}; tg_geom*n=tg_geom_new_geometrycollection(kids,1); for(tg_geom*g:{m.g,c,n}){ tg_rect r=tg_geom_rect(g); double a[4],b[4]; int d=tg_geom_fullrect(g,a,b); if(memcmp(&r,&w,sizeof r)&&!(r.min.x==w.min.x&&r.min.y==w.min.y&&r.max.x==w.max.x&&r.max.y==w.max.y)) mc::fail("rect","[%g %g %g %g], expected [%g %g %g %g]",r.min.x,r.min.y,r.max.x,r.max.y,w.min.x,w.min.y,w.max.x,w.max.y); if(d!=2||a[0]!=w.min.x||a[1]!=w.min.y||b[0]!=w.max.x||b[1]!=w.max.y) mc::fail("fullrect","dims %d or values wrong",d); } tg_geom_free(c); tg_geom_free(n); },[=](uint64_t i){ return (*M)[i].name; });
    // every type and dimension, every position of the extreme coordinates
    { struct D { string wkt; int dims; double mn[4],mx[4]; }; auto DV=new vector<D>; const char*tag[4]={"","Z","M","ZM"};
      // templates: @ stands for a position; all positions are permutations of extremes over the slots
      const char*tm[]={"POINT#(@)","LINESTRING#(@,@)","LINESTRING#(@,@,@)","POLYGON#((@,@,@,!))","POLYGON#((@,@,@,@,!))","MULTIPOINT#(@,@,@)","MULTIPOINT#((@))","MULTILINESTRING#((@,@),(@,@))","MULTIPOLYGON#(((@,@,@,!)),((@,@,@,!)))","GEOMETRYCOLLECTION#(POINT#(@),LINESTRING#(@,@))","GEOMETRYCOLLECTION#(GEOMETRYCOLLECTION#(POINT#(@),POINT#(@)),MULTIPOINT#(@,@))","GEOMETRYCOLLECTION#(POINT EMPTY,POINT#(@),GEOMETRYCOLLECTION EMPTY)","MULTIPOLYGON#(((@,@,@,!),(@,@,@,!)))","GEOMETRYCOLLECTION#(POLYGON#((@,@,@,!)),MULTILINESTRING#((@,@),(@,@)))"};
      for(auto t:tm) for(int dm=0;dm<4;dm++){ string s=t; int slots=count(s.begin(),s.end(),'@'); int nd=2+(dm==3?2:dm?1:0); bool hole=string(t).find("!),(")!=string::npos&&string(t).find("MULTIPOLYGON#(((@,@,@,!),(")==0; 
        for(int lo=0;lo<slots;lo++) for(int hi=0;hi<slots;hi++) for(int dim=0;dim<nd;dim++){ if(hole&&(lo>2||hi>2)&&dim<2) continue; D d; d.dims=nd; int k=0; string first; bool ring=false; for(int q=0;q<4;q++){ d.mn[q]=1e308; d.mx[q]=-1e308; } string o; for(size_t c=0;c<s.size();c++){ char ch=s[c]; if(ch=='#') o+=string(" ")+tag[dm]+(dm?" ":""); else if(ch=='@'){ string ps; for(int q=0;q<nd;q++){ double v=((k*37+q*11)%17)-8; // the rect of a polygon is that of its exterior
             if(q==dim&&k==lo) v=-100-k; if(q==dim&&k==hi) v=100+k; if(!(hole&&k>2&&q<2)){ d.mn[q]=min(d.mn[q],v); d.mx[q]=max(d.mx[q],v); } char b[40]; snprintf(b,40,"%s%g",q?" ":"",v); ps+=b; } if(c&&s[c-1]=='('){ first=ps; } o+=ps; k++; } else if(ch=='!') o+=first; else o+=ch; } (void)ring; d.wkt=o; 
            DV->push_back(d); } }
      mc::space("dimensions",DV->size(),[=](uint64_t i){ auto&d=(*DV)[i]; mc::state(i+0x200000000ull); mc::nontrivial(); auto g=tg_parse_wkt(d.wkt.c_str()); if(tg_geom_error(g)){ mc::fail("parse","%s",tg_geom_error(g)); tg_geom_free(g); return; } tg_geom*v[2]={g,tg_geom_copy(g)}; for(auto x:v){ double a[4],b[4]; mc::trans(); int n=tg_geom_fullrect(x,a,b); if(n!=d.dims) mc::fail("fullrect dims","%d, expected %d",n,d.dims); else for(int q=0;q<n;q++) if(a[q]!=d.mn[q]||b[q]!=d.mx[q]){ mc::fail("fullrect","dimension %d is %g..%g, expected %g..%g",q,a[q],b[q],d.mn[q],d.mx[q]); break; } tg_rect r=tg_geom_rect(x); if(r.min.x!=d.mn[0]||r.max.x!=d.mx[0]||r.min.y!=d.mn[1]||r.max.y!=d.mx[1]) mc::fail("rect","[%g %g %g %g]",r.min.x,r.min.y,r.max.x,r.max.y); tg_point c=tg_geom_point(x); if(tg_geom_typeof(x)!=TG_POINT&&(c.x!=(r.min.x+r.max.x)/2||c.y!=(r.min.y+r.max.y)/2)) mc::fail("centre","tg_geom_point is not the centre"); tg_geom_free(x); } },[=](uint64_t i){ return (*DV)[i].wkt; }); }
}
int main(int argc,char**argv){ mc::init(argc,argv); MURKY(); bool T=mc::thorough(); if(mc::prop=="C11") c11(T); if(mc::prop=="C12") c12(T); if(mc::prop=="C13") c13(T); if(mc::prop=="C14") c14(T); return mc::finish(); }
