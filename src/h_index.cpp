// C06 index never changes an answer, C08 pair searches, C09 nearest segments, C10 index rectangles.
#include "alloc.hpp"
#include "shapes.hpp"
#include "mc.hpp"
#include <memory>
#include <climits>
#include <cfloat>
using namespace std;
struct Cfg { string name; enum tg_index ix; int spread; bool open=false; };
static vector<Cfg> cfgs(bool T){ vector<Cfg> c={{"none",TG_NONE,16}}; vector<int> sp={2,3,5,16}; if(T) sp={2,3,4,5,6,7,8,9,11,16,17,32,33,64,200}; for(int s:sp){ c.push_back({"natural/"+to_string(s),TG_NATURAL,s}); } for(int s:T?vector<int>{2,3,7,16,64}:vector<int>{2,16}) c.push_back({"stripes/"+to_string(s),TG_YSTRIPES,s}); for(int s:T?vector<int>{2,3,4,16}:vector<int>{2,3}) c.push_back({"unclosed/"+to_string(s),TG_NATURAL,s,true}); return c; }
struct Shape { string name; bool ring; Pts p; vector<Pts> holes; };
static tg_geom *build(const Shape&s,const Cfg&c){ tg_env_set_index_spread(c.spread); if(c.open&&s.ring&&s.holes.empty()){ auto r=mkring(s.p,c.ix,false); tg_env_set_index_spread(16); return (tg_geom*)r; } Geo g=s.ring?g_poly(s.p,s.holes):g_line(s.p); auto t=mkgeom(g,c.ix); tg_env_set_index_spread(16); return t; }
static tg_ring *build_ring(const Shape&s,const Cfg&c){ tg_env_set_index_spread(c.spread); tg_ring*r=s.ring?mkring(s.p,c.ix,!c.open):(tg_ring*)tg_line_new_ix(tp(s.p),s.p.size(),c.ix); tg_env_set_index_spread(16); return r; }
static vector<Shape> large(bool T){
    vector<Shape> v; auto R=[&](string n,Pts p,vector<Pts> h={}){ v.push_back({n,true,p,h}); }; auto L=[&](string n,Pts p){ v.push_back({n,false,p,{}}); };
    for(int n:T?vector<int>{4,16,17,40,100}:vector<int>{8,16,40}) R("comb"+to_string(n),comb_ring(n,3)); for(int n:T?vector<int>{4,8,9,30,70}:vector<int>{8,20}) R("stairs"+to_string(n),stairs_ring(n)); for(int n:T?vector<int>{2,8,9,33,64}:vector<int>{8,17}) R("wave"+to_string(n),wave_ring(n)); for(int n:T?vector<int>{2,5,9}:vector<int>{5}) R("spiral"+to_string(n),spiral_ring(n)); for(int n:T?vector<int>{16,40,100,400}:vector<int>{40,100}) R("round"+to_string(n),round_ring(n));
    for(int m:T?vector<int>{8,9,16,64,256}:vector<int>{8,16}){ R("square x"+to_string(m),dense_ring({{0,0},{8,0},{8,8},{0,8}},m==9?8:m)); R("L x"+to_string(m),dense_ring({{0,0},{8,0},{8,4},{4,4},{4,8},{0,8}},8)); R("triangle x"+to_string(m),dense_ring({{0,0},{8,0},{0,8}},16)); if(m==8) R("frame x8",dense_ring({{0,0},{8,0},{8,8},{0,8}},8),{dense_ring({{2,2},{6,2},{6,6},{2,6}},8)}); }
    { Pts e=comb_ring(12,6); R("comb with holes",{{-1,-1},{25,-1},{25,7},{-1,7}},{e.size()?map_pts(comb_ring(11,5),[](P p){ return P{p.x+1,p.y+1}; }):e}); }
    for(int n:T?vector<int>{4,33,34,64,100,300}:vector<int>{34,100}){ L("saw"+to_string(n),saw_line(n,3)); L("flat"+to_string(n),flat_line(n)); } for(int n:T?vector<int>{8,17,40}:vector<int>{17}) L("snake"+to_string(n),snake_line(n));
    return v; }
static vector<Shape> smalls(bool T){ vector<Shape> v; vector<Pts> r; all_rings(3,3,r); all_rings(3,4,r); all_rings(3,5,r); if(T) all_rings(3,6,r); for(auto&x:r) v.push_back({"ring",true,x,{}}); r.clear(); all_lines(3,4,r); int k=0; for(auto&x:r) if(k++%(T?7:37)==0) v.push_back({"line",false,x,{}}); r.clear(); all_lines(3,2,r); for(auto&x:r) v.push_back({"line",false,x,{}}); return v; }
static string q16(const tg_geom*A,const tg_geom*B){ bool v[]={tg_geom_intersects(A,B),tg_geom_touches(A,B),tg_geom_equals(A,B),tg_geom_covers(A,B),tg_geom_contains(A,B),tg_geom_intersects(B,A),tg_geom_touches(B,A),tg_geom_covers(B,A),tg_geom_contains(B,A)}; string s; for(bool x:v) s+=x?'1':'0'; mc::trans(9); return s; }
static const char*Q16="intersects touches equals covers contains, swapped: intersects touches covers contains";

static void c06(bool T){
    auto C=new vector<Cfg>(cfgs(T)); auto L=new vector<Shape>(large(T)); int nc=C->size(); auto G=new vector<vector<tg_geom*>>; for(auto&s:*L){ vector<tg_geom*> v; for(auto&c:*C) v.push_back(build(s,c)); G->push_back(v); }
    // points of the half grid around each shape
    for(size_t k=0;k<L->size();k++){ auto&s=(*L)[k]; double x0=1e9,x1=-1e9,y0=1e9,y1=-1e9; for(auto p:s.p){ x0=min(x0,p.x); x1=max(x1,p.x); y0=min(y0,p.y); y1=max(y1,p.y);} 
        int w=min<int>((x1-x0+1)*2+2,T?4000:400),h=min<int>((y1-y0+1)*2+2,T?1000:200); double sx=((x1-x0+1)*2+2)/w,sy=((y1-y0+1)*2+2)/h; sx=ceil(sx); sy=ceil(sy); bool simple=s.ring&&s.holes.empty();
        mc::space("points/"+s.name+"#"+to_string(k),(uint64_t)w*h,[=](uint64_t i){ P p={x0-1+(i%w)*.5*sx,y0-1+(i/w)*.5*sy}; auto Q=tg_geom_new_point({p.x,p.y}); string w0; mc::state(mc::hash(&p,sizeof p)+k*77);
            for(int c=0;c<nc;c++){ auto A=(*G)[k][c]; bool v[]={tg_geom_intersects_xy(A,p.x,p.y),tg_geom_covers(A,Q),tg_geom_contains(A,Q),tg_geom_touches(A,Q),tg_geom_intersects_rect(A,{{p.x,p.y},{p.x+1,p.y+1.5}})}; string r; for(bool b:v) r+=b?'1':'0'; mc::trans(5); if(!c){ w0=r; if(r[0]=='1') mc::nontrivial(); } else if(r!=w0) mc::fail("point and rect predicates","%s: intersects_xy covers contains touches intersects_rect = %s, without an index %s",(*C)[c].name.c_str(),r.c_str(),w0.c_str()); }
            tg_geom_free(Q); (void)simple; },
            [=](uint64_t i){ char b[99]; snprintf(b,99," point %g %g",x0-1+(i%w)*.5*sx,y0-1+(i/w)*.5*sy); return (*L)[k].name+b; });
    }
    // stairs of every height: level edges at computed heights, asked at every vertex, on every level edge and between
    { static double SC[]={1,0.1,1.0/3,7},Y0[]={0,-0.3,1e6},DX[]={1.0/1024,1,100}; int lo=16,hi=T?600:170; static Cfg hc[]={{"none",TG_NONE,16},{"stripes/16",TG_YSTRIPES,16},{"natural/16",TG_NATURAL,16},{"natural/3",TG_NATURAL,3},{"stripes/5",TG_YSTRIPES,5}};
      auto ring=[=](uint64_t i,vector<P>&q){ int h=lo+i/36; double sc=SC[i%4],y0=Y0[i/4%3],dx=DX[i/12%3]; Shape s; s.ring=true; auto y=[=](int k){ return y0+k*sc; }; s.p.push_back({0,y(0)}); for(int k=0;k<h;k++){ s.p.push_back({2+k*dx,y(k)}); s.p.push_back({2+(k+1)*dx,y(k)}); } s.p.push_back({2+h*dx,y(h)}); s.p.push_back({0,y(h)});
          for(auto p:s.p) q.push_back(p); for(int k=0;k<=h;k++){ q.push_back({2+(k+.5)*dx,y(k)}); q.push_back({1,y(k)}); q.push_back({2+(k+.5)*dx,y0+(k+.5)*sc}); q.push_back({2+(k+1)*dx,y0+(k+.5)*sc}); } return s; };
      mc::space("stairs of every height",(uint64_t)(hi-lo)*36,[=](uint64_t i){ vector<P> q; Shape s=ring(i,q); vector<tg_geom*> g; for(auto&c:hc) g.push_back(build(s,c)); mc::state(i+0x990000000ull); mc::nontrivial(); for(auto p:q){ tg_geom*Q=tg_geom_new_point({p.x,p.y}); string w; for(size_t c=0;c<g.size();c++){ bool v[]={tg_geom_intersects_xy(g[c],p.x,p.y),tg_geom_contains(g[c],Q)}; string r; for(bool b:v) r+=b?'1':'0'; mc::trans(2); if(!c) w=r; else if(r!=w){ mc::fail("level edges","%s at %.17g %.17g: intersects contains = %s, without an index %s",hc[c].name.c_str(),p.x,p.y,r.c_str(),w.c_str()); break; } } tg_geom_free(Q); } for(auto x:g) tg_geom_free(x); },
        [=](uint64_t i){ char b[120]; snprintf(b,120,"stairs of %d steps, step %g by %g from %g",(int)(lo+i/36),DX[i/12%3],SC[i%4],Y0[i/4%3]); return string(b); },16); }
    // small shapes: every pair of a family, indexed at spread 2 and 3
    { auto S=new vector<Shape>(smalls(T)); vector<Cfg> sc={{"none",TG_NONE,16},{"natural/2",TG_NATURAL,2},{"stripes/2",TG_YSTRIPES,2},{"natural/3",TG_NATURAL,3},{"unclosed/2",TG_NATURAL,2,true}}; auto SC=new vector<Cfg>(sc); auto SG=new vector<vector<tg_geom*>>; for(auto&s:*S){ vector<tg_geom*> v; for(auto&c:sc) v.push_back(build(s,c)); SG->push_back(v); }
      uint64_t n=S->size(); mc::space("small*small",n*n,[=](uint64_t i){ auto&A=(*SG)[i/n],&B=(*SG)[i%n]; string w=q16(A[0],B[0]); mc::state(i); if(w[0]=='1') mc::nontrivial(); for(int a=0;a<5;a++) for(int b=0;b<5;b++) if((a||b)&&(a==b||!a||!b||T)){ string r=q16(A[a],B[b]); if(r!=w) mc::fail("pair predicates","%s,%s: %s = %s, without an index %s",(*SC)[a].name.c_str(),(*SC)[b].name.c_str(),Q16,r.c_str(),w.c_str()); } },
        [=](uint64_t i){ auto&a=(*S)[i/n],&b=(*S)[i%n]; return a.name+pstr(a.p)+" / "+b.name+pstr(b.p); }); }
    // large against shifted large
    { int W=T?5:3; vector<P> sh; for(int x=-W;x<=W;x++)for(int y=-W;y<=W;y++) if(T||((x+y)&1)==0) sh.push_back({x*1.0,y*1.0}); sh.push_back({.5,.25}); sh.push_back({4,4}); auto SH=new vector<P>(sh); uint64_t nl=L->size(),ns=sh.size();
      vector<int> use; for(int c=0;c<nc;c++) if(T?1:(c==0||c==1||c==4||c==nc-1||c==nc-3)) use.push_back(c); auto U=new vector<int>(use);
      mc::space("large*shifted large",nl*nl*ns,[=](uint64_t i){ auto&b=(*L)[i/ns%nl]; P d=(*SH)[i%ns]; uint64_t k=i/ns/nl; Shape bs=b; bs.p=map_pts(b.p,[=](P p){ return P{p.x+d.x,p.y+d.y}; }); for(auto&h:bs.holes) h=map_pts(h,[=](P p){ return P{p.x+d.x,p.y+d.y}; });
          vector<tg_geom*> B; for(int c:*U) B.push_back(build(bs,(*C)[c])); string w=q16((*G)[k][0],B[0]); mc::state(i*3); if(w[0]=='1') mc::nontrivial();
          for(size_t x=0;x<U->size();x++) for(size_t y=0;y<U->size();y++) if((x||y)&&(x==y||!x||!y||(T&&x==U->size()-1-y))){ string r=q16((*G)[k][(*U)[x]],B[y]); if(r!=w) mc::fail("pair predicates","%s,%s: %s = %s, without an index %s",(*C)[(*U)[x]].name.c_str(),(*C)[(*U)[y]].name.c_str(),Q16,r.c_str(),w.c_str()); }
          for(auto g:B) tg_geom_free(g); },
        [=](uint64_t i){ P d=(*SH)[i%ns]; char b[64]; snprintf(b,64," shifted by %g %g",d.x,d.y); return (*L)[i/ns/nl].name+" / "+(*L)[i/ns%nl].name+b; },64); }
    // every size: a ring or line with each index against cutters and its own copy, next to the one without
    { int hi=T?700:230; static const int SPR[]={2,3,5,16,33}; mc::space("every size",(uint64_t)(hi-2)*16,[=](uint64_t i){ int n=hi-(int)(i/16),kind=i%4; bool st=i/4%2; Shape a; a.ring=i/8%2; a.p=profile_ring(n,kind,st); double m=n; vector<Shape> bs; auto L=[&](Pts p){ if(st) for(auto&q:p) q={q.y,q.x}; bs.push_back({"",false,p,{}}); }; auto R=[&](Pts p){ if(st) for(auto&q:p) q={q.y,q.x}; bs.push_back({"",true,p,{}}); }; L({{-1,3},{m,3}}); L({{m/2,0},{m/2,1},{floor(m/2),2}}); R({{m-6,0},{m,2},{m-4,5}}); R({{1,-.5},{m-4,-.5},{m-4,0},{1,.5}}); bs.push_back(a); Shape d=a; d.p[n/2].y+=.25; bs.push_back(d); d=a; for(auto&p:d.p) p.x+=1; bs.push_back(d);
        Cfg ca[]={{"none",TG_NONE,16},{"natural",TG_NATURAL,SPR[n%5]},{"natural/16",TG_NATURAL,16},{"stripes",TG_YSTRIPES,SPR[(n+1)%5]},{"unclosed",TG_NATURAL,SPR[(n+2)%5],true}}; vector<tg_geom*> A; for(auto&c:ca) A.push_back(build(a,c)); mc::state(i*5+4+0xaa00000000ull);
        for(auto&b:bs){ tg_geom*B0=build(b,ca[0]),*B1=build(b,ca[1]); string w=q16(A[0],B0); if(w[0]=='1') mc::nontrivial(); for(size_t k=1;k<A.size();k++) for(auto B:{B0,B1}){ if(B==B1&&k>2) continue; string r=q16(A[k],B); if(r!=w) mc::fail("pair predicates","%s against %s%s: %s = %s, without an index %s",ca[k].name.c_str(),b.p.size()<8?pstr(b.p).c_str():"a copy",B==B1?" (indexed)":"",Q16,r.c_str(),w.c_str()); } tg_geom_free(B0); tg_geom_free(B1); }
        for(auto t:A) tg_geom_free(t); },
        [=](uint64_t i){ return to_string(hi-(int)(i/16))+" vertices, profile "+to_string(i%4)+(i/4%2?" standing":"")+(i/8%2?" ring":" line"); },2); }
    // counts around the powers of two a narrower type would overflow at
    { static const int HN[]={32767,32768,32770,65535,65536,65537,65540,131073}; mc::space("huge",8*16,[=](uint64_t i){ int n=HN[7-i/16],kind=i%4; bool st=i/4%2; Shape a; a.ring=i/8%2; a.p=profile_ring(n,kind,st); double m=n; vector<Shape> bs; auto L=[&](Pts p){ if(st) for(auto&q:p) q={q.y,q.x}; bs.push_back({"",false,p,{}}); }; auto R=[&](Pts p){ if(st) for(auto&q:p) q={q.y,q.x}; bs.push_back({"",true,p,{}}); }; for(double x:{1.,floor(m/3),floor(m/2),32766.,32767.,65534.,65535.,m-4}) if(x<m-3){ L({{x,3},{x+1.5,2}}); L({{x+.5,-1},{x+.5,.5}}); R({{x-1,0},{x+1,0},{x,.5}}); R({{x-1,-1},{x+1,-1},{x,6}}); bs.push_back({"",false,{a.p[(size_t)x],a.p[(size_t)x+1],a.p[(size_t)x+2]},{}}); } L({{-1,3},{m,3}});
        Cfg ca[]={{"none",TG_NONE,16},{"natural",TG_NATURAL,2},{"natural/16",TG_NATURAL,16},{"stripes",TG_YSTRIPES,5},{"unclosed",TG_NATURAL,33,true}}; vector<tg_geom*> A; for(auto&c:ca) A.push_back(build(a,c)); mc::state(i*5+4+0xab00000000ull); mc::nontrivial();
        for(auto&b:bs){ tg_geom*B=build(b,ca[0]); string w=q16(A[0],B); for(size_t k=1;k<A.size();k++){ string r=q16(A[k],B); if(r!=w) mc::fail("pair predicates","%s against %s: %s = %s, without an index %s",ca[k].name.c_str(),pstr(b.p).c_str(),Q16,r.c_str(),w.c_str()); } tg_geom_free(B); mc::alive(); }
        auto at=[&](P p){ string w; for(size_t k=0;k<A.size();k++){ string r; for(int q=0;q<1;q++) r+=tg_geom_intersects_xy(A[k],p.x,p.y)?'1':'0'; if(!k) w=r; else if(r!=w){ mc::fail("point","%s at %.17g %.17g: %s, without an index %s",ca[k].name.c_str(),p.x,p.y,r.c_str(),w.c_str()); return; } } }; for(int k=0;k<n;k+=k<40||k>n-40||(k&32767)<3||(k&32767)>32765?1:997){ P q=a.p[k]; for(P d:{P{0,0},P{.25,0},P{0,.25},P{-.25,-.25}}) at({q.x+d.x,q.y+d.y}); }
        for(auto t:A) tg_geom_free(t); },[=](uint64_t i){ return to_string(HN[7-i/16])+" vertices, profile "+to_string(i%4)+(i/4%2?" standing":"")+(i/8%2?" ring":" line"); },1); }
    // parsing with each index gives the same geometry
    { uint64_t nl=L->size(); mc::space("parse with index",nl*nc,[=](uint64_t i){ auto A=(*G)[i/nc][0]; auto&c=(*C)[i%nc]; string t(tg_geom_wkt(A,0,0),0); tg_geom_wkt(A,&t[0],t.size()+1); string j(tg_geom_geojson(A,0,0),0); tg_geom_geojson(A,&j[0],j.size()+1); string b(tg_geom_wkb(A,0,0),0); tg_geom_wkb(A,(uint8_t*)&b[0],b.size()); string gb(tg_geom_geobin(A,0,0),0); tg_geom_geobin(A,(uint8_t*)&gb[0],gb.size());
        tg_env_set_index_spread(c.spread); tg_geom*p[]={tg_parse_wktn_ix(t.data(),t.size(),c.ix),tg_parse_geojsonn_ix(j.data(),j.size(),c.ix),tg_parse_wkb_ix((uint8_t*)b.data(),b.size(),c.ix),tg_parse_geobin_ix((uint8_t*)gb.data(),gb.size(),c.ix),tg_parse_ix(t.data(),t.size(),c.ix)}; tg_env_set_index_spread(16);
        for(auto g:p){ mc::trans(); string u(tg_geom_wkt(g,0,0),0); tg_geom_wkt(g,&u[0],u.size()+1); if(u!=t) mc::fail("parse with index","%s: the parsed geometry is written differently",c.name.c_str()); else if(!tg_geom_equals(A,g)) mc::fail("parse with index","%s: not equal to the original",c.name.c_str()); tg_geom_free(g); } mc::state(i*5+2); mc::nontrivial(); },
        [=](uint64_t i){ return (*L)[i/nc].name+" with "+(*C)[i%nc].name; },8); }
}
// ---- C08
typedef vector<array<int,2>> PairV;
struct PS { PairV got; long stop; tg_segment bad; const tg_ring*a,*b; bool mism; };
static bool pit(tg_segment as,int ai,tg_segment bs,int bi,void*u){ PS*s=(PS*)u; s->got.push_back({ai,bi}); tg_segment x=tg_ring_segment_at(s->a,ai),y=tg_ring_segment_at(s->b,bi); if(memcmp(&x,&as,sizeof x)||memcmp(&y,&bs,sizeof y)) s->mism=true; return (long)s->got.size()!=s->stop; }
static PairV brute(const Pts&a,bool ar,const Pts&b,bool br){ PairV o; Pts x=ar?closed(a):a,y=br?closed(b):b; for(size_t i=0;i+1<x.size();i++) for(size_t j=0;j+1<y.size();j++) if(max(x[i].x,x[i+1].x)>=min(y[j].x,y[j+1].x)&&max(y[j].x,y[j+1].x)>=min(x[i].x,x[i+1].x)&&seg_hits(x[i],x[i+1],y[j],y[j+1])) o.push_back({(int)i,(int)j}); return o; }
static void search(const tg_ring*a,bool ar,const tg_ring*b,bool br,PS&s){ s.a=a; s.b=b; s.mism=false; s.got.clear(); if(ar&&br) tg_ring_ring_search(a,b,pit,&s); else if(ar) tg_ring_line_search(a,(const tg_line*)b,pit,&s); else tg_line_line_search((const tg_line*)a,(const tg_line*)b,pit,&s); mc::trans(); }
static void c08_pair(const tg_ring*a,const Shape&as,const tg_ring*b,const Shape&bs,PairV&want,const char*cn,bool allstops){
    PS s; s.stop=-1; search(a,as.ring,b,bs.ring,s); auto g=s.got; sort(g.begin(),g.end());
    if(s.mism) mc::fail("segments","%s: a reported segment is not the one at its position",cn);
    if(g!=want){ PairV m,e; set_difference(want.begin(),want.end(),g.begin(),g.end(),back_inserter(m)); set_difference(g.begin(),g.end(),want.begin(),want.end(),back_inserter(e)); if(!m.empty()) mc::fail("missing pair","%s: %zu reported, %zu expected, e.g. (%d,%d) is missing",cn,g.size(),want.size(),m[0][0],m[0][1]); else mc::fail("extra pair","%s: %zu reported, %zu expected, e.g. (%d,%d) is extra",cn,g.size(),want.size(),e.empty()?-1:e[0][0],e.empty()?-1:e[0][1]); return; }
    auto full=s.got; for(long k=1;k<=(long)want.size();k++){ if(!allstops&&k>3&&k!=(long)want.size()/2&&k!=(long)want.size()) continue; s.stop=k; search(a,as.ring,b,bs.ring,s); if((long)s.got.size()!=k) mc::fail("stop","%s: refused at report %ld, got %zu reports",cn,k,s.got.size()); }
}
static void c08(bool T){
    { auto S=new vector<Shape>(smalls(T)); auto SC=new vector<Cfg>{{"none",TG_NONE,16},{"natural/2",TG_NATURAL,2},{"stripes/2",TG_YSTRIPES,2},{"natural/3",TG_NATURAL,3},{"unclosed/2",TG_NATURAL,2,true}}; auto SG=new vector<vector<tg_ring*>>; for(auto&s:*S){ vector<tg_ring*> v; for(auto&c:*SC) v.push_back(build_ring(s,c)); SG->push_back(v); }
      uint64_t n=S->size(); mc::space("small*small",n*n,[=](uint64_t i){ auto&a=(*S)[i/n],&b=(*S)[i%n]; if(!a.ring&&b.ring) return; PairV w=brute(a.p,a.ring,b.p,b.ring); mc::state(i); if(!w.empty()) mc::nontrivial(); for(int x=0;x<5;x++) for(int y=0;y<5;y++) if(T||x==y||!x||!y) c08_pair((*SG)[i/n][x],a,(*SG)[i%n][y],b,w,((*SC)[x].name+","+(*SC)[y].name).c_str(),T||(x==1&&y<=1)); },
        [=](uint64_t i){ auto&a=(*S)[i/n],&b=(*S)[i%n]; return a.name+pstr(a.p)+" / "+b.name+pstr(b.p); }); }
    { auto L=new vector<Shape>(large(T)); vector<Cfg> all=cfgs(T),use; for(auto&c:all) if(T||c.name=="none"||c.name=="natural/2"||c.name=="natural/3"||c.name=="natural/16"||c.name=="stripes/2"||c.open) use.push_back(c); auto C=new vector<Cfg>(use); auto G=new vector<vector<tg_ring*>>; for(auto&s:*L){ vector<tg_ring*> v; for(auto&c:use) v.push_back(build_ring(s,c)); G->push_back(v); }
      int W=T?3:1; vector<P> sh; for(int x=-W;x<=W;x++)for(int y=-W;y<=W;y++) sh.push_back({x*1.0,y*1.0}); sh.push_back({.5,.25}); sh.push_back({4,4}); auto SH=new vector<P>(sh); uint64_t nl=L->size(),ns=sh.size();
      mc::space("large*shifted large",nl*nl*ns,[=](uint64_t i){ Shape bs=(*L)[i/ns%nl]; P d=(*SH)[i%ns]; uint64_t k=i/ns/nl; auto&as=(*L)[k]; if(!as.ring&&bs.ring) return; if(as.p.size()*bs.p.size()>(T?400000u:16000u)) return; bs.p=map_pts(bs.p,[=](P p){ return P{p.x+d.x,p.y+d.y}; });
          PairV w=brute(as.p,as.ring,bs.p,bs.ring); mc::state(i*3+1); if(!w.empty()) mc::nontrivial(); for(size_t y=0;y<C->size();y++){ auto B=build_ring(bs,(*C)[y]); for(size_t x=0;x<C->size();x++) if(T||x==y||!x||!y) c08_pair((*G)[k][x],as,B,bs,w,((*C)[x].name+","+(*C)[y].name).c_str(),false); tg_ring_free(B); } },
        [=](uint64_t i){ P d=(*SH)[i%ns]; char b[64]; snprintf(b,64," shifted by %g %g",d.x,d.y); return (*L)[i/ns/nl].name+" / "+(*L)[i/ns%nl].name+b; },32); }
    // rings and lines of every size against cutters
    { int hi=T?900:600; static const int SPR[]={2,3,5,16,33}; auto sz=[=](uint64_t i){ static const int HN[]={65537,65535,32769,4096}; i/=16; return i<4?HN[i]:hi-(int)(i-4); }; auto sh=[=](uint64_t i,int k){ int n=sz(i),kind=i%4; bool st=i/4%2,ring=i/8%2; Shape s; double m=n; switch(k){ case 0: s.ring=ring; s.p=profile_ring(n,kind,st); break; case 1: s.ring=false; s.p={{-1,3},{m,3}}; break; case 2: s.ring=false; s.p={{(double)(n/2),-3},{(double)(n/2),m+5},{(double)(n/2)+1,2.5},{-3,-3}}; break; case 3: s.ring=ring; s.p={{m-6,0},{m,2},{m-4,5}}; break; case 4: s.ring=ring; s.p=map_pts(profile_ring(n,kind,st),[](P p){ return P{p.x+1,p.y+.5}; }); break; default: s.ring=false; for(int j=0;j<24;j++) s.p.push_back({j*m/32,j%2?0.:6.}); if(m>0) for(auto&q:s.p) q.x=floor(q.x*4)/4; } if(st&&k&&k!=4) for(auto&q:s.p) q={q.y,q.x}; return s; };
      mc::space("every size",(uint64_t)(hi+2)*16*5,[=](uint64_t i){ uint64_t j=i/5; int k=i%5+1,n=sz(j); Shape a=sh(j,0),b=sh(j,k); if(!a.ring&&b.ring) return; if(k==4&&n>(T?400:200)) return; Cfg ca[]={{"none",TG_NONE,16},{"natural",TG_NATURAL,SPR[n%5]},{"natural/16",TG_NATURAL,16},{"stripes",TG_YSTRIPES,SPR[(n+1)%5]},{"unclosed",TG_NATURAL,SPR[(n+2)%5],true}}; PairV w=brute(a.p,a.ring,b.p,b.ring); mc::state(i*3+2); if(!w.empty()) mc::nontrivial();
        for(int y=0;y<(k>3?2:1);y++){ Cfg cb=ca[y]; auto B=build_ring(b,cb); for(auto&c:ca){ auto A=build_ring(a,c); c08_pair(A,a,B,b,w,(c.name+","+cb.name).c_str(),w.size()<=12); if(a.ring==b.ring&&n<100){ PairV v; for(auto&x:w) v.push_back({x[1],x[0]}); sort(v.begin(),v.end()); c08_pair(B,b,A,a,v,(cb.name+","+c.name).c_str(),false); } tg_ring_free(A); } tg_ring_free(B); } },
        [=](uint64_t i){ uint64_t j=i/5; return to_string(sz(j))+" vertices, profile "+to_string(j%4)+(j/4%2?" standing":"")+(j/8%2?" ring":" line")+", cutter "+to_string(i%5); },4); }
}
// ---- C09
struct NN { P q; int fn; int more; bool useq; vector<double> want; vector<pair<double,int>> got; long stop; const tg_ring*r; map<string,int> seen; bool bad; long calls; };
static double dfun(int fn,P q,tg_rect r){ double dx=max(0.0,max(r.min.x-q.x,q.x-r.max.x)),dy=max(0.0,max(r.min.y-q.y,q.y-r.max.y)); switch(fn){ case 0: return dx*dx+dy*dy; case 1: return dx+dy; case 2: return r.min.x; case 3: return 0; case 4: return -r.max.y; default: return dx>dy?dx:dy; } }
static tg_rect srect(tg_segment s){ return {{min(s.a.x,s.b.x),min(s.a.y,s.b.y)},{max(s.a.x,s.b.x),max(s.a.y,s.b.y)}}; }
static double d_rect(tg_rect r,int*more,void*u){ NN*n=(NN*)u; n->calls++; double d=dfun(n->fn,n->q,r); if(n->more&2){ if(!*more){ *more=1; return d-3; } if(*more==1&&(n->more&4)){ *more=2; return d-1; } *more=0; } return d; }
static double d_seg(tg_segment s,int*more,void*u){ NN*n=(NN*)u; n->calls++; double d=dfun(n->fn,n->q,srect(s)); if(n->more&1){ if(!*more){ *more=1; return d-2; } if(*more==1&&(n->more&4)){ *more=2; return d-1; } *more=0; } return d; }
static bool d_it(tg_segment s,double d,int ix,void*u){ NN*n=(NN*)u; n->got.push_back({d,ix}); tg_segment x=tg_ring_segment_at(n->r,ix); if(memcmp(&x,&s,sizeof x)) n->bad=true; return (long)n->got.size()!=n->stop; }
static void c09_one(const tg_ring*r,bool ring,P q,int fn,int more,bool userect,long stop,const char*cn){
    NN n; n.q=q; n.fn=fn; n.more=more; n.stop=stop; n.r=r; n.bad=false; n.calls=0; int N=tg_ring_num_segments(r); mc::trans();
    bool ok=ring?tg_ring_nearest_segment(r,userect?d_rect:nullptr,d_seg,d_it,&n):tg_line_nearest_segment((const tg_line*)r,userect?d_rect:nullptr,d_seg,d_it,&n);
    if(!ok) mc::fail("result","%s: reports failure with memory available",cn);
    long want=stop>0&&stop<N?stop:N; if((long)n.got.size()!=want){ mc::fail("count","%s: %zu of %ld segments were yielded",cn,n.got.size(),want); return; }
    vector<double> all(N); for(int i=0;i<N;i++) all[i]=dfun(fn,q,srect(tg_ring_segment_at(r,i))); vector<char> seen(N,0);
    for(size_t i=0;i<n.got.size();i++){ int ix=n.got[i].second; if(ix<0||ix>=N||seen[ix]){ mc::fail("once","%s: segment %d yielded twice or out of range",cn,ix); return; } seen[ix]=1; if(n.got[i].first!=all[ix]){ mc::fail("distance","%s: segment %d yielded with %g, its distance is %g",cn,ix,n.got[i].first,all[ix]); return; } if(i&&n.got[i].first<n.got[i-1].first){ mc::fail("order","%s: %g after %g",cn,n.got[i].first,n.got[i-1].first); return; } }
    if(n.bad) mc::fail("segment","%s: the segment is not the one at its position",cn);
    sort(all.begin(),all.end()); for(size_t i=0;i<n.got.size();i++) if(n.got[i].first!=all[i]){ mc::fail("nearest","%s: number %zu has distance %g, the nearest left is %g",cn,i,n.got[i].first,all[i]); return; }
}
static void c09(bool T){
    auto S=new vector<Shape>; for(auto&s:large(T)) S->push_back(s); { auto v=smalls(T); int k=0; for(auto&s:v) if(k++%(T?2:9)==0) S->push_back(s); }
    vector<int> sizes={1,2,3,4,5,7,8,9,15,16,17,31,32,33,63,64,65,255,256,257,258,511,512,513,514,1023,1024,1025,1026,1279,1280,1281,1600,1601,2000,2001}; if(T) for(int n=34;n<63;n++) sizes.push_back(n); if(T) for(int n:{4096,5000,10000}) sizes.push_back(n);
    for(int n:sizes){ S->push_back({"sawline"+to_string(n),false,saw_line(n+1,5),{}}); if(n>=3){ Pts r=saw_line(n,5); S->push_back({"sawring"+to_string(n),true,r,{}}); } if(n>=3&&n<=300) S->push_back({"flatring"+to_string(n),true,flat_line(n),{}}); }
    vector<Cfg> all=cfgs(T); auto C=new vector<Cfg>(all); all.push_back({"x",TG_NATURAL,4096}); uint64_t nc=C->size(); 
    auto Q=new vector<P>{{0,0},{1,1},{-5,3},{4.5,2.25},{7,7},{16,-1},{100,2},{1000,3}}; uint64_t nq=Q->size();
    mc::space("shape*index*query*distance",S->size()*nc*nq*6,[=](uint64_t i){ int fn=i%6; P q=(*Q)[i/6%nq]; auto&c=(*C)[i/6/nq%nc]; auto&s=(*S)[i/6/nq/nc]; if(s.p.size()>300&&!T&&(i/6%nq)%3) return; auto r=build_ring(s,c); mc::state(i); mc::nontrivial();
        int N=tg_ring_num_segments(r); for(int more=0;more<8;more++) for(int ur=0;ur<2;ur++){ if(more==4||(!ur&&(more&2))) continue; if(N>600&&more&&more!=3) continue; c09_one(r,s.ring,q,fn,more,ur,0,c.name.c_str()); if(!more||more==7){ long st[]={1,2,3,N/2,N-1,N}; for(long k:st) if(k>0) c09_one(r,s.ring,q,fn,more,ur,k,c.name.c_str()); } }
        if(N<=12) for(long k=1;k<=N;k++) c09_one(r,s.ring,q,fn,7,true,k,c.name.c_str());
        tg_ring_free(r); },
      [=](uint64_t i){ P q=(*Q)[i/6/1%nq]; auto&s=(*S)[i/6/nq/nc]; char b[120]; snprintf(b,120," query %g %g distance %d index %s",q.x,q.y,(int)(i%6),(*C)[i/6/nq%nc].name.c_str()); return s.name+(s.p.size()<10?pstr(s.p):"")+b; },32);
    // every size
    { int hi=T?1400:700; static const int SPR[]={2,3,5,16,33}; mc::space("every size",(uint64_t)(hi+4)*6,[=](uint64_t i){ int n=i/6<4?(int[]){65537,65536,32769,4096}[i/6]:hi-(int)(i/6-4); bool ring=i%2; if(ring&&n<3) return; Shape s; s.ring=ring; s.p=i/2%3==0?saw_line(n+!ring,5):i/2%3==1?(n>=3?profile_ring(n,2,i%4>1):saw_line(n,3)):flat_line(n+!ring); if(!ring&&s.p.size()<2) return; Cfg ca[]={{"none",TG_NONE,16},{"natural",TG_NATURAL,SPR[n%5]},{"natural/16",TG_NATURAL,16},{"unclosed",TG_NATURAL,SPR[(n+2)%5],true}}; mc::state(i*7+1+0x5500000000ull); mc::nontrivial(); for(auto&c:ca){ auto r=build_ring(s,c); int N=tg_ring_num_segments(r); for(P q:{P{n*.4,1.25},P{-3,2}}) for(int fn:{0,5}) for(int m:{0,7}){ if(m&&fn) continue; c09_one(r,ring,q,fn,m,true,0,c.name.c_str()); if(!m) for(long k:{1l,(long)N/2}) if(k>0) c09_one(r,ring,q,fn,m,true,k,c.name.c_str()); } c09_one(r,ring,{1,1},1,0,false,0,c.name.c_str()); tg_ring_free(r); } },
        [=](uint64_t i){ return to_string(i/6<4?(int[]){65537,65536,32769,4096}[i/6]:hi-(int)(i/6-4))+" vertices, shape "+to_string(i/2%3)+(i%2?" ring":" line"); },2); }
}
// ---- C10
extern "C" { int tg_geom_multi_index_spread(const tg_geom*); int tg_geom_multi_index_num_levels(const tg_geom*); int tg_geom_multi_index_level_num_rects(const tg_geom*,int); tg_rect tg_geom_multi_index_level_rect(const tg_geom*,int,int); }
static void c10(bool T){
    vector<int> sp; for(int s=2;s<=(T?40:18);s++) sp.push_back(s); for(int s:{31,32,33,63,64,100,255,256,1000,4095,4096}) if(s>sp.back()) sp.push_back(s);
    int NM=T?1200:200; vector<int> ns; for(int n=0;n<=NM;n++) ns.push_back(n); for(int n:{255,256,257,511,512,513,1023,1024,1025,4095,4096,4097,8191,8192,8193,20000,32769,65535,65536,65537}) if(n>NM) ns.push_back(n);
    auto N=new vector<int>(ns); auto SP=new vector<int>(sp); struct Gen { string name; function<P(int)> f; }; auto G=new vector<Gen>;
    G->push_back({"saw",[](int i){ return P{(double)i,(double)(i%7)}; }}); G->push_back({"random-looking",[](int i){ uint64_t h=mc::hash(&i,4); return P{(double)(int)(h&0xffff)-30000+0.1,(double)(int)(h>>16&0xffff)*0.001-20}; }});
    auto chk=[=](const tg_ring*r,bool ring,int n,int s,const char*){ 
        int nseg=tg_ring_num_segments(r); int L=ring?tg_ring_index_num_levels(r):tg_line_index_num_levels((const tg_line*)r); int spr=ring?tg_ring_index_spread(r):tg_line_index_spread((const tg_line*)r); mc::trans();
        bool want=n>=2*s; vector<long> cnt; if(want){ long k=nseg; for(;;){ k=(k+s-1)/s; if(k<=1) break; cnt.insert(cnt.begin(),k); } }
        // counts: each level groups s of the level below, the first level has more than one rect
        if(want&&spr!=s) mc::fail("spread","spread is %d, %d was set (%d points)",spr,s,n); if(!want&&(spr||L)) mc::fail("spread","%d points have an index with spread %d",n,spr); if(!want) return;
        if(L!=(int)cnt.size()){ mc::fail("levels","%d levels, %zu expected for %d segments and spread %d",L,cnt.size(),nseg,s); return; }
        auto lr=[&](int l,int i){ return ring?tg_ring_index_level_rect(r,l,i):tg_line_index_level_rect((const tg_line*)r,l,i); }; auto nr=[&](int l){ return ring?tg_ring_index_level_num_rects(r,l):tg_line_index_level_num_rects((const tg_line*)r,l); };
        auto in=[](tg_rect o,tg_rect i){ return o.min.x<=i.min.x&&o.min.y<=i.min.y&&o.max.x>=i.max.x&&o.max.y>=i.max.y; };
        for(int l=0;l<L;l++){ int k=nr(l); if(k!=cnt[l]){ mc::fail("level size","level %d has %d rects, %ld expected",l,k,cnt[l]); return; } int below=l+1<L?cnt[l+1]:nseg;
            for(int i=0;i<k;i++){ tg_rect o=lr(l,i); for(int j=i*s;j<min((i+1)*s,below);j++){ tg_rect x=l+1<L?lr(l+1,j):srect(tg_ring_segment_at(r,j)); if(!in(o,x)){ mc::fail("enclose","level %d rect %d [%.17g %.17g %.17g %.17g] leaves out %s %d [%.17g %.17g %.17g %.17g]",l,i,o.min.x,o.min.y,o.max.x,o.max.y,l+1<L?"rect":"segment",j,x.min.x,x.min.y,x.max.x,x.max.y); return; } } }
            tg_rect z={}; for(int b:{-1,k,k+1,INT_MAX,INT_MIN}) { tg_rect q=lr(l,b); if(memcmp(&q,&z,sizeof z)) mc::fail("range","level %d rect %d is not empty",l,b); } }
        for(int b:{-1,L,L+1,INT_MAX,INT_MIN}){ if(nr(b)) mc::fail("range","level %d has rects",b); tg_rect q=lr(b,0),z={}; if(memcmp(&q,&z,sizeof z)) mc::fail("range","level %d rect is not empty",b); } };
    uint64_t nn=ns.size(),nsp=sp.size();
    for(size_t g=0;g<G->size();g++) for(int ring=0;ring<2;ring++) mc::space("sizes/"+(*G)[g].name+(ring?"/ring":"/line"),nn*nsp,[=](uint64_t i){ int n=(*N)[i/nsp],s=(*SP)[i%nsp]; Pts p; for(int k=0;k<n;k++) p.push_back((*G)[g].f(k)); tg_env_set_index_spread(s); mc::state(i*4+g*2+ring);
        for(int cl=0;cl<(ring&&n>2?2:1);cl++){ if(cl) p.back()=p[0]; tg_ring*r=ring?tg_ring_new_ix(tp(p),n,TG_NATURAL):(tg_ring*)tg_line_new_ix(tp(p),n,TG_NATURAL); if(n>=2*s) mc::nontrivial(); chk(r,ring,n,s,""); tg_ring_free(r); if(ring){ r=tg_ring_new_ix(tp(p),n,TG_YSTRIPES); chk(r,ring,n,s,""); auto c=tg_ring_copy(r); tg_ring_free(r); chk(c,ring,n,s,""); tg_ring_free(c); r=tg_ring_new_ix(tp(p),n,TG_NONE); if(tg_ring_index_num_levels(r)||tg_ring_index_spread(r)) mc::fail("none","an index with TG_NONE"); tg_ring_free(r); } } tg_env_set_index_spread(16); },
        [=](uint64_t i){ return to_string((*N)[i/nsp])+" points, spread "+to_string((*SP)[i%nsp]); },16);
    // the index over the children of a collection: 32 children to a rectangle, from 64 children on
    { auto rects=[](const tg_geom*g,int l){ vector<tg_rect> v; int k=tg_geom_multi_index_level_num_rects(g,l); for(int i=0;i<k;i++) v.push_back(tg_geom_multi_index_level_rect(g,l,i)); return v; };
      auto within=[](const vector<tg_rect>&o,tg_rect i){ for(auto&r:o) if(r.min.x<=i.min.x&&r.min.y<=i.min.y&&r.max.x>=i.max.x&&r.max.y>=i.max.y) return true; return false; };
      auto kids=[=](const tg_geom*g,const char*w){ int n=tg_geom_typeof(g)==TG_MULTIPOINT?tg_geom_num_points(g):tg_geom_typeof(g)==TG_MULTILINESTRING?tg_geom_num_lines(g):tg_geom_typeof(g)==TG_MULTIPOLYGON?tg_geom_num_polys(g):tg_geom_num_geometries(g); int L=tg_geom_multi_index_num_levels(g),S=tg_geom_multi_index_spread(g); mc::trans(); if(n<64){ if(L||S||tg_geom_multi_index_level_num_rects(g,0)) mc::fail("children","%s: an index over %d children",w,n); return; }
        vector<long> cnt; for(long k=n;;){ k=(k+S-1)/max(S,2); if(k<=1) break; cnt.insert(cnt.begin(),k); } if(S<2||L!=(int)cnt.size()){ mc::fail("children","%s: %d levels with spread %d over %d children",w,L,S,n); return; }
        tg_rect z={}; for(int b:{-1,L,L+1,INT_MAX,INT_MIN}){ tg_rect q=tg_geom_multi_index_level_rect(g,b,0); if(tg_geom_multi_index_level_num_rects(g,b)||memcmp(&q,&z,sizeof z)) mc::fail("children","%s: level %d of %d has rects",w,b,L); }
        vector<tg_rect> up; for(int l=0;l<=L;l++){ vector<tg_rect> cur; if(l<L){ cur=rects(g,l); if((long)cur.size()!=cnt[l]){ mc::fail("children","%s: level %d has %zu rects, %ld expected",w,l,cur.size(),cnt[l]); return; } for(int b:{-1,(int)cur.size(),INT_MAX,INT_MIN}){ tg_rect q=tg_geom_multi_index_level_rect(g,l,b); if(memcmp(&q,&z,sizeof z)) mc::fail("children","%s: level %d rect %d is not empty",w,l,b); } } else for(int k=0;k<n;k++){ auto t=tg_geom_typeof(g); tg_rect r; if(t==TG_MULTIPOINT){ tg_point p=tg_geom_point_at(g,k); r={p,p}; } else if(t==TG_MULTILINESTRING) r=tg_line_rect(tg_geom_line_at(g,k)); else if(t==TG_MULTIPOLYGON) r=tg_poly_rect(tg_geom_poly_at(g,k)); else r=tg_geom_rect(tg_geom_geometry_at(g,k)); cur.push_back(r); }
          if(l) for(size_t k=0;k<cur.size();k++) if(!within(up,cur[k])){ mc::fail("children","%s: %s %zu of level %d [%.17g %.17g %.17g %.17g] is in no rectangle of the level above",w,l<L?"rect":"child",k,l,cur[k].min.x,cur[k].min.y,cur[k].max.x,cur[k].max.y); return; } up=cur; } };
      vector<int> ks; for(int n=0;n<=(T?3000:400);n++) ks.push_back(n); for(int n:{511,512,513,1023,1024,1025,1026,1056,1057,2047,2048,2049,4096,32768,32769,33000}) if(n>ks.back()) ks.push_back(n); auto K=new vector<int>(ks); static const char*W[]={"points","lines","boxes","mixed with empty"};
      mc::space("children",ks.size()*4*5,[=](uint64_t i){ int n=(*K)[i/20],kind=i%4,lay=i/4%5; if(n>5000&&kind) return; mc::state(i+0x79000000000ull); if(n>=64) mc::nontrivial(); auto at=[&](int k)->P{ uint64_t h=mc::hash(&k,4); switch(lay){ case 0: return {(double)(k%17),(double)(k/17)}; case 1: return {k*.1,0}; case 2: return {(double)(int)(h&0xffff)*1e-3-30,(double)(int)(h>>16&0xffff)*1e3+.1}; case 3: return {1e300*(k%3-1)+k,0x1p-1060*(k%5)}; default: return {16777217,-.3}; } }; double e=lay==3?1e299:.7; vector<tg_geom*> v; vector<tg_point> ps; vector<tg_line*> ls; vector<tg_poly*> pl; tg_geom*g=nullptr;
        for(int k=0;k<n;k++){ P p=at(k); int t=kind==3?k%4:kind; tg_point c[5]={{p.x,p.y},{p.x+e,p.y},{p.x+e,p.y+e},{p.x,p.y+e},{p.x,p.y}}; if(kind==0) ps.push_back(tg_point{p.x,p.y}); else if(kind==1) ls.push_back(tg_line_new(c+k%2,3)); else if(kind==2){ auto r=tg_ring_new(c,5); pl.push_back(tg_poly_new(r,0,0)); tg_ring_free(r); } else if(t==0) v.push_back(tg_geom_new_point(tg_point{p.x,p.y})); else if(t==1){ auto l=tg_line_new(c,2); v.push_back(tg_geom_new_linestring(l)); tg_line_free(l); } else if(t==2) v.push_back(k%8<4?tg_geom_new_point_empty():tg_geom_new_multipoint(c,0)); else v.push_back(tg_geom_new_multipoint(c,4)); }
        g=kind==0?tg_geom_new_multipoint(ps.data(),n):kind==1?tg_geom_new_multilinestring(ls.data(),n):kind==2?tg_geom_new_multipolygon(pl.data(),n):tg_geom_new_geometrycollection(v.data(),n); kids(g,"made"); auto c=tg_geom_copy(g); kids(c,"copied"); tg_geom_free(c); for(auto x:v) tg_geom_free(x); for(auto x:ls) tg_line_free(x); for(auto x:pl) tg_poly_free(x); tg_geom_free(g); },
        [=](uint64_t i){ return to_string((*K)[i/20])+" "+W[i%4]+", layout "+to_string(i/4%5); },8); }
    // coordinates of every magnitude
    auto V=new vector<double>; for(int e=-1074;e<=1023;e+=(T?1:3)) for(double m:{1.0,1.1,1.9999999999,1.0000000001}) { double v=ldexp(m,e); if(isfinite(v)) V->push_back(v); } V->push_back(DBL_MAX); V->push_back(FLT_MAX); V->push_back(nextafter(FLT_MAX,1e39)); V->push_back(FLT_MIN); V->push_back(0x1p-149); V->push_back(0x1p-150); V->push_back(16777217); V->push_back(0);
    auto D=new vector<function<P(double,int)>>; D->push_back([](double v,int i){ return P{v,i%2?v:-v}; }); D->push_back([](double v,int i){ return P{v*(1+i*0x1p-52),-v*(1+i*0x1p-50)}; }); D->push_back([](double v,int i){ return P{i%3?0:v,i%5?-v:0}; }); D->push_back([](double v,int i){ double w=v; for(int k=0;k<i%4;k++) w=nextafter(w,i&4?INFINITY:-INFINITY); if(!isfinite(w)) w=v; return P{w,i%2?-w:w}; }); D->push_back([](double v,int i){ return P{v>1e300?v:v+i,v>1e300?-v:-v-i*0.1}; });
    uint64_t nv=V->size(); mc::space("magnitudes",nv*D->size(),[=](uint64_t i){ double v=(*V)[i%nv]; auto&f=(*D)[i/nv]; mc::state(i+0x77000000000ull); mc::nontrivial(); for(int n:{33,70}) for(int s:{2,16}){ Pts p; for(int k=0;k<n;k++){ P q=f(v,k); if(!isfinite(q.x)||!isfinite(q.y)) q={v,v}; p.push_back(q); } tg_env_set_index_spread(s); tg_ring*r=tg_ring_new_ix(tp(p),n,TG_NATURAL); chk(r,true,n,s,""); tg_ring_free(r); r=(tg_ring*)tg_line_new_ix(tp(p),n,TG_NATURAL); chk(r,false,n,s,""); tg_ring_free(r); tg_env_set_index_spread(16); } },
        [=](uint64_t i){ char b[64]; snprintf(b,64,"coordinates around %a, pattern %d",(*V)[i%nv],(int)(i/nv)); return string(b); },64);
}
int main(int argc,char**argv){
    mc::init(argc,argv); MURKY(); bool T=mc::thorough();
    if(mc::prop=="C06") c06(T); if(mc::prop=="C08") c08(T); if(mc::prop=="C09") c09(T); if(mc::prop=="C10") c10(T);
    return mc::finish();
}
