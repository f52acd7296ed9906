// C15 histories of sharing and freeing, C16 copies, C18 failing allocations, C33 memory sizes.
#include "sig.hpp"
#include "cat.hpp"
#include "alloc.hpp"
#include "gfam.hpp"
#include <set>
using namespace std;
extern "C" void tg_geom_setnoheap(tg_geom*);
// ---- C15: every history up to a depth over up to 4 handles, against a model of owners
enum { T_RING, T_LINE, T_POLY, T_GEOM };
struct Node { long allocs; vector<int> kids; int refs; };
struct Handle { int type=-1; void*p=nullptr; int node=-1; string sg; };
struct World { vector<Node> nodes; Handle h[4]; bool custom; };
static string hsig(const Handle&h){ SigOpt q; string o; if(h.type==T_RING) sig_ring(o,(tg_ring*)h.p,q); else if(h.type==T_LINE) sig_line(o,(tg_line*)h.p,q); else if(h.type==T_POLY) sig_poly(o,(tg_poly*)h.p,q); else sig_geom(o,(tg_geom*)h.p,q); return o; }
static void hfree(Handle&h){ if(h.type==T_RING) tg_ring_free((tg_ring*)h.p); else if(h.type==T_LINE) tg_line_free((tg_line*)h.p); else if(h.type==T_POLY) tg_poly_free((tg_poly*)h.p); else tg_geom_free((tg_geom*)h.p); h.type=-1; h.p=nullptr; }
// releases one owner of a node, returns the blocks that die with it
static long drop(World&w,int n){ if(--w.nodes[n].refs>0) return 0; long a=w.nodes[n].allocs; for(int k:w.nodes[n].kids) a+=drop(w,k); return a; }
static int NOPS=9+4*5+6;
static const char*PARSE15[]={"{\"type\":\"Feature\",\"id\":1,\"geometry\":{\"type\":\"Polygon\",\"coordinates\":[[[0,0,1],[4,0,2],[4,4,3],[0,0,1]],[[1,0.5,9],[2,0.5,9],[2,1,9],[1,0.5,9]]]},\"properties\":{\"a\":1}}","{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":{\"type\":\"MultiPoint\",\"coordinates\":[[1,2],[3,4]]},\"properties\":{\"a\":1}},{\"type\":\"Feature\",\"geometry\":null,\"properties\":null}],\"name\":\"n\"}"};
static string opname(int op){ static const char*c[]={"new ring","new indexed ring","new line","parse a feature with a polygon with a hole and z","new error","new empty polygon","parse a feature collection","new multipoint of 70","new point z"}; if(op<9) return c[op]; op-=9; if(op<20){ static const char*o[]={"clone","copy","free","take a part of","wrap"}; return string(o[op%5])+" #"+to_string(op/5); } op-=20; static int A[]={0,0,0,1,1,2},B[]={1,2,3,2,3,3}; return "combine #"+to_string(A[op])+" and #"+to_string(B[op]); }
// applies op; returns false when it does not apply here
static bool apply(World&w,int op){
    int slot=-1; for(int i=0;i<4;i++) if(w.h[i].type<0){ slot=i; break; }
    auto put=[&](int type,void*p,long before,vector<int> kids,int same){ Handle&h=w.h[slot]; h.type=type; h.p=p; long d=al::live-before; if(same>=0&&w.custom&&d!=0) mc::fail("clone allocates","%ld blocks",d); if(same>=0){ h.node=same; w.nodes[same].refs++; } else { for(int k:kids) w.nodes[k].refs++; w.nodes.push_back({d,kids,1}); h.node=w.nodes.size()-1; } if(!p){ mc::fail("missing result","no object"); h.type=-1; return; } h.sg=hsig(h); };
    long b=al::live;
    if(op<9){ if(slot<0) return false; switch(op){ case 0: put(T_RING,cat_ring(1,TG_NONE),b,{},-1); break; case 1: put(T_RING,cat_ring(2,TG_YSTRIPES),b,{},-1); break; case 2: put(T_LINE,cat_line(40,TG_NATURAL),b,{},-1); break; case 3: put(T_GEOM,tg_parse_geojson(PARSE15[0]),b,{},-1); break; case 4: put(T_GEOM,tg_geom_new_error("gone"),b,{},-1); break; case 5: put(T_GEOM,tg_geom_new_polygon_empty(),b,{},-1); break; case 6: put(T_GEOM,tg_parse_geojson(PARSE15[1]),b,{},-1); break; case 7: { Pts p=saw_line(70,3); put(T_GEOM,tg_geom_new_multipoint(tp(p),70),b,{},-1); break; } case 8: put(T_GEOM,tg_geom_new_point_z({1,2},3),b,{},-1); break; } return true; }
    op-=9;
    if(op<20){ Handle&h=w.h[op/5]; if(h.type<0) return false; int k=op%5;
        if(k==2){ long exp=drop(w,h.node); hfree(h); if(w.custom&&b-al::live!=exp) mc::fail("blocks released","%ld blocks released, %ld have no owner left",b-al::live,exp); return true; }
        if(slot<0) return false; Handle s=h;
        if(k==0){ void*p=s.type==T_RING?(void*)tg_ring_clone((tg_ring*)s.p):s.type==T_LINE?(void*)tg_line_clone((tg_line*)s.p):s.type==T_POLY?(void*)tg_poly_clone((tg_poly*)s.p):(void*)tg_geom_clone((tg_geom*)s.p); put(s.type,p,b,{},s.node); return true; }
        if(k==1){ void*p=s.type==T_RING?(void*)tg_ring_copy((tg_ring*)s.p):s.type==T_LINE?(void*)tg_line_copy((tg_line*)s.p):s.type==T_POLY?(void*)tg_poly_copy((tg_poly*)s.p):(void*)tg_geom_copy((tg_geom*)s.p); put(s.type,p,b,{},-1); if(w.h[slot].sg!=s.sg) mc::fail("copy","the copy differs from its original"); return true; }
        if(k==3){ // a clone of a part found through an accessor becomes a handle of its own: the part lives as long as any owner
            void*p=nullptr; int t=-1; auto g=(tg_geom*)s.p; if(s.type==T_POLY){ t=T_RING; p=tg_ring_clone(tg_poly_num_holes((tg_poly*)s.p)?tg_poly_hole_at((tg_poly*)s.p,0):tg_poly_exterior((tg_poly*)s.p)); } else if(s.type==T_GEOM){ if(tg_geom_poly(g)){ t=T_POLY; p=tg_poly_clone(tg_geom_poly(g)); } else if(tg_geom_line(g)){ t=T_LINE; p=tg_line_clone(tg_geom_line(g)); } else if(tg_geom_num_geometries(g)){ t=T_GEOM; p=tg_geom_clone(tg_geom_geometry_at(g,tg_geom_num_geometries(g)-1)); } else if(tg_geom_num_lines(g)){ t=T_LINE; p=tg_line_clone(tg_geom_line_at(g,0)); } else if(tg_geom_num_polys(g)){ t=T_POLY; p=tg_poly_clone(tg_geom_poly_at(g,0)); } }
            if(t<0) return false;
            // who owns that part in the model is not tracked exactly: from here on only the totals at the end are compared
            w.custom=false; put(t,p,b,{},-1); return true; }
        if(k==4){ if(s.type==T_RING){ tg_poly*p=tg_poly_new((tg_ring*)s.p,nullptr,0); put(T_POLY,p,b,{s.node},-1); } else if(s.type==T_LINE){ put(T_GEOM,tg_geom_new_linestring((tg_line*)s.p),b,{s.node},-1); } else if(s.type==T_POLY){ put(T_GEOM,tg_geom_new_polygon((tg_poly*)s.p),b,{s.node},-1); } else { if(tg_geom_error((tg_geom*)s.p)) return false; const tg_geom*v[]={(tg_geom*)s.p,(tg_geom*)s.p}; put(T_GEOM,tg_geom_new_geometrycollection(v,2),b,{s.node,s.node},-1); } return true; } }
    op-=20; static int A[]={0,0,0,1,1,2},B[]={1,2,3,2,3,3}; Handle x=w.h[A[op]],y=w.h[B[op]]; if(slot<0||x.type<0||y.type<0) return false;
    if(x.type==T_RING&&y.type==T_RING){ const tg_ring*hs[]={(tg_ring*)y.p,(tg_ring*)y.p}; put(T_POLY,tg_poly_new((tg_ring*)x.p,hs,2),b,{x.node,y.node,y.node},-1); }
    else if(x.type==T_LINE&&y.type==T_LINE){ const tg_line*v[]={(tg_line*)x.p,(tg_line*)y.p}; put(T_GEOM,tg_geom_new_multilinestring(v,2),b,{x.node,y.node},-1); }
    else if((x.type==T_POLY||x.type==T_RING)&&y.type==T_POLY){ const tg_poly*v[]={(tg_poly*)x.p,(tg_poly*)y.p,(tg_poly*)x.p}; double z[]={1,2}; put(T_GEOM,tg_geom_new_multipolygon_z(v,3,z,2),b,{x.node,y.node,x.node},-1); }
    else { if((x.type==T_GEOM&&tg_geom_error((tg_geom*)x.p))||(y.type==T_GEOM&&tg_geom_error((tg_geom*)y.p))) return false; const tg_geom*v[]={(tg_geom*)x.p,(tg_geom*)y.p}; put(T_GEOM,tg_geom_new_geometrycollection(v,2),b,{x.node,y.node},-1); }
    return true; }
static bool use_custom=true;
// runs a history; 1 fine, 0 some op does not apply
static bool history(const vector<int>&ops,bool last_only_counts){
    World w; w.custom=use_custom; long l0=al::live,b0=al::bytes; bool ok=true;
    for(size_t i=0;i<ops.size()&&ok;i++){ ok=apply(w,ops[i]); if(ok&&(!last_only_counts||i+1==ops.size())){ mc::trans(); for(int k=0;k<4;k++) if(w.h[k].type>=0&&hsig(w.h[k])!=w.h[k].sg) mc::fail("object changed","handle #%d reads differently after: %s",k,opname(ops[i]).c_str()); } }
    for(int k=0;k<4;k++) if(w.h[(k+ops.size())%4].type>=0){ Handle&h=w.h[(k+ops.size())%4]; long b=al::live,exp=drop(w,h.node); hfree(h); if(w.custom&&b-al::live!=exp) mc::fail("blocks released","at the end: %ld blocks released, %ld have no owner left",b-al::live,exp); if(ok) for(int j=0;j<4;j++) if(w.h[j].type>=0&&hsig(w.h[j])!=w.h[j].sg) mc::fail("object changed","handle #%d reads differently after another one was freed",j); }
    if(use_custom&&(al::live!=l0||al::bytes!=b0)) mc::fail("left over","%ld blocks, %ld bytes",al::live-l0,al::bytes-b0); return ok; }
static void dfs(vector<int>&ops,int depth){ if(!history(ops,true)) return; mc::state(mc::hash(ops.data(),ops.size()*sizeof(int))); if((int)ops.size()==depth){ mc::nontrivial(); return; } mc::alive(); for(int o=0;o<NOPS;o++){ ops.push_back(o); dfs(ops,depth); ops.pop_back(); } }
static string histname(const vector<int>&o){ string s; for(int x:o) s+=(s.empty()?"":"; ")+opname(x); return s; }
static void c15(bool T){
    int D=(T?5:4)-mc::small; uint64_t n=(uint64_t)9*NOPS*NOPS; auto pre=[](uint64_t i){ return vector<int>{(int)(i%9),(int)(i/9%NOPS),(int)(i/9/NOPS)}; };
    mc::space("histories",n,[=](uint64_t i){ use_custom=true; auto o=pre(i); dfs(o,D); },[=](uint64_t i){ return histname(pre(i))+"; then every continuation"; },4);
    // one object, longer histories of clone, copy, free, take and wrap
    { auto C=new vector<CItem>(catalogue(false)); uint64_t nc=C->size(); int L=(T?4:3)-mc::small; uint64_t per=1; for(int k=0;k<L;k++) per*=20;
      mc::space("histories of every kind of object",nc*20,[=](uint64_t i){ auto&it=(*C)[i/20]; uint64_t first=i%20; uint64_t cnt=1; for(int k=1;k<L;k++) cnt*=20; for(uint64_t r=0;r<cnt;r++){ vector<int> ops={(int)first}; uint64_t q=r; for(int k=1;k<L;k++){ ops.push_back(q%20); q/=20; } // skip what cannot apply: slots fill up in order
          int livecount=1; bool use[4]={true,false,false,false}; bool ok=true; for(int o:ops){ if(!use[o/5]){ ok=false; break; } if(o%5==2) use[o/5]=false; else { int s=0; while(s<4&&use[s]) s++; if(s==4){ ok=false; break; } use[s]=true; } } (void)livecount; if(!ok) continue; mc::alive();
          World w; w.custom=true; long l0=al::live,b0=al::bytes; tg_geom*g=it.make(); if(!g){ mc::fail("missing result","not made"); return; } w.h[0].type=T_GEOM; w.h[0].p=g; w.nodes.push_back({al::live-l0,{},1}); w.h[0].node=0; w.h[0].sg=hsig(w.h[0]); bool all=true; for(int o:ops){ if(!apply(w,9+o)){ all=false; break; } mc::trans(); for(int k=0;k<4;k++) if(w.h[k].type>=0&&hsig(w.h[k])!=w.h[k].sg) mc::fail("object changed","handle #%d reads differently after: %s",k,opname(9+o).c_str()); }
          for(int k=0;k<4;k++) if(w.h[k].type>=0){ hfree(w.h[k]); for(int j=0;j<4;j++) if(w.h[j].type>=0&&hsig(w.h[j])!=w.h[j].sg) mc::fail("object changed","handle #%d reads differently after another one was freed",j); } if(al::live!=l0||al::bytes!=b0){ string h; for(int o:ops) h+=opname(9+o)+"; "; mc::fail("left over","%ld blocks, %ld bytes after: %s",al::live-l0,al::bytes-b0,h.c_str()); } if(all){ mc::nontrivial(); mc::state(i*100003+r); } } },
        [=](uint64_t i){ return (*C)[i/20].name+"; then "+opname(9+i%20)+" and every continuation"; },1); }
}
static void every(bool T,const char*what,function<void(const CItem&,uint64_t)> run,function<string(uint64_t)> mode){
    // every number of positions, rings and parts, with each index; extra JSON of every length
    int hi=T?400:100; auto mk=[=](uint64_t i,CItem&it){ int kind=i%gf::NSIZED; i/=gf::NSIZED; int dm=i%4; i/=4; int src=i%4; i/=4; int n=i<3?(int[]){65537,32769,1025}[i]:(int)i-3; if(n>2000&&(dm||!(kind<3||kind==6||kind==9))) return false; ref::G g; if(src==3&&!n) return false; if(!gf::sized(kind,n,dm,n%3,g)) return false; static const tg_index IX[]={TG_NONE,TG_NATURAL,TG_YSTRIPES}; it.name=string(src==3?"built ":src==2?"y-striped ":src==1?"natural ":"plain ")+"kind "+to_string(kind)+" of size "+to_string(n)+" dims "+to_string(dm); string b; if(src<3) b=ref::wkb(g);
        it.inner=[=](){ if(src==3) return ref::totg(g); return tg_parse_wkb_ix((const uint8_t*)b.data(),b.size(),IX[src]); }; return true; };
    mc::space(string(what)+" of every size",(uint64_t)(hi+4)*16*gf::NSIZED,[=](uint64_t i){ CItem it; if(mk(i,it)) run(it,(i/gf::NSIZED+i/gf::NSIZED/4+i/gf::NSIZED/16)); },[=](uint64_t i){ CItem it; return mk(i,it)?it.name+": "+mode((i/gf::NSIZED+i/gf::NSIZED/4+i/gf::NSIZED/16)):string("none"); },16);
    int tl=T?2000:300; static const char*TX[]={"{\"type\":\"Point\",\"coordinates\":[1,2],\"a\":\"@\"}","{\"type\":\"Point\",\"coordinates\":[1,2,3],\"@\":1}","{\"type\":\"Feature\",\"id\":\"@\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"properties\":null}","{\"type\":\"Feature\",\"geometry\":{\"type\":\"LineString\",\"coordinates\":[[1,2],[3,4]],\"a\":\"@\"},\"properties\":{\"p\":\"@\"}}","{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":null,\"properties\":{\"@\":1}}],\"b\":\"@\"}","{\"type\":\"Polygon\",\"coordinates\":[],\"a\":\"@\"}"};
    auto tx=[=](uint64_t i){ string o; for(const char*c=TX[i%6];*c;c++) if(*c=='@') o+=string(i/6,'k'); else o+=*c; CItem it; it.name="extra JSON of length "+to_string(i/6)+" in "+TX[i%6]; it.inner=[o](){ return tg_parse_geojsonn(o.data(),o.size()); }; return it; };
    mc::space(string(what)+" of extra JSON of every length",(uint64_t)6*(tl+1),[=](uint64_t i){ auto it=tx(i); run(it,i/6); },[=](uint64_t i){ return tx(i).name+": "+mode(i/6); },16);
}
// ---- C16
struct CB { string*o; const tg_geom*g; SigOpt q; };
static bool searchsig(const tg_geom*c,int i,void*u){ CB*b=(CB*)u; sv(*b->o,i); SigOpt q; sig_geom(*b->o,c,q,1); return true; }
static double rd(tg_rect r,int*,void*){ double x=max(max(r.min.x-1.0,1.0-r.max.x),0.0),y=max(max(r.min.y-2.0,2.0-r.max.y),0.0); return x*x+y*y; }
static double sd(tg_segment s,int*m,void*u){ return rd(tg_segment_rect(s),m,u); }
static bool ns(tg_segment s,double d,int i,void*u){ string*o=(string*)u; sv(*o,i); sv(*o,d); return o->size()<4000; }
static string behave(const tg_geom*g,const vector<tg_geom*>&U){ string o=sig(g); CB b{&o,g}; tg_rect qs[]={{{-1e9,-1e9},{1e9,1e9}},{{1,1},{5,5}},{{0,0},{0,0}}}; for(auto&r:qs){ o+="search"; tg_geom_search(g,r,searchsig,&b); sv(o,(char)tg_geom_intersects_rect(g,r)); } o+="near"; if(tg_geom_line(g)) tg_line_nearest_segment(tg_geom_line(g),rd,sd,ns,&o); if(tg_geom_poly(g)&&tg_poly_exterior(tg_geom_poly(g))) tg_ring_nearest_segment(tg_poly_exterior(tg_geom_poly(g)),rd,sd,ns,&o); o+="rel"; for(auto u:U){ char m=tg_geom_intersects(g,u)|tg_geom_covers(g,u)<<1|tg_geom_contains(g,u)<<2|tg_geom_touches(g,u)<<3|tg_geom_covers(u,g)<<4|tg_geom_equals(u,g)<<5|tg_geom_contains(u,g)<<6; o+=m; } for(int x=0;x<10;x++) o+=tg_geom_intersects_xy(g,x*.5,x)?'1':'0'; return o; }
static void independent(const tg_geom*c,const vector<pair<char*,size_t>>&A){ memory_of(c,[&](const void*p,const char*what){ for(auto&a:A) if((char*)p>=a.first&&(char*)p<=a.first+a.second) return; mc::fail("shares memory","the %s of the copy is not memory of its own",what); }); }
static void c16(bool T){
    auto C=new vector<CItem>(catalogue(true)); auto U=new vector<tg_geom*>{tg_geom_new_point({1,1}),(tg_geom*)cat_line(20,TG_NATURAL),(tg_geom*)cat_ring(1,TG_YSTRIPES),(tg_geom*)cat_ring(2,TG_NATURAL),tg_parse_wkt("GEOMETRYCOLLECTION(POINT(3 3),POLYGON((0 0,9 0,9 9,0 0)))")};
    static const char*order[]={"original freed first","copy freed first","copy of a copy, both originals freed","copy of a clone, freed in between","copies of the parts","a twin outside the heap"};
    auto run=[=](const CItem&it,int mode){ long l0=al::live; al::pat=0xA5; al::rec.clear(); al::recording=mode==5; tg_geom*g=it.make(); al::recording=false; if(!g){ mc::fail("missing result","not made"); return; } string S=behave(g,*U); mc::state(mc::hash(S)+mode); mc::nontrivial(); mc::trans(); if(tg_geom_extra_json(g)||tg_geom_num_extra_coords(g)) mc::count("copied extras");
        auto cp=[&](const tg_geom*x){ al::rec.clear(); al::recording=true; al::pat=0x5A; tg_geom*c=tg_geom_copy(x); al::recording=false; al::pat=0xA5; if(!c) { mc::fail("missing result","no copy"); return c; } independent(c,al::rec); string s=behave(c,*U); if(s!=S) mc::fail("copy differs","the copy answers differently, first at byte %d of %zu",diffat(s,S),S.size()); return c; };
        if(mode==0){ auto c=cp(g); tg_geom_free(g); if(c&&behave(c,*U)!=S) mc::fail("copy changed","after its original was freed"); tg_geom_free(c); }
        else if(mode==1){ auto c=cp(g); tg_geom_free(c); if(behave(g,*U)!=S) mc::fail("original changed","after its copy was freed"); tg_geom_free(g); }
        else if(mode==2){ auto c=cp(g); tg_geom_free(g); if(c){ auto d=cp(c); tg_geom_free(c); if(d&&behave(d,*U)!=S) mc::fail("copy changed","after its originals were freed"); tg_geom_free(d); } }
        else if(mode==3){ tg_geom*k=tg_geom_clone(g); tg_geom_free(g); auto c=cp(k); tg_geom_free(k); if(c&&behave(c,*U)!=S) mc::fail("copy changed","after its original was freed"); tg_geom_free(c); }
        else if(mode==5&&((void*)tg_geom_line(g)==g||(void*)tg_geom_poly(g)==g)) tg_geom_free(g); // lines and polygons point into themselves: they cannot be moved
        else if(mode==5){ // the head of the object laid elsewhere and marked as not from the heap: sharing it makes a copy, freeing it does nothing
            size_t n=0; for(auto&a:al::rec) if(a.first==(char*)g) n=a.second; if(!n){ mc::fail("no block","the object is not at the start of a block"); tg_geom_free(g); return; } vector<uint64_t> twin((n+7)/8); memcpy(twin.data(),g,n); tg_geom*t=(tg_geom*)twin.data(); tg_geom_setnoheap(t); long l1=al::live; if(behave(t,*U)!=S) mc::fail("twin differs","from its original"); tg_geom_free(t); tg_geom_free(t); if(al::live!=l1||behave(t,*U)!=S||behave(g,*U)!=S) mc::fail("twin freed","freeing it did something");
            al::rec.clear(); al::recording=true; al::pat=0x5A; tg_geom*c=tg_geom_clone(t); al::recording=false; if(!c) mc::fail("missing result","no clone of a twin"); else { if(c==t) mc::fail("shares memory","the clone of a twin is the twin"); independent(c,al::rec); if(behave(c,*U)!=S) mc::fail("copy differs","the clone of a twin answers differently"); }
            tg_geom*gc=tg_geom_new_geometrycollection(&t,1),*c2=tg_geom_copy(t); string G=behave(gc,*U); memset(twin.data(),0xEE,n); tg_geom_free(g); if(c&&behave(c,*U)!=S) mc::fail("copy changed","after the twin and its original were freed"); if(behave(c2,*U)!=S) mc::fail("copy changed","after the twin and its original were freed"); if(behave(gc,*U)!=G) mc::fail("original changed","a collection made of a twin, after the twin was freed"); tg_geom*d=tg_geom_clone(c); if(d!=c) mc::fail("clone differs","the clone of a clone of a twin is not shared"); tg_geom_free(c); if(behave(d,*U)!=S) mc::fail("copy changed","after the first owner was freed"); tg_geom_free(d); tg_geom_free(gc); tg_geom_free(c2); }
        else { // copies of lines, polygons and rings inside
            auto line=[&](const tg_line*l){ if(!l) return; string a,b; SigOpt q; sig_line(a,l,q); al::rec.clear(); al::recording=true; al::pat=0x5A; tg_line*c=tg_line_copy(l); al::recording=false; if(c) independent((tg_geom*)c,al::rec); sig_line(b,c,q); if(a!=b) mc::fail("line copy","differs"); tg_line_free(c); };
            auto ring=[&](const tg_ring*l){ if(!l) return; string a,b; SigOpt q; sig_ring(a,l,q); al::rec.clear(); al::recording=true; al::pat=0x5A; tg_ring*c=tg_ring_copy(l); al::recording=false; if(c) independent((tg_geom*)c,al::rec); sig_ring(b,c,q); if(a!=b) mc::fail("ring copy","differs"); if(behave((tg_geom*)l,*U)!=behave((tg_geom*)c,*U)) mc::fail("ring copy","answers differently"); tg_ring_free(c); };
            auto poly=[&](const tg_poly*l){ if(!l) return; string a,b; SigOpt q; sig_poly(a,l,q); al::rec.clear(); al::recording=true; al::pat=0x5A; tg_poly*c=tg_poly_copy(l); al::recording=false; if(c) independent((tg_geom*)c,al::rec); sig_poly(b,c,q); if(a!=b) mc::fail("polygon copy","differs"); if(behave((tg_geom*)l,*U)!=behave((tg_geom*)c,*U)) mc::fail("polygon copy","answers differently"); tg_poly_free(c); ring(tg_poly_exterior(l)); for(int k=0;k<tg_poly_num_holes(l);k++) ring(tg_poly_hole_at(l,k)); };
            line(tg_geom_line(g)); poly(tg_geom_poly(g)); int lim=T?2000:12; for(int k=0;k<tg_geom_num_lines(g)&&k<lim;k++) line(tg_geom_line_at(g,k)); for(int k=0;k<tg_geom_num_polys(g)&&k<lim;k++) poly(tg_geom_poly_at(g,k));
            struct X { int n,lim; } x{0,lim}; tg_geom_search(g,tg_geom_rect(g),[](const tg_geom*c,int,void*u){ X*x=(X*)u; string a=sig(c); tg_geom*d=tg_geom_copy(c); if(sig(d)!=a) mc::fail("copy of a child","differs"); tg_geom_free(d); d=tg_geom_clone(c); if(sig(d)!=a) mc::fail("clone of a child","differs"); tg_geom_free(d); return ++x->n<x->lim; },&x);
            if(behave(g,*U)!=S) mc::fail("original changed","after its parts were copied"); tg_geom_free(g); }
        al::pat=0xA5; if(al::live!=l0) mc::fail("left over","%ld blocks",al::live-l0); };
    mc::space("copies",C->size()*6,[=](uint64_t i){ run((*C)[i/6],i%6); },[=](uint64_t i){ return (*C)[i/6].name+": "+order[i%6]; },1);
    every(T,"copies",[=](const CItem&it,uint64_t k){ run(it,k%6); },[=](uint64_t k){ return string(order[k%6]); });
    mc::declare_counter("copied extras");
}
// ---- C33: the size an object reports is what it takes
static void c33(bool T){
    auto C=new vector<CItem>(catalogue(true));
    auto took=[](const char*n,size_t says,long before){ long t=al::bytes-before; mc::trans(); if((long)says!=t) mc::fail("memory size","%s says %zu bytes, a copy takes %ld",n,says,t); };
    auto ring=[=](const tg_ring*r){ if(!r) return; long b=al::bytes; tg_ring*c=tg_ring_copy(r); took("ring",tg_ring_memsize(r),b); took("copy of a ring",tg_ring_memsize(c),b); tg_ring_free(c); if(tg_ring_memsize(r)!=tg_geom_memsize((const tg_geom*)r)) mc::fail("memory size","a ring as a geometry"); };
    auto line=[=](const tg_line*r){ if(!r) return; long b=al::bytes; tg_line*c=tg_line_copy(r); took("line",tg_line_memsize(r),b); took("copy of a line",tg_line_memsize(c),b); tg_line_free(c); if(tg_line_memsize(r)!=tg_geom_memsize((const tg_geom*)r)) mc::fail("memory size","a line as a geometry"); };
    auto poly=[=](const tg_poly*r){ if(!r) return; long b=al::bytes; tg_poly*c=tg_poly_copy(r); took("polygon",tg_poly_memsize(r),b); took("copy of a polygon",tg_poly_memsize(c),b); tg_poly_free(c); if(tg_poly_memsize(r)!=tg_geom_memsize((const tg_geom*)r)) mc::fail("memory size","a polygon as a geometry");
        int h=tg_poly_num_holes(r); vector<const tg_ring*> hs; size_t parts=tg_ring_memsize(tg_poly_exterior(r)); for(int k=0;k<h;k++){ hs.push_back(tg_poly_hole_at(r,k)); parts+=tg_ring_memsize(hs[k]); } if(h<200||T){ ring(tg_poly_exterior(r)); for(auto x:hs) ring(x); } if(tg_poly_exterior(r)){ b=al::bytes; tg_poly*p=tg_poly_new(tg_poly_exterior(r),hs.data(),h); took("a polygon made of the rings, without them,",tg_poly_memsize(p)-parts,b); tg_poly_free(p); } };
    auto run=[=](const CItem&it,uint64_t){ long l0=al::live,b0=al::bytes; tg_geom*g=it.make(); if(!g){ mc::fail("missing result","not made"); return; } size_t says=tg_geom_memsize(g); mc::state(mc::hash(it.name)+says); mc::nontrivial();
        long b=al::bytes; tg_geom*c=tg_geom_copy(g); took("geometry",says,b); took("copy",tg_geom_memsize(c),b); tg_geom_free(c); if(al::bytes!=b) mc::fail("memory size","%ld bytes stay after the copy was freed",al::bytes-b); tg_geom*k=tg_geom_clone(g); if(al::bytes!=b||tg_geom_memsize(k)!=says) mc::fail("memory size","of a clone"); tg_geom_free(k);
        if(!tg_geom_error(g)){ const tg_geom*two[2]={g,g}; for(int n=1;n<=2;n++){ b=al::bytes; tg_geom*gc=tg_geom_new_geometrycollection(two,n); took("a collection of it, without it,",tg_geom_memsize(gc)-n*says,b); c=tg_geom_copy(gc); tg_geom_free(gc); took("a copy of a collection of it",tg_geom_memsize(c),b); tg_geom_free(c); } }
        line(tg_geom_line(g)); poly(tg_geom_poly(g)); int lim=T?2000:20; for(int q=0;q<tg_geom_num_lines(g)&&q<lim;q++) line(tg_geom_line_at(g,q)); for(int q=0;q<tg_geom_num_polys(g)&&q<lim;q++) poly(tg_geom_poly_at(g,q)); for(int q=0;q<tg_geom_num_geometries(g)&&q<lim;q++){ auto x=tg_geom_geometry_at(g,q); b=al::bytes; c=tg_geom_copy(x); took("child",tg_geom_memsize(x),b); tg_geom_free(c); }
        tg_geom_free(g); if(al::live!=l0||al::bytes!=b0) mc::fail("left over","%ld blocks, %ld bytes",al::live-l0,al::bytes-b0); };
    mc::space("sizes",C->size(),[=](uint64_t i){ run((*C)[i],0); },[=](uint64_t i){ return (*C)[i].name; },1);
    every(T,"sizes",run,[](uint64_t){ return string("memory size"); });
    // rings and lines made of every number of positions, with each index and spread
    int hi=T?2000:600; static const int SP[]={2,3,4,8,16,33,64}; mc::space("sizes of rings and lines",(uint64_t)hi*3*7,[=](uint64_t i){ int n=1+i/21; tg_env_set_index_spread(SP[i%7]); tg_index ix=(tg_index[]){TG_NONE,TG_NATURAL,TG_YSTRIPES}[i/7%3]; vector<tg_point> p(n); for(int k=0;k<n;k++){ double a=6.283185307179586*k/n; p[k]={floor(1000*cos(a)),floor(1000*sin(a))}; } if(n>1) p[n-1]=p[0]; mc::state(i); mc::nontrivial();
            for(int w=0;w<2;w++){ long b=al::bytes; tg_ring*r=w?(tg_ring*)tg_line_new_ix(p.data(),n,ix):tg_ring_new_ix(p.data(),n,ix); if(!r) continue; size_t says=w?tg_line_memsize((tg_line*)r):tg_ring_memsize(r); took(w?"line":"ring",says,b); if(w) line((tg_line*)r); else ring(r); tg_geom*g=w?tg_geom_new_linestring((tg_line*)r):tg_geom_new_polygon((tg_poly*)r); if(g&&!(n>2||w)) ; if(g&&tg_geom_memsize(g)<says) mc::fail("memory size","a geometry is smaller than its part"); tg_geom_free(g); if(w) tg_line_free((tg_line*)r); else tg_ring_free(r); if(al::bytes!=b) mc::fail("left over","%ld bytes",al::bytes-b); } tg_env_set_index_spread(16); },
        [](uint64_t i){ return to_string(1+i/21)+" positions, index "+to_string(i/7%3)+", spread "+to_string(SP[i%7]); },64);
    mc::space("size of nothing",1,[](uint64_t){ mc::trans(4); mc::state(1); mc::nontrivial(); if(tg_geom_memsize(nullptr)||tg_ring_memsize(nullptr)||tg_line_memsize(nullptr)||tg_poly_memsize(nullptr)) mc::fail("memory size","nothing takes memory"); },[](uint64_t){ return string("nothing"); });
}
// ---- C18: every operation, every failing allocation in it, once or for good
struct Op18 { string name; function<string(bool&)> run; }; // returns the observed result; sets missing when the documented failure was reported. frees what it made
static string take(tg_geom*g,bool&missing){ if(!g){ missing=true; return ""; } const char*e=tg_geom_error(g); string s=sig(g); (void)e; tg_geom_free(g); return s; }
static void c18(bool T){
    auto C=new vector<CItem>(catalogue(true)); auto ops=new vector<Op18>; auto keep=new vector<pair<tg_geom*,string>>;
    tg_env_set_allocator(al::mal,al::rea,al::fre);
    for(auto&it:*C){ const CItem*mk=&it;
        if(it.name.find("wkb of")==0||it.name.find("geojson of")==0||it.name.find("geobin of")==0) continue; // writers inside: added below as parse operations
        ops->push_back({"make "+it.name,[mk](bool&m){ return take(mk->make(),m); }}); }
    for(auto&it:*C){ tg_geom*g=it.make(); string S=sig(g); keep->push_back({g,S}); ops->push_back({"copy "+it.name,[g](bool&m){ return take(tg_geom_copy(g),m); }});
        if(tg_geom_error(g)) continue;
        bool str=it.name.find("wkb of")==0||it.name.find("geobin of")==0||it.name.find("geojson of")==0; bool small=S.size()<200000;
        if(small&&(str||it.name.find("wkt ")==0||it.name.find("geojson ")==0||it.name.find("multi")==0||it.name.find("ring ")==0||it.name.find("poly with")==0||it.name.find("collection")==0||it.name.find("line of")==0)){ string a=w_wkt(g),b=w_json(g),c=w_wkb(g),d=w_hex(g),e=w_geobin(g);
            ops->push_back({"parse the wkt of "+it.name,[a](bool&m){ return take(tg_parse_wktn(a.data(),a.size()),m); }}); ops->push_back({"parse the geojson of "+it.name,[b](bool&m){ return take(tg_parse_geojsonn_ix(b.data(),b.size(),TG_YSTRIPES),m); }}); ops->push_back({"parse the wkb of "+it.name,[c](bool&m){ return take(tg_parse_wkb((uint8_t*)c.data(),c.size()),m); }}); ops->push_back({"parse the hex of "+it.name,[d](bool&m){ return take(tg_parse_hexn(d.data(),d.size()),m); }}); ops->push_back({"parse the geobin of "+it.name,[e](bool&m){ return take(tg_parse_geobin_ix((uint8_t*)e.data(),e.size(),TG_YSTRIPES),m); }}); ops->push_back({"detect "+it.name,[e,d,c,b](bool&m){ bool x=false,y=false; string s=take(tg_parse(b.data(),b.size()),x)+take(tg_parse(d.data(),d.size()),y); m=x||y; return s; }}); }
        ops->push_back({"clone and wrap "+it.name,[g](bool&m){ const tg_geom*v[]={g,g,g}; return take(tg_geom_new_geometrycollection(v,3),m); }});
        ops->push_back({"relations and writers of "+it.name,[g](bool&m){ string s=sig(g); auto&k=g; s+=tg_geom_intersects(k,k)?'1':'0'; s+=tg_geom_covers(k,k)?'1':'0'; s+=tg_geom_contains(k,k)?'1':'0'; s+=tg_geom_touches(k,k)?'1':'0'; return s; }}); 
        if(tg_geom_line(g)) ops->push_back({"copy the line of "+it.name,[g](bool&m){ return take((tg_geom*)tg_line_copy(tg_geom_line(g)),m); }});
        if(auto p=tg_geom_poly(g)){ ops->push_back({"copy the polygon of "+it.name,[p](bool&m){ return take((tg_geom*)tg_poly_copy(p),m); }}); if(auto r=tg_poly_exterior(p)){ ops->push_back({"copy the ring of "+it.name,[r](bool&m){ return take((tg_geom*)tg_ring_copy(r),m); }}); ops->push_back({"new polygon from "+it.name,[r](bool&m){ const tg_ring*h[]={r,r}; return take((tg_geom*)tg_poly_new(r,h,2),m); }}); } } }
    { int hi=T?140:36; for(int n=0;n<=hi;n++) if(T||n<=10||n%16<=2||n%16==15) for(int kind=0;kind<gf::NSIZED;kind++){ ref::G g; int dm=(n+kind)%4; if(!gf::sized(kind,n,dm,n%3,g)) continue; string b=ref::wkb(g); tg_geom*t=tg_parse_wkb_ix((const uint8_t*)b.data(),b.size(),n%2?TG_NATURAL:TG_YSTRIPES); if(tg_geom_error(t)){ tg_geom_free(t); continue; } string nm="kind "+to_string(kind)+" of size "+to_string(n); string x=w_wkt(t),j=w_json(t),e=w_geobin(t); al::pat=0xA5;
        ops->push_back({"parse the wkb of "+nm,[b](bool&m){ return take(tg_parse_wkb((uint8_t*)b.data(),b.size()),m); }}); ops->push_back({"parse the wkt of "+nm,[x](bool&m){ return take(tg_parse_wktn(x.data(),x.size()),m); }}); ops->push_back({"parse the geojson of "+nm,[j](bool&m){ return take(tg_parse_geojsonn_ix(j.data(),j.size(),TG_YSTRIPES),m); }}); ops->push_back({"parse the geobin of "+nm,[e](bool&m){ return take(tg_parse_geobin_ix((uint8_t*)e.data(),e.size(),TG_YSTRIPES),m); }}); ops->push_back({"copy "+nm,[t](bool&m){ return take(tg_geom_copy(t),m); }}); } }
    for(int n:{100,255,256,257,600,3000}) for(int k=0;k<2;k++){ tg_line*l=cat_line(n,TG_NATURAL); ops->push_back({"nearest of "+to_string(n)+(k?" with rects":""),[l,k](bool&m){ string o; bool ok=tg_line_nearest_segment(l,k?rd:nullptr,sd,[](tg_segment s,double d,int i,void*u){ string*o=(string*)u; sv(*o,i); sv(*o,d); return true; },&o); if(!ok){ m=true; return string(); } return o; }}); }
    static const char*MODE[]={"one failure","failures from there on"};
    // the number of allocations of each operation, and its result
    struct Run { int op; long k; bool persist; }; auto R=new vector<Run>; auto W=new vector<string>; auto MISS=new vector<char>;
    for(size_t i=0;i<ops->size();i++){ al::fail_at=-1; al::reset(); bool m=false; W->push_back((*ops)[i].run(m)); MISS->push_back(m); long n=al::calls; long step=1; for(long k=0;k<n;k+=step){ R->push_back({(int)i,k,false}); R->push_back({(int)i,k,true}); if(!T&&n>400&&k>100&&k<n-60) step=n/200+1; else step=1; } }
    mc::space("requests of no bytes",ops->size(),[=](uint64_t i){ auto&op=(*ops)[i]; long l0=al::live; bool m=false; mc::trans(2); mc::state(i+0xFFFF00000000ull); al::nothing=true; al::nothings=0; string s=op.run(m); al::nothing=false; if(al::nothings) mc::nontrivial(); if(m!=(bool)(*MISS)[i]||s!=(*W)[i]) mc::fail("no bytes","the call gives another result when requests of no bytes get NULL"); if(al::live!=l0) mc::fail("leak","%ld blocks left",al::live-l0); },[=](uint64_t i){ return (*ops)[i].name+", requests of no bytes get NULL"; },16);
    mc::space("failing allocations",R->size(),[=](uint64_t i){ auto&r=(*R)[i]; auto&op=(*ops)[r.op]; long l0=al::live,b0=al::bytes; mc::trans(2); mc::state(i); bool m=false; al::reset(); al::fail_at=r.k; al::persist=r.persist; al::pat=0x5A; string s=op.run(m); al::fail_at=-1; al::pat=0xA5; if(al::failed) mc::nontrivial();
        if(al::live!=l0||al::bytes!=b0) mc::fail("leak","%ld blocks, %ld bytes left after the failure",al::live-l0,al::bytes-b0);
        if(!m&&s!=(*W)[r.op]) mc::fail("wrong result","the call reported success with another result (first difference at byte %d): %s",diffat(s,(*W)[r.op]),s.compare(0,7,"[error ")==0?s.c_str():"");
        al::reset(); m=false; s=op.run(m); if(m!=(bool)(*MISS)[r.op]||s!=(*W)[r.op]) mc::fail("after recovery","the same call gives another result once memory is back"); if(al::live!=l0) mc::fail("leak","%ld blocks left after recovery",al::live-l0);
        if(i%7==0) for(size_t k=r.op%5;k<keep->size();k+=5) { auto&q=(*keep)[k]; if(q.second.size()<20000&&sig(q.first)!=q.second){ mc::fail("operand damaged","an operand reads differently"); break; } } },
      [=](uint64_t i){ auto&r=(*R)[i]; return (*ops)[r.op].name+", "+MODE[r.persist]+" at allocation "+to_string(r.k); },16);
}
int main(int argc,char**argv){ mc::init(argc,argv); tg_env_set_allocator(al::mal,al::rea,al::fre); bool T=mc::thorough(); if(mc::prop=="C15") c15(T); if(mc::prop=="C16") c16(T); if(mc::prop=="C18") c18(T); if(mc::prop=="C33") c33(T); return mc::finish(); }
