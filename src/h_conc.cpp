// C17: threads sharing geometries.  The library is compiled with -fsanitize=thread
// instrumentation, but the runtime below takes the place of ThreadSanitizer's:
// threads are fibers, every atomic operation is a scheduling point, and every
// schedule of a case is run.  Happens-before is tracked with vector clocks that
// honour the memory orders given in the source, so that between two scheduling
// points no order of plain accesses can matter unless a race is reported.
#include "sig.hpp"
#include "cat.hpp"
#include <set>
#include <ucontext.h>
using namespace std;
enum { NT=3, ARENA=1<<22, STK=1<<18 };
struct VC { uint32_t c[NT+1]; void join(const VC&o){ for(int i=0;i<=NT;i++) if(o.c[i]>c[i]) c[i]=o.c[i]; } };
// ---- memory: an arena that never reuses a byte within one execution
struct Cell { uint32_t gen; uint32_t w; uint32_t r[NT]; uint8_t wt; uint8_t rt; };
static char*arena; static Cell*cells; static uint32_t gen=0; static size_t top=0; static uint32_t*state_of; // per 16 bytes: 0 none, else block number*2+freed
struct Blk { char*p; size_t n; bool freed; int by; bool shared; };
static vector<Blk> blks; static vector<uint32_t> blk_at; static long live=0; // blk_at: per 16 byte unit
static int cur=-1; // running fiber, -1: main
static VC clk[NT+1],pend[NT+1],frel[NT+1]; static bool hasrel[NT+1];
static bool failed=false; static string trail;
static void bad(const char*key,const char*fmt,...){ if(failed) return; failed=true; char b[600]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a); mc::fail(key,"%s; schedule %s",b,trail.c_str()); }
static void*amal(size_t n){ size_t need=(n+31)&~(size_t)15; if(top+need>ARENA) return nullptr; char*p=arena+top; uint32_t id=blks.size(); blks.push_back({p,n,false,cur,false}); for(size_t k=0;k<need/16;k++) blk_at[top/16+k]=id+1; top+=need; live++; memset(p,0xA5,n); return p; }
static Blk*blk(const void*p){ size_t o=(char*)p-arena; if(o>=ARENA||!blk_at[o/16]) return nullptr; return &blks[blk_at[o/16]-1]; }
static void access(const void*p,size_t n,bool w);
static void afre(void*p){ if(!p) return; Blk*b=blk(p); if(!b||b->p!=p){ bad("bad free","of memory that is no block"); return; } if(b->freed){ bad("double free","a block of %zu bytes",b->n); return; } access(p,b->n?b->n:1,true); b->freed=true; live--; }
static void*area(void*p,size_t n){ void*q=amal(n); if(q&&p){ Blk*b=blk(p); memcpy(q,p,b->n<n?b->n:n); afre(p); } return q; }
extern char __data_start,_end;
struct G { Cell c; }; static const size_t GN=1<<16; static Cell*gcells; static const void**gkeys; // globals of the library, per byte
static Cell*cell(const void*p){ size_t o=(char*)p-arena; if(o<ARENA) return cells+o; if((char*)p<&__data_start||(char*)p>=&_end) return nullptr; size_t h=((size_t)p*0x9E3779B97F4A7C15ull)>>48; for(size_t k=0;k<64;k++,h=(h+1)&(GN-1)){ if(gcells[h].gen!=gen){ gkeys[h]=p; return gcells+h; } if(gkeys[h]==p) return gcells+h; } return nullptr; }
static void access(const void*p,size_t n,bool w){
    if(cur<0){ if((size_t)((char*)p-arena)<ARENA){ Blk*b=blk(p); if(!b||b->freed) bad("use after free","by the main thread"); } return; }
    bool mine=(size_t)((char*)p-arena)<ARENA; if(!mine&&((char*)p<&__data_start||(char*)p>=&_end)) return;
    if(mine){ Blk*b=blk(p); if(b&&b->by!=cur) b->shared=true; if(!b||(char*)p+n>b->p+b->n+ (b->n?0:1)){ bad("out of bounds","thread %d %s %zu bytes",cur+1,w?"writes":"reads",n); return; } if(b->freed){ bad("use after free","thread %d %s offset %d of a freed block of %zu bytes",cur+1,w?"writes":"reads",(int)((char*)p-b->p),b->n); return; } }
    VC&me=clk[cur];
    for(size_t k=0;k<n;k++){ Cell*c=cell((char*)p+k); if(!c) continue; if(c->gen!=gen){ c->gen=gen; c->w=0; c->rt=0; }
        if(c->w&&c->wt!=cur&&c->w>me.c[c->wt]) { bad("data race","thread %d %s what thread %d wrote (%s, offset %d)",cur+1,w?"writes":"reads",c->wt+1,mine?"heap":"global",mine?(int)((char*)p+k-blk(p)->p):(int)((char*)p+k-&__data_start)); return; }
        if(w){ for(int t=0;t<NT;t++) if(t!=cur&&(c->rt>>t&1)&&c->r[t]>me.c[t]){ bad("data race","thread %d writes or frees what thread %d reads (%s, offset %d)",cur+1,t+1,mine?"heap":"global",mine?(int)((char*)p+k-blk(p)->p):(int)((char*)p+k-&__data_start)); return; } c->w=me.c[cur]; c->wt=cur; c->rt=0; }
        else { c->r[cur]=me.c[cur]; c->rt|=1<<cur; } } }
// ---- scheduler
struct Fiber { ucontext_t ctx; int state; function<void()> fn; }; // 0 unused 1 ready 2 done
static Fiber fib[NT]; static ucontext_t mainctx; static char*stks[NT]; static int nthreads=0;
static vector<uint8_t> choice, width; static size_t pos=0; static long steps=0; static int preempts=0,pbound=1000;
static int pick(int self,bool can){ // who runs next; self is the fiber at its scheduling point
    vector<int> c; if(can) c.push_back(self); for(int t=0;t<nthreads;t++) if(t!=self&&fib[t].state==1) c.push_back(t);
    if(c.empty()) return -1; int n=(can&&preempts>=pbound)?1:(int)c.size(); int k=0;
    if(n>1){ if(pos<choice.size()) k=choice[pos]; else { choice.push_back(0); width.push_back(n); } pos++; if(k>=n){ bad("not deterministic","the schedule does not replay"); k=0; } if(can&&k>0) preempts++; }
    return c[k]; }
static void point(){ if(cur<0) return; int me=cur; steps++; if(steps>100000){ bad("no end","more than 100000 steps"); } int t=pick(me,true); if(trail.size()<400) trail+=(char)('1'+t); if(t!=me){ cur=t; swapcontext(&fib[me].ctx,&fib[t].ctx); cur=me; } clk[me].c[me]++; }
static void entry(int t){ fib[t].fn(); fib[t].state=2; int n=pick(t,false); if(n<0){ cur=-1; setcontext(&mainctx); } cur=n; if(trail.size()<400) trail+=(char)('1'+n); setcontext(&fib[n].ctx); }
// ---- atomics
struct Sync { VC rel; }; static vector<pair<const void*,VC>> syncs;
static VC*sync_of(const void*p){ for(auto&s:syncs) if(s.first==p) return &s.second; syncs.push_back({p,VC{}}); return &syncs.back().second; }
static bool isacq(int mo){ return mo==1||mo==2||mo==4||mo==5; } static bool isrel(int mo){ return mo==3||mo==4||mo==5; }
static bool quiet=false; // outside an exploration
static void a_uaf(const void*p){ if((size_t)((char*)p-arena)<ARENA){ Blk*b=blk(p); if(!b||b->freed) bad("use after free","thread %d touches the counter of a freed block",cur+1); } }
static void a_plain(const void*p,size_t n,bool w){ if(cur<0) return; // an atomic access races with plain ones only
    VC&me=clk[cur]; for(size_t k=0;k<n;k++){ Cell*c=cell((char*)p+k); if(!c||c->gen!=gen) continue; if(c->w&&c->wt!=cur&&c->w>me.c[c->wt]){ bad("data race","an atomic access of thread %d and a plain write of thread %d",cur+1,c->wt+1); return; } if(w) for(int t=0;t<NT;t++) if(t!=cur&&(c->rt>>t&1)&&c->r[t]>me.c[t]){ bad("data race","an atomic write of thread %d and a plain read of thread %d",cur+1,t+1); return; } } }
static void a_load(const void*p,int mo){ if(cur<0) return; VC*s=sync_of(p); if(isacq(mo)) clk[cur].join(*s); else pend[cur].join(*s); }
static void a_store(const void*p,int mo,bool rmw){ if(cur<0) return; VC*s=sync_of(p); VC v{}; if(isrel(mo)) v=clk[cur]; else if(hasrel[cur]) v=frel[cur]; if(rmw) s->join(v); else *s=v; clk[cur].c[cur]++; }
// an atomic object's cells are recorded as read, so that a later free or plain write by another thread needs an order
static void a_mark(const void*p,size_t n){ if(cur<0) return; for(size_t k=0;k<n;k++){ Cell*c=cell((char*)p+k); if(!c) continue; if(c->gen!=gen){ c->gen=gen; c->w=0; c->rt=0; } c->r[cur]=clk[cur].c[cur]; c->rt|=1<<cur; } }
// an object that only the thread which made it has touched so far is nobody else's business: what is done to it commutes with everything other threads can do before it is handed over
static bool own(const void*p){ Blk*b=cur<0?nullptr:blk(p); if(!b) return false; if(b->by!=cur) b->shared=true; return b->by==cur&&!b->shared; }
static void a_begin(const void*p,size_t n,bool w){ if(!own(p)) point(); a_uaf(p); a_plain(p,n,false); }
extern "C" {
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){} void __tsan_ignore_thread_begin(){} void __tsan_ignore_thread_end(){}
#define RW(N) void __tsan_read##N(void*p){ access(p,N,false); } void __tsan_write##N(void*p){ access(p,N,true); } void __tsan_unaligned_read##N(void*p){ access(p,N,false); } void __tsan_unaligned_write##N(void*p){ access(p,N,true); } void __tsan_read_write##N(void*p){ access(p,N,false); access(p,N,true); } void __tsan_unaligned_read_write##N(void*p){ access(p,N,false); access(p,N,true); } void __tsan_volatile_read##N(void*p){ access(p,N,false); } void __tsan_volatile_write##N(void*p){ access(p,N,true); } void __tsan_unaligned_volatile_read##N(void*p){ access(p,N,false); } void __tsan_unaligned_volatile_write##N(void*p){ access(p,N,true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,size_t n){ access(p,n,false); } void __tsan_write_range(void*p,size_t n){ access(p,n,true); }
void __tsan_vptr_update(void**,void*){} void __tsan_vptr_read(void**){}
void*__tsan_memcpy(void*d,const void*s,size_t n){ if(n){ access(s,n,false); access(d,n,true); } return memcpy(d,s,n); }
void*__tsan_memmove(void*d,const void*s,size_t n){ if(n){ access(s,n,false); access(d,n,true); } return memmove(d,s,n); }
void*__tsan_memset(void*d,int c,size_t n){ if(n) access(d,n,true); return memset(d,c,n); }
void __tsan_atomic_thread_fence(int mo){ if(cur<0) return; if(isacq(mo)){ clk[cur].join(pend[cur]); } if(isrel(mo)){ frel[cur]=clk[cur]; hasrel[cur]=true; clk[cur].c[cur]++; } }
void __tsan_atomic_signal_fence(int){}
#define AT(B,T) \
T __tsan_atomic##B##_load(const volatile T*p,int mo){ a_begin((void*)p,sizeof(T),false); a_load((void*)p,mo); T v=*p; a_mark((void*)p,sizeof(T)); return v; } \
void __tsan_atomic##B##_store(volatile T*p,T v,int mo){ a_begin((void*)p,sizeof(T),true); a_mark((void*)p,sizeof(T)); a_store((void*)p,mo,false); *p=v; } \
static T rmw##B(volatile T*p,int mo,T v,int op){ a_begin((void*)p,sizeof(T),true); a_load((void*)p,mo); a_mark((void*)p,sizeof(T)); a_store((void*)p,mo,true); T o=*p; *p=op==0?v:op==1?o+v:op==2?o-v:op==3?(o&v):op==4?(o|v):op==5?(o^v):(T)~(o&v); return o; } \
T __tsan_atomic##B##_exchange(volatile T*p,T v,int mo){ return rmw##B(p,mo,v,0); } T __tsan_atomic##B##_fetch_add(volatile T*p,T v,int mo){ return rmw##B(p,mo,v,1); } T __tsan_atomic##B##_fetch_sub(volatile T*p,T v,int mo){ return rmw##B(p,mo,v,2); } T __tsan_atomic##B##_fetch_and(volatile T*p,T v,int mo){ return rmw##B(p,mo,v,3); } T __tsan_atomic##B##_fetch_or(volatile T*p,T v,int mo){ return rmw##B(p,mo,v,4); } T __tsan_atomic##B##_fetch_xor(volatile T*p,T v,int mo){ return rmw##B(p,mo,v,5); } T __tsan_atomic##B##_fetch_nand(volatile T*p,T v,int mo){ return rmw##B(p,mo,v,6); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T*p,T*e,T v,int mo,int fm){ a_begin((void*)p,sizeof(T),true); if(*p==*e){ a_load((void*)p,mo); a_mark((void*)p,sizeof(T)); a_store((void*)p,mo,true); *p=v; return 1; } a_load((void*)p,fm); a_mark((void*)p,sizeof(T)); *e=*p; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T*p,T*e,T v,int mo,int fm){ return __tsan_atomic##B##_compare_exchange_strong(p,e,v,mo,fm); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T*p,T e,T v,int mo,int fm){ T x=e; __tsan_atomic##B##_compare_exchange_strong(p,&x,v,mo,fm); return x; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
}
// ---- what threads do
struct Shared17 { const char*name; function<void(vector<tg_geom*>&,int)> make; }; // gives each thread the handle it owns
static string textof(const tg_geom*g){ return w_wkt(g)+w_json(g)+w_wkb(g)+w_geobin(g); }
static tg_rect big{{-1e9,-1e9},{1e9,1e9}};
static const char*OPN[]={"read","test","search","write","clone and free","copy and free","wrap and free","free another clone","part and free","parse"};
enum { NOP=10 };
static string PD[10]; static void docs17(){ const char*w="GEOMETRYCOLLECTION ZM(POINT ZM(1.25e-3 0.1 123456789012345678901234567890 -4),MULTIPOLYGON ZM(((0 0 1 1,4 0 2 2,4 4 3 3,0 0 4 4))),LINESTRING ZM(0 0 0 0,1 1 1 1))"; PD[0]=w; PD[1]="{\"type\":\"Feature\",\"id\":\"\\u00e9x\",\"geometry\":{\"type\":\"MultiLineString\",\"coordinates\":[[[0.1,1e-7,3],[123456789012345678901234567890123456789012,2,4]]],\"a\":[{}]},\"properties\":{\"n\":[1,2.5]},\"bbox\":[1]}"; tg_geom*g=tg_parse_wkt(w); PD[2]=w_wkb(g); PD[3]=w_hex(g); PD[4]=w_geobin(g); tg_geom_free(g); PD[5]="POINT(1 2"; PD[6]="{\"type\":\"Nothing\"}"; PD[7]="LINESTRING("; for(int i=0;i<40;i++) PD[7]+=(i?",":"")+to_string(i)+" "+to_string(i*i%7); PD[7]+=")"; PD[8]="{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"properties\":null}],\"x\":1}"; PD[9]=string("\x01\x07\0\0\0\x09",6); }
static tg_geom*other=nullptr,*others[4]; static bool wide=true; // compare with more than one other geometry // shared by all, owned by the main thread until they are done
static string act(int op,tg_geom*g){ string o; auto fail=[&](const char*s){ o+=s; return o; };
    switch(op){
    case 0: { SigOpt q; q.text=false; return sig(g,q); }
    case 1: o+=tg_geom_intersects(g,other)?'1':'0'; o+=tg_geom_covers(g,other)?'1':'0'; o+=tg_geom_touches(other,g)?'1':'0'; o+=tg_geom_contains(other,g)?'1':'0'; o+=tg_geom_equals(g,g)?'1':'0'; if(wide) for(auto x:others){ o+=tg_geom_intersects(g,x)?'1':'0'; o+=tg_geom_covers(g,x)?'1':'0'; o+=tg_geom_covers(x,g)?'1':'0'; o+=tg_geom_contains(x,g)?'1':'0'; o+=tg_geom_touches(g,x)?'1':'0'; } for(int k=0;k<5;k++) o+=tg_geom_intersects_xy(g,k,1)?'1':'0'; return o;
    case 2: tg_geom_search(g,big,[](const tg_geom*c,int i,void*u){ string*o=(string*)u; sv(*o,i); SigOpt q; q.text=false; sig_geom(*o,c,q); tg_geom*k=tg_geom_clone(c); tg_geom_free(k); return i<2; },&o); if(auto p=tg_geom_poly(g)) if(auto r=tg_poly_exterior(p)) tg_ring_nearest_segment(r,[](tg_rect r,int*,void*){ return r.min.x; },[](tg_segment s,int*,void*){ return s.a.x; },[](tg_segment s,double d,int i,void*u){ string*o=(string*)u; sv(*o,i); return i<5; },&o); return o;
    case 3: return textof(g);
    case 4: { tg_geom*c=tg_geom_clone(g); if(!c) return fail("missing"); o=w_wkt(c); tg_geom_free(c); return o; }
    case 5: { tg_geom*c=tg_geom_copy(g); if(!c) return fail("missing"); o=w_wkt(c); tg_geom_free(c); return o; }
    case 6: { if(tg_geom_error(g)) return o; const tg_geom*v[]={g,other,g}; tg_geom*c=tg_geom_new_geometrycollection(v,3); if(!c) return fail("missing"); o=w_wkt(c); tg_geom_free(c); return o; }
    case 7: { tg_geom*a=tg_geom_clone(g),*b=tg_geom_clone(a); tg_geom_free(a); o=tg_geom_type_string(tg_geom_typeof(b)); tg_geom_free(b); return o; }
    case 8: { if(auto p=tg_geom_poly(g)){ if(auto r=tg_poly_exterior(p)){ tg_ring*k=tg_ring_clone(r); tg_poly*q=tg_poly_new(k,&r,1); tg_ring_free(k); tg_geom*c=tg_geom_new_polygon(q); tg_poly_free(q); o=w_wkt(c); tg_geom_free(c); } } else if(auto l=tg_geom_line(g)){ const tg_line*v[]={l,l}; tg_geom*c=tg_geom_new_multilinestring(v,2); o=w_wkt(c); tg_geom_free(c); } else if(auto l=tg_geom_line_at(g,0)){ tg_line*k=tg_line_clone(l); o=sig((tg_geom*)k); tg_line_free(k); } else if(auto p=tg_geom_poly_at(g,0)){ tg_poly*k=tg_poly_clone(p); tg_geom*c=tg_geom_new_polygon(k); tg_poly_free(k); o=w_wkt(c); tg_geom_free(c); } else if(auto c=tg_geom_geometry_at(g,0)){ tg_geom*k=tg_geom_clone(c); o=w_wkt(k); tg_geom_free(k); } return o; }
    case 9: for(auto&d:PD){ tg_geom*c=tg_parse_ix(d.data(),d.size(),o.size()%2?TG_NATURAL:TG_YSTRIPES); if(!c) return fail("missing"); const char*e=tg_geom_error(c); o+=e?e:textof(c); tg_geom_free(c); } return o;
    } return o; }
static vector<Shared17> kinds17(){ vector<Shared17> v;
    auto one=[&](const char*n,function<tg_geom*()> f){ v.push_back({n,[f](vector<tg_geom*>&h,int T){ tg_geom*g=f(); h.push_back(g); for(int i=1;i<T;i++) h.push_back(tg_geom_clone(g)); }}); };
    one("point",[]{ return tg_geom_new_point({1,2}); }); one("point z",[]{ return tg_geom_new_point_z({1,2},3); }); one("line",[]{ return (tg_geom*)cat_line(5,TG_NONE); }); one("indexed line",[]{ return (tg_geom*)cat_line(40,TG_NATURAL); });
    one("ring",[]{ return (tg_geom*)cat_ring(1,TG_NONE); }); one("striped ring",[]{ return (tg_geom*)cat_ring(2,TG_YSTRIPES); }); one("naturally indexed ring",[]{ return (tg_geom*)cat_ring(2,TG_NATURAL); });
    one("polygon with a hole",[]{ auto r=cat_ring(1,TG_NONE),h=cat_ring(0,TG_NONE); auto p=tg_poly_new(r,&h,1); tg_ring_free(r); tg_ring_free(h); return (tg_geom*)p; });
    one("polygon with z",[]{ return tg_parse_wkt("POLYGON Z((0 0 1,4 0 2,4 4 3,0 0 4),(1 0.5 5,2 0.5 6,2 1 7,1 0.5 8))"); }); one("line with m",[]{ return tg_parse_wkt("LINESTRING M(0 0 1,4 0 2,4 4 3)"); });
    one("multipoint",[]{ return tg_parse_wkt("MULTIPOINT(1 2,3 4,5 6)"); }); one("multilinestring",[]{ return tg_parse_wkt("MULTILINESTRING((0 0,1 1),(2 2,3 3,4 4))"); }); one("multipolygon",[]{ return tg_parse_wkt("MULTIPOLYGON(((0 0,4 0,4 4,0 0)),((10 0,14 0,14 4,10 0),(11 0.5,12 0.5,12 1,11 0.5)))"); });
    one("collection",[]{ return tg_parse_wkt("GEOMETRYCOLLECTION(POINT(1 1),LINESTRING(0 0,2 2),GEOMETRYCOLLECTION(POLYGON((0 0,4 0,4 4,0 0))))"); }); one("indexed multipoint",[]{ string s="MULTIPOINT("; for(int i=0;i<66;i++) s+=(i?",":"")+to_string(i)+" "+to_string(i%7); return tg_parse_wkt((s+")").c_str()); });
    one("feature",[]{ return tg_parse_geojson(JSON_T[9]); }); one("feature collection",[]{ return tg_parse_geojson(JSON_T[13]); }); one("error",[]{ return tg_geom_new_error("no"); }); one("empty line",[]{ return tg_geom_new_linestring_empty(); }); one("empty collection",[]{ return tg_geom_new_geometrycollection_empty(); });
    // threads that own different objects with a part in common
    v.push_back({"collection and its part",[](vector<tg_geom*>&h,int T){ auto l=cat_line(5,TG_NONE); const tg_geom*c[]={(tg_geom*)l,(tg_geom*)l}; h.push_back(tg_geom_new_geometrycollection(c,2)); for(int i=1;i<T;i++) h.push_back((tg_geom*)tg_line_clone(l)); tg_line_free(l); }});
    v.push_back({"polygons with a common hole",[](vector<tg_geom*>&h,int T){ auto r=cat_ring(1,TG_NONE),k=cat_ring(0,TG_NATURAL); for(int i=0;i<T;i++) h.push_back((tg_geom*)tg_poly_new(r,&k,1)); tg_ring_free(r); tg_ring_free(k); }});
    v.push_back({"geometry with z and its polygon",[](vector<tg_geom*>&h,int T){ auto r=cat_ring(1,TG_NONE),k=cat_ring(0,TG_NONE); auto p=tg_poly_new(r,&k,1); double z[]={1,2,3,4,5,6,7,8,9}; h.push_back(tg_geom_new_polygon_z(p,z,9)); for(int i=1;i<T;i++) h.push_back(tg_geom_new_polygon(p)); tg_poly_free(p); tg_ring_free(r); tg_ring_free(k); }});
    v.push_back({"collections with a collection in common",[](vector<tg_geom*>&h,int T){ auto g=tg_parse_wkt("GEOMETRYCOLLECTION(POINT(1 1),LINESTRING(0 0,2 2))"); for(int i=0;i<T;i++){ const tg_geom*c[]={g}; h.push_back(tg_geom_new_geometrycollection(c,1)); } tg_geom_free(g); }});
    v.push_back({"multipolygons with a polygon in common",[](vector<tg_geom*>&h,int T){ auto r=cat_ring(1,TG_NONE); auto p=tg_poly_new(r,0,0); for(int i=0;i<T;i++){ const tg_poly*c[]={p,p}; h.push_back(tg_geom_new_multipolygon(c,2)); } tg_poly_free(p); tg_ring_free(r); }});
    // the large ones last
    one("long line",[]{ return (tg_geom*)cat_line(300,TG_NATURAL); }); one("large striped ring",[]{ auto g=tg_geom_new_error("x"); tg_geom_free(g); vector<tg_point> p; for(int i=0;i<150;i++) p.push_back({(double)i,(double)(i%2)}); p.push_back({75,200}); p.push_back(p[0]); return (tg_geom*)tg_ring_new_ix(p.data(),p.size(),TG_YSTRIPES); }); 
    return v; }
enum { NLARGE=2 };
static void mkothers(){ other=tg_parse_wkt("POLYGON((0 0,3 0,3 3,0 0),(1 0.5,2 0.5,2 1,1 0.5))"); if(!wide){ for(auto&x:others) x=nullptr; return; } others[0]=tg_geom_new_point({2,1}); others[1]=(tg_geom*)cat_line(24,TG_NATURAL); others[2]=(tg_geom*)cat_ring(2,TG_YSTRIPES); others[3]=tg_parse_wkt("GEOMETRYCOLLECTION(POINT(1 1),LINESTRING(0 0,3 3),POLYGON EMPTY)"); }
static void freeothers(){ tg_geom_free(other); for(auto x:others) tg_geom_free(x); }
static void reset(){ gen++; if(!gen){ memset(cells,0,sizeof(Cell)*(size_t)ARENA); memset(gcells,0,sizeof(Cell)*GN); gen=1; } std::fill(blk_at.begin(),blk_at.begin()+top/16+1,0); top=0; blks.clear(); live=0; syncs.clear(); trail.clear(); pos=0; steps=0; preempts=0; memset(clk,0,sizeof clk); memset(pend,0,sizeof pend); memset(frel,0,sizeof frel); memset(hasrel,0,sizeof hasrel); for(int t=0;t<NT;t++) clk[t].c[t]=1; }
typedef vector<vector<int>> Script;
static uint64_t nsched;
// one execution under the choices so far; the results each thread saw
static void execute(const Shared17&K,const Script&S,const vector<vector<string>>&want){
    reset(); cur=-1; vector<tg_geom*> h; int T=S.size(); K.make(h,T); mkothers(); long l0=0; (void)l0;
    nthreads=T; for(int t=0;t<T;t++){ getcontext(&fib[t].ctx); fib[t].ctx.uc_stack.ss_sp=stks[t]; fib[t].ctx.uc_stack.ss_size=STK; fib[t].ctx.uc_link=nullptr; fib[t].state=1; tg_geom*g=h[t]; auto ops=&S[t]; auto w=&want[t];
        fib[t].fn=[=]{ for(size_t k=0;k<ops->size();k++){ string r=act((*ops)[k],g); if(r!=(*w)[k]) bad("wrong result","thread %d, %s: differs from what a single thread sees at byte %d",t+1,OPN[(*ops)[k]],diffat(r,(*w)[k])); } tg_geom_free(g); };
        makecontext(&fib[t].ctx,(void(*)())entry,1,t); }
    int first=pick(-1,false); cur=first; trail+=(char)('1'+first); swapcontext(&mainctx,&fib[first].ctx); cur=-1;
    freeothers(); if(live!=0) bad("leak","%ld blocks are left",live);
    mc::trans(steps); mc::state(mc::hash(choice.data(),choice.size(),mc::hash(trail)+mc::cur_case*0x9E3779B97F4A7C15ull+mc::cur_space)); nsched++; }
static void explore(const Shared17&K,const Script&S,int bound){
    failed=false; nsched=0; pbound=bound; int T=S.size();
    // what a single thread sees
    reset(); cur=-1; vector<tg_geom*> h; K.make(h,T); mkothers(); vector<vector<string>> want(T); for(int t=0;t<T;t++) for(int o:S[t]) want[t].push_back(act(o,h[t])); for(auto g:h) tg_geom_free(g); freeothers(); if(live) bad("leak","%ld blocks are left by a single thread",live);
    choice.clear(); width.clear();
    for(;;){ execute(K,S,want); if(failed) break; if(nsched%64==0) mc::alive();
        while(!choice.empty()&&choice.back()+1>=width.back()){ choice.pop_back(); width.pop_back(); } if(choice.empty()) break; choice.back()++; }
    mc::count("schedules",nsched); if(nsched>1) mc::nontrivial(); }
int main(int argc,char**argv){ mc::init(argc,argv); bool T=mc::thorough();
    arena=(char*)calloc(1,ARENA); cells=(Cell*)calloc(ARENA,sizeof(Cell)); gcells=(Cell*)calloc(GN,sizeof(Cell)); gkeys=(const void**)calloc(GN,sizeof(void*)); blk_at.assign(ARENA/16+2,0); for(auto&s:stks) s=(char*)malloc(STK);
    docs17(); tg_env_set_allocator(amal,area,afre); mc::declare_counter("schedules");
    auto K=new vector<Shared17>(kinds17()); size_t nk=K->size(),nl=T?nk:nk-NLARGE;
    auto name=[=](size_t k,const Script&S){ string s=(*K)[k].name; for(auto&t:S){ s+=" |"; for(int o:t) s+=string(" ")+OPN[o]+";"; s+=" free"; } return s; };
    auto scripts=new vector<vector<int>>; scripts->push_back({}); for(int a=0;a<NOP;a++) scripts->push_back({a}); size_t n1=scripts->size(); for(int a=0;a<NOP;a++) for(int b=0;b<NOP;b++) scripts->push_back({a,b}); size_t n2=scripts->size();
    auto two=[=](uint64_t i,size_t n){ Script S; S.push_back((*scripts)[i%n]); S.push_back((*scripts)[i/n%n]); return S; };
    mc::space("two threads, an operation each",nk*n1*n1,[=](uint64_t i){ Script S=two(i,n1); wide=false; bool ps=false; for(auto&t:S) for(int o:t){ if(o==1) wide=true; if(o==9) ps=true; } if(ps&&!T&&i/(n1*n1)>2) return; explore((*K)[i/(n1*n1)],S,1000); },[=](uint64_t i){ return name(i/(n1*n1),two(i,n1)); },1);
    auto some=new vector<vector<int>>; if(T) *some=*scripts; else for(int a:{2,4,5,6,8}) for(int b:{2,4,5,6,8}) some->push_back({a,b}); size_t ns=some->size(); auto twos=[=](uint64_t i){ Script S; S.push_back((*some)[i%ns]); S.push_back((*some)[i/ns%ns]); return S; };
    mc::space("two threads, two operations each",nl*ns*ns,[=](uint64_t i){ wide=T; Script S=twos(i); explore((*K)[i/(ns*ns)],S,T?3:1); },[=](uint64_t i){ return name(i/(ns*ns),twos(i)); },1);
    auto three=[=](uint64_t i){ Script S; for(int k=0;k<3;k++){ S.push_back((*scripts)[i%n1]); i/=n1; } if(!T) for(auto&t:S) if(t.size()&&t[0]==9) t[0]=7; return S; };
    mc::space("three threads, an operation each",nl*n1*n1*n1,[=](uint64_t i){ wide=T; explore((*K)[i/(n1*n1*n1)],three(i),T?3:1); },[=](uint64_t i){ return name(i/(n1*n1*n1),three(i)); },1);
    return mc::finish(); }
