// Families of small geometries, enumerated completely.
#pragma once
#include "tgh.hpp"
#include <functional>

static inline std::vector<P> grid_points(int K){ std::vector<P> v; for(int x=0;x<K;x++)for(int y=0;y<K;y++)v.push_back({(double)x,(double)y}); return v; }
static inline Geo g_point(P p){ Geo g; g.kind=K_POINT; g.pts={p}; return g; }
static inline Geo g_line(Pts l){ Geo g; g.kind=K_LINE; g.lines={l}; return g; }
static inline Geo g_poly(Pts e,std::vector<Pts> h={}){ Geo g; g.kind=K_POLY; g.polys={{e,h}}; return g; }

// every simple polygon with n vertices on the grid, once: smallest vertex first, counter-clockwise
static inline void all_rings(int K,int n,std::vector<Pts>&out){
    auto gp=grid_points(K); Pts r;
    std::function<void()> rec=[&]{
        if((int)r.size()==n){ if(area2(r)>TOL && simple_ring(r)) out.push_back(r); return; }
        for(auto p:gp){ if(!(r[0]<p)) continue; bool ok=true;
            for(auto&q:r) if(q==p) ok=false; 
            if(!ok) continue;
            size_t m=r.size(); 
            for(size_t i=0;i+2<m&&ok;i++) if(seg_hits(r[i],r[i+1],r[m-1],p)) ok=false;
            if(ok&&m>=2&&(on_seg(r[m-2],r[m-1],p)||on_seg(r[m-1],p,r[m-2]))) ok=false;
            if(!ok) continue;
            r.push_back(p); rec(); r.pop_back(); }
    };
    for(auto p:gp){ r={p}; rec(); }
}
// vertices that are collinear with their neighbours removed?
static inline bool has_flat_vertex(const Pts&r){ size_t n=r.size(); for(size_t i=0;i<n;i++) if(fabs(cross3(r[(i+n-1)%n],r[i],r[(i+1)%n]))<TOL) return true; return false; }
// every line with n positions, no position repeated at once
static inline void all_lines(int K,int n,std::vector<Pts>&out){
    auto gp=grid_points(K); Pts r;
    std::function<void()> rec=[&]{ if((int)r.size()==n){ out.push_back(r); return; }
        for(auto p:gp){ if(!r.empty()&&r.back()==p) continue; r.push_back(p); rec(); r.pop_back(); } };
    rec();
}
static inline uint64_t ghash(const Geo&g);
struct Item { Geo g; Loc l; uint64_t h=0; };
struct Fam { std::string name; std::vector<Item> v; };
static inline Fam mkfam(const Grid&gr,std::string name,const std::vector<Geo>&gs){ Fam f; f.name=name; for(auto&g:gs) f.v.push_back({g,locate(gr,g),ghash(g)}); return f; }
static inline int popc(const Bits&a){ int n=0; for(auto w:a) n+=__builtin_popcountll(w); return n; }
// valid polygons with holes: each hole inside the exterior, rings meet in at most one point, and the rings' contacts form a forest
static inline bool holes_valid(const Loc&ext,const std::vector<Loc>&hs){
    size_t n=hs.size()+1; std::vector<int> par(n); for(size_t i=0;i<n;i++) par[i]=i; auto find=[&](int x){ while(par[x]!=x) x=par[x]; return x; };
    auto meet=[&](const Loc&a,const Loc&b){ int k=0; for(size_t i=0;i<a.B.size();i++) k+=__builtin_popcountll(a.B[i]&b.B[i]); return k; };
    for(size_t i=0;i<hs.size();i++){
        for(size_t w=0;w<ext.I.size();w++) { if(hs[i].I[w]&~ext.I[w]) return false; if(hs[i].B[w]&~(ext.I[w]|ext.B[w])) return false; }
        int m=meet(ext,hs[i]); if(m>1) return false; if(m==1){ int a=find(0),b=find(i+1); if(a==b) return false; par[a]=b; }
        for(size_t j=0;j<i;j++){ for(size_t w=0;w<ext.I.size();w++) if((hs[i].I[w]&(hs[j].I[w]|hs[j].B[w]))||(hs[j].I[w]&hs[i].B[w])) return false;
            int q=meet(hs[i],hs[j]); if(q>1) return false; if(q==1){ int a=find(i+1),b=find(j+1); if(a==b) return false; par[a]=b; } }
    }
    return true;
}
// subdivide every edge into m parts (m a power of two: exact), same point set
static inline Pts dense_ring(const Pts&r,int m){ Pts o; size_t n=r.size(); for(size_t i=0;i<n;i++){ P a=r[i],b=r[(i+1)%n]; for(int k=0;k<m;k++) o.push_back({a.x+(b.x-a.x)*k/m,a.y+(b.y-a.y)*k/m}); } return o; }
static inline Pts dense_line(const Pts&r,int m){ Pts o; size_t n=r.size(); for(size_t i=0;i+1<n;i++){ P a=r[i],b=r[i+1]; for(int k=0;k<m;k++) o.push_back({a.x+(b.x-a.x)*k/m,a.y+(b.y-a.y)*k/m}); } if(n) o.push_back(r.back()); return o; }
static inline Geo dense(const Geo&g,int m){ Geo o=g; if(m<2) return o; for(auto&l:o.lines) l=dense_line(l,m); for(auto&p:o.polys){ p.ext=dense_ring(p.ext,m); for(auto&h:p.holes) h=dense_ring(h,m);} for(auto&k:o.kids) k=dense(k,m); return o; }
static inline Pts map_pts(Pts v,const std::function<P(P)>&f){ for(auto&p:v) p=f(p); return v; }
static inline Geo map_geo(const Geo&g,const std::function<P(P)>&f){ Geo o=g; o.pts=map_pts(g.pts,f); for(auto&l:o.lines) l=map_pts(l,f); for(auto&p:o.polys){ p.ext=map_pts(p.ext,f); for(auto&h:p.holes) h=map_pts(h,f);} for(auto&k:o.kids) k=map_geo(k,f); return o; }
static inline bool same_set(const Loc&a,const Loc&b){ for(size_t i=0;i<a.I.size();i++) if((a.I[i]|a.B[i])!=(b.I[i]|b.B[i])) return false; return true; }
static inline uint64_t ghash(const Geo&g){ std::string s=gstr(g); uint64_t h=1469598103934665603ull; for(unsigned char c:s){ h^=c; h*=1099511628211ull; } return h; }
// B is a polygon whose exterior is one of the holes of A: tg calls it covered (pinned by tests/test_poly.c)
static inline bool hole_twin(const Geo&a,const Geo&b){ if(a.kind!=K_POLY||b.kind!=K_POLY) return false; for(auto&h:a.polys[0].holes){ bool same=true; auto&e=b.polys[0].ext; size_t n=e.size();
        for(auto&p:h) if(ring_loc(e,p)!=1) same=false; for(auto&p:e) if(ring_loc(h,p)!=1) same=false;
        for(size_t i=0;i<n&&same;i++){ P m={(e[i].x+e[(i+1)%n].x)/2,(e[i].y+e[(i+1)%n].y)/2}; if(ring_loc(h,m)!=1) same=false; }
        if(same) return true; } return false; }
