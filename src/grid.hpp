// Exact finite-cell model of plane geometry on a small integer grid.
//
// All lines through two points of the K x K grid cut the square [0,K-1]^2 into
// finitely many cells (nodes, open edges, open faces).  Any geometry whose
// vertices are grid points is a union of cells, so its interior, boundary and
// exterior are bitsets over the cells, and every DE-9IM relation between two
// such geometries is decided exactly by bitset operations.  One sample point
// per cell stands for the whole cell.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>

struct P { double x, y; bool operator==(const P&o) const { return x==o.x&&y==o.y; }
    bool operator<(const P&o) const { return x<o.x||(x==o.x&&y<o.y);} };
typedef std::vector<P> Pts;
struct Poly { Pts ext; std::vector<Pts> holes; };

enum GKind { K_POINT=1, K_LINE, K_POLY, K_MPOINT, K_MLINE, K_MPOLY, K_GC };

struct Geo {
    int kind = 0;
    Pts pts;                    // K_POINT, K_MPOINT
    std::vector<Pts> lines;     // K_LINE, K_MLINE
    std::vector<Poly> polys;    // K_POLY, K_MPOLY
    std::vector<Geo> kids;      // K_GC
};

static inline std::string pstr(const Pts &p) {
    std::string s="("; char b[64];
    for (size_t i=0;i<p.size();i++) { snprintf(b,64,"%s%g %g",i?",":"",p[i].x,p[i].y); s+=b; }
    return s+")";
}
static inline std::string polystr(const Poly &p) {
    auto cl=[](Pts r){ if(!r.empty() && !(r[0]==r.back())) r.push_back(r[0]); return r; };
    std::string s="("+pstr(cl(p.ext)); for (auto&h:p.holes) s+=","+pstr(cl(h)); return s+")";
}
static inline std::string gstr(const Geo &g) {
    std::string s;
    switch (g.kind) {
    case K_POINT: return "POINT"+pstr(g.pts);
    case K_MPOINT: return "MULTIPOINT"+pstr(g.pts);
    case K_LINE: return "LINESTRING"+pstr(g.lines[0]);
    case K_MLINE: s="MULTILINESTRING("; for(size_t i=0;i<g.lines.size();i++) s+=(i?",":"")+pstr(g.lines[i]); return s+")";
    case K_POLY: return "POLYGON"+polystr(g.polys[0]);
    case K_MPOLY: s="MULTIPOLYGON("; for(size_t i=0;i<g.polys.size();i++) s+=(i?",":"")+polystr(g.polys[i]); return s+")";
    case K_GC: s="GEOMETRYCOLLECTION("; for(size_t i=0;i<g.kids.size();i++) s+=(i?",":"")+gstr(g.kids[i]); return s+")";
    }
    return "?";
}

static const double TOL=1e-9;
static inline double cross3(P a,P b,P c){ return (b.x-a.x)*(c.y-a.y)-(b.y-a.y)*(c.x-a.x); }
static inline bool on_seg(P a,P b,P p){
    if (fabs(cross3(a,b,p))>TOL) return false;
    return p.x>=fmin(a.x,b.x)-TOL && p.x<=fmax(a.x,b.x)+TOL && p.y>=fmin(a.y,b.y)-TOL && p.y<=fmax(a.y,b.y)+TOL;
}
static inline bool peq(P a,P b){ return fabs(a.x-b.x)<TOL && fabs(a.y-b.y)<TOL; }
// 2 interior, 1 boundary, 0 exterior; ring may be open or closed
static inline int ring_loc(const Pts &r,P p){
    size_t n=r.size(); bool in=false;
    for (size_t i=0,j=n-1;i<n;j=i++){
        if (on_seg(r[j],r[i],p)) return 1;
        if ((r[i].y>p.y)!=(r[j].y>p.y)) {
            double d=r[i].y-r[j].y, c=(p.y-r[j].y)*(r[i].x-r[j].x)-(p.x-r[j].x)*d; // p.x < x of the edge at p.y
            if (d>0?c>0:c<0) in=!in;
        }
    }
    return in?2:0;
}
static inline int poly_loc(const Poly &g,P p){
    int e=ring_loc(g.ext,p); if (e<2) return e;
    for (auto&h:g.holes){ int l=ring_loc(h,p); if (l==2) return 0; if (l==1) return 1; }
    return 2;
}
static inline bool seg_hits(P a,P b,P c,P d){
    auto sg=[](double v){ return v>TOL?1:v<-TOL?-1:0; };
    int s1=sg(cross3(a,b,c)),s2=sg(cross3(a,b,d)),s3=sg(cross3(c,d,a)),s4=sg(cross3(c,d,b));
    if (s1*s2<0&&s3*s4<0) return true;
    return on_seg(a,b,c)||on_seg(a,b,d)||on_seg(c,d,a)||on_seg(c,d,b);
}
static inline double area2(const Pts&r){ double s=0; size_t n=r.size(); for(size_t i=0;i<n;i++){ P a=r[i],b=r[(i+1)%n]; s+=a.x*b.y-b.x*a.y;} return s; }
// simple ring (open vertex list): non adjacent edges disjoint, adjacent edges meet only at the shared vertex
static inline bool simple_ring(const Pts&r){
    size_t n=r.size(); if (n<3) return false;
    for (size_t i=0;i<n;i++) for(size_t j=i+1;j<n;j++){
        P a=r[i],b=r[(i+1)%n],c=r[j],d=r[(j+1)%n];
        if (a==c) return false;
        if (j==i+1||(i==0&&j==n-1)) {
            P s=(j==i+1)?b:a, u=(j==i+1)?a:b, v=(j==i+1)?d:c;
            if (on_seg(s,u,v)||on_seg(s,v,u)) return false;
        } else if (seg_hits(a,b,c,d)) return false;
    }
    return fabs(area2(r))>TOL;
}

struct Grid {
    int K; std::vector<P> cells; int nw;
    Grid(int k,std::vector<P> c):K(k),cells(std::move(c)){ nw=(cells.size()+63)/64; }
    explicit Grid(int k):K(k){
        struct L{int a,b,c;}; std::set<std::vector<int>> ls;
        for(int x1=0;x1<K;x1++)for(int y1=0;y1<K;y1++)for(int x2=0;x2<K;x2++)for(int y2=0;y2<K;y2++){
            if(x1==x2&&y1==y2)continue;
            int a=y1-y2,b=x2-x1,c=-(a*x1+b*y1); int g=std::__gcd(std::__gcd(abs(a),abs(b)),abs(c)); if(g){a/=g;b/=g;c/=g;}
            if(a<0||(a==0&&b<0)){a=-a;b=-b;c=-c;} ls.insert({a,b,c});
        }
        std::vector<std::vector<int>> lv(ls.begin(),ls.end());
        auto inside=[&](P p){return p.x>-TOL&&p.x<K-1+TOL&&p.y>-TOL&&p.y<K-1+TOL;};
        std::map<std::pair<long,long>,int> nodes; auto key=[](P p){return std::make_pair(lround(p.x*1e7),lround(p.y*1e7));};
        std::vector<P> edges; std::map<std::vector<signed char>,P> faces;
        for(size_t i=0;i<lv.size();i++){
            std::vector<P> on;
            for(size_t j=0;j<lv.size();j++){ if(i==j)continue;
                long d=(long)lv[i][0]*lv[j][1]-(long)lv[j][0]*lv[i][1]; if(!d)continue;
                P p={((double)lv[i][1]*lv[j][2]-(double)lv[j][1]*lv[i][2])/d,((double)lv[j][0]*lv[i][2]-(double)lv[i][0]*lv[j][2])/d};
                if(!inside(p))continue; on.push_back(p); nodes.insert({key(p),0}); if(nodes[key(p)]==0){nodes[key(p)]=1;cells.push_back(p);} }
            std::sort(on.begin(),on.end(),[](P a,P b){return fabs(a.x-b.x)>TOL?a.x<b.x:a.y<b.y-TOL;});
            for(size_t k=0;k+1<on.size();k++){ if(peq(on[k],on[k+1]))continue;
                P m={(on[k].x+on[k+1].x)/2,(on[k].y+on[k+1].y)/2}; edges.push_back(m);
                double nx=lv[i][0],ny=lv[i][1];
                for(int s=-1;s<=1;s+=2){ P f={m.x+s*1e-6*nx,m.y+s*1e-6*ny};
                    if(!(f.x>0&&f.x<K-1&&f.y>0&&f.y<K-1))continue;
                    std::vector<signed char> sig; for(auto&l:lv){ double v=l[0]*f.x+l[1]*f.y+l[2]; sig.push_back(v>0?1:-1);} faces.insert({sig,f}); }
            }
        }
        cells.insert(cells.end(),edges.begin(),edges.end());
        for(auto&f:faces) cells.push_back(f.second);
        nw=(cells.size()+63)/64;
    }
};

typedef std::vector<uint64_t> Bits;
// I: interior, B: boundary (cells); exterior is the complement (plus everything outside the square)
struct Loc { Bits I,B; };

static inline void set_prim_loc(const Geo&g,P p,bool&in,bool&bd){
    switch(g.kind){
    case K_POINT: case K_MPOINT: for(auto&q:g.pts) if(peq(p,q)) in=true; break;
    case K_LINE: case K_MLINE: { bool on=false; int ends=0;
        for(auto&l:g.lines){ for(size_t i=0;i+1<l.size();i++) if(on_seg(l[i],l[i+1],p)) on=true;
            if(!(l[0]==l.back())) { if(peq(l[0],p)) ends++; if(peq(l.back(),p)) ends++; } }
        if(on){ if(ends&1) bd=true; else in=true; } break; }
    case K_POLY: case K_MPOLY: { bool i2=false,b2=false; for(auto&q:g.polys){ int l=poly_loc(q,p); if(l==2)i2=true; else if(l==1)b2=true; }
        if(i2) in=true; else if(b2) bd=true; break; }
    case K_GC: for(auto&k:g.kids) set_prim_loc(k,p,in,bd); break;
    }
}
static inline Loc locate(const Grid&gr,const Geo&g){
    Loc l; l.I.assign(gr.nw,0); l.B.assign(gr.nw,0);
    for(size_t c=0;c<gr.cells.size();c++){ bool in=false,bd=false; set_prim_loc(g,gr.cells[c],in,bd);
        if(in) l.I[c>>6]|=1ull<<(c&63); else if(bd) l.B[c>>6]|=1ull<<(c&63); }
    return l;
}
struct Rel { bool II=false,hit=false,aout=false,bout=false; };
static inline Rel relate(const Loc&a,const Loc&b){
    Rel r; for(size_t i=0;i<a.I.size();i++){ uint64_t A=a.I[i]|a.B[i],B=b.I[i]|b.B[i];
        if(a.I[i]&b.I[i]) r.II=true; if(A&B) r.hit=true; if(A&~B) r.aout=true; if(B&~A) r.bout=true; }
    return r;
}
