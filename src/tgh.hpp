#pragma once
extern "C" {
#include "tg.h"
}
#include "grid.hpp"
static inline const struct tg_point *tp(const Pts&p){ return (const struct tg_point*)p.data(); }
static inline Pts closed(Pts r){ if(!r.empty()&&!(r[0]==r.back())) r.push_back(r[0]); return r; }
static inline struct tg_ring *mkring(const Pts&r,enum tg_index ix,bool close=true){ Pts c=close?closed(r):r; return tg_ring_new_ix(tp(c),(int)c.size(),ix); }
static inline struct tg_poly *mkpoly(const Poly&p,enum tg_index ix){
    struct tg_ring *e=mkring(p.ext,ix); std::vector<struct tg_ring*> h; for(auto&q:p.holes) h.push_back(mkring(q,ix));
    struct tg_poly *r=tg_poly_new(e,h.empty()?nullptr:(const struct tg_ring*const*)h.data(),(int)h.size());
    tg_ring_free(e); for(auto q:h) tg_ring_free(q); return r; }
static inline struct tg_geom *mkgeom(const Geo&g,enum tg_index ix=TG_DEFAULT){
    struct tg_geom *r=nullptr;
    switch(g.kind){
    case K_POINT: return tg_geom_new_point({g.pts[0].x,g.pts[0].y});
    case K_MPOINT: return tg_geom_new_multipoint(tp(g.pts),(int)g.pts.size());
    case K_LINE: { auto l=tg_line_new_ix(tp(g.lines[0]),(int)g.lines[0].size(),ix); r=tg_geom_new_linestring(l); tg_line_free(l); return r; }
    case K_MLINE: { std::vector<struct tg_line*> v; for(auto&l:g.lines) v.push_back(tg_line_new_ix(tp(l),(int)l.size(),ix));
        r=tg_geom_new_multilinestring((const struct tg_line*const*)v.data(),(int)v.size()); for(auto l:v) tg_line_free(l); return r; }
    case K_POLY: { auto p=mkpoly(g.polys[0],ix); r=tg_geom_new_polygon(p); tg_poly_free(p); return r; }
    case K_MPOLY: { std::vector<struct tg_poly*> v; for(auto&l:g.polys) v.push_back(mkpoly(l,ix));
        r=tg_geom_new_multipolygon((const struct tg_poly*const*)v.data(),(int)v.size()); for(auto l:v) tg_poly_free(l); return r; }
    case K_GC: { std::vector<struct tg_geom*> v; for(auto&k:g.kids) v.push_back(mkgeom(k,ix));
        r=tg_geom_new_geometrycollection((const struct tg_geom*const*)v.data(),(int)v.size()); for(auto l:v) tg_geom_free(l); return r; }
    }
    return r; }
