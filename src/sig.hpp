// Everything a user can observe about an object, as a byte string.
#pragma once
#include "tgh.hpp"
#include "mc.hpp"
#include <cmath>
#include <string>
using std::string;
struct SigOpt { bool index=true, mem=true, meta=true, text=true; };
static inline void sb(string&o,const void*p,size_t n){ o.append((const char*)p,n); }
template<class T> static inline void sv(string&o,T v){ sb(o,&v,sizeof v); }
static inline void sr(string&o,tg_rect r){ sv(o,r.min.x); sv(o,r.min.y); sv(o,r.max.x); sv(o,r.max.y); }
static inline void st(string&o,const char*tag){ o+=tag; }
static inline void sig_ring(string&o,const tg_ring*r,const SigOpt&q){
    if(!r){ o+="[noring]"; return; } int n=tg_ring_num_points(r); st(o,"[ring "); sv(o,n); const tg_point*p=tg_ring_points(r); for(int i=0;i<n;i++){ sb(o,p+i,sizeof*p); tg_point a=tg_ring_point_at(r,i); if(memcmp(&a,p+i,sizeof a)) o+="!point_at"; }
    int m=tg_ring_num_segments(r); sv(o,m); for(int i=0;i<m;i++){ tg_segment s=tg_ring_segment_at(r,i); sb(o,&s,sizeof s); } sr(o,tg_ring_rect(r)); sv(o,(char)tg_ring_convex(r)); sv(o,(char)tg_ring_clockwise(r)); sv(o,tg_ring_area(r)); sv(o,tg_ring_perimeter(r)); if(q.mem) sv(o,tg_ring_memsize(r));
    if(q.index){ sv(o,tg_ring_index_spread(r)); int l=tg_ring_index_num_levels(r); sv(o,l); for(int i=0;i<l;i++){ int k=tg_ring_index_level_num_rects(r,i); sv(o,k); for(int j=0;j<k;j++) sr(o,tg_ring_index_level_rect(r,i,j)); } } o+=']'; }
static inline void sig_line(string&o,const tg_line*r,const SigOpt&q){
    if(!r){ o+="[noline]"; return; } int n=tg_line_num_points(r); st(o,"[line "); sv(o,n); const tg_point*p=tg_line_points(r); for(int i=0;i<n;i++){ sb(o,p+i,sizeof*p); tg_point a=tg_line_point_at(r,i); if(memcmp(&a,p+i,sizeof a)) o+="!point_at"; }
    int m=tg_line_num_segments(r); sv(o,m); for(int i=0;i<m;i++){ tg_segment s=tg_line_segment_at(r,i); sb(o,&s,sizeof s); } sr(o,tg_line_rect(r)); sv(o,(char)tg_line_clockwise(r)); sv(o,tg_line_length(r)); if(q.mem) sv(o,tg_line_memsize(r));
    if(q.index){ sv(o,tg_line_index_spread(r)); int l=tg_line_index_num_levels(r); sv(o,l); for(int i=0;i<l;i++){ int k=tg_line_index_level_num_rects(r,i); sv(o,k); for(int j=0;j<k;j++) sr(o,tg_line_index_level_rect(r,i,j)); } } o+=']'; }
static inline void sig_poly(string&o,const tg_poly*p,const SigOpt&q){
    if(!p){ o+="[nopoly]"; return; } int h=tg_poly_num_holes(p); st(o,"[poly "); sv(o,h); sr(o,tg_poly_rect(p)); sv(o,(char)tg_poly_clockwise(p)); if(q.mem) sv(o,tg_poly_memsize(p)); sig_ring(o,tg_poly_exterior(p),q); for(int i=0;i<h;i++) sig_ring(o,tg_poly_hole_at(p,i),q); o+=']'; }
template<class F> static inline string written(F f,const tg_geom*g){ string s(f(g,nullptr,0),0); size_t n=s.size(); s.resize(n+1); size_t m=f(g,(decltype(f(g,nullptr,0),(char*)nullptr))&s[0],n+1); s.resize(n); if(m!=n) s+="!length"; return s; }
static inline string w_wkt(const tg_geom*g){ return written([](const tg_geom*g,char*d,size_t n){ return tg_geom_wkt(g,d,n); },g); }
static inline string w_json(const tg_geom*g){ return written([](const tg_geom*g,char*d,size_t n){ return tg_geom_geojson(g,d,n); },g); }
static inline string w_hex(const tg_geom*g){ return written([](const tg_geom*g,char*d,size_t n){ return tg_geom_hex(g,d,n); },g); }
static inline string w_wkb(const tg_geom*g){ return written([](const tg_geom*g,char*d,size_t n){ return tg_geom_wkb(g,(uint8_t*)d,n); },g); }
static inline string w_geobin(const tg_geom*g){ return written([](const tg_geom*g,char*d,size_t n){ return tg_geom_geobin(g,(uint8_t*)d,n); },g); }
static inline void sig_geom(string&o,const tg_geom*g,const SigOpt&q,int depth=0){
    if(!g){ o+="[null]"; return; } const char*e=tg_geom_error(g); if(e){ o+="[error "; o+=e; o+=']'; return; }
    auto t=tg_geom_typeof(g); st(o,"[geom "); sv(o,(int)t); o+=tg_geom_type_string(t); sv(o,(char)tg_geom_is_empty(g)); sv(o,tg_geom_dims(g)); sv(o,(char)tg_geom_has_z(g)); sv(o,(char)tg_geom_has_m(g)); sv(o,tg_geom_z(g)); sv(o,tg_geom_m(g));
    if(q.meta){ sv(o,(char)tg_geom_is_feature(g)); sv(o,(char)tg_geom_is_featurecollection(g)); const char*x=tg_geom_extra_json(g); o+="xjson="; o+=x?x:"(none)"; }
    sr(o,tg_geom_rect(g)); double a[4]={0},b[4]={0}; int d=tg_geom_fullrect(g,a,b); sv(o,d); for(int i=0;i<d&&i<4;i++){ sv(o,a[i]); sv(o,b[i]); } tg_point p=tg_geom_point(g); sb(o,&p,sizeof p);
    int k=tg_geom_num_extra_coords(g); sv(o,k); const double*xc=tg_geom_extra_coords(g); if(k) sb(o,xc,k*sizeof*xc); if(q.mem) sv(o,tg_geom_memsize(g));
    sig_line(o,tg_geom_line(g),q); sig_poly(o,tg_geom_poly(g),q); int n=tg_geom_num_points(g); sv(o,n); for(int i=0;i<n;i++){ p=tg_geom_point_at(g,i); sb(o,&p,sizeof p); } n=tg_geom_num_lines(g); sv(o,n); for(int i=0;i<n;i++) sig_line(o,tg_geom_line_at(g,i),q); n=tg_geom_num_polys(g); sv(o,n); for(int i=0;i<n;i++) sig_poly(o,tg_geom_poly_at(g,i),q); n=tg_geom_num_geometries(g); sv(o,n); for(int i=0;i<n;i++) sig_geom(o,tg_geom_geometry_at(g,i),q,depth+1);
    if(q.text&&!depth){ o+=w_wkt(g); o+='|'; if(q.meta) o+=w_json(g); o+='|'; o+=w_wkb(g); o+='|'; o+=w_hex(g); o+='|'; if(q.meta) o+=w_geobin(g); }
    o+=']'; }
static inline string sig(const tg_geom*g,SigOpt q=SigOpt()){ string o; sig_geom(o,g,q); return o; }
static inline int diffat(const string&a,const string&b){ size_t i=0; while(i<a.size()&&i<b.size()&&a[i]==b[i]) i++; return (int)i; }
// visits every block of memory an object shows to its user
template<class F> static inline void memory_of(const tg_geom*g,F f){
    if(!g) return; f(g,"geometry"); if(tg_geom_num_extra_coords(g)&&tg_geom_typeof(g)!=TG_POINT) f(tg_geom_extra_coords(g),"extra coordinates"); if(tg_geom_extra_json(g)) f(tg_geom_extra_json(g),"extra json"); if(tg_geom_error(g)) f(tg_geom_error(g),"error");
    auto line=[&](const tg_line*l){ if(l){ f(l,"line"); if(tg_line_num_points(l)) f(tg_line_points(l),"points of a line"); } }; auto ring=[&](const tg_ring*r){ if(r){ f(r,"ring"); if(tg_ring_num_points(r)) f(tg_ring_points(r),"points of a ring"); } }; auto poly=[&](const tg_poly*p){ if(p){ f(p,"polygon"); ring(tg_poly_exterior(p)); for(int i=0;i<tg_poly_num_holes(p);i++) ring(tg_poly_hole_at(p,i)); } };
    line(tg_geom_line(g)); poly(tg_geom_poly(g)); for(int i=0;i<tg_geom_num_lines(g);i++) line(tg_geom_line_at(g,i)); for(int i=0;i<tg_geom_num_polys(g);i++) poly(tg_geom_poly_at(g,i)); for(int i=0;i<tg_geom_num_geometries(g);i++) memory_of(tg_geom_geometry_at(g,i),f); }
