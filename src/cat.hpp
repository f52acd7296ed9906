// A catalogue of geometries: every type, dimension, emptiness, index, feature kind and way to make one.
#pragma once
#include "shapes.hpp"
#include <functional>
#include <string>
#include <vector>
// A maker gives up (and gives NULL) when a call inside it reports that there is no memory; what it made on the way is freed.
struct Oom {};
static std::vector<tg_geom*> owned;
template<class T> static T*O(T*p){ if(!p) throw Oom(); owned.push_back((tg_geom*)p); return p; }
struct CItem { std::string name; std::function<tg_geom*()> inner; tg_geom*make()const{ size_t n=owned.size(); tg_geom*g; try { g=inner(); } catch(Oom&){ g=nullptr; } while(owned.size()>n){ tg_geom_free(owned.back()); owned.pop_back(); } return g; } };
static const char*WKT_T[]={"POINT#(@)","LINESTRING#(@,@)","LINESTRING#(@,@,@)","POLYGON#((@,@,@,!))","POLYGON#((@,@,@,@,!),(@,@,@,!))","MULTIPOINT#(@,@,@)","MULTIPOINT#((@))","MULTILINESTRING#((@,@),(@,@))","MULTIPOLYGON#(((@,@,@,!)),((@,@,@,!),(@,@,@,!)))","GEOMETRYCOLLECTION#(POINT#(@),LINESTRING#(@,@))","GEOMETRYCOLLECTION#(GEOMETRYCOLLECTION#(POINT#(@),POINT EMPTY),MULTIPOINT#(@,@))","POINT EMPTY","LINESTRING EMPTY","POLYGON EMPTY","MULTIPOINT EMPTY","MULTILINESTRING EMPTY","MULTIPOLYGON EMPTY","GEOMETRYCOLLECTION EMPTY","GEOMETRYCOLLECTION(POINT EMPTY,LINESTRING EMPTY,POLYGON EMPTY,MULTIPOINT EMPTY,MULTILINESTRING EMPTY,MULTIPOLYGON EMPTY,GEOMETRYCOLLECTION EMPTY)","GEOMETRYCOLLECTION#(POLYGON#((@,@,@,!)),MULTILINESTRING#((@,@),(@,@)),MULTIPOLYGON#(((@,@,@,!))))"};
static inline std::string wkt_fill(const char*t,int dm,int seed=0){ const char*tag[4]={"","Z","M","ZM"}; int nd=2+(dm==3?2:dm?1:0); std::string o,first; int k=seed; for(const char*c=t;*c;c++){ if(*c=='#'){ o+=tag[dm]; } else if(*c=='@'){ std::string p; for(int q=0;q<nd;q++){ char b[40]; snprintf(b,40,"%s%.17g",q?" ":"",((k*37+q*11+seed)%17)-8+q*0.25); p+=b; } if(c>t&&c[-1]=='(') first=p; o+=p; k++; } else if(*c=='!') o+=first; else o+=*c; } return o; }
static const char*JSON_T[]={
 "{\"type\":\"Point\",\"coordinates\":[1,2]}","{\"type\":\"Point\",\"coordinates\":[1,2,3]}","{\"type\":\"Point\",\"coordinates\":[1,2,3,4]}","{\"type\":\"Point\",\"coordinates\":[]}",
 "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"properties\":{}}",
 "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"properties\":null}",
 "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]}}",
 "{\"type\":\"Feature\",\"geometry\":null,\"properties\":{\"a\":1}}","{\"type\":\"Feature\",\"geometry\":null,\"properties\":null}",
 "{\"type\":\"Feature\",\"id\":7,\"geometry\":{\"type\":\"LineString\",\"coordinates\":[[1,2,3],[4,5,6]]},\"properties\":{\"a\":[1,{\"b\":null}]},\"x\":\"y\"}",
 "{\"type\":\"Feature\",\"id\":\"s\\u00e9\\\"\",\"bbox\":[0,0,9,9],\"geometry\":{\"type\":\"Polygon\",\"coordinates\":[[[0,0],[4,0],[4,4],[0,0]],[[1,0.5],[2,0.5],[2,1],[1,0.5]]],\"g\":1},\"properties\":{\"a\":1}}",
 "{\"type\":\"Feature\",\"geometry\":{\"type\":\"GeometryCollection\",\"geometries\":[{\"type\":\"Point\",\"coordinates\":[1,2,3],\"k\":1}]},\"properties\":{\"z\":true}}",
 "{\"type\":\"FeatureCollection\",\"features\":[]}",
 "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"properties\":{\"a\":1}},{\"type\":\"Feature\",\"id\":2,\"geometry\":null,\"properties\":null}],\"name\":\"n\"}",
 "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":{\"type\":\"MultiPolygon\",\"coordinates\":[[[[0,0,1],[4,0,1],[4,4,1],[0,0,1]]],[[[10,0,2],[14,0,2],[14,4,2],[10,0,2]]]]},\"properties\":{\"a\":1}}],\"bbox\":[1,2,3,4]}",
 "{\"type\":\"GeometryCollection\",\"geometries\":[{\"type\":\"MultiPoint\",\"coordinates\":[[1,2],[3,4]]},{\"type\":\"MultiLineString\",\"coordinates\":[[[1,2],[3,4]]],\"u\":[]}],\"v\":{}}",
 "{\"type\":\"MultiPoint\",\"coordinates\":[]}","{\"type\":\"Polygon\",\"coordinates\":[]}","{\"type\":\"LineString\",\"coordinates\":[[1,2],[3,4]],\"crs\":{\"type\":\"name\"},\"id\":-1.5e3}",
 "{\"coordinates\":[[1,2,3,4],[5,6,7,8]],\"type\":\"MultiPoint\",\"a\":1,\"b\":\"\\n\"}" };
static inline void cat_strings(std::vector<CItem>&v){
    for(auto t:WKT_T) for(int dm=0;dm<(strchr(t,'@')?4:1);dm++){ std::string s=wkt_fill(t,dm); v.push_back({"wkt "+s,[s]{ return tg_parse_wkt_ix(s.c_str(),TG_NATURAL); }});
        v.push_back({"wkb of "+s,[s]{ tg_geom*g=O(tg_parse_wkt(s.c_str())); std::string b(tg_geom_wkb(g,0,0),0); tg_geom_wkb(g,(uint8_t*)&b[0],b.size()); return tg_parse_wkb((uint8_t*)b.data(),b.size()); }});
        v.push_back({"geojson of "+s,[s]{ tg_geom*g=O(tg_parse_wkt(s.c_str())); std::string b(tg_geom_geojson(g,0,0)+1,0); tg_geom_geojson(g,&b[0],b.size()); return tg_parse_geojson(b.c_str()); }}); }
    for(auto t:JSON_T){ std::string s=t; v.push_back({"geojson "+s,[s]{ return tg_parse_geojson(s.c_str()); }}); v.push_back({"geobin of "+s,[s]{ tg_geom*g=O(tg_parse_geojson(s.c_str())); std::string b(tg_geom_geobin(g,0,0),0); tg_geom_geobin(g,(uint8_t*)&b[0],b.size()); return tg_parse_geobin((uint8_t*)b.data(),b.size()); }}); }
    for(const char*s:{"POINT(1 2","","{","{\"type\":\"Nope\"}","LINESTRING(1 2)"}){ std::string q=s; v.push_back({"error of "+q,[q]{ return tg_parse_wkt(q.c_str()); }}); v.push_back({"json error of "+q,[q]{ return tg_parse_geojson(q.c_str()); }}); }
    v.push_back({"error",[]{ return tg_geom_new_error("an error message"); }}); }
static inline tg_line*cat_line(int n,enum tg_index ix){ Pts p=saw_line(n,3); return tg_line_new_ix(tp(p),p.size(),ix); }
static inline tg_ring*cat_ring(int kind,enum tg_index ix,double dx=0){ Pts p; switch(kind){ case 0: p={{0,0},{4,0},{4,4},{0,0}}; break; case 1: p={{0,0},{4,0},{4,4},{1,2},{0,4}}; break; case 2: p=comb_ring(20,3); break; case 3: p=closed(round_ring(100)); break; case 4: p={}; break; case 5: p={{1,1},{2,2}}; break; } for(auto&q:p) q.x+=dx; return tg_ring_new_ix(tp(p),p.size(),ix); }
static inline void cat_build(std::vector<CItem>&v,bool big=true){
    typedef enum tg_index X; const char*xn[]={"default","none","natural","ystripes"};
    for(int n:{0,1,2,3,40,300}) for(int x=1;x<=2;x++){ v.push_back({"line of "+std::to_string(n)+" "+xn[x],[=]{ return (tg_geom*)cat_line(n,(X)x); }}); v.push_back({"linestring of line of "+std::to_string(n)+" "+xn[x],[=]{ auto l=O(cat_line(n,(X)x)); auto g=tg_geom_new_linestring(l); return g; }});
        for(int d=1;d<4;d++) for(int nc:{0,1,n*(d==3?2:1),n*2+3}) v.push_back({"linestring of "+std::to_string(n)+" "+xn[x]+" dim "+std::to_string(d)+" extra "+std::to_string(nc),[=]{ auto l=O(cat_line(n,(X)x)); std::vector<double> c; for(int i=0;i<nc;i++) c.push_back(i*1.5-3); auto g=(d==1?tg_geom_new_linestring_z:d==2?tg_geom_new_linestring_m:tg_geom_new_linestring_zm)(l,c.data(),nc); return g; }}); }
    for(int k=0;k<6;k++) for(int x=1;x<=3;x++){ std::string nm="ring "+std::to_string(k)+" "+xn[x]; v.push_back({nm,[=]{ return (tg_geom*)cat_ring(k,(X)x); }});
        v.push_back({"polygon of "+nm,[=]{ auto r=O(cat_ring(k,(X)x)); auto p=O(tg_poly_new(r,0,0)); auto g=tg_geom_new_polygon(p); return g; }});
        v.push_back({"poly with holes of "+nm,[=]{ auto r=O(cat_ring(k,(X)x)),h=O(cat_ring(0,(X)x)),h2=O(cat_ring(2,(X)x,100)); const tg_ring*hs[]={h,h2,h}; return (tg_geom*)tg_poly_new(r,hs,3); }});
        for(int d=1;d<4;d++) for(int nc:{0,7}) v.push_back({"polygon with hole of "+nm+" dim "+std::to_string(d)+" extra "+std::to_string(nc),[=]{ auto r=O(cat_ring(k,(X)x)),h=O(cat_ring(1,(X)x,50)); const tg_ring*hs[]={h}; auto p=O(tg_poly_new(r,hs,1)); std::vector<double> c; for(int i=0;i<nc;i++) c.push_back(i*1.5-3); auto g=(d==1?tg_geom_new_polygon_z:d==2?tg_geom_new_polygon_m:tg_geom_new_polygon_zm)(p,c.data(),nc); return g; }}); }
    v.push_back({"point",[]{ return tg_geom_new_point({1,2}); }}); v.push_back({"point z",[]{ return tg_geom_new_point_z({1,2},3); }}); v.push_back({"point m",[]{ return tg_geom_new_point_m({1,2},3); }}); v.push_back({"point zm",[]{ return tg_geom_new_point_zm({1,2},3,4); }});
    static tg_geom*(*em[])()={tg_geom_new_point_empty,tg_geom_new_linestring_empty,tg_geom_new_polygon_empty,tg_geom_new_multipoint_empty,tg_geom_new_multilinestring_empty,tg_geom_new_multipolygon_empty,tg_geom_new_geometrycollection_empty}; for(int i=0;i<7;i++) v.push_back({"empty "+std::to_string(i),[=]{ return em[i](); }});
    std::vector<int> ns={0,1,3,63,64,70}; if(big) ns.push_back(1100);
    for(int n:ns){ std::string N=std::to_string(n); auto pts=[=]{ Pts p; for(int i=0;i<n;i++) p.push_back({(double)(i*7%33),(double)(i*5%41)}); return p; }; auto xc=[](int k){ std::vector<double> c; for(int i=0;i<k;i++) c.push_back(i*0.5); return c; };
        v.push_back({"multipoint of "+N,[=]{ Pts p=pts(); return tg_geom_new_multipoint(tp(p),n); }});
        for(int d=1;d<4;d++) v.push_back({"multipoint of "+N+" dim "+std::to_string(d),[=]{ Pts p=pts(); auto c=xc(n*(d==3?2:1)); return (d==1?tg_geom_new_multipoint_z:d==2?tg_geom_new_multipoint_m:tg_geom_new_multipoint_zm)(tp(p),n,c.data(),c.size()); }});
        for(int d=0;d<4;d++) if(d==0||n<70){ v.push_back({"multilinestring of "+N+" dim "+std::to_string(d),[=]{ std::vector<tg_line*> l; for(int i=0;i<n;i++) l.push_back(O(i>2&&i%2?tg_line_clone(l[0]):cat_line(i%5==4?40:2+i%3,TG_NATURAL))); auto c=xc(n*4); auto L=(const tg_line*const*)l.data(); tg_geom*g=d==0?tg_geom_new_multilinestring(L,n):(d==1?tg_geom_new_multilinestring_z:d==2?tg_geom_new_multilinestring_m:tg_geom_new_multilinestring_zm)(L,n,c.data(),c.size()); return g; }});
            v.push_back({"multipolygon of "+N+" dim "+std::to_string(d),[=]{ std::vector<tg_poly*> l; for(int i=0;i<n;i++){ auto r=O(cat_ring(i%9==8?2:i%2,(X)(1+i%3),i*10)),h=O(cat_ring(0,TG_NONE,i*10)); const tg_ring*hs[]={h}; l.push_back(O(i>2&&i%4==3?tg_poly_clone(l[0]):tg_poly_new(r,hs,i%3==1))); } auto c=xc(n*4); auto L=(const tg_poly*const*)l.data(); tg_geom*g=d==0?tg_geom_new_multipolygon(L,n):(d==1?tg_geom_new_multipolygon_z:d==2?tg_geom_new_multipolygon_m:tg_geom_new_multipolygon_zm)(L,n,c.data(),c.size()); return g; }}); }
        v.push_back({"collection of "+N,[=]{ std::vector<tg_geom*> l; for(int i=0;i<n;i++) l.push_back(O(i%6==0?tg_geom_new_point({(double)i,1}):i%6==1?(tg_geom*)cat_line(3+i%4,TG_NONE):i%6==2?(tg_geom*)cat_ring(i%3,TG_YSTRIPES,i):i%6==3?tg_geom_clone(l[0]):i%6==4?tg_geom_new_linestring_empty():tg_parse_geojson(JSON_T[i%20]))); auto g=tg_geom_new_geometrycollection((const tg_geom*const*)l.data(),n); return g; }}); }
}
static inline std::vector<CItem> catalogue(bool big=true){ std::vector<CItem> v; cat_strings(v); cat_build(v,big); return v; }
