// Large shapes with an exact oracle: polygons made of unit cells of an N x N board, and anything else whose edges run along the eight compass directions.
// The lines x=i, y=j, x+y=k, x-y=k cut the board into nodes, edges and triangles; one sample point stands for each of them.
#pragma once
#include "fam.hpp"
static inline Grid ogrid(int N){ std::vector<P> c; for(int x=0;x<=N;x++)for(int y=0;y<=N;y++){ c.push_back({(double)x,(double)y}); double X=x,Y=y;
        if(x<N) c.push_back({X+.5,Y}); if(y<N) c.push_back({X,Y+.5});
        if(x<N&&y<N){ c.push_back({X+.5,Y+.5}); for(double a:{.25,.75}) for(double b:{.25,.75}) c.push_back({X+a,Y+b}); c.push_back({X+.5,Y+.25}); c.push_back({X+.5,Y+.75}); c.push_back({X+.25,Y+.5}); c.push_back({X+.75,Y+.5}); } }
    return Grid(N,c); }
struct Mask { std::string name; int n; std::vector<char> c; bool at(int x,int y) const { return x>=0&&y>=0&&x<n&&y<n&&c[x*n+y]; } void set(int x,int y,bool v=true){ if(x>=0&&y>=0&&x<n&&y<n) c[x*n+y]=v; } };
static inline Mask mkmask(std::string name,int n,const std::function<bool(int,int)>&f){ Mask m{name,n,std::vector<char>(n*n)}; for(int x=0;x<n;x++)for(int y=0;y<n;y++) m.set(x,y,f(x,y)); return m; }
static inline bool pinched(const Mask&m){ for(int x=0;x<=m.n;x++)for(int y=0;y<=m.n;y++){ bool a=m.at(x-1,y-1),b=m.at(x,y-1),c=m.at(x-1,y),d=m.at(x,y); if((a&&d&&!b&&!c)||(b&&c&&!a&&!d)) return true; } return false; }
static inline std::vector<int> parts_of(const Mask&m,int&k){ std::vector<int> id(m.n*m.n,-1); k=0; for(int s=0;s<m.n*m.n;s++) if(m.c[s]&&id[s]<0){ std::vector<int> st={s}; id[s]=k; while(!st.empty()){ int u=st.back(); st.pop_back(); int x=u/m.n,y=u%m.n; for(int d=0;d<4;d++){ int X=x+(d==0)-(d==1),Y=y+(d==2)-(d==3); if(m.at(X,Y)&&id[X*m.n+Y]<0){ id[X*m.n+Y]=k; st.push_back(X*m.n+Y); } } } k++; } return id; }
// boundary rings of a mask in one piece, counter-clockwise outside, clockwise holes; dense: a vertex at every unit
static inline std::vector<Pts> trace(const Mask&m,bool dense){ std::map<P,std::vector<P>> nx; for(int x=0;x<m.n;x++)for(int y=0;y<m.n;y++) if(m.at(x,y)){ double X=x,Y=y; if(!m.at(x,y-1)) nx[{X,Y}].push_back({X+1,Y}); if(!m.at(x+1,y)) nx[{X+1,Y}].push_back({X+1,Y+1}); if(!m.at(x,y+1)) nx[{X+1,Y+1}].push_back({X,Y+1}); if(!m.at(x-1,y)) nx[{X,Y+1}].push_back({X,Y}); }
    // where two empty regions meet at a corner the ring stays with the one on its right, so that both have rings of their own that touch
    std::vector<Pts> out; while(!nx.empty()){ Pts r; P s=nx.begin()->first,p=s,o=s; do{ r.push_back(p); auto it=nx.find(p); auto&v=it->second; size_t k=0; if(v.size()==2&&!(p==s)&&cross3(o,p,v[1])<0) k=1; P q=v[k]; v.erase(v.begin()+k); if(v.empty()) nx.erase(it); o=p; p=q; } while(!(p==s)); if(!dense){ Pts q; size_t n=r.size(); for(size_t i=0;i<n;i++) if(cross3(r[(i+n-1)%n],r[i],r[(i+1)%n])!=0) q.push_back(r[i]); r=q; } out.push_back(r); }
    return out; }
static inline Geo mask_poly(const Mask&m,bool dense=false){ auto rs=trace(m,dense); Pts ext; std::vector<Pts> hs; for(auto&r:rs) if(area2(r)>0) ext=r; else hs.push_back(r); return g_poly(ext,hs); }
static inline Loc mask_loc(const Grid&g,const Mask&m){ Loc l; l.I.assign(g.nw,0); l.B.assign(g.nw,0); for(size_t i=0;i<g.cells.size();i++){ P p=g.cells[i]; int x0=(int)ceil(p.x)-1,x1=(int)floor(p.x),y0=(int)ceil(p.y)-1,y1=(int)floor(p.y); int all=0,in=0; for(int x=x0;x<=x1;x++)for(int y=y0;y<=y1;y++){ all++; in+=m.at(x,y); } if(in==all) l.I[i>>6]|=1ull<<(i&63); else if(in) l.B[i>>6]|=1ull<<(i&63); } return l; }
static inline bool good(const Mask&m,bool pinch=true){ int k; parts_of(m,k); return k==1&&(pinch||!pinched(m)); }
// the catalogue: every mask lies in [2,n-2)
static inline std::vector<Mask> masks(int n,int a=2){ std::vector<Mask> v; int b=n-a,w=b-a; auto add=[&](std::string name,std::function<bool(int,int)> f){ Mask m=mkmask(name,n,[&](int x,int y){ return x>=a&&y>=a&&x<b&&y<b&&f(x-a,y-a); }); if(!good(m)){ fprintf(stderr,"mask %s is not a polygon\n",name.c_str()); abort(); } v.push_back(m); };
    add("square",[](int,int){ return true; });
    add("comb-up",[](int x,int y){ return y==0||x%2==0; }); add("comb-down",[=](int x,int y){ return y==w-1||x%2==0; }); add("comb-right",[](int x,int y){ return x==0||y%2==0; }); add("comb-left",[=](int x,int y){ return x==w-1||y%2==0; });
    add("comb-both",[=](int x,int y){ return y==w/2||x%2==0; }); add("comb-wide",[](int x,int y){ return y<2||x%4<2; }); add("comb-steps",[](int x,int y){ return y==0||(x%2==0&&y<=x); });
    add("stairs",[](int x,int y){ return y<=x; }); add("stairs-down",[=](int x,int y){ return y<=w-1-x; }); add("stairs-2",[](int x,int y){ return y/2<=x/2; }); add("pyramid",[=](int x,int y){ return y<=x&&y<=w-1-x; });
    add("band",[](int x,int y){ return y==x||y==x+1; }); add("band-3",[](int x,int y){ return abs(x-y)<=1; }); add("band-down",[=](int x,int y){ int u=w-1-x; return y==u||y==u+1; }); add("cross-bands",[=](int x,int y){ int u=w-1-x; return abs(x-y)<=1||abs(u-y)<=1; });
    add("serpent",[=](int x,int y){ return y%2==0||(y%4==1?x==w-1:x==0); }); add("serpent-up",[=](int x,int y){ return x%2==0||(x%4==1?y==w-1:y==0); });
    { std::vector<char> s(w*w); int x=0,y=0,dx=1,dy=0; s[0]=1; auto at=[&](int X,int Y){ return X>=0&&Y>=0&&X<w&&Y<w&&s[X*w+Y]; }; auto free=[&](int X,int Y){ return X>=0&&Y>=0&&X<w&&Y<w&&!s[X*w+Y]; };
      for(int turns=0;turns<2;){ int X=x+dx,Y=y+dy; if(free(X,Y)&&!at(X+dx,Y+dy)&&!at(X-dy,Y+dx)&&!at(X+dy,Y-dx)){ s[X*w+Y]=1; x=X; y=Y; turns=0; } else { int t=dx; dx=-dy; dy=t; turns++; } }
      add("spiral",[&](int x,int y){ return (bool)s[x*w+y]; }); add("spiral-wall",[&](int x,int y){ int X=x-1,Y=y-1; return x==0||y==0||x==w-1||y==w-1||false||!((X>=0&&Y>=0&&X<w-2&&Y<w-2)&&(X%4==1)&&Y>0&&Y<w-3); }); }
    // a spanning tree of the even cells: odd in-between cells join them
    for(int k=0;k<3;k++){ int h=w/2; std::vector<char> s(w*w),seen(h*h); std::function<void(int,int)> go=[&](int x,int y){ seen[x*h+y]=1; s[2*x*w+2*y]=1; for(int t=0;t<4;t++){ int d=k==0?(t+x+2*y)%4:k==1?(t*3+x*y+y)%4:(t+(x>>1)+(y>>1))%4; int X=x+(d==0)-(d==1),Y=y+(d==2)-(d==3); if(X<0||Y<0||X>=h||Y>=h||seen[X*h+Y]) continue; s[(x+X)*w+y+Y]=1; go(X,Y); } }; go(k==2?h/2:0,k?h/2:0);
      std::string nm="tree"; nm+=char('0'+k); add(nm,[&](int x,int y){ return (bool)s[x*w+y]; }); }
    for(int c:{1,2,3,4,7,8,9,15,16,17,31,32,33,63,64,65,81}){ char nm[16]; snprintf(nm,16,"holes-%d",c); int q=(w-1)/2; add(nm,[=](int x,int y){ if(x%2==0||y%2==0||x/2>=q||y/2>=q) return true; return (x/2)*q+y/2>=c; }); }
    add("holes-wide",[=](int x,int y){ return x%3==0||y%3==0||x>=(w-1)/3*3||y>=(w-1)/3*3; }); add("slots",[=](int x,int y){ return x%2==0||y==0||y>=w-1||x>=w-1; }); add("slots-across",[=](int x,int y){ return y%2==0||x==0||x>=w-1||y>=w-1; });
    add("frame",[=](int x,int y){ return x==0||y==0||x==w-1||y==w-1; }); add("frame-2",[=](int x,int y){ return x<2||y<2||x>=w-2||y>=w-2; }); add("cut-frame",[=](int x,int y){ return (x==0||y==0||x==w-1||y==w-1)&&!(x==w-1&&y==w/2); }); add("comb-hole",[=](int x,int y){ return x<1||y<1||x>=w-1||y>=w-1||!(y==1||(x%2==1&&y<w-1)); }); add("tree-hole",[=](int x,int y){ return x<1||y<1||x>=w-1||y>=w-1||!(x==y||x==y+1); });
    // holes that touch each other, or the outside, at a corner
    add("pinch-diagonal",[=](int x,int y){ return x!=y||x==0||x>=w-1; }); add("pinch-notch",[=](int x,int y){ return x!=y||x>=w-1; }); add("pinch-zigzag",[=](int x,int y){ return x==0||x>=w-1||y!=1+x%2; }); add("pinch-border",[=](int x,int y){ return !(x>0&&x<w-1&&((x%4==1&&y==1)||(x%4==2&&y==0)||(x%4==3&&y==w-2)||(x%4==0&&y==w-1))); }); add("pinch-cross",[=](int x,int y){ int W=w%2?w:w-1; return x==0||y==0||x>=W-1||y>=W-1||(x!=y&&x+y!=W-1); });
    add("pinch-fan",[=](int x,int y){ int c=w/2; if(x==0||y==0||x>=w-1||y>=w-1) return true; int dx=x-c,dy=y-c; return !((dx>=0&&dy>=0)||(dx<0&&dy<0)); }); add("pinch-pairs",[=](int x,int y){ return x==0||y==0||x>=w-1||y>=w-1||!((x%4==1&&y%4==1)||(x%4==2&&y%4==2)); });
    return v; }
static inline Mask shifted(const Mask&m,int dx,int dy){ Mask o=m; for(int x=0;x<m.n;x++)for(int y=0;y<m.n;y++) o.set(x,y,m.at(x-dx,y-dy)); return o; }
static inline Loc olocate(const Grid&g,const Geo&q){ Loc l; l.I.assign(g.nw,0); l.B.assign(g.nw,0); double x0=1e9,x1=-1e9,y0=1e9,y1=-1e9; auto grow=[&](const Pts&v){ for(auto&p:v){ x0=std::min(x0,p.x); x1=std::max(x1,p.x); y0=std::min(y0,p.y); y1=std::max(y1,p.y); } }; grow(q.pts); for(auto&l:q.lines) grow(l); for(auto&p:q.polys) grow(p.ext);
    for(size_t i=0;i<g.cells.size();i++){ P p=g.cells[i]; if(p.x<x0||p.x>x1||p.y<y0||p.y>y1) continue; bool in=false,bd=false; set_prim_loc(q,p,in,bd); if(in) l.I[i>>6]|=1ull<<(i&63); else if(bd) l.B[i>>6]|=1ull<<(i&63); } return l; }
static inline Pts turned(const Pts&v,int n){ Pts o; for(auto p:v) o.push_back({p.x+p.y,p.x-p.y+n}); return o; }
static inline Geo turned(const Geo&g,int n){ Geo o=g; for(auto&l:o.lines) l=turned(l,n); for(auto&p:o.polys){ p.ext=turned(p.ext,n); for(auto&h:p.holes) h=turned(h,n); } return o; }
