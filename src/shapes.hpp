// Large shapes with integer vertices, each a simple ring (open vertex list) or a line.
#pragma once
#include "fam.hpp"
static inline Pts comb_ring(int teeth,int h){ Pts r={{0,-1}}; int w=teeth*2; r.push_back({(double)w,-1}); for(int i=teeth;i-->0;){ r.push_back({i*2+2.0,0}); r.push_back({i*2+1.0,(double)h}); } r.push_back({0,0}); return r; }
static inline Pts stairs_ring(int n){ Pts r; for(int i=0;i<n;i++){ r.push_back({(double)i,(double)i}); r.push_back({i+1.0,(double)i}); } r.push_back({(double)n,(double)n}); r.push_back({(double)n,n+2.0}); for(int i=n;i-->0;){ r.push_back({i+1.0,i+3.0}); r.push_back({(double)i,i+3.0}); } r.push_back({0,2}); 
    // drop repeated neighbours
    Pts o; for(auto p:r) if(o.empty()||!(o.back()==p)) o.push_back(p); return o; }
// square wave band: many horizontal and vertical edges at the same heights
static inline Pts wave_ring(int n){ Pts r; for(int i=0;i<n;i++){ double x=2*i; r.push_back({x,0}); r.push_back({x,2}); r.push_back({x+1,2}); r.push_back({x+1,0}); } r.push_back({2.0*n,0}); r.push_back({2.0*n,-2}); r.push_back({0,-2}); return r; }
static inline Pts spiral_ring(int turns){ // square spiral band, width 1
    Pts out,in; int L=turns*4; double x=0,y=0; (void)L; 
    // centre line of a square spiral with gap 2, then the parallel line one to the left
    std::vector<P> c; int dx[4]={1,0,-1,0},dy[4]={0,1,0,-1}; int len=turns*4; c.push_back({x,y}); int d=0; int left=len; bool first=true;
    while(left>1){ x+=dx[d]*left; y+=dy[d]*left; c.push_back({x,y}); d=(d+1)%4; if(!first){ if(d%2==0) left-=2; } else { first=false; } if(d%2==1&&!first&&c.size()>2) left-=2; }
    // inner offset by 1/2 keeps dyadic coordinates
    size_t n=c.size(); for(size_t i=0;i<n;i++){ P a=c[i?i-1:0],b=c[i],e=c[i+1<n?i+1:i]; double ux,uy,vx,vy; P u=i?P{b.x-a.x,b.y-a.y}:P{e.x-b.x,e.y-b.y}; P v=i+1<n?P{e.x-b.x,e.y-b.y}:u; ux=(u.x>0)-(u.x<0); uy=(u.y>0)-(u.y<0); vx=(v.x>0)-(v.x<0); vy=(v.y>0)-(v.y<0); double nx,ny; if(ux==vx&&uy==vy){ nx=-uy; ny=ux; } else { nx=-uy-vy; ny=ux+vx; } out.push_back(b); in.push_back({b.x+nx*.5,b.y+ny*.5}); }
    for(size_t i=in.size();i-->0;) out.push_back(in[i]); return out; }
static inline Pts saw_line(int n,int h){ Pts r; for(int i=0;i<n;i++) r.push_back({(double)i,(double)((i&1)?h:0)}); return r; }
static inline Pts snake_line(int n){ Pts r; for(int i=0;i<n;i++){ double y=i; if(i&1){ r.push_back({6,y}); r.push_back({0,y}); } else { r.push_back({0,y}); r.push_back({6,y}); } } return r; }
static inline Pts flat_line(int n){ Pts r; for(int i=0;i<n;i++) r.push_back({(double)i,0}); return r; }
static inline Pts round_ring(int n){ // convex, n vertices of a lattice circle-like polygon: sorted primitive vectors
    std::vector<P> v; for(int s=1;(int)v.size()<n/4+1;s++) for(int a=0;a<=s;a++){ int b=s-a; if(b==0) continue; if(std::__gcd(a,b)==1) v.push_back({(double)a,(double)b}); }
    std::sort(v.begin(),v.end(),[](P a,P b){ return a.x*b.y-a.y*b.x>0; }); 
    Pts r; P p={0,0}; std::vector<P> w=v; for(int q=0;q<4;q++){ for(auto&d:w){ r.push_back(p); p={p.x+d.x,p.y+d.y}; } for(auto&d:w) d={-d.y,d.x}; } return r; }

// one ring with exactly n vertices: flat below, a profile above (0 teeth, 1 level edges, 2 uneven teeth, 3 slope), lying or standing
static inline Pts profile_ring(int n,int kind,bool standing){ Pts p; if(n==3) p={{0,-1},{3,-1},{1,4}}; else { int k=n-2; p.push_back({0,-1}); p.push_back({(double)(k-1),-1}); for(int j=k-1;j>=0;j--) p.push_back({(double)j,kind==0?(j%2?2.0:4.0):kind==1?3.0+j/2%2*2:kind==2?(double)(1+j*7%5):1.0+j}); } if(standing) for(auto&q:p) q={q.y,q.x}; return p; }
