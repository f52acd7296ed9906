// Decimal numbers that are hard to read: next to the middle between two doubles, extremes, long ones.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
using std::string; using std::vector;
static inline vector<string> hardnumbers(bool big){ vector<string> v; auto dec=[](double d,int p){ char b[1200]; snprintf(b,sizeof b,"%.*e",p,d); return string(b); };
    auto exact=[&](long double x){ char b[1400]; snprintf(b,sizeof b,"%.*Le",800,x); string s=b; return s; }; (void)dec;
    // halfway between neighbours, exactly, just below and just above (long double holds the midpoint of two doubles)
    for(int e=-1074;e<=1023;e+=big?1:7) for(uint64_t m:{0ull,1ull,2ull,0xfffffffffffffull,0x8000000000000ull,0x5555555555555ull}){ uint64_t u=e<-1022?(1ull<<(e+1074))+m%((1ull<<(e+1074))):((uint64_t)(e+1023)<<52)|m; double d; memcpy(&d,&u,8); uint64_t w=u+1; double f; memcpy(&f,&w,8); if(!std::isfinite(f)) continue; long double h=((long double)d+f)/2; string s=exact(h); size_t E=s.find('e'); string man=s.substr(0,E),ex=s.substr(E); size_t z=man.find_last_not_of('0'); man.resize(z+1); if(man.back()=='.') man+='0'; v.push_back(man+ex); v.push_back(man+"1"+ex); v.push_back(man+"00000000000000000000000000000000000000000000000000000001"+ex); string lo=man; size_t q=lo.size()-1; while(lo[q]=='0'||lo[q]=='.') q--; lo[q]--; v.push_back(lo+"9"+ex); v.push_back(dec(d,16)); v.push_back(dec(d,17)); }
    for(auto t:{"0","-0","0.0","1e0","1E+2","1e-2","123456789012345678901234567890","0.1","0.10000000000000000555","1.7976931348623157e308","1.7976931348623159e308","4.9e-324","2.4703282292062327e-324","2.4703282292062328e-324","2.2250738585072014e-308","2.2250738585072011e-308","9007199254740993","9007199254740992.5","9007199254740991","18446744073709551615","18446744073709551616","1e22","1e23","1e-22","1e-23","8.5e22","123e45","0.000001","1e400","1e-400","-1e400","1e99999","1e-99999","0e99999"}) v.push_back(t);
    for(int n:{15,16,17,18,19,20,21,25,30,31,32,33,60,100,300,308,309,310,400,480,500,505,508,509,510,511,512,513,514,600,768,1000,2000,5000}){ v.push_back(string(n,'1')); v.push_back("0."+string(n,'3')); v.push_back("1"+string(n,'0')); v.push_back("0."+string(n,'0')+"7"); v.push_back(string(n,'9')+"."+string(n,'9')); v.push_back("1"+string(n,'0')+"e-"+std::to_string(n)); v.push_back("0."+string(n,'0')+"1e"+std::to_string(n)); v.push_back("1."+string(n,'0')); v.push_back("-1"+string(n,'0')+".5e-"+std::to_string(n/2)); }
    return v; }
