// Exhaustive exploration of finite case spaces against the real library.
//
// A harness registers spaces (a name, a number of cases, a function that runs
// case i and a function that writes it out).  The explorer runs every case of
// every space, sharded over worker processes that share nothing but counters,
// so a crash or a hang costs one worker and is attributed to the case it was
// in.  Nothing is sampled: the run is complete when every index was taken.
#pragma once
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

struct Fail { char key[96]; char where[64]; char desc[3000]; char msg[3000]; };
enum { MAXFAIL=160, MAXW=64, LOGBITS=28 };
struct Slot { std::atomic<uint64_t> cur,end,beat; };
struct Shared {
    std::atomic<uint64_t> next, cases, trans, nontriv, states;
    std::atomic<uint32_t> nfail, stop;
    std::atomic<uint64_t> counter[64];
    Slot slot[MAXW];
    Fail fail[MAXFAIL];
    std::atomic<uint64_t> known[32]; Fail knownex[32];
    std::atomic<uint64_t> bits[1ull<<(LOGBITS-6)];
};
struct Space { std::string name; uint64_t n; std::function<void(uint64_t)> run; std::function<std::string(uint64_t)> desc; uint64_t first; bool isolate; uint32_t block; };

inline Shared *S=nullptr;
inline std::vector<Space> spaces;
inline std::vector<std::string> counter_names;
inline std::string tier="quick", prop, errfile;
inline int cur_space=-1; inline uint64_t cur_case=0;
inline uint64_t l_trans=0,l_cases=0,l_nontriv=0;
inline bool verbose=false, small=false, boost=false;
inline bool thorough(){ return boost||tier=="thorough"; } // boost: the quick tier takes the bounds of the thorough one
inline bool deep(){ return tier=="thorough"; }

inline uint64_t hash(const void*p,size_t n,uint64_t h=1469598103934665603ull){ const uint8_t*b=(const uint8_t*)p; for(size_t i=0;i<n;i++){ h^=b[i]; h*=1099511628211ull; } h^=h>>29; h*=0xbf58476d1ce4e5b9ull; return h^(h>>32); }
inline uint64_t hash(const std::string&s){ return hash(s.data(),s.size()); }
// counts a distinct state (a canonical input or a canonical observed object)
inline void state(uint64_t h){ h^=h>>31; h*=0x94d049bb133111ebull; h^=h>>30; uint64_t b=h&((1ull<<LOGBITS)-1); uint64_t m=1ull<<(b&63);
    auto&w=S->bits[b>>6]; if(w.load(std::memory_order_relaxed)&m) return; uint64_t o=w.fetch_or(m,std::memory_order_relaxed); if(!(o&m)) S->states.fetch_add(1,std::memory_order_relaxed); }
inline int cur_worker=-1;
inline void alive(){ if(cur_worker>=0) S->slot[cur_worker].beat.fetch_add(1,std::memory_order_relaxed); } // a long case that makes progress
inline void trans(uint64_t k=1){ l_trans+=k; }
inline void nontrivial(uint64_t k=1){ l_nontriv+=k; }
inline void count(const char*name,uint64_t k=1){ for(size_t i=0;i<counter_names.size();i++) if(counter_names[i]==name){ S->counter[i].fetch_add(k,std::memory_order_relaxed); return; } }
inline void declare_counter(const char*name){ counter_names.push_back(name); }

inline std::vector<std::string> known_keys;
inline void add_fail(const char*key,const char*msg){
    for(size_t i=0;i<known_keys.size()&&i<32;i++) if(known_keys[i]==key){ if(S->known[i].fetch_add(1)) return; // a listed finding: keep one example
        Fail&f=S->knownex[i]; snprintf(f.key,sizeof f.key,"%s",key); snprintf(f.msg,sizeof f.msg,"%s",msg); snprintf(f.where,sizeof f.where,"%s:%llu",spaces[cur_space].name.c_str(),(unsigned long long)cur_case);
        std::string d=spaces[cur_space].desc?spaces[cur_space].desc(cur_case):""; snprintf(f.desc,sizeof f.desc,"%s",d.c_str()); return; }
    uint32_t k=S->nfail.fetch_add(1); if(k>=MAXFAIL){ S->stop=1; return; }
    Fail&f=S->fail[k]; snprintf(f.key,sizeof f.key,"%s",key); snprintf(f.msg,sizeof f.msg,"%s",msg);
    snprintf(f.where,sizeof f.where,"%s:%llu",cur_space>=0?spaces[cur_space].name.c_str():"?",(unsigned long long)cur_case);
    std::string d=cur_space>=0&&spaces[cur_space].desc?spaces[cur_space].desc(cur_case):""; snprintf(f.desc,sizeof f.desc,"%s",d.c_str());
    if(verbose) printf("FAIL %s at %s: %s\n   case: %s\n",key,f.where,msg,d.c_str());
}
__attribute__((format(printf,2,3))) inline void fail(const char*key,const char*fmt,...){ char b[3000]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a); add_fail(key,b); }

inline void space(std::string name,uint64_t n,std::function<void(uint64_t)> run,std::function<std::string(uint64_t)> desc,uint32_t block=0){
    Space s; s.name=name; s.n=n; s.run=run; s.desc=desc; s.first=spaces.empty()?0:spaces.back().first+spaces.back().n; s.isolate=false; s.block=block; spaces.push_back(s); }
inline uint64_t total(){ return spaces.empty()?0:spaces.back().first+spaces.back().n; }
inline int space_of(uint64_t g){ int lo=0,hi=(int)spaces.size()-1; while(lo<hi){ int m=(lo+hi+1)/2; if(spaces[m].first<=g) lo=m; else hi=m-1; } while(spaces[lo].n==0) lo++; return lo; }
inline void flush(){ S->trans+=l_trans; S->cases+=l_cases; S->nontriv+=l_nontriv; l_trans=l_cases=l_nontriv=0; }

inline double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
inline void run_one(uint64_t g){ int si=space_of(g); cur_space=si; cur_case=g-spaces[si].first; spaces[si].run(cur_case); }

inline void worker(int w,uint64_t block){
    Slot&sl=S->slot[w]; cur_worker=w;
    for(;;){
        uint64_t a=sl.cur.load(),e=sl.end.load();
        if(a>=e){ if(S->stop) break; a=S->next.fetch_add(block); if(a>=total()) break; e=a+block<total()?a+block:total(); sl.end=e; sl.cur=a; }
        for(;a<e;a++){ sl.cur.store(a,std::memory_order_relaxed); sl.beat.fetch_add(1,std::memory_order_relaxed); run_one(a); l_cases++; if(S->stop) break; }
        flush(); sl.cur=e;
    }
    flush(); fflush(stdout); _exit(0);
}
// runs cases [a,e) in a child. returns 0 fine, 1 crash, 2 timeout
inline int probe(uint64_t a,uint64_t e,double limit,std::string&how,bool report){
    uint32_t before=S->nfail; fflush(stdout); pid_t p=fork();
    if(!p){ int fd=open(errfile.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); if(fd>=0){dup2(fd,2);close(fd);} for(;a<e;a++) run_one(a); _exit(0);} 
    double t0=now(); int st=0;
    for(;;){ pid_t r=waitpid(p,&st,WNOHANG); if(r==p) break; if(now()-t0>limit){ kill(p,SIGKILL); waitpid(p,&st,0); how="no answer within "+std::to_string((int)limit)+" s"; if(!report) S->nfail=before; return 2; } usleep(2000); }
    if(!report) { if(S->nfail>before) S->nfail=before; }
    if(WIFEXITED(st)&&WEXITSTATUS(st)==0) return 0;
    how=WIFSIGNALED(st)?"killed by signal "+std::to_string(WTERMSIG(st)):"exit "+std::to_string(WEXITSTATUS(st));
    FILE*f=fopen(errfile.c_str(),"r"); if(f){ char ln[400]; int k=0; while(fgets(ln,sizeof ln,f)&&k<12){ if(strstr(ln,"ERROR")||strstr(ln,"runtime error")||strstr(ln,"SUMMARY")||strstr(ln,"#0 ")||strstr(ln,"#1 ")||strstr(ln,"#2 ")||strstr(ln,"ssert")){ ln[strcspn(ln,"\n")]=0; how+=std::string(" | ")+ln; k++; } } fclose(f);} 
    return 1;
}
static inline void jstr(FILE*f,const char*s){ fputc('"',f); for(;*s;s++){ unsigned char c=*s; if(c=='"'||c=='\\') fprintf(f,"\\%c",c); else if(c<32||c>126) fprintf(f,"\\u%04x",c); else fputc(c,f);} fputc('"',f); }

struct Opts { int workers=8; double hang=20, limit=0; std::string out; std::string replay; bool list=false; };
inline Opts opts;

inline void init(int argc,char**argv){
    for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(i+1<argc?argv[++i]:""); };
        if(a=="--small") small=true; else if(a=="--boost") boost=true; else if(a=="--prop") prop=nx(); else if(a=="--tier") tier=nx(); else if(a=="--out") opts.out=nx(); else if(a=="--workers") opts.workers=atoi(nx().c_str());
        else if(a=="--replay") opts.replay=nx(); else if(a=="--hang") opts.hang=atof(nx().c_str()); else if(a=="--limit") opts.limit=atof(nx().c_str()); else if(a=="--known") known_keys.push_back(nx()); else if(a=="--list") opts.list=true; else { fprintf(stderr,"bad arg %s\n",a.c_str()); exit(2);} }
    S=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if(S==MAP_FAILED){ perror("mmap"); exit(2);} 
    char t[]="/tmp/mcerr.XXXXXX"; int fd=mkstemp(t); if(fd>=0) close(fd); errfile=t;
    rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
}
inline int finish(){ // explores everything registered
    if(opts.list){ for(auto&s:spaces) printf("%s %llu\n",s.name.c_str(),(unsigned long long)s.n); unlink(errfile.c_str()); return 0; }
    if(!opts.replay.empty()){
        verbose=true; size_t c=opts.replay.rfind(':'); std::string n=opts.replay.substr(0,c); uint64_t i=strtoull(opts.replay.c_str()+c+1,0,10);
        for(auto&s:spaces) if(s.name==n){ std::string how; int r=probe(s.first+i,s.first+i+1,300,how,true);
            printf("case %s: %s\n",opts.replay.c_str(),s.desc?s.desc(i).c_str():""); if(r) printf("%s: %s\n",r==2?"HANG":"CRASH",how.c_str());
            int bad=r||S->nfail; printf("%s\n",bad?"REPRODUCED":"no failure"); unlink(errfile.c_str()); return bad?1:0; }
        fprintf(stderr,"no such space\n"); return 2; }
    double t0=now(); uint64_t N=total(); int W=opts.workers; uint64_t block=N/(W*64)+1; if(block>4096) block=4096;
    for(auto&s:spaces) if(s.block&&s.block<block) block=s.block;
    struct WS{ pid_t pid; uint64_t beat; double t; }; std::vector<WS> ws(W); int alive=0, crashes=0; bool complete=true;
    auto spawn=[&](int w){ fflush(stdout); pid_t p=fork(); if(!p){ int fd=open("/dev/null",O_WRONLY); if(fd>=0){dup2(fd,2);} worker(w,block);} if(p<0){ perror("fork"); exit(2);} ws[w]={p,S->slot[w].beat.load(),now()}; alive++; };
    for(int w=0;w<W;w++) spawn(w);
    auto dead=[&](int w,bool hung,int st){
        uint64_t g=S->slot[w].cur.load(),e=S->slot[w].end.load(); (void)e; 
        if(g>=N){ return; }
        std::string how; int si=space_of(g); int s0=cur_space; uint64_t c0=cur_case; 
        int r=probe(g,g+1,40,how,false);
        if(!r){ uint64_t b=g>block?g-block:0; if(b<spaces[si].first) b=spaces[si].first; r=probe(b,g+1,hung?60:40,how,false); if(r) how="after the cases before it: "+how; }
        if(r){ cur_space=si; cur_case=g-spaces[si].first; add_fail(r==2?"hang":"crash",how.c_str()); crashes+=r==2?4:1; }
        else if(!hung) fprintf(stderr,"worker died (status %d) in %s:%llu, not reproduced\n",st,spaces[si].name.c_str(),(unsigned long long)(g-spaces[si].first));
        cur_space=s0; cur_case=c0; S->slot[w].cur=g+1; if(crashes>=12) S->stop=1;
        spawn(w);
    };
    while(alive){
        int st; pid_t p=waitpid(-1,&st,WNOHANG);
        if(p>0){ for(int w=0;w<W;w++) if(ws[w].pid==p){ ws[w].pid=0; alive--; if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)) dead(w,false,st); break; } continue; }
        double t=now();
        for(int w=0;w<W;w++) if(ws[w].pid){ uint64_t b=S->slot[w].beat.load(); if(b!=ws[w].beat){ ws[w].beat=b; ws[w].t=t; } else if(t-ws[w].t>opts.hang){ kill(ws[w].pid,SIGKILL); waitpid(ws[w].pid,&st,0); ws[w].pid=0; alive--; dead(w,true,st); } }
        if(opts.limit>0&&t-t0>opts.limit) S->stop=1; // out of time: reported as not exhaustive
        usleep(5000);
    }
    if(S->stop) complete=false;
    uint32_t nf=S->nfail; if(nf>MAXFAIL) nf=MAXFAIL;
    FILE*f=opts.out.empty()?stdout:fopen(opts.out.c_str(),"w"); if(!f){ perror("out"); return 2; }
    fprintf(f,"{\"cases\":%llu,\"total\":%llu,\"states\":%llu,\"transitions\":%llu,\"nontrivial\":%llu,\"complete\":%s,\"wall\":%.3f,\n\"spaces\":{",(unsigned long long)S->cases,(unsigned long long)N,(unsigned long long)S->states,(unsigned long long)S->trans,(unsigned long long)S->nontriv,complete?"true":"false",now()-t0);
    for(size_t i=0;i<spaces.size();i++){ if(i) fputc(',',f); jstr(f,spaces[i].name.c_str()); fprintf(f,":%llu",(unsigned long long)spaces[i].n);} 
    fprintf(f,"},\n\"counters\":{"); for(size_t i=0;i<counter_names.size();i++){ if(i) fputc(',',f); jstr(f,counter_names[i].c_str()); fprintf(f,":%llu",(unsigned long long)S->counter[i].load()); }
    fprintf(f,"},\n\"samples\":["); int k=0; for(auto&s:spaces) if(s.n&&s.desc&&k<12){ uint64_t ix[2]={s.n/3,s.n/2+s.n/7}; for(int q=0;q<2&&k<12;q++){ if(ix[q]>=s.n) continue; if(k++) fputc(',',f); std::string d=s.name+":"+std::to_string(ix[q])+" "+s.desc(ix[q]); if(d.size()>400) d.resize(400); jstr(f,d.c_str()); } }
    fprintf(f,"],\n\"fails\":["); for(uint32_t i=0;i<nf;i++){ if(i) fprintf(f,",\n"); Fail&x=S->fail[i]; fprintf(f,"{\"key\":"); jstr(f,x.key); fprintf(f,",\"where\":"); jstr(f,x.where); fprintf(f,",\"desc\":"); jstr(f,x.desc); fprintf(f,",\"msg\":"); jstr(f,x.msg); fprintf(f,"}"); }
    fprintf(f,"],\n\"known\":["); k=0; for(size_t i=0;i<known_keys.size()&&i<32;i++) if(S->known[i]){ Fail&x=S->knownex[i]; if(k++) fprintf(f,",\n"); fprintf(f,"{\"n\":%llu,\"key\":",(unsigned long long)S->known[i].load()); jstr(f,x.key); fprintf(f,",\"where\":"); jstr(f,x.where); fprintf(f,",\"desc\":"); jstr(f,x.desc); fprintf(f,",\"msg\":"); jstr(f,x.msg); fprintf(f,"}"); }
    fprintf(f,"]}\n"); if(f!=stdout) fclose(f);
    unlink(errfile.c_str()); return 0;
}
} // namespace mc
