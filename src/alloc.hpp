// An allocator that counts, can fail at a chosen call, and fills new memory with a chosen pattern.
#pragma once
#include "tgh.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <vector>
namespace al {
struct Hdr { uint64_t magic; size_t size; Hdr*prev,*next; };
inline Hdr head; inline long live=0, bytes=0; inline long calls=0, fail_at=-1; inline bool persist=false; inline bool nothing=false; /* requests of no bytes get NULL, as C permits */ inline long nothings=0; inline long failed=0; inline uint8_t pat=0xA5; inline size_t pad=0; /* bytes of the pattern behind each block */ inline bool recording=false; inline std::vector<std::pair<char*,size_t>> rec; inline long bad=0; inline size_t peak=0;
inline void reset(){ calls=0; failed=0; }
inline bool should_fail(){ long k=calls++; if(fail_at<0) return false; if(k==fail_at||(persist&&k>fail_at)){ failed++; return true; } return false; }
inline void *raw(size_t n){ Hdr*h=(Hdr*)malloc(sizeof(Hdr)+n+pad); if(!h) return nullptr; h->magic=0x11223344A1B2C3D4ull; h->size=n; if(!head.next) head.next=head.prev=&head; h->next=head.next; h->prev=&head; head.next->prev=h; head.next=h; live++; bytes+=n; if((size_t)bytes>peak) peak=bytes; memset(h+1,pat,n+pad); if(recording) rec.push_back({(char*)(h+1),n}); return h+1; }
inline void release(void*p){ Hdr*h=(Hdr*)p-1; if(h->magic!=0x11223344A1B2C3D4ull){ bad++; abort(); } h->magic=0xDEADDEADDEADDEADull; h->prev->next=h->next; h->next->prev=h->prev; live--; bytes-=h->size; memset(p,0xDD,h->size); free(h); }
inline void *mal(size_t n){ if(should_fail()) return nullptr; if(!n&&nothing){ nothings++; return nullptr; } return raw(n); }
inline void *rea(void*p,size_t n){ if(should_fail()) return nullptr; if(!n&&nothing){ nothings++; if(p) release(p); return nullptr; } void*q=raw(n); if(!q) return nullptr; if(p){ Hdr*h=(Hdr*)p-1; if(h->magic!=0x11223344A1B2C3D4ull) abort(); memcpy(q,p,h->size<n?h->size:n); release(p); } return q; }
inline void fre(void*p){ if(p) release(p); }
// for checks of something else: new memory, and what lies behind it, holds 0x40 everywhere (the number 32.5, no pointer)
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define WITH_ASAN
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)||defined(WITH_ASAN)
#define MURKY() tg_env_set_allocator(al::mal,al::rea,al::fre)
#else
#define MURKY() (al::pat=0x40,al::pad=64,tg_env_set_allocator(al::mal,al::rea,al::fre))
#endif
}
