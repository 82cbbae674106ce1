// Stand-in for HMAC-SHA256 under symbolic execution: some fixed function of key and text (replays use the real one).
#include <cstddef>
#include <cstdint>
extern "C" {
const void* EVP_sha256(){ static int x; return &x; }
unsigned char* HMAC(const void*,const void*key,int kl,const unsigned char*d,size_t n,unsigned char*md,unsigned int*mdlen){
  const unsigned char*k=(const unsigned char*)key; uint32_t h[8]; for(int i=0;i<8;i++) h[i]=0x9e3779b9u*(i+1)+(uint32_t)n+(uint32_t)kl*977u;
  for(int i=0;i<kl;i++){ uint32_t&x=h[i&7]; x=((x<<5)|(x>>27))^k[i]; x+=0x85ebca6bu; h[(i+1)&7]^=x; }
  for(size_t i=0;i<n;i++){ uint32_t&x=h[i&7]; x=((x<<5)|(x>>27))^d[i]; x+=0xc2b2ae35u; h[(i+3)&7]^=x>>3; }
  for(int i=0;i<8;i++) for(int j=0;j<4;j++) md[i*4+j]=h[i]>>(8*j); if(mdlen) *mdlen=32; return md; }
}
