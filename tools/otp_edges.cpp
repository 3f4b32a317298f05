// Searches the counters for otp_edges in harness/otp_gen.hpp: clang++ -O3 -march=native otp_edges.cpp -lpthread (half a minute)
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <atomic>
#include <map>
#include <mutex>
#include <thread>
#include <vector>
typedef uint32_t V __attribute__((vector_size(32)));
static inline V rol(V x,int n){return (x<<n)|(x>>(32-n));}
static void comp(V s[5], V w[16]){
  V a=s[0],b=s[1],c=s[2],d=s[3],e=s[4];
  #pragma clang loop unroll(full)
  for(int i=0;i<80;i++){
    if(i>=16) w[i&15]=rol(w[(i-3)&15]^w[(i-8)&15]^w[(i-14)&15]^w[i&15],1);
    V f;uint32_t k;
    if(i<20){f=(b&c)|(~b&d);k=0x5A827999;}else if(i<40){f=b^c^d;k=0x6ED9EBA1;}else if(i<60){f=(b&c)|(b&d)|(c&d);k=0x8F1BBCDC;}else{f=b^c^d;k=0xCA62C1D6;}
    V t=rol(a,5)+f+e+k+w[i&15];e=d;d=c;c=rol(b,30);b=a;a=t;
  }
  s[0]+=a;s[1]+=b;s[2]+=c;s[3]+=d;s[4]+=e;
}
static V sp(uint32_t x){return V{}+x;}
int main(){
  const char*key="12345678901234567890";
  V st[2][5];
  for(int q=0;q<2;q++){
    uint8_t b[64];memset(b,q?0x5c:0x36,64);for(int i=0;i<20;i++)b[i]^=key[i];
    V w[16];for(int i=0;i<16;i++)w[i]=sp((uint32_t)b[4*i]<<24|b[4*i+1]<<16|b[4*i+2]<<8|b[4*i+3]);
    uint32_t h[5]={0x67452301,0xEFCDAB89,0x98BADCFE,0x10325476,0xC3D2E1F0};
    for(int i=0;i<5;i++)st[q][i]=sp(h[i]);
    comp(st[q],w);
  }
  std::map<uint32_t,uint64_t> found;
  for(uint32_t v:{0u,1u,0x7fffffffu,0x7ffffffeu,0x40000000u,0x3fffffffu,2000000000u,1999999999u,65535u,65536u})found[v]=~0ull;
  uint32_t p=10;for(int k=1;k<=9;k++,p*=10){found[p]=~0ull;found[p-1]=~0ull;}
  std::vector<bool> is(1u<<31);for(auto&f:found)is[f.first]=1;
  // bloom on low 16 bits
  std::vector<uint8_t> bl(65536);for(auto&f:found)bl[f.first&0xffff]=1;
  std::mutex m;std::atomic<uint64_t> next{0};std::atomic<int> left{(int)found.size()};
  auto run=[&]{
    while(left>0){
      uint64_t base=next.fetch_add(1<<20);
      if(base>>36)return;
      for(uint64_t c=base;c<base+(1<<20);c+=8){
        V s[5],w[16];memcpy(s,st[0],sizeof s);
        for(auto&x:w)x=V{};
        w[0]=sp(c>>32);for(int l=0;l<8;l++)w[1][l]=(uint32_t)c+l;
        w[2]=sp(0x80000000);w[15]=sp((64+8)*8);
        comp(s,w);
        V o[5];memcpy(o,st[1],sizeof o);
        for(int i=0;i<5;i++)w[i]=s[i];
        w[5]=sp(0x80000000);for(int i=6;i<15;i++)w[i]=V{};w[15]=sp((64+20)*8);
        comp(o,w);
        for(int l=0;l<8;l++){
          uint32_t h[5];for(int i=0;i<5;i++)h[i]=o[i][l];
          int off=h[4]&15;
          uint64_t two=(uint64_t)h[off/4]<<32|h[off/4+1>4?4:off/4+1];
          uint32_t v=(uint32_t)(two>>(32-8*(off%4)))&0x7fffffff;
          if(bl[v&0xffff]&&is[v]){std::lock_guard<std::mutex>g(m);auto&f=found[v];if(f==~0ull){left--;f=c+l;}else if(c+l<f)f=c+l;}
        }
      }
    }
  };
  std::vector<std::thread>t;for(int i=0;i<8;i++)t.emplace_back(run);for(auto&x:t)x.join();
  for(auto&f:found)if(f.second!=~0ull)printf("    {%uu, %lluu},\n",f.first,(unsigned long long)f.second);
  fprintf(stderr,"left %d of %zu, %llu\n",(int)left,found.size(),(unsigned long long)next);
}
