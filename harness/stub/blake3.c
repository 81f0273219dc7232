#include "blake3.h"
#include <stdlib.h>
static const uint32_t IV[8]={0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19};
static const uint8_t P[16]={2,6,3,10,7,0,4,13,1,11,12,5,9,14,15,8};
static uint32_t rotr(uint32_t x,int n){return (x>>n)|(x<<(32-n));}
#define G(a,b,c,d,x,y) v[a]+=v[b]+x; v[d]=rotr(v[d]^v[a],16); v[c]+=v[d]; v[b]=rotr(v[b]^v[c],12); v[a]+=v[b]+y; v[d]=rotr(v[d]^v[a],8); v[c]+=v[d]; v[b]=rotr(v[b]^v[c],7)
static void compress(const uint32_t cv[8],const uint8_t blk[64],uint32_t len,uint32_t flags,uint32_t out[16]){
 uint32_t m[16],t[16],v[16]; memcpy(m,blk,64);
 for(int i=0;i<8;i++)v[i]=cv[i]; for(int i=0;i<4;i++)v[8+i]=IV[i]; v[12]=0;v[13]=0;v[14]=len;v[15]=flags;
 for(int r=0;r<7;r++){
  G(0,4,8,12,m[0],m[1]);G(1,5,9,13,m[2],m[3]);G(2,6,10,14,m[4],m[5]);G(3,7,11,15,m[6],m[7]);
  G(0,5,10,15,m[8],m[9]);G(1,6,11,12,m[10],m[11]);G(2,7,8,13,m[12],m[13]);G(3,4,9,14,m[14],m[15]);
  for(int i=0;i<16;i++)t[i]=m[P[i]]; memcpy(m,t,64);
 }
 for(int i=0;i<8;i++){out[i]=v[i]^v[i+8];out[i+8]=v[i+8]^cv[i];}
}
void blake3_hasher_init(blake3_hasher*h){h->len=0;}
void blake3_hasher_update(blake3_hasher*h,const void*d,size_t n){ if(h->len+n>sizeof(h->buf)) abort(); memcpy(h->buf+h->len,d,n); h->len+=n;}
void blake3_hasher_finalize(const blake3_hasher*h,uint8_t*o,size_t n){
 if(n>64) abort();
 uint32_t cv[8],out[16]; memcpy(cv,IV,32);
 size_t nb=h->len?(h->len+63)/64:1;
 for(size_t b=0;b<nb;b++){ uint8_t blk[64]={0}; size_t l=h->len-b*64; if(l>64)l=64; memcpy(blk,h->buf+b*64,l);
  uint32_t f=(b==0?1:0)|(b==nb-1?(2|8):0); compress(cv,blk,l,f,out); memcpy(cv,out,32);}
 memcpy(o,out,n);
}
