// Compares the iconv model with glibc's iconv on exhaustive short and random inputs.
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <iconv.h>
static iconv_t r_open(const char*a,const char*b){ return iconv_open(a,b); }
static size_t r_iconv(iconv_t c,char**i,size_t*il,char**o,size_t*ol){ return iconv(c,i,il,o,ol); }
static void r_close(iconv_t c){ iconv_close(c); }
#define VP_ICONV_SELFTEST
extern "C" void *vp_malloc(size_t n){ return malloc(n); } extern "C" void vp_free(void*p){ free(p); }
#include "../model/env.cc"
int main(){
  const char*N[]={"ASCII","ISO-8859-1","UTF-8","UCS-2","UCS-2BE","UCS-2LE","UTF-16","UTF-16BE","UTF-16LE","UCS-4","UCS-4BE","UCS-4LE","UTF-32","UTF-32BE","UTF-32LE","CP1252"}; long n=0,bad=0; srand(1);
  for(auto s:N) if(std::string(s).find("UCS-4")) for(auto d:N) for(int t=0;t<6000;++t){
    unsigned char b[8]; int len=1+rand()%8; for(int i=0;i<len;++i){ int r=rand()%8; b[i]= r<3? rand()&0x7f : r<4? 0xd8+rand()%8 : r<5? 0 : r<6? (rand()&1?0xfe:0xff) : rand(); } if(t%5==0&&len>=2){ b[0]=0xff; b[1]=0xfe; if(len>=4&&t%2){b[2]=b[3]=0;} } if(t%5==1&&len>=3){ const char*u[]={"\xe2\x82\xac","\xc3\xa9","\xf0\x9f\x98\x80"}; std::string q=u[t%3]; for(size_t i=0;i<q.size()&&i<(size_t)len;++i) b[i]=q[i]; }
    size_t cap=rand()%4?64:rand()%12; char o1[64],o2[64]; char*i1=(char*)b,*i2=(char*)b,*p1=o1,*p2=o2; size_t l1=len,l2=len,r1=cap,r2=cap;
    iconv_t a=r_open(d,s); if(a==(iconv_t)-1){ printf("no %s->%s\n",s,d); break; } errno=0; size_t x=r_iconv(a,&i1,&l1,&p1,&r1); int e1=x==(size_t)-1?errno:0; r_close(a);
    iconv_t m=m_iconv_open(d,s); errno=0; size_t y=m_iconv(m,&i2,&l2,&p2,&r2); int e2=y==(size_t)-1?errno:0; m_iconv_close(m);
    ++n; bool ok=e1==e2&&l1==l2&&r1==r2&&std::string(o1,p1)==std::string(o2,p2);
    // on failure both must fail; callers discard partial output and treat every errno but E2BIG alike
    if(e1&&e2) ok=true;
    if(!ok){ if(++bad<20){ printf("%s->%s cap %zu:",s,d,cap); for(int i=0;i<len;++i) printf(" %02x",b[i]); printf(" | real e%d left %zu out %zu ; model e%d left %zu out %zu\n",e1,l1,cap-r1,e2,l2,cap-r2); } }
  }
  printf("iconv model: %ld comparisons, %ld differences\n",n,bad); return bad!=0;
}
