#include "api.hpp"
#include <cstdio>
#include <cstdlib>
namespace ops { All& all() { static All a; return a; } }
int main(){ using namespace ops; for(int i=0;i<all().n;++i){ Catalogue&c=all().c[i]; void*p=malloc(c.in_size); for(int s=0;s<c.sets;++s){ c.build(p,s); for(int k=0;k<c.count;++k){ Out o,q; c.ops[k].run(p,0,o); for(int d=1;d<5;++d){ Out q; c.ops[k].run(p,d,q); if(!o.equal(q)) printf("DIRT %s %s set %d dirt %d\n",c.type,c.ops[k].name,s,d);} if(o.overflow) printf("overflow %s\n",c.ops[k].name); if(getenv("V")){printf("%s %s %d:",c.type,c.ops[k].name,s);for(int j=0;j<o.n;++j)printf(" %Lg",o.v[j]);puts("");}}} printf("%s %s %d ops in %zu\n",c.type,c.group,c.count,c.in_size);} }
