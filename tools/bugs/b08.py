ID='b08-rewired-end-forgotten'
PROPERTY='C08'
NEEDS='a rewired pair taken in opposite orientation whose link is then drawn again'
BREAKS='after a swap the list of links keeps a stale end, so a link that does not exist is removed later'
EDITS=[
  ('src/graph.c',
   '    ori[target2] = n3;\n',
   '    if (ori[target2] == NULL)\n      ori[target2] = n3;\n'),
]
DEMO=r'''
#include <stdio.h>
#include <gsl/gsl_rng.h>
#include "graph.h"
#include "modules.h"
int main(){
  gsl_rng *r=gsl_rng_alloc(gsl_rng_mt19937);gsl_rng_set(r,3);
  struct node_gra *net=CreateHeaderGraph(),*n[30];char s[9];int d[30]={0};
  for(int i=0;i<30;i++){sprintf(s,"n%d",i);n[i]=CreateNodeGraph(net,s);}
  for(int i=0;i<30;i++){int j=(i+1)%30;AddAdjacency(n[i],n[j],0,0,1,0);AddAdjacency(n[j],n[i],0,0,1,0);}
  RandomizeSymmetricNetwork(net,20,r);
  for(int i=0;i<30;i++)if(NodeDegree(n[i])!=2)return 1;
  return 0;
}
'''
