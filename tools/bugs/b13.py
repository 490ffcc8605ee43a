ID='b13-vanishing-group-degeneracy'
PROPERTY='C15'
NEEDS='a node that leaves a group of its own for a group that is not empty'
BREAKS='the energy change of a move that removes a group uses the degeneracy of the wrong number of groups'
EDITS=[
  ('src/multiblock.c',
   '    if (noldg == 1 && nnewg != 0) { // effectng would decrease by one\n      dH -= -FastLogFact(ngroup - effectng, LogFactList, LogFactListSize);\n      dH += -FastLogFact(ngroup - (effectng-1), LogFactList, LogFactListSize);\n      dH += LogDegeneracy(effectng) - LogDegeneracy(effectng - 1);\n    }\n    else if (noldg != 1 && nnewg == 0) {  // effectng would increase by one\n      dH -= -FastLogFact(ngroup - effectng, LogFactList, LogFactListSize);\n      dH += -FastLogFact(ngroup - (effectng+1), LogFactList, LogFactListSize);\n      dH += LogDegeneracy(effectng) - LogDegeneracy(effectng + 1);\n    }\n',
   '    if (noldg == 1 && nnewg != 0) { // effectng would decrease by one\n      effectng--;\n      dH -= -FastLogFact(ngroup - effectng, LogFactList, LogFactListSize);\n      dH += -FastLogFact(ngroup - (effectng-1), LogFactList, LogFactListSize);\n      dH += LogDegeneracy(effectng + 1) - LogDegeneracy(effectng);\n    }\n    else if (noldg != 1 && nnewg == 0) {  // effectng would increase by one\n      dH -= -FastLogFact(ngroup - effectng, LogFactList, LogFactListSize);\n      dH += -FastLogFact(ngroup - (effectng+1), LogFactList, LogFactListSize);\n      dH += LogDegeneracy(effectng) - LogDegeneracy(effectng + 1);\n    }\n', 0, 2),
]
DEMO=r'''
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <gsl/gsl_rng.h>
#include "graph.h"
#include "modules.h"
#include "tools.h"
#include "missing.h"
#include "multiblock.h"
#define N 7
int main(){
  gsl_rng *r=gsl_rng_alloc(gsl_rng_mt19937);gsl_rng_set(r,5);
  struct node_gra *net=CreateHeaderGraph(),*n[N];char s[9];
  for(int i=0;i<N;i++){sprintf(s,"n%d",i);n[i]=CreateNodeGraph(net,s);}
  for(int i=0;i<N;i++)for(int j=0;j<i;j++)if((i*j+i)%3==0){AddAdjacency(n[i],n[j],0,0,1,0);AddAdjacency(n[j],n[i],0,0,1,0);}
  struct group *part=CreateHeaderGroup(),*g=part,*gl[N];int n2g[N],*G2G[N];
  for(int i=0;i<N;i++){gl[i]=g=CreateGroup(g,i);AddNodeToGroup(g,n[i]);}
  for(int i=0;i<N;i++){G2G[i]=malloc(sizeof(int)*N);for(int j=0;j<N;j++)G2G[i][j]=NG2GLinks(gl[i],gl[j]);}
  double **lc=InitializeFastLogChoose(50),*lf=InitializeFastLogFact(50),*hl=InitializeHarmonicList(200);
  for(int k=0;k<300;k++){
    double E0=PartitionHMB(part,0.,hl),H=E0;
    LSMCStepMB(1,&H,0.,n,gl,part,N,G2G,n2g,lc,50,lf,50,hl,r);
    if(fabs(H-PartitionHMB(part,0.,hl))>1e-6){printf("%d %g %g\n",k,H,PartitionHMB(part,0.,hl));return 1;}
  }
  return 0;
}
'''
