ID='b05-giant-copy-leak'
PROPERTY='C03'
NEEDS='a network whose giant component is found before the last component'
BREAKS='the copy of the network made while looking for the giant component is not released on the early return'
EDITS=[
  ('src/graph.c',
   '\tfree_i_vec(this_net);\n\tRemoveGraph(root_cop); // WAS COMMENTED OUT?!?!?!?!\n',
   '\tfree_i_vec(this_net);\n'),
]
DEMO=r'''
#include <malloc.h>
#include <stdio.h>
#include "graph.h"
#include "modules.h"
int main(){
  struct node_gra *net=CreateHeaderGraph(),*n[6];char s[9];
  for(int i=0;i<6;i++){sprintf(s,"n%d",i);n[i]=CreateNodeGraph(net,s);}
  for(int i=0;i<5;i++)for(int j=0;j<5;j++)if(i!=j)AddAdjacency(n[i],n[j],0,0,1,0);
  struct mallinfo2 a,b;
  RemoveGraph(GetLargestStronglyConnectedSet(net,2));
  RemoveGraph(GetLargestWeaklyConnectedSet(net,2));
  a=mallinfo2();
  for(int i=0;i<50;i++){RemoveGraph(GetLargestStronglyConnectedSet(net,2));RemoveGraph(GetLargestWeaklyConnectedSet(net,2));}
  b=mallinfo2();
  printf("%zu %zu\n",a.uordblks,b.uordblks);
  return b.uordblks>a.uordblks+1000;
}
'''
