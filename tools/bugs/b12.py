ID='b12-last-member'
PROPERTY='C14'
NEEDS='the last member of a module moves away and the module is merged later'
BREAKS='the module keeps pointing at its former last member, so a later merger chains the wrong nodes'
EDITS=[('src/movements.c',"""  else
	OldModule->last = node->prev;
""","""  else if (OldModule->first == NULL)
	OldModule->last = NULL;
""")]
DEMO=r"""
#include "partition.h"
#include "movements.h"
#include "fillpartitions.h"
int main(){
  Partition *p=CreatePartition(6,6);
  unsigned m0=0,m1=1,m2=2,n=0;
  AssignNodesToModules(p,0);
  ChangeModule(3,m0,p);ChangeModule(4,m0,p);ChangeModule(5,m1,p);
  Node *last=p->modules[m0]->last;
  ChangeModule(last->id,m2,p);
  MergeModules(m0,m1,p);
  for(int m=0;m<6;m++){unsigned c=0;for(Node *k=p->modules[m]->first;k&&c<20;k=k->next)c++;if(c!=p->modules[m]->size)return 1;n+=c;}
  return n!=6;
}
"""
