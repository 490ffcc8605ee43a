ID='b19-ratings-left'
PROPERTY='C16'
NEEDS='a person with two ratings of the removed value in a row'
BREAKS='some of the ratings that should be removed stay in the network'
EDITS=[('src/recommend.c',"""	RemoveLink(p, (m->next)->ref, 1);
      }
      else {
	m = m->next;
      }
""","""	RemoveLink(p, (m->next)->ref, 1);
      }
      if (m->next != NULL) {
	m = m->next;
      }
""")]
DEMO=r"""
#include <stdio.h>
#include "graph.h"
#include "bipartite.h"
#include "recommend.h"
int main(){
  FILE *f=tmpfile();
  fprintf(f,"a x 0\na y 0\na z 1\na v 0\nb x 1\nb y 0\nb z 0\n");
  rewind(f);
  struct binet *b=ReadRecommenderObservations(f);
  RemoveRatings(b,0);
  struct node_gra *p=b->net1;int n=0;
  while((p=p->next)!=NULL){struct node_lis *m=p->neig;while((m=m->next)!=NULL){n++;if(m->weight==0)return 1;}}
  return n!=2;
}
"""
