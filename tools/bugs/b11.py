ID='b11-stirling-beyond-table'
PROPERTY='C13'
NEEDS='an argument beyond the precomputed table'
BREAKS='factorials beyond the table are approximated (and undefined for 0)'
EDITS=[
  ('src/tools.c',
   '  if (r < LogFactListSize)\n    return LogFactList[r];\n  else\n    return gsl_sf_lnfact(r);\n',
   '  if (r < LogFactListSize)\n    return LogFactList[r];\n  else  /* Stirling */\n    return r * log((double)r) - r + 0.5 * log(2. * M_PI * r);\n'),
]
DEMO=r'''
#include <math.h>
#include <stdio.h>
#include <gsl/gsl_sf.h>
#include "graph.h"
#include "modules.h"
#include "tools.h"
int main(){
  double *l=InitializeFastLogFact(4);
  for(int r=0;r<40;r++){double v=FastLogFact(r,l,4);if(fabs(v-gsl_sf_lnfact(r))>1e-6)return 1;}
  return 0;
}
'''
