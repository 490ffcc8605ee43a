/* what netcarto and netcarto_legacy do with their options and print (see programs.c) */
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <gsl/gsl_rng.h>
#include "io.h"
#include "fillpartitions.h"
#include "sannealing.h"
#include "partition.h"

#define UPTO(i, n) for (unsigned int i = 0; i < (n); i++)

/* the value of a variable after the options have been read, given the one before: sa/options.py */
int option_s_atoi(int), option_r_1(int), option_t_1(int), option_w_1(int), option_b_1(int), option_p_0(int), option_f_named(int),
  option_o_named(int);
double option_c_atof(double), option_i_atof(double), option_C_atof(double);
char *option_f_arg(char *), *option_o_arg(char *), *option_p_arg(char *);

int spec_main_netcarto(int argc, char **argv)
{
  unsigned int *from = NULL, *to = NULL, links, nodes;
  double *weight = NULL, *z, *p, m, md;
  char **labels = NULL, *none;
  Partition *part = NULL;
  AdjaArray *adj = NULL;
  FILE *in, *out;
  gsl_rng *gen;
  int seed = option_s_atoi(1111), roles = option_r_1(0), second = option_t_1(0), weighted = option_w_1(0);
  int bipartite = option_b_1(0), cluster = option_p_0(1), reading = option_f_named(0), writing = option_o_named(0);
  double cooling = option_c_atof(0.97), factor = option_i_atof(1.0), merge = option_C_atof(0.5);
  char *input = option_f_arg(none), *output = option_o_arg(none), *known = option_p_arg(none);

  gen = gsl_rng_alloc(gsl_rng_mt19937);
  gsl_rng_set(gen, seed);

  in = reading == 1 ? fopen(input, "r") : stdin;
  if (EdgeListFileInput(in, weighted, bipartite ? bipartite + second : 0, &from, &to, &weight, &labels, &links, &nodes)) {
    if (reading) fclose(in);
    return 1;
  }
  if (bipartite)
    ProjectBipartEdgeList(from, to, weight, links, &part, &adj);
  else {
    part = CreatePartition(nodes, nodes);
    adj = CreateAdjaArray(nodes, links);
    EdgeListToAdjaArray(from, to, weight, adj, part, 1);
  }
  if (reading) fclose(in);
  if (cluster) {
    AssignNodesToModules(part, gen);
    GeneralSA(&part, adj, factor, 1. / nodes, 1e-200, cooling, merge, 25, gen);
    CompressPartition(part);
  } else {
    int lacking;
    printf("# Read partition from %s\n", known);
    in = fopen(known, "r");
    lacking = AssignNodesToModulesFromFile(in, part, labels);
    fclose(in);
    if (lacking < 0) return 1;
    if (lacking) printf("Error: %d nodes are missing from the partition file.\n", lacking);
    printf("# %d modules read \n", part->M);
  }
  m = PartitionModularity(part, adj, 0);
  md = PartitionModularity(part, adj, 1);
  if (roles) {
    z = (double *)calloc(part->N, sizeof(double));
    p = (double *)calloc(part->N, sizeof(double));
    PartitionRolesMetrics(part, adj, z, p);
  }
  out = writing == 1 ? fopen(output, "w") : stdout;
  fprintf(out, "# Modularity: %f\n", m);
  fprintf(out, "# Modularity (with diagonal): %f\n", md);
  if (roles)
    TabularOutput(out, labels, part, z, p);
  else
    ClusteringOutput(out, part, labels);
  if (writing == 1) fclose(out);
  return 0;
}
