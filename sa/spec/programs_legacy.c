/* what netcarto_legacy does with its options and prints (see programs.c) */
#include "spec.h"
#include <unistd.h>

/* the value of a variable after the options have been read, given the one before: sa/options.py */
long option_s_atoi(long);
int option_r_atoi(int);
double option_c_atof(double), option_i_atof(double);
char *option_f_arg(char *);

int spec_main_netcarto_legacy(int argc, char **argv)
{
  long seed = 1111;
  int repeats = 0, nodes;
  double cooling = 0.995, factor = 1, m, mean = 0, var = 0, *values;
  char *input = "-", name[1000];
  gsl_rng *gen;
  FILE *in, *out;
  struct node_gra *net, *other = NULL;
  struct group *part, *roles;

  printf("%d\n", argc);
  if (argc == 1) {
    printf("\n# Enter random number seed (POSITIVE integer): ");
    scanf("%ld", &seed);
    printf("\n# Enter the name of the network file: ");
    if (scanf("%999s", name) == 1) input = name;
    printf("\n# Enter iteration factor (recommended 1.0): ");
    scanf("%lf", &factor);
    printf("\n# Enter the cooling factor (recommended 0.950-0.995): ");
    scanf("%lf", &cooling);
    printf("\n# Enter the number of randomizations: ");
    scanf("%d", &repeats);
  } else {
    input = option_f_arg(input);
    seed = option_s_atoi(seed);
    repeats = option_r_atoi(repeats);
    cooling = option_c_atof(cooling);
    factor = option_i_atof(factor);
  }
  values = allocate_d_vec(repeats);
  gen = gsl_rng_alloc(gsl_rng_mt19937);
  gsl_rng_set(gen, seed);
  in = strcmp(input, "-") == 0 ? stdin : fopen(input, "r");
  net = FBuildNetwork(in, 0, 0, 0, 1);
  nodes = CountNodes(net);

  part = SACommunityIdent(net, 2.0 / nodes, 0, cooling, factor, 0, 'o', 1, 's', gen);
  out = fopen("modules.dat", "w");
  FPrintPartition(out, part, 0);
  m = Modularity(part);
  fprintf(out, "# Modularity = %g\n", m);
  FPrintPajekFile("network.net", net, 0, 0, 1);
  FPrintPajekPartitionFile("modules.clu", net);

  out = fopen("node_prop.dat", "w");
  EACH_NODE(p, net)
    fprintf(out, "%s %d %lf %lf\n", p->label, NodeDegree(p), ParticipationCoefficient(p), WithinModuleRelativeDegree(p, part));

  roles = CatalogRoleIdent(net, part);
  out = fopen("roles.dat", "w");
  FPrintPartition(out, roles, 0);
  MapPartToNet(roles, net);
  FPrintPajekPartitionFile("roles.clu", net);

  UPTO(i, repeats) {
    other = RandomizeSymmetricNetwork(CopyNetwork(net), 100, gen);
    part = SACommunityIdent(other, 2.0 / nodes, 0, cooling, factor, 0, 'o', 1, 'n', gen);
    values[i] = Modularity(part);
    mean += values[i];
  }
  mean /= repeats;
  UPTO(i, repeats) var += (values[i] - mean) * (values[i] - mean);
  var = sqrt(var / repeats);
  out = fopen("randomized_mod.dat", "w");
  fprintf(out, "# M\tMrand\tsimga_Mrand\n");
  fprintf(out, "%lf %lf %lf\n", m, mean, var);
  return 0;
}
