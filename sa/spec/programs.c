/* what the programs compute from their arguments and print (see spec.h); that arguments are missing or files cannot be read
   is not said here (C06), and neither is what is given back at the end (C03, C04) */
#include "spec.h"
#include "layout.h"
#include "missing.h"
#include "sparse_missing.h"
#include "multiblock.h"
#include "only_deg.h"
#include "recommend.h"
#include "conflict.h"
#include <gsl/gsl_vector.h>

static struct node_gra *simple_network(char *name)
{
  FILE *f = fopen(name, "r");
  struct node_gra *net = FBuildNetwork(f, 0, 0, 0, 1);
  fclose(f);
  return net;
}

static gsl_rng *seeded(int seed)
{
  gsl_rng *gen = gsl_rng_alloc(gsl_rng_mt19937);
  gsl_rng_set(gen, seed);
  return gen;
}

/* -------------------------------------------------------------------------------------------------- utils */

int spec_main_netcompare(int argc, char **argv)
{
  struct node_gra *a = simple_network(argv[1]), *b = simple_network(argv[2]);
  int na, nb, nab, la, lb, lab;
  double pna, pnb, pla, plb;
  CompareTwoNetworks(a, b, &na, &nb, &nab, &pna, &pnb, &la, &lb, &lab, &pla, &plb);
  printf("\nS_A = %d\n", na);
  printf("S_B = %d\n", nb);
  printf("S_(A&B) = %d\n\n", nab);
  printf("p_n(A|B) = %lf\n", pna);
  printf("p_n(B|A) = %lf\n", pnb);
  printf("\nL_A = %d\n", la);
  printf("L_B = %d\n", lb);
  printf("L_(A&B) = %d\n\n", lab);
  printf("p_l(A|B) = %lf\n", pla);
  printf("p_l(B|A) = %lf\n\n", plb);
  RemoveGraph(a);
  RemoveGraph(b);
  return 0;
}

int spec_main_countlinks(int argc, char **argv)
{
  struct node_gra *net = simple_network(argv[1]);
  int n = CountNodes(net), l = TotalNLinks(net, 1);
  printf("Nodes: %d\tLinks: %d\t<k> = %g\n", n, l, 2.0 * l / n);
  RemoveGraph(net);
  return 0;
}

int spec_main_getgiant(int argc, char **argv)
{
  struct node_gra *net = simple_network(argv[1]), *giant = GetLargestWeaklyConnectedSet(net, 10000000);
  FPrintNetAdjacencyList(stdout, giant, 0, 1);
  RemoveGraph(net);
  RemoveGraph(giant);
  return 0;
}

int spec_main_lapspec(int argc, char **argv)
{
  struct node_gra *net = simple_network(argv[1]);
  int n = CountNodes(net);
  gsl_vector *v = LaplacianSpectrum(net);
  UPTO(i, n) printf("%d %lf\n", i + 1, gsl_vector_get(v, i));
  RemoveGraph(net);
  gsl_vector_free(v);
  return 0;
}

int spec_main_mutualinfo(int argc, char **argv)
{
  FILE *f = fopen(argv[1], "r");
  struct group *a = FCreatePartition(f), *b;
  fclose(f);
  f = fopen(argv[2], "r");
  b = FCreatePartition(f);
  fclose(f);
  printf("MI = %f\n", MutualInformation(a, b, 1));
  RemovePartition(a);
  RemovePartition(b);
  return 0;
}

#define BIPARTITE_MODULARITY(name, weighted, modularity) \
int name(int argc, char **argv) \
{ \
  FILE *f = fopen(argv[1], "r"); \
  struct binet *net = FBuildNetworkBipart(f, weighted, 0); \
  struct group *part; \
  fclose(f); \
  f = fopen(argv[2], "r"); \
  part = FCreatePartition(f); \
  fclose(f); \
  if (atoi(argv[3]) == 1) InvertBipart(net); \
  MapPartToNet(part, net->net1); \
  printf("M = %f\n", modularity(net, part)); \
  RemovePartition(part); \
  RemoveBipart(net); \
  return 0; \
}
BIPARTITE_MODULARITY(spec_main_bipartitemodularity, 0, ModularityBipart)
BIPARTITE_MODULARITY(spec_main_bipartitemodularity_w, 1, ModularityBipartWeighted)

int spec_main_modularbipart(int argc, char **argv)
{
  int modules = atoi(argv[1]), size = atoi(argv[2]), teams = atoi(argv[3]), team = atoi(argv[4]);
  double homogeneity = atof(argv[5]);
  gsl_rng *gen = seeded(atoi(argv[6]));
  struct binet *net = BuildModularBipartiteNetwork(NULL, size, modules, NULL, teams, team, team, -1, homogeneity, gen);
  FPrintPajekFileBipart("binet.net", net, 0, 0);
  RemoveBipart(net);
  gsl_rng_free(gen);
  return 0;
}

int spec_main_netlayout(int argc, char **argv)
{
  int seed = atoi(argv[2]), steps, method;
  double dt = atof(argv[3]), drag;
  if (dt < 0) dt = 0.05;
  steps = atoi(argv[4]);
  drag = atof(argv[5]);
  if (drag < 0) drag = 0.05;
  method = atoi(argv[6]);
  gsl_rng *gen = seeded(seed);
  struct node_gra *net = simple_network(argv[1]);
  if (method == 3)
    MDGraphLayout3D(net, drag, dt, steps, gen, 0);
  else if (method == 2)
    MDGraphLayout2Dp(net, drag, dt, steps, gen, 0);
  else
    MDGraphLayout(net, drag, dt, steps, gen, 0);
  PrintNodeCoordinates(stdout, net);
  RemoveGraph(net);
  gsl_rng_free(gen);
  return 0;
}

int spec_main_netprop(int argc, char **argv)
{
  struct node_gra *net = simple_network(argv[1]);
  struct node_gra **part = (struct node_gra **)calloc(CountNodes(net) + 1, sizeof *part);
  int n = GetAllConnectedSets(net, part), largest = 0, all = 0;
  double mean, sd, least, most;
  UPTO(i, n) {
    if (CountNodes(part[i]) > largest) largest = CountNodes(part[i]);
    all += CountNodes(part[i]);
  }
  printf("Num_components %d\n", n);
  printf("Size_GC %d\n", largest);
  if (n > 1)
    printf("Av_size_other %g\n", (all - largest) / (n - 1.0));
  else
    printf("Av_size_other 0.0\n");
  printf("Nodes %d\n", CountNodes(net));
  printf("Links %d\n", TotalNLinks(net, 1));
  printf("Av_degree %g\n", AverageDegree(net, 1));
  printf("Inverse_path_length %lf\n", AverageInverseDistance(net));
  printf("Clustering %lf\n", ClusteringCoefficient(net));
  printf("Assortativity %lf\n", Assortativity(net));
  NodeBetweennessStatistics(net, &mean, &sd, &least, &most);
  printf("Betweenness_mean %lf\n", mean);
  printf("Betweenness_std %lf\n", sd);
  printf("Betweenness_min %lf\n", least);
  printf("Betweenness_max %lf\n", most);
  printf("Synchronizability %lf\n", Synchronizability(net));
  printf("K_K2 %.10lf\n", AverageDegree(net, 1) / AverageSquaredDegree(net));
  free(part);
  RemoveGraph(net);
  return 0;
}

int spec_main_netrandomize(int argc, char **argv)
{
  gsl_rng *gen = seeded(atoi(argv[2]));
  struct node_gra *net = RandomizeSymmetricNetwork(simple_network(argv[1]), 100, gen);
  FPrintNetAdjacencyList(stdout, net, 0, 1);
  RemoveGraph(net);
  gsl_rng_free(gen);
  return 0;
}

int spec_main_nodeprop(int argc, char **argv)
{
  struct node_gra *net = simple_network(argv[1]);
  CalculateNodeBetweenness(net);
  EACH_NODE(p, net) printf("%s %d %g\n", p->label, NodeDegree(p), p->dvar1);
  RemoveGraph(net);
  return 0;
}

int spec_main_multinetlayout(int argc, char **argv)
{
  int n = argc - 1;
  struct node_gra *net[n], *sum, *more;
  gsl_rng *gen = seeded(1111);
  UPTO(i, n) {
    FILE *f = fopen(argv[i + 1], "r");
    net[i] = FBuildNetwork(f, 0, 0, 0, 1);
    fclose(f);
  }
  sum = AddTwoNetworks(net[0], net[1]);
  for (int i = 2; i < n; i++) {
    more = AddTwoNetworks(sum, net[i]);
    RemoveGraph(sum);
    sum = more;
  }
  MDGraphLayout(sum, 0.05, 0.05, 100000, gen, 0);
  PrintNodeCoordinates(stdout, sum);
  UPTO(i, n) RemoveGraph(net[i]);
  RemoveGraph(sum);
  gsl_rng_free(gen);
  return 0;
}

/* -------------------------------------------------------------------------------------------- reliability */

#define EACH_PAIR(a, b, net) EACH_NODE(a, net) for (struct node_gra *b = a->next; b; b = b->next)

int spec_main_reliability_links(int argc, char **argv)
{
  gsl_rng *gen = seeded(atoi(argv[2]));
  struct node_gra *net = simple_network(argv[1]);
  double **score = LinkScore(net, 0, 10000, gen, 'v');
  FILE *missing = fopen("missing.dat", "w"), *spurious = fopen("spurious.dat", "w");
  EACH_PAIR(p, q, net)
    if (IsThereLink(p, q) == 0)
      fprintf(missing, "%g %s %s\n", score[p->num][q->num], p->label, q->label);
    else
      fprintf(spurious, "%g %s %s\n", score[p->num][q->num], p->label, q->label);
  fclose(missing);
  fclose(spurious);
  RemoveGraph(net);
  gsl_rng_free(gen);
  return 0;
}

#define SCORES_TO(name, scoring, file, done) \
int name(int argc, char **argv) \
{ \
  gsl_rng *gen = seeded(atoi(argv[2])); \
  char *input = argv[1]; \
  struct node_gra *net = simple_network(input); \
  double **score = scoring; \
  FILE *out = file; \
  EACH_PAIR(p, q, net) fprintf(out, "%g %s %s\n", score[p->num][q->num], p->label, q->label); \
  done; \
  RemoveGraph(net); \
  gsl_rng_free(gen); \
  return 0; \
}
static FILE *beside(char *input, char *pattern)
{
  char name[FILENAME_MAX];
  snprintf(name, FILENAME_MAX, pattern, input);
  return fopen(name, "w");
}
SCORES_TO(spec_main_reliability_links_gibbs, GibbsLinkScore(net, 0, 10000, gen, 'q'), stdout, )
SCORES_TO(spec_main_reliability_links_gibbs_sparse, SparseGibbsLinkScore(net, 10000, gen, 'q'), stdout, )
SCORES_TO(spec_main_reliability_links_mb, LinkScoreMB(net, 0, 10000, gen, 'q'), beside(input, "%s.AND_scores"), fclose(out))
SCORES_TO(spec_main_reliability_links_mb_OR, ORLinkScoreMB(net, 0, 10000, gen, 'q'), beside(input, "%s.OR_scores"), fclose(out))
SCORES_TO(spec_main_reliability_links_mb_gibbs, GibbsLinkScoreMB(net, 0, 10000, gen, 'q'), beside(input, "%s.AND_scores"), fclose(out))
SCORES_TO(spec_main_reliability_links_mb_gibbs_OR, ORGibbsLinkScoreMB(net, 0, 10000, gen, 'q'), beside(input, "%s.OR_scores"), fclose(out))
SCORES_TO(spec_main_only_degeneration_mb, LinkScoreMB_OD(net, 0, 10000, gen, 'q'), beside(input, "%s.scores"), fclose(out))
SCORES_TO(spec_main_only_degeneration_mb_gibbs, GibbsLinkScoreMB_OD(net, 0, 10000, gen, 'q'), beside(input, "%s.scores"), fclose(out))

int spec_main_reliability_links_k(int argc, char **argv)
{
  int K = atoi(argv[1]), n = 0;
  gsl_rng *gen = seeded(atoi(argv[3]));
  struct query **at = NULL;
  struct node_gra *net;
  FILE *f = fopen(argv[2], "r"), *without, *with;
  net = FBuildNetwork(f, 1, 0, 0, 1);
  fclose(f);
  double **score = LSMultiLinkScoreKState(K, net, 10000, gen, 'v', -1, &at, &n);
  without = fopen("unobserved_k.dat", "w");
  with = fopen("observed_k.dat", "w");
#define SCORES_OF(out) \
    fprintf(out, "%s %s", at[q]->n1->label, at[q]->n2->label); \
    UPTO(k, K) fprintf(out, " %lf", score[k][q]); \
    fprintf(out, "\n");
  UPTO(q, n)
    if (IsThereLink(at[q]->n1, at[q]->n2) == 0) {
      SCORES_OF(without)
    } else {
      SCORES_OF(with)
    }
  fclose(without);
  fclose(with);
  RemoveGraph(net);
  gsl_rng_free(gen);
  return 0;
}

int spec_main_reliability_reconstruct(int argc, char **argv)
{
  struct node_gra *net = simple_network(argv[1]), *other;
  gsl_rng *gen = seeded(atoi(argv[2]));
  FILE *f;
  other = NetReconstruct(net, gen);
  f = fopen("net_reconstructed.dat", "w");
  FPrintNetAdjacencyList(f, other, 0, 1);
  fclose(f);
  RemoveGraph(net);
  RemoveGraph(other);
  gsl_rng_free(gen);
  return 0;
}

/* ------------------------------------------------------------------------------ recommender and conflict */

static struct binet *observations(char *name)
{
  FILE *f = fopen(name, "r");
  struct binet *b = ReadRecommenderObservations(f);
  fclose(f);
  return b;
}

static struct query **queries(char *name, int n, struct binet *ratings)
{
  FILE *f = fopen(name, "r");
  struct query **q = ReadQueries(f, n, ratings);
  fclose(f);
  return q;
}

int spec_main_multi_recommend_2(int argc, char **argv)
{
  gsl_rng *gen = seeded(atoi(argv[3]));
  struct binet *ratings = observations(argv[1]);
  int n = CountLinesInFile(argv[2]);
  struct query **set = queries(argv[2], n, ratings);
  double *score = MultiLinkScore2State(ratings, set, n, 10000, gen, 'v', -1);
  printf("\n\n>>> RESULTS\n\n");
  UPTO(q, n) printf("%s %s %lf\n", set[q]->n1->label, set[q]->n2->label, score[q]);
  RemoveBipart(ratings);
  gsl_rng_free(gen);
  return 0;
}

#define RECOMMEND_K(name, scoring, title) \
int name(int argc, char **argv) \
{ \
  int K = atoi(argv[1]); \
  gsl_rng *gen = seeded(atoi(argv[4])); \
  struct binet *ratings = observations(argv[2]); \
  int n = CountLinesInFile(argv[3]); \
  struct query **set = queries(argv[3], n, ratings); \
  double **score = scoring; \
  printf("\n\n>>> RESULTS\n\n"); \
  UPTO(q, n) { \
    printf(title, set[q]->n1->label, set[q]->n2->label); \
    UPTO(k, K) printf(" %lf", score[k][q]); \
    printf("\n"); \
  } \
  RemoveBipart(ratings); \
  gsl_rng_free(gen); \
  return 0; \
}
RECOMMEND_K(spec_main_multi_recommend_k, MultiLinkScoreKState(K, ratings, set, n, 10000, gen, 'v', -1), "%s %s\n")
RECOMMEND_K(spec_main_multi_recommend_k_gibbs, GibbsMultiLinkScoreKState(K, ratings, set, n, 10000, gen, 'v'), "%s %s")

int spec_main_conflict(int argc, char **argv)
{
  gsl_rng *gen = seeded(atoi(argv[2]));
  struct binet *ratings = observations(argv[1]);
  int n = CountNodes(ratings->net1) * CountNodes(ratings->net2);
  struct query **set = AllLinkScore2State(ratings, 10000, gen, 'v', -1);
  FILE *out = fopen("link_scores.dat", "w");
  UPTO(q, n)
    if (strcmp(set[q]->n1->label, set[q]->n2->label) != 0)
      fprintf(out, "%s %s %lf\n", set[q]->n1->label, set[q]->n2->label, set[q]->score);
  fclose(out);
  UPTO(q, n) FreeQuery(set[q]);
  free(set);
  RemoveBipart(ratings);
  gsl_rng_free(gen);
  return 0;
}
