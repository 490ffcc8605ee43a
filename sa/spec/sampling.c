/* sampling of partitions for link reliability: energies, Metropolis and heat-bath moves, scores */
#include "spec.h"
#include "missing.h"
#include "multiblock.h"
#include "only_deg.h"
#include "sparse_missing.h"

/* a group pair (or group) that could hold r links and holds l */
#define COST(r, l) (log((r) + 1) + FastLogChoose(r, l, lc, nlc))
#define COST_AND(r, l) (COST(r, l) - log(harm[(r) + 1] - harm[l]))
#define COST_OR(r, l) (COST(r, l) - log(harm[(r) + 1] - harm[(r) - (l)]))
#define LABELS(e) (-FastLogFact(nnod - (e), lf, nlf))

static int pick(gsl_rng *gen, int n) { return floor(gsl_rng_uniform(gen) * (double)n); }

#define ENERGY(TERM, LABELLINGS) \
  double H = linC * NNonEmptyGroups(part); \
  int nodes = 0, groups = 0; \
  EACH_GROUP(g, part) { \
    if (!g->size) continue; \
    groups++; \
    nodes += g->size; \
    int r = g->size * (g->size - 1) / 2, l = g->inlinks; \
    H += TERM; \
    for (struct group *h = g->next; h; h = h->next) { \
      if (!h->size) continue; \
      int r = g->size * h->size, l = NG2GLinks(g, h); \
      H += TERM; \
    } \
  } \
  return H - gsl_sf_lnfact(nodes - groups) - (LABELLINGS);

double spec_PartitionH(struct group *part, double linC)
{
  ENERGY(log(r + 1) + LogChoose(r, l), 0)
}

double spec_PartitionHMB(struct group *part, double linC, double *harm)
{
  ENERGY(log(r + 1) + LogChoose(r, l) - log(harm[r + 1] - harm[l]), LogDegeneracy(groups))
}

double spec_ORPartitionHMB(struct group *part, double linC, double *harm)
{
  ENERGY(log(r + 1) + LogChoose(r, l) - log(harm[r + 1] - harm[r - l]), LogDegeneracy(groups))
}

double spec_PartitionHMB_OD(struct group *part, double linC, double *harm)
{
  ENERGY(log(r + 1) + LogChoose(r, l), LogDegeneracy_OD(groups))
}

extern double LOGDEGENERACY[150], LOGDEGENERACY_OD[150];

double spec_LogDegeneracy(int n) { return n < 150 ? LOGDEGENERACY[n] : 1.4681 * n * (log(n) - 1); }
double spec_LogDegeneracy_OD(int n) { return n < 150 ? LOGDEGENERACY_OD[n] : 1.4681 * n * (log(n) - 1); }

/* contribution of a used group g to the energy change when a node with ko links to its group `from` (no members, lo
   links inside) and kn links to `to` (nn members, ln links inside) moves; lno links between the two */
#define CHANGE(d, g, COST) \
  if ((g)->label == from->label) { \
    d += COST((no - 1) * (no - 2) / 2, lo - ko) - COST(no * (no - 1) / 2, lo); \
    d += COST((nn + 1) * (no - 1), lno + ko - kn) - COST(nn * no, lno); \
  } else if ((g)->label == to->label) { \
    d += COST((nn + 1) * nn / 2, ln + kn) - COST(nn * (nn - 1) / 2, ln); \
  } else { \
    int kg = n2g[(g)->label], og = G2G[from->label][(g)->label], ng = G2G[to->label][(g)->label], m = (g)->size; \
    d += COST((no - 1) * m, og - kg) - COST(no * m, og); \
    d += COST((nn + 1) * m, ng + kg) - COST(nn * m, ng); \
  }

void spec_LinkScoreMCStep(int factor, double *H, double linC, struct node_gra **nlist, struct group **glist,
                          struct group *part, int nnod, int **G2G, int *n2g, double **lc, int nlc, double *lf, int nlf,
                          gsl_rng *gen)
{
  int *used = allocate_i_vec(nnod), nused = 0;
  EACH_GROUP(g, part) if (g->size > 0) used[nused++] = g->label;
  UPTO(i, nnod) n2g[i] = 0;
  for (int move = 0; move < nnod * factor; move++) {
    struct node_gra *node = nlist[pick(gen, nnod)];
    int a = node->inGroup, b;
    do b = pick(gen, nnod); while (b == a);
    struct group *from = glist[a], *to = glist[b];
    int no = from->size, nn = to->size, lo = from->inlinks, ln = to->inlinks;
    int ko = NLinksToGroup(node, from), kn = NLinksToGroup(node, to), lno = NG2GLinks(to, from), e = 0;
    double d = 0;
    if (nn == 0) d += linC;
    if (no == 1) d -= linC;
    UPTO(j, nused) {
      struct group *g = glist[used[j]];
      if (g->size > 0) {
        e++;
        n2g[g->label] = NLinksToGroup(node, g);
        CHANGE(d, g, COST)
      } else {
        n2g[g->label] = 0;
      }
    }
    if (no == 1 && nn != 0) d += LABELS(e - 1) - LABELS(e);
    if (no != 1 && nn == 0) d += LABELS(e + 1) - LABELS(e);
    if (d <= 0 || gsl_rng_uniform(gen) < exp(-d)) {
      MoveNode(node, from, to);
      *H += d;
      UPTO(i, nnod) {
        G2G[i][a] -= n2g[i];
        G2G[a][i] = G2G[i][a];
        G2G[i][b] += n2g[i];
        G2G[b][i] = G2G[i][b];
      }
      int known = 0;
      UPTO(j, nused) if (used[j] == b) known = 1;
      if (!known) used[nused++] = b;
    }
  }
  free_i_vec(used);
}

struct pair { double x0, y0, x1, y1; };

int spec_ExponentialRootF(const gsl_vector *params, void *points, gsl_vector *f)
{
  struct pair *p = points;
  double a = gsl_vector_get(params, 0), b = gsl_vector_get(params, 1);
  gsl_vector_set(f, 0, p->y0 - (a + (1 - a) * exp(-p->x0 / b)));
  gsl_vector_set(f, 1, p->y1 - (a + (1 - a) * exp(-p->x1 / b)));
  return GSL_SUCCESS;
}

/* ten estimates of the decay of the mutual information with the starting partition, over x2 steps */
#define DECORRELATION(STEP) \
  int x1 = x2 / 4, n = 10; \
  double *decay = allocate_d_vec(n), y1; \
  for (int rep = 0; rep < n; rep++) { \
    struct group *ref = CopyPartition(part); \
    for (int step = 0; step <= x2; step++) { \
      STEP; \
      if (step == x1) y1 = MutualInformation(ref, part, 0); \
    } \
    double y2 = MutualInformation(ref, part, 0); \
    RemovePartition(ref); \
    decay[rep] = 2 * CalculateDecay(nnod, x1, y1, x2, y2); \
    if (decay[rep] < 0) rep--; \
  } \
  double m = mean(decay, n), s = stddev(decay, n), all = m * n; \
  int used = 0; \
  UPTO(rep, n) { \
    if (fabs(decay[rep] - m) / s > 2) all -= decay[rep]; \
    else used++; \
  } \
  free_d_vec(decay);

int spec_GetDecorrelationStep(double *H, double linC, struct node_gra **nlist, struct group **glist, struct group *part,
                              int nnod, int **G2G, int *n2g, double **lc, int nlc, double *lf, int nlf, gsl_rng *gen,
                              char verbose)
{
  int x2 = nnod / 5;
  DECORRELATION(LinkScoreMCStep(1, H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen))
  return all / used;
}

/* blocks of twenty samples until the mean energy has stopped falling five blocks in a row */
#define THERMALIZE(STEP, STOPPED) \
  double H0 = 1e10, S0 = 1e-10, *values = allocate_d_vec(20); \
  int quiet = 0; \
  do { \
    UPTO(rep, 20) { \
      STEP; \
      values[rep] = *H; \
    } \
    double H1 = mean(values, 20), S1 = stddev(values, 20); \
    double falls = (H0 - S0 / sqrt(20)) - (H1 + S1 / sqrt(20)); \
    if (STOPPED) { \
      quiet++; \
    } else { \
      H0 = H1; \
      S0 = S1; \
      quiet = 0; \
    } \
  } while (quiet < 5); \
  free_d_vec(values);

void spec_ThermalizeLinkScoreMC(int decorStep, double *H, double linC, struct node_gra **nlist, struct group **glist,
                                struct group *part, int nnod, int **G2G, int *n2g, double **lc, int nlc, double *lf,
                                int nlf, gsl_rng *gen, char verbose)
{
  THERMALIZE(LinkScoreMCStep(decorStep, H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen),
             falls < EPSILON)
}

void spec_GibbsThermalizeLinkScore(double *H, double linC, struct node_gra **nlist, struct group **glist,
                                   struct group *part, int nnod, int **G2G, int *n2g, double **lc, int nlc, double *lf,
                                   int nlf, gsl_rng *gen, char verbose)
{
  THERMALIZE(GibbsLinkScoreStep(H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen), falls < EPSILON)
}

/* one group per node, empty; the node list and the group list by node number */
#define START(net) \
  struct node_gra **nlist = calloc(nnod, sizeof(struct node_gra *)); \
  struct group **glist = calloc(nnod, sizeof(struct group *)); \
  struct group *part = CreateHeaderGroup(), *last = part; \
  EACH_NODE(p, net) { \
    nlist[p->num] = p; \
    last = glist[p->num] = CreateGroup(last, p->num); \
  } \
  ResetNetGroup(net);

#define PLACE_AT_RANDOM(net) EACH_NODE(p, net) AddNodeToGroup(glist[pick(gen, nnod)], p);

#define LINKS_BETWEEN \
  int **G2G = allocate_i_mat(nnod, nnod), *n2g = allocate_i_vec(nnod); \
  UPTO(i, nnod) { \
    G2G[i][i] = glist[i]->inlinks; \
    for (int j = i + 1; j < nnod; j++) G2G[j][i] = G2G[i][j] = NG2GLinks(glist[i], glist[j]); \
  }

#define FINISH \
  RemovePartition(part); \
  free(glist); \
  free(nlist); \
  free_i_mat(G2G, nnod); \
  free_i_vec(n2g); \
  FreeFastLogChoose(lc, nlc); \
  FreeFastLogFact(lf);

static double **zero_scores(int nnod)
{
  double **a = allocate_d_mat(nnod, nnod);
  UPTO(i, nnod) UPTO(j, nnod) a[i][j] = 0;
  return a;
}

/* every pair of distinct nodes gains the score of its pair of groups */
#define ADD_SCORES(INSIDE, BETWEEN) \
  UPTO(i, nnod) { \
    if (!(glist[i]->size > 0)) continue; \
    int r = glist[i]->size * (glist[i]->size - 1) / 2, l = glist[i]->inlinks; \
    double c = INSIDE; \
    EACH_MEMBER(x, glist[i]) \
      for (struct node_lis *y = x->next; y; y = y->next) { \
        a[x->node][y->node] += c; \
        a[y->node][x->node] += c; \
      } \
    for (int j = i + 1; j < nnod; j++) { \
      if (!(glist[j]->size > 0)) continue; \
      int r = glist[i]->size * glist[j]->size, l = G2G[i][j]; \
      double c = BETWEEN; \
      EACH_MEMBER(x, glist[i]) EACH_MEMBER(y, glist[j]) { \
        a[x->node][y->node] += c; \
        a[y->node][x->node] += c; \
      } \
    } \
  }

double **spec_LinkScore(struct node_gra *net, double linC, int nIter, gsl_rng *gen, char verbose)
{
  int nnod = CountNodes(net), nlc = 500, nlf = 10000;
  double **lc = InitializeFastLogChoose(nlc), *lf = InitializeFastLogFact(nlf), **a = zero_scores(nnod);
  START(net)
  PLACE_AT_RANDOM(net)
  LINKS_BETWEEN
  double H = PartitionH(part, linC);
  int step = GetDecorrelationStep(&H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen, verbose);
  ThermalizeLinkScoreMC(step, &H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen, verbose);
  int samples = 0;
  UPTO(iter, nIter) {
    LinkScoreMCStep(step, &H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen);
    samples++;
    ADD_SCORES((float)(l + 1) / (float)(r + 2), (float)(l + 1) / (float)(r + 2))
  }
  UPTO(i, nnod) UPTO(j, nnod) a[i][j] /= samples;
  FINISH
  return a;
}

double **spec_GibbsLinkScore(struct node_gra *net, double linC, int nIter, gsl_rng *gen, char verbose)
{
  int nnod = CountNodes(net), nlc = 10000, nlf = 10000;
  double **lc = InitializeFastLogChoose(nlc), *lf = InitializeFastLogFact(nlf), **a = zero_scores(nnod);
  START(net)
  EACH_NODE(p, net) {
    gsl_rng_uniform(gen);
    AddNodeToGroup(glist[p->num], p);
  }
  LINKS_BETWEEN
  double H = PartitionH(part, linC);
  GibbsThermalizeLinkScore(&H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen, verbose);
  int samples = 0;
  UPTO(iter, nIter) {
    GibbsLinkScoreStep(&H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen);
    samples++;
    ADD_SCORES((float)(l + 1) / (float)(r + 2), (float)(l + 1) / (float)(r + 2))
  }
  UPTO(i, nnod) UPTO(j, nnod) a[i][j] /= samples;
  FINISH
  return a;
}

double spec_SBMError(struct node_gra *net, gsl_rng *gen)
{
  int nnod = CountNodes(net);
  double **a = LinkScore(net, 0, 10000, gen, 'q'), err = 0;
  struct node_gra **nlist = calloc(nnod, sizeof(struct node_gra *));
  EACH_NODE(p, net) nlist[p->num] = p;
  UPTO(i, nnod) for (int j = i + 1; j < nnod; j++) {
    double d = (IsThereLink(nlist[i], nlist[j]) == 1) - a[i][j];
    err += d * d;
  }
  free(nlist);
  free_d_mat(a, nnod);
  return sqrt(err / (double)(nnod * (nnod - 1) / 2));
}

double spec_SBMStructureScore(struct node_gra *net, int nrep, gsl_rng *gen)
{
  double own = SBMError(net, gen), *other = allocate_d_vec(nrep);
  struct node_gra *copy = CopyNetwork(net);
  UPTO(rep, nrep) {
    RandomizeSymmetricNetwork(copy, 100, gen);
    other[rep] = SBMError(copy, gen);
  }
  double z = (mean(other, nrep) - own) / stddev(other, nrep);
  free_d_vec(other);
  RemoveGraph(copy);
  return z;
}

struct node_gra *spec_NetFromSBMScores(struct node_gra *net, gsl_rng *gen)
{
  int nnod = CountNodes(net);
  double **a = LinkScore(net, 0, 10000, gen, 'q');
  struct node_gra *copy = EmptyGraph(nnod), **nlist = calloc(nnod, sizeof(struct node_gra *)), *p = net;
  EACH_NODE(q, copy) {
    p = p->next;
    strcpy(q->label, p->label);
    nlist[q->num] = q;
  }
  UPTO(i, nnod) for (int j = i + 1; j < nnod; j++)
    if (a[i][j] > 0.5) {
      AddAdjacency(nlist[i], nlist[j], 0, 0, 0, 0);
      AddAdjacency(nlist[j], nlist[i], 0, 0, 0, 0);
    }
  free(nlist);
  free_d_mat(a, nnod);
  return copy;
}

struct group **spec_PartitionSampling(struct node_gra *net, double linC, int nIter, gsl_rng *gen, char verbose,
                                      int burnin, double thinning)
{
  int nnod = CountNodes(net), nlc = 500, nlf = 10000;
  double **lc = InitializeFastLogChoose(nlc), *lf = InitializeFastLogFact(nlf);
  struct group **sample = calloc(nIter, sizeof(struct group *));
  START(net)
  PLACE_AT_RANDOM(net)
  LINKS_BETWEEN
  double H = PartitionH(part, linC);
  int step = GetDecorrelationStep(&H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen, verbose);
  ThermalizeLinkScoreMC(step, &H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen, verbose);
  UPTO(iter, burnin) LinkScoreMCStep(step, &H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen);
  if (verbose != 'd') H = 0;
  UPTO(iter, nIter) {
    LinkScoreMCStep((int)(step * thinning), &H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen);
    sample[iter] = CopyPartition(part);
    MapPartToNet(part, net);
  }
  FINISH
  return sample;
}

/* log of the probability of l links out of r, and of both of two networks with l1 and l2 links */
#define ONCE(r, l) (log((r) + 1) + LogChoose(r, l))

double spec_NetworkScore(struct node_gra *tar, struct node_gra *obs, double linC, int nIter, gsl_rng *gen, char verbose)
{
  int nnod = CountNodes(obs), nlc = 500, nlf = 10000, first = 1;
  double **lc = InitializeFastLogChoose(nlc), *lf = InitializeFastLogFact(nlf), st = 0, so = 0, base;
  START(obs)
  PLACE_AT_RANDOM(obs)
  LINKS_BETWEEN
  double H = PartitionH(part, linC);
  int step = GetDecorrelationStep(&H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen, verbose);
  ThermalizeLinkScoreMC(step, &H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen, verbose);
  if (verbose != 'd') H = 0;
  int samples = 0;
  UPTO(iter, nIter) {
    LinkScoreMCStep(step, &H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, gen);
    samples++;
    struct group *copy = CopyPartition(part), *t = copy;
    MapPartToNet(copy, tar);
    MapPartToNet(part, obs);
    double ct = 0, co = 0;
    EACH_GROUP(g, part) {
      t = t->next;
      if (!(g->size > 0)) continue;
      int r = g->size * (g->size - 1) / 2, l = g->inlinks;
      ct += ONCE(r, l) - ONCE(2 * r, l + t->inlinks);
      co += ONCE(r, l) - ONCE(2 * r, 2 * l);
      struct group *u = t;
      for (struct group *h = g->next; h; h = h->next) {
        u = u->next;
        if (!(h->size > 0)) continue;
        int r = g->size * h->size, l = G2G[g->label][h->label], lt = NG2GLinks(t, u);
        ct += ONCE(r, l) - ONCE(2 * r, l + lt);
        co += ONCE(r, l) - ONCE(2 * r, 2 * l);
      }
    }
    if (first) {
      base = co;
      first = 0;
    }
    st += exp(ct - base);
    so += exp(co - base);
    RemovePartition(copy);
  }
  FINISH
  return (st / samples) / (so / samples);
}

double spec_LSHKState(int K, struct group *part)
{
  double H = 0;
  int groups = 0, nodes = 0;
  EACH_GROUP(g, part) {
    if (g->size > 0) groups++;
    nodes += g->size;
    for (struct group *h = g; h; h = h->next) {
      H += gsl_sf_lnfact(NG2GLinks(g, h) + K - 1);
      UPTO(k, K) H -= gsl_sf_lnfact((int)NWeightG2GLinks(g, h, k));
    }
  }
  return H - gsl_sf_lnfact(nodes - groups);
}

int spec_LSGetDecorrelationStepKState(int K, double *H, struct node_gra **nlist, struct group **glist,
                                      struct group *part, int nnod, int *ng, int ****N2G, int ****G2G, double *ll,
                                      int nll, double *lf, int nlf, gsl_rng *gen, char verbose)
{
  int x2 = nnod / 5;
  if (x2 < 10) x2 = 10;
  DECORRELATION(LSMCStepKState(K, 1, H, nlist, glist, part, nnod, ng, N2G, G2G, ll, nll, lf, nlf, gen))
  return (int)(all / used + 0.5);
}

void spec_LSThermalizeMCKState(int K, int decorStep, double *H, struct node_gra **nlist, struct group **glist,
                               struct group *part, int nnod, int *ng, int ****N2G, int ****G2G, double *ll, int nll,
                               double *lf, int nlf, gsl_rng *gen, char verbose)
{
  THERMALIZE(LSMCStepKState(K, decorStep, H, nlist, glist, part, nnod, ng, N2G, G2G, ll, nll, lf, nlf, gen), falls < 0)
}

/* all pairs of groups with a or b, every link weight once */
#define WITH(a, b, S) \
  EACH_GROUP(g, part) { \
    int n = 0; \
    UPTO(k, K) { \
      n += (*G2G)[k][a][g->label]; \
      d -= S FastLogFact((*G2G)[k][a][g->label], lf, nlf); \
    } \
    d += S FastLogFact(n + K - 1, lf, nlf); \
    if (g->label == a) continue; \
    n = 0; \
    UPTO(k, K) { \
      n += (*G2G)[k][b][g->label]; \
      d -= S FastLogFact((*G2G)[k][b][g->label], lf, nlf); \
    } \
    d += S FastLogFact(n + K - 1, lf, nlf); \
  }

/* node x leaves group a for group b in the tables of links between groups and from nodes to groups */
#define SHIFT(a, b) \
  UPTO(i, nnod) UPTO(k, K) { \
    (*G2G)[k][a][i] -= (*N2G)[k][x->num][i]; \
    (*G2G)[k][b][i] += (*N2G)[k][x->num][i]; \
    (*G2G)[k][i][a] = (*G2G)[k][a][i]; \
    (*G2G)[k][i][b] = (*G2G)[k][b][i]; \
  } \
  EACH_LINK(l, x) UPTO(k, K) if (l->weight == (double)k) { \
    (*N2G)[k][l->ref->num][a] -= 1; \
    (*N2G)[k][l->ref->num][b] += 1; \
  }
#define SHIFT_BACK(a, b) \
  UPTO(i, nnod) UPTO(k, K) { \
    (*G2G)[k][a][i] += (*N2G)[k][x->num][i]; \
    (*G2G)[k][b][i] -= (*N2G)[k][x->num][i]; \
    (*G2G)[k][i][a] = (*G2G)[k][a][i]; \
    (*G2G)[k][i][b] = (*G2G)[k][b][i]; \
  } \
  EACH_LINK(l, x) UPTO(k, K) if (l->weight == (double)k) { \
    (*N2G)[k][l->ref->num][a] += 1; \
    (*N2G)[k][l->ref->num][b] -= 1; \
  }

void spec_LSMCStepKState(int K, int factor, double *H, struct node_gra **nlist, struct group **glist, struct group *part,
                         int nnod, int *ng, int ****N2G, int ****G2G, double *ll, int nll, double *lf, int nlf,
                         gsl_rng *gen)
{
  for (int move = 0; move < nnod * factor; move++) {
    struct node_gra *x = nlist[pick(gen, nnod)];
    int a = x->inGroup, b;
    do b = pick(gen, nnod); while (b == a);
    struct group *from = glist[a], *to = glist[b];
    double d = 0;
    WITH(a, b, -)
    if (from->size == 1 || to->size == 0) d += FastLogFact(nnod - *ng, lf, nlf);
    MoveNode(x, from, to);
    SHIFT(a, b)
    if (from->size == 0) *ng -= 1;
    if (to->size == 1) *ng += 1;
    WITH(a, b, +)
    if (from->size == 0 || to->size == 1) d -= FastLogFact(nnod - *ng, lf, nlf);
    if (d <= 0 || gsl_rng_uniform(gen) < exp(-d)) {
      *H += d;
    } else {
      MoveNode(x, to, from);
      SHIFT_BACK(a, b)
      if (from->size == 1) *ng += 1;
      if (to->size == 0) *ng -= 1;
    }
  }
}

#define STEP_ALL(COST, DEGENERACY) \
  for (int move = 0; move < nnod * factor; move++) { \
    struct node_gra *node = nlist[pick(gen, nnod)]; \
    int a = node->inGroup, b; \
    do b = pick(gen, nnod); while (b == a); \
    struct group *from = glist[a], *to = glist[b]; \
    int no = from->size, nn = to->size, lo = from->inlinks, ln = to->inlinks; \
    int ko = NLinksToGroup(node, from), kn = NLinksToGroup(node, to), lno = NG2GLinks(to, from), e = 0; \
    double d = 0; \
    if (nn == 0) d += linC; \
    if (no == 1) d -= linC; \
    EACH_GROUP(g, part) { \
      if (g->size > 0) { \
        e++; \
        n2g[g->label] = NLinksToGroup(node, g); \
        CHANGE(d, g, COST) \
      } else { \
        n2g[g->label] = 0; \
      } \
    } \
    if (no == 1 && nn != 0) d += LABELS(e - 1) - LABELS(e) - DEGENERACY(e - 1) + DEGENERACY(e); \
    if (no != 1 && nn == 0) d += LABELS(e + 1) - LABELS(e) - DEGENERACY(e + 1) + DEGENERACY(e); \
    if (d <= 0 || gsl_rng_uniform(gen) < exp(-d)) { \
      MoveNode(node, from, to); \
      *H += d; \
      UPTO(i, nnod) { \
        G2G[i][a] -= n2g[i]; \
        G2G[a][i] = G2G[i][a]; \
        G2G[i][b] += n2g[i]; \
        G2G[b][i] = G2G[i][b]; \
      } \
    } \
  }

#define STEP_ARGS int factor, double *H, double linC, struct node_gra **nlist, struct group **glist, \
  struct group *part, int nnod, int **G2G, int *n2g, double **lc, int nlc, double *lf, int nlf, double *harm, gsl_rng *gen

void spec_LSMCStepMB(STEP_ARGS) { STEP_ALL(COST_AND, LogDegeneracy) }
void spec_ORLSMCStepMB(STEP_ARGS) { STEP_ALL(COST_OR, LogDegeneracy) }
void spec_LSMCStepMB_OD(STEP_ARGS) { STEP_ALL(COST, LogDegeneracy_OD) }

#define SAMPLER_ARGS double *H, double linC, struct node_gra **nlist, struct group **glist, struct group *part, int nnod, \
  int **G2G, int *n2g, double **lc, int nlc, double *lf, int nlf, double *harm, gsl_rng *gen, char verbose
#define SAMPLER H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, harm, gen

int spec_GetDecorrelationStepMB(SAMPLER_ARGS)
{
  int x2 = nnod / 5;
  DECORRELATION(LSMCStepMB(1, SAMPLER))
  return all / used;
}

int spec_ORGetDecorrelationStepMB(SAMPLER_ARGS)
{
  int x2 = nnod / 5;
  DECORRELATION(ORLSMCStepMB(1, SAMPLER))
  return all / used;
}

int spec_GetDecorrelationStepMB_OD(SAMPLER_ARGS)
{
  int x2 = nnod / 5;
  DECORRELATION(LSMCStepMB_OD(1, SAMPLER))
  return all / used;
}

void spec_ThermalizeLSMCMB(int decorStep, SAMPLER_ARGS) { THERMALIZE(LSMCStepMB(decorStep, SAMPLER), falls < EPSILON) }
void spec_ORThermalizeLSMCMB(int decorStep, SAMPLER_ARGS) { THERMALIZE(ORLSMCStepMB(decorStep, SAMPLER), falls < EPSILON) }
void spec_ThermalizeLSMCMB_OD(int decorStep, SAMPLER_ARGS) { THERMALIZE(LSMCStepMB_OD(decorStep, SAMPLER), falls < EPSILON) }
void spec_GibbsThermalizeLSMCMB(SAMPLER_ARGS) { THERMALIZE(GibbsLinkScoreStepMB(SAMPLER), falls < EPSILON) }
void spec_ORGibbsThermalizeLSMCMB(SAMPLER_ARGS) { THERMALIZE(ORGibbsLinkScoreStepMB(SAMPLER), falls < EPSILON) }
void spec_GibbsThermalizeLSMCMB_OD(SAMPLER_ARGS) { THERMALIZE(GibbsLinkScoreStepMB_OD(SAMPLER), falls < EPSILON) }

#define SCORE ((float)(l + 1) / (float)(r + 2))
#define SCORE_AND ((float)(l + 1) * (harm[r + 2] - harm[l + 1]) / ((float)(r + 2) * (harm[r + 1] - harm[l])))
#define SCORE_OR ((float)(r - l + 1) * (harm[r + 2] - harm[r - l + 1]) / ((float)(r + 2) * (harm[r + 1] - harm[r - l])))

#define PREPARE(table, PLACE, ENERGY_OF) \
  int nnod = CountNodes(net), nlc = table, nlf = 10000; \
  double **lc = InitializeFastLogChoose(nlc), *lf = InitializeFastLogFact(nlf); \
  double *harm = InitializeHarmonicList(nnod * (nnod - 1) / 2 + 3), **a = zero_scores(nnod); \
  START(net) \
  PLACE \
  LINKS_BETWEEN \
  double H = ENERGY_OF(part, linC, harm);

#define SAMPLES(STEP, SC, FINAL) \
  double samples = 0; \
  UPTO(iter, nIter) { \
    STEP; \
    samples += 1; \
    ADD_SCORES(SC, SC) \
  } \
  UPTO(i, nnod) UPTO(j, nnod) a[i][j] = FINAL; \
  FINISH \
  FreeHarmonicList(harm); \
  return a;

#define ALONE EACH_NODE(p, net) { \
    gsl_rng_uniform(gen); \
    AddNodeToGroup(glist[p->num], p); \
  }
#define WITHIN &H, linC, nlist, glist, part, nnod, G2G, n2g, lc, nlc, lf, nlf, harm, gen
#define SCORE_ARGS struct node_gra *net, double linC, int nIter, gsl_rng *gen, char verbose

double **spec_LinkScoreMB(SCORE_ARGS)
{
  PREPARE(500, PLACE_AT_RANDOM(net), PartitionHMB)
  int step = GetDecorrelationStepMB(WITHIN, verbose);
  ThermalizeLSMCMB(step, WITHIN, verbose);
  if (verbose != 'd') H = 0;
  SAMPLES(LSMCStepMB(step, WITHIN), SCORE_AND, a[i][j] / samples)
}

double **spec_ORLinkScoreMB(SCORE_ARGS)
{
  PREPARE(500, PLACE_AT_RANDOM(net), ORPartitionHMB)
  int step = ORGetDecorrelationStepMB(WITHIN, verbose);
  ORThermalizeLSMCMB(step, WITHIN, verbose);
  if (verbose != 'd') H = 0;
  SAMPLES(ORLSMCStepMB(step, WITHIN), SCORE_OR, 1 - a[i][j] / samples)
}

double **spec_LinkScoreMB_OD(SCORE_ARGS)
{
  PREPARE(500, PLACE_AT_RANDOM(net), PartitionHMB_OD)
  int step = GetDecorrelationStepMB_OD(WITHIN, verbose);
  ThermalizeLSMCMB_OD(step, WITHIN, verbose);
  if (verbose != 'd') H = 0;
  SAMPLES(LSMCStepMB_OD(step, WITHIN), SCORE, a[i][j] / samples)
}

double **spec_GibbsLinkScoreMB(SCORE_ARGS)
{
  PREPARE(10000, ALONE, PartitionHMB)
  GibbsThermalizeLSMCMB(WITHIN, verbose);
  SAMPLES(GibbsLinkScoreStepMB(WITHIN), SCORE_AND, a[i][j] / samples)
}

double **spec_ORGibbsLinkScoreMB(SCORE_ARGS)
{
  PREPARE(10000, ALONE, ORPartitionHMB)
  ORGibbsThermalizeLSMCMB(WITHIN, verbose);
  SAMPLES(ORGibbsLinkScoreStepMB(WITHIN), SCORE_OR, 1 - a[i][j] / samples)
}

double **spec_GibbsLinkScoreMB_OD(SCORE_ARGS)
{
  PREPARE(10000, ALONE, PartitionHMB_OD)
  GibbsThermalizeLSMCMB_OD(WITHIN, verbose);
  SAMPLES(GibbsLinkScoreStepMB_OD(WITHIN), SCORE, a[i][j] / samples)
}

/* one heat-bath sweep: each node in turn chooses its group among the used ones and one empty group (counted once for
   each group outside the list) with probability proportional to exp(-change of energy) */
#define GIBBS(COST, DEGENERACY) \
  double *dH = allocate_d_vec(nnod); \
  int *used = allocate_i_vec(nnod), nused = 0; \
  EACH_GROUP(g, part) if (g->size > 0) used[nused++] = g->label; \
  for (int move = 0; move < nnod; move++) { \
    struct node_gra *node = nlist[move]; \
    int a = node->inGroup, b, e = 0; \
    struct group *from = glist[a], *to; \
    int no = from->size, lo = from->inlinks, ko = NLinksToGroup(node, from); \
    double norm = 0; \
    UPTO(j, nused) { \
      struct group *g = glist[used[j]]; \
      if (g->size > 0) e++; \
      n2g[g->label] = NLinksToGroup(node, g); \
    } \
    UPTO(q, nused) { \
      b = used[q]; \
      to = glist[b]; \
      if (b != a) { \
        dH[b] = 0; \
        int nn = to->size, ln = to->inlinks, kn = NLinksToGroup(node, to), lno = NG2GLinks(to, from), e = 0; \
        if (no == 1) dH[b] -= linC; \
        if (nn == 0) dH[b] += linC; \
        UPTO(j, nused) { \
          struct group *g = glist[used[j]]; \
          if (g->size > 0) { \
            e++; \
            n2g[g->label] = NLinksToGroup(node, g); \
            CHANGE(dH[b], g, COST) \
          } else { \
            n2g[g->label] = 0; \
          } \
        } \
        if (no == 1 && nn != 0) dH[b] += LABELS(e - 1) - LABELS(e) - DEGENERACY(e - 1) + DEGENERACY(e); \
        if (no != 1 && nn == 0) dH[b] += LABELS(e + 1) - LABELS(e) - DEGENERACY(e + 1) + DEGENERACY(e); \
      } else { \
        dH[b] = 0; \
      } \
      norm += exp(-dH[b]); \
    } \
    double d = linC; \
    if (no == 1) d -= linC; \
    UPTO(j, nused) { \
      struct group *g = glist[used[j]]; \
      if (!(g->size > 0)) continue; \
      if (g->label == from->label) { \
        d += COST((no - 1) * (no - 2) / 2, lo - ko) - COST(no * (no - 1) / 2, lo); \
        d += COST(no - 1, ko) - COST(0, 0); \
      } else { \
        int kg = n2g[g->label], og = G2G[from->label][g->label], m = g->size; \
        d += COST((no - 1) * m, og - kg) - COST(no * m, og); \
        d += COST(m, kg) - COST(0, 0); \
      } \
    } \
    if (no != 1) d += LABELS(e + 1) - LABELS(e) - DEGENERACY(e + 1) + DEGENERACY(e); \
    norm += exp(-d) * (nnod - nused); \
    double dice = norm * gsl_rng_uniform(gen); \
    if (dice > norm - (nnod - nused) * exp(-d)) { \
      to = GetEmptyGroup(part); \
      b = to->label; \
      dH[b] = d; \
    } else { \
      int target = 0; \
      double cum = 0; \
      do cum += exp(-dH[used[target++]]); while (cum < dice && target < nused); \
      b = used[target - 1]; \
      to = glist[b]; \
    } \
    MoveNode(node, from, to); \
    *H += dH[b]; \
    UPTO(j, nused) { \
      int g = used[j]; \
      G2G[g][a] -= n2g[g]; \
      G2G[a][g] = G2G[g][a]; \
      G2G[g][b] += n2g[g]; \
      G2G[b][g] = G2G[g][b]; \
    } \
    int known = 0; \
    UPTO(j, nused) if (used[j] == b) known = 1; \
    if (!known) used[nused++] = b; \
  } \
  free_i_vec(used); \
  free_d_vec(dH);

#define GIBBS_ARGS double *H, double linC, struct node_gra **nlist, struct group **glist, struct group *part, int nnod, \
  int **G2G, int *n2g, double **lc, int nlc, double *lf, int nlf
#define NONE(e) 0

void spec_GibbsLinkScoreStep(GIBBS_ARGS, gsl_rng *gen) { GIBBS(COST, NONE) }
void spec_GibbsLinkScoreStepMB(GIBBS_ARGS, double *harm, gsl_rng *gen) { GIBBS(COST_AND, LogDegeneracy) }
void spec_ORGibbsLinkScoreStepMB(GIBBS_ARGS, double *harm, gsl_rng *gen) { GIBBS(COST_OR, LogDegeneracy) }
void spec_GibbsLinkScoreStepMB_OD(GIBBS_ARGS, double *harm, gsl_rng *gen) { GIBBS(COST, LogDegeneracy_OD) }

/* sparse networks: the link probabilities have a beta prior, so a pair of groups that could hold r links and holds l
   contributes a ratio of gamma functions */
double spec_SparsePartitionH(struct group *part, double a, double b)
{
  double H = 0;
  int nodes = 0, groups = 0;
  EACH_GROUP(g, part) {
    if (g->size > 0) groups++;
    nodes += g->size;
    double r = g->size * (g->size - 1) / 2, l = g->inlinks;
    H += gsl_sf_lngamma(r + a + b) - gsl_sf_lngamma(l + a) - gsl_sf_lngamma(r - l + b);
    for (struct group *h = g->next; h; h = h->next) {
      double r = g->size * h->size, l = NG2GLinks(g, h);
      H += gsl_sf_lngamma(r + a + b) - gsl_sf_lngamma(l + a) - gsl_sf_lngamma(r - l + b);
    }
  }
  return H - gsl_sf_lnfact(nodes - groups);
}

#define SPARSE_COST(r, l) \
  (FastLogGamma(r, lab, nlg, pa + pb) - FastLogGamma(l, la, nlg, pa) - FastLogGamma((r) - (l), lb, nlg, pb))
#define SPARSE_ARGS double *H, struct node_gra **nlist, struct group **glist, struct group *part, int nnod, int **G2G, \
  int *n2g, double *la, double *lb, double *lab, int nlg, double *lf, int nlf, double pa, double pb, gsl_rng *gen
#define SPARSE_PASS H, nlist, glist, part, nnod, G2G, n2g, la, lb, lab, nlg, lf, nlf, pa, pb, gen

void spec_SparseGibbsLinkScoreStep(SPARSE_ARGS)
{
  double *dH = allocate_d_vec(nnod);
  int *used = allocate_i_vec(nnod), nused = 0;
  EACH_GROUP(g, part) if (g->size > 0) used[nused++] = g->label;
  for (int move = 0; move < nnod; move++) {
    struct node_gra *node = nlist[move];
    int a = node->inGroup, b, e = 0;
    struct group *from = glist[a], *to;
    int no = from->size, lo = from->inlinks, ko = NLinksToGroup(node, from);
    double norm = 0;
    UPTO(j, nused) {
      struct group *g = glist[used[j]];
      if (g->size > 0) e++;
      n2g[g->label] = NLinksToGroup(node, g);
    }
    UPTO(q, nused) {
      b = used[q];
      to = glist[b];
      if (b != a) {
        dH[b] = 0;
        int nn = to->size, ln = to->inlinks, kn = NLinksToGroup(node, to), lno = NG2GLinks(to, from), e = 0;
        UPTO(j, nused) {
          struct group *g = glist[used[j]];
          if (g->size > 0) e++;
          n2g[g->label] = NLinksToGroup(node, g);
          CHANGE(dH[b], g, SPARSE_COST)
        }
        if (no == 1 && nn != 0) dH[b] += LABELS(e - 1) - LABELS(e);
        if (no != 1 && nn == 0) dH[b] += LABELS(e + 1) - LABELS(e);
      } else {
        dH[b] = 0;
      }
      norm += exp(-dH[b]);
    }
    double d = 0;
    UPTO(j, nused) {
      struct group *g = glist[used[j]];
      if (g->label == from->label) {
        d += SPARSE_COST((no - 1) * (no - 2) / 2, lo - ko) - SPARSE_COST(no * (no - 1) / 2, lo);
        d += SPARSE_COST(no - 1, ko) - SPARSE_COST(0, 0);
      } else {
        int kg = n2g[g->label], og = G2G[from->label][g->label], m = g->size;
        d += SPARSE_COST((no - 1) * m, og - kg) - SPARSE_COST(no * m, og);
        d += SPARSE_COST(m, kg) - SPARSE_COST(0, 0);
      }
    }
    if (no != 1) d += LABELS(e + 1) - LABELS(e);
    norm += exp(-d) * (nnod - nused);
    double dice = norm * gsl_rng_uniform(gen);
    if (dice > norm - (nnod - nused) * exp(-d)) {
      to = GetEmptyGroup(part);
      b = to->label;
      dH[b] = d;
    } else {
      int target = 0;
      double cum = 0;
      do cum += exp(-dH[used[target++]]); while (cum < dice && target < nused);
      b = used[target - 1];
      to = glist[b];
    }
    MoveNode(node, from, to);
    *H += dH[b];
    UPTO(j, nused) {
      int g = used[j];
      G2G[g][a] -= n2g[g];
      G2G[a][g] = G2G[g][a];
      G2G[g][b] += n2g[g];
      G2G[b][g] = G2G[g][b];
    }
    int known = 0;
    UPTO(j, nused) if (used[j] == b) known = 1;
    if (!known) used[nused++] = b;
  }
  free_i_vec(used);
  free_d_vec(dH);
}

void spec_SparseGibbsThermalizeLinkScore(SPARSE_ARGS, char verbose)
{
  THERMALIZE(SparseGibbsLinkScoreStep(SPARSE_PASS), falls < EPSILON)
}

double **spec_SparseGibbsLinkScore(struct node_gra *net, int nIter, gsl_rng *gen, char verbose)
{
  int nnod = CountNodes(net), links = TotalNLinks(net, 1), nlg = 10000, nlf = 10000;
  double density = 2.0 * links / (double)(nnod * (nnod - 1)), pb = 0.5, pa = density * pb / (1.0 - density);
  double *la = InitializeFastLogGamma(nlg, pa), *lb = InitializeFastLogGamma(nlg, pb);
  double *lab = InitializeFastLogGamma(nlg, pa + pb), *lf = InitializeFastLogFact(nlf), **a = zero_scores(nnod);
  START(net)
  EACH_NODE(p, net) {
    gsl_rng_uniform(gen);
    AddNodeToGroup(glist[p->num], p);
  }
  LINKS_BETWEEN
  double start = SparsePartitionH(part, pa, pb), *H = &start;
  SparseGibbsThermalizeLinkScore(SPARSE_PASS, verbose);
  int samples = 0;
  UPTO(iter, nIter) {
    SparseGibbsLinkScoreStep(SPARSE_PASS);
    samples++;
    ADD_SCORES((float)(l + pa) / (float)(r + pa + pb), (float)(l + pa) / (float)(r + pa + pb))
  }
  UPTO(i, nnod) UPTO(j, nnod) a[i][j] /= samples;
  RemovePartition(part);
  free(glist);
  free(nlist);
  free_i_mat(G2G, nnod);
  free_i_vec(n2g);
  FreeFastLogGamma(la);
  FreeFastLogGamma(lb);
  FreeFastLogGamma(lab);
  FreeFastLogFact(lf);
  return a;
}

/* links of K kinds: the score of a pair is the mean over samples of the posterior share of each kind between the groups of
   the two nodes; sampling starts over when the energy drops by more than 400 */
double **spec_LSMultiLinkScoreKState(int K, struct node_gra *net, int nIter, gsl_rng *gen, char verbose, int step,
                                     struct query ***set, int *nquery)
{
  int nnod = CountNodes(net), nll = 5000, nlf = 10000, made = 0;
  double *ll = InitializeFastLog(nll), *lf = InitializeFastLogFact(nlf);
  int ***N2G = calloc(K, sizeof(int **)), ***G2G = calloc(K, sizeof(int **));
  struct node_gra **nlist = calloc(nnod, sizeof(struct node_gra *));
  struct group **glist = calloc(nnod, sizeof(struct group *));
  struct group *part = CreateHeaderGroup(), *last = part;
  EACH_NODE(p, net) {
    nlist[p->num] = p;
    last = glist[p->num] = CreateGroup(last, p->num);
  }
  *nquery = nnod * (nnod - 1) / 2;
  *set = calloc(*nquery, sizeof(struct query *));
  EACH_NODE(p, net) for (struct node_gra *q = p->next; q; q = q->next) (*set)[made++] = CreateQuery(p, q);
  double **score = allocate_d_mat(K, *nquery);
  UPTO(k, K) UPTO(q, *nquery) score[k][q] = 0;
  ResetNetGroup(net);
  EACH_NODE(p, net) AddNodeToGroup(glist[p->num], p);
  UPTO(k, K) {
    G2G[k] = allocate_i_mat(nnod, nnod);
    UPTO(i, nnod) UPTO(j, nnod) G2G[k][i][j] = G2G[k][j][i] = NWeightG2GLinks(glist[i], glist[j], k);
  }
  UPTO(k, K) {
    N2G[k] = allocate_i_mat(nnod, nnod);
    UPTO(i, nnod) UPTO(j, nnod) N2G[k][i][j] = NWeightLinksToGroup(nlist[i], glist[j], k);
  }
  int ng = NNonEmptyGroups(part);
  double H = LSHKState(K, part), H0 = 0;
  if (step <= 0)
    step = LSGetDecorrelationStepKState(K, &H, nlist, glist, part, nnod, &ng, &N2G, &G2G, ll, nll, lf, nlf, gen, verbose);
  LSThermalizeMCKState(K, step, &H, nlist, glist, part, nnod, &ng, &N2G, &G2G, ll, nll, lf, nlf, gen, verbose);
  if (verbose == 'd') H0 = H;
  else H = 0;
  int samples = 0;
  UPTO(iter, nIter) {
    LSMCStepKState(K, step, &H, nlist, glist, part, nnod, &ng, &N2G, &G2G, ll, nll, lf, nlf, gen);
    if (H - H0 < -400) {
      iter = 0;
      H = H0;
      samples = 0;
      UPTO(k, K) UPTO(q, *nquery) score[k][q] = 0;
    }
    samples++;
    UPTO(k, K) UPTO(q, *nquery) {
      int a = (*set)[q]->n1->inGroup, b = (*set)[q]->n2->inGroup, n = 0;
      int m = G2G[k][a][b];
      UPTO(h, K) n += G2G[h][a][b];
      score[k][q] += (float)(m + 1) / (float)(n + K);
    }
    if (iter % 100 == 0 && verbose != 'q') {
      FILE *f = fopen("scores.tmp", "w");
      if (f) {
        UPTO(q, *nquery) {
          fprintf(f, "%s %s", (*set)[q]->n1->label, (*set)[q]->n2->label);
          UPTO(k, K) fprintf(f, " %lf", score[k][q] / samples);
          fprintf(f, "\n");
        }
        fclose(f);
      }
      f = fopen("part.tmp", "w");
      if (f) {
        FPrintPartition(f, part, 1);
        fclose(f);
      }
    }
  }
  UPTO(k, K) UPTO(q, *nquery) score[k][q] /= samples;
  RemovePartition(part);
  free(glist);
  free(nlist);
  UPTO(k, K) {
    free_i_mat(G2G[k], nnod);
    free_i_mat(N2G[k], nnod);
  }
  free(G2G);
  free(N2G);
  FreeFastLog(ll);
  FreeFastLogFact(lf);
  return score;
}
