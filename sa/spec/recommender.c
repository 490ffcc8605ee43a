/* prediction of ratings: energies and moves of pairs of partitions of a bipartite network, scores of queries */
#include "spec.h"
#include "missing.h"
#include "recommend.h"

static int pick(gsl_rng *gen, int n) { return floor(gsl_rng_uniform(gen) * (double)n); }

struct query *spec_CreateQuery(struct node_gra *a, struct node_gra *b)
{
  struct query *q = calloc(1, sizeof(struct query));
  q->n1 = a;
  q->n2 = b;
  q->score = -1;
  return q;
}

void spec_FreeQuery(struct query *q) { free(q); }

int spec_CountUnobserved(struct binet *r) { return CountNodes(r->net1) * CountNodes(r->net2) - NLinksBipart(r); }

struct query **spec_BuildUnobservedSet(struct binet *r)
{
  struct query **set = calloc(CountUnobserved(r), sizeof(struct query *));
  int n = 0;
  EACH_NODE(p, r->net1) EACH_NODE(m, r->net2) if (!IsThereLink(p, m)) set[n++] = CreateQuery(p, m);
  return set;
}

struct binet *spec_ReadRecommenderObservations(FILE *f) { return FBuildNetworkBipart(f, 1, 0); }

double spec_H2State(struct group *part1, struct group *part2)
{
  double H = 0;
  int groups1 = 0, nodes1 = 0, groups2 = 0, nodes2 = 0;
  EACH_GROUP(g, part1) if (g->size > 0) {
    groups1++;
    nodes1 += g->size;
    EACH_GROUP(h, part2) if (h->size > 0) {
      double r = NG2GLinks(g, h), l = NWeightG2GLinks(g, h, 1);
      H += log(r + 1) + LogChoose(r, l);
    }
  }
  EACH_GROUP(h, part2) if (h->size > 0) {
    groups2++;
    nodes2 += h->size;
  }
  return H - gsl_sf_lnfact(nodes1 - groups1) - gsl_sf_lnfact(nodes2 - groups2);
}

double spec_HKState(int K, struct group *part1, struct group *part2)
{
  double H = 0;
  int groups1 = 0, nodes1 = 0, groups2 = 0, nodes2 = 0;
  EACH_GROUP(g, part1) {
    if (g->size > 0) groups1++;
    nodes1 += g->size;
    EACH_GROUP(h, part2) {
      double n = NG2GLinks(g, h);
      H += gsl_sf_lnfact(n + K - 1);
      UPTO(k, K) H -= gsl_sf_lnfact((double)NWeightG2GLinks(g, h, k));
    }
  }
  EACH_GROUP(h, part2) if (h->size > 0) {
    groups2++;
    nodes2 += h->size;
  }
  return H - gsl_sf_lnfact(nodes1 - groups1) - gsl_sf_lnfact(nodes2 - groups2);
}

/* a node of one of the two sides, chosen by their numbers of moves, tries another group of its own side */
#define SIDES \
  double share = (double)(nnod1 * nnod1 - 1) / (double)(nnod1 * nnod1 + nnod2 * nnod2 - 2);

#define COST2(a, h) \
  (FastLog(g0[a][(h)->label] + g1[a][(h)->label] + 1, ll, nll) + \
   FastLogChoose(g0[a][(h)->label] + g1[a][(h)->label], g1[a][(h)->label], lc, nlc))

#define ARGS_2 \
  struct node_gra **nlist1, struct node_gra **nlist2, struct group **glist1, struct group **glist2, struct group *part1, \
  struct group *part2, int nnod1, int nnod2, int *ng1, int *ng2, int **N1G2_0, int **N2G1_0, int **N1G2_1, \
  int **N2G1_1, int **G1G2_0, int **G2G1_0, int **G1G2_1, int **G2G1_1, double *ll, int nll, double **lc, int nlc, \
  double *lf, int nlf, gsl_rng *gen
#define PASS_2 \
  nlist1, nlist2, glist1, glist2, part1, part2, nnod1, nnod2, ng1, ng2, N1G2_0, N2G1_0, N1G2_1, N2G1_1, G1G2_0, G2G1_0, \
  G1G2_1, G2G1_1, ll, nll, lc, nlc, lf, nlf, gen

#define CHOOSE \
  int first = gsl_rng_uniform(gen) < share, nnod, others, *ng, a, b; \
  struct node_gra *x; \
  struct group *from, *to, *other; \
  if (first) { \
    nnod = nnod1; others = nnod2; ng = ng1; other = part2; \
    x = nlist1[pick(gen, nnod1)]; \
    a = x->inGroup; \
    do b = pick(gen, nnod1); while (b == a); \
    from = glist1[a]; to = glist1[b]; \
  } else { \
    nnod = nnod2; others = nnod1; ng = ng2; other = part1; \
    x = nlist2[pick(gen, nnod2)]; \
    a = x->inGroup; \
    do b = pick(gen, nnod2); while (b == a); \
    from = glist2[a]; to = glist2[b]; \
  }

void spec_MCStep2State(int factor, double *H, ARGS_2)
{
  SIDES
  for (int move = 0; move < (nnod1 + nnod2) * factor; move++) {
    CHOOSE
    int **g0 = first ? G1G2_0 : G2G1_0, **t0 = first ? G2G1_0 : G1G2_0, **n0 = first ? N1G2_0 : N2G1_0;
    int **g1 = first ? G1G2_1 : G2G1_1, **t1 = first ? G2G1_1 : G1G2_1, **n1 = first ? N1G2_1 : N2G1_1;
    int **m0 = first ? N2G1_0 : N1G2_0, **m1 = first ? N2G1_1 : N1G2_1;
    double d = 0;
    EACH_GROUP(h, other) if (h->size > 0) d -= COST2(a, h) + COST2(b, h);
    if (from->size == 1 || to->size == 0) d += FastLogFact(nnod - *ng, lf, nlf);
    MoveNode(x, from, to);
    UPTO(i, others) {
      g0[a][i] -= n0[x->num][i];
      g0[b][i] += n0[x->num][i];
      t0[i][a] -= n0[x->num][i];
      t0[i][b] += n0[x->num][i];
      g1[a][i] -= n1[x->num][i];
      g1[b][i] += n1[x->num][i];
      t1[i][a] -= n1[x->num][i];
      t1[i][b] += n1[x->num][i];
    }
    EACH_LINK(l, x) {
      if (l->weight == 0.) {
        m0[l->ref->num][a] -= 1;
        m0[l->ref->num][b] += 1;
      } else if (l->weight == 1.) {
        m1[l->ref->num][a] -= 1;
        m1[l->ref->num][b] += 1;
      }
    }
    if (from->size == 0) *ng -= 1;
    if (to->size == 1) *ng += 1;
    EACH_GROUP(h, other) if (h->size > 0) d += COST2(a, h) + COST2(b, h);
    if (from->size == 0 || to->size == 1) d -= FastLogFact(nnod - *ng, lf, nlf);
    if (d <= 0 || gsl_rng_uniform(gen) < exp(-d)) {
      *H += d;
      continue;
    }
    MoveNode(x, to, from);
    UPTO(i, others) {
      g0[a][i] += n0[x->num][i];
      g0[b][i] -= n0[x->num][i];
      t0[i][a] += n0[x->num][i];
      t0[i][b] -= n0[x->num][i];
      g1[a][i] += n1[x->num][i];
      g1[b][i] -= n1[x->num][i];
      t1[i][a] += n1[x->num][i];
      t1[i][b] -= n1[x->num][i];
    }
    EACH_LINK(l, x) {
      if (l->weight == 0.) {
        m0[l->ref->num][a] += 1;
        m0[l->ref->num][b] -= 1;
      } else if (l->weight == 1.) {
        m1[l->ref->num][a] += 1;
        m1[l->ref->num][b] -= 1;
      }
    }
    if (from->size == 1) *ng += 1;
    if (to->size == 0) *ng -= 1;
  }
}

#define ARGS_K \
  struct node_gra **nlist1, struct node_gra **nlist2, struct group **glist1, struct group **glist2, struct group *part1, \
  struct group *part2, int nnod1, int nnod2, int *ng1, int *ng2, int **N1G2[], int **N2G1[], int **G1G2[], \
  int **G2G1[], double *ll, int nll, double *lf, int nlf, gsl_rng *gen
#define PASS_K \
  nlist1, nlist2, glist1, glist2, part1, part2, nnod1, nnod2, ng1, ng2, N1G2, N2G1, G1G2, G2G1, ll, nll, lf, nlf, gen

/* cost of the links between group a of the moving side and every group of the other side */
#define COSTK(SIGN, a, h) { \
    int n = 0; \
    UPTO(k, K) n += (*G2G)[k][a][(h)->label]; \
    d += SIGN FastLogFact(n + K - 1, lf, nlf); \
    UPTO(k, K) d -= SIGN FastLogFact((*G2G[k])[a][(h)->label], lf, nlf); \
  }

#define SHIFTK(MINUS, PLUS) \
  UPTO(i, others) UPTO(k, K) { \
    (*G2G[k])[a][i] MINUS (*N2G[k])[x->num][i]; \
    (*G2G[k])[b][i] PLUS (*N2G[k])[x->num][i]; \
    (*inv[k])[i][a] MINUS (*N2G[k])[x->num][i]; \
    (*inv[k])[i][b] PLUS (*N2G[k])[x->num][i]; \
  } \
  EACH_LINK(l, x) UPTO(k, K) if (l->weight == (double)k) { \
    (*N2Ginv[k])[l->ref->num][a] MINUS 1; \
    (*N2Ginv[k])[l->ref->num][b] PLUS 1; \
  }

#define CHOOSE_K \
    UPTO(k, K) { \
      G2G[k] = first ? &G1G2[k] : &G2G1[k]; \
      inv[k] = first ? &G2G1[k] : &G1G2[k]; \
      N2G[k] = first ? &N1G2[k] : &N2G1[k]; \
      N2Ginv[k] = first ? &N2G1[k] : &N1G2[k]; \
    }

void spec_MCStepKState(int K, int factor, double *H, ARGS_K)
{
  int ***N2G[K], ***N2Ginv[K], ***G2G[K], ***inv[K];
  SIDES
  for (int move = 0; move < (nnod1 + nnod2) * factor; move++) {
    CHOOSE
    CHOOSE_K
    double d = 0;
    EACH_GROUP(h, other) if (h->size > 0) { COSTK(-, a, h) COSTK(-, b, h) }
    if (from->size == 1 || to->size == 0) d += FastLogFact(nnod - *ng, lf, nlf);
    MoveNode(x, from, to);
    SHIFTK(-=, +=)
    if (from->size == 0) *ng -= 1;
    if (to->size == 1) *ng += 1;
    EACH_GROUP(h, other) if (h->size > 0) { COSTK(+, a, h) COSTK(+, b, h) }
    if (from->size == 0 || to->size == 1) d -= FastLogFact(nnod - *ng, lf, nlf);
    if (d <= 0 || gsl_rng_uniform(gen) < exp(-d)) {
      *H += d;
      continue;
    }
    MoveNode(x, to, from);
    SHIFTK(+=, -=)
    if (from->size == 1) *ng += 1;
    if (to->size == 0) *ng -= 1;
  }
}

/* ten estimates of the decay of the information both partitions share with where they started; the slower side counts;
   estimates two deviations off are left out */
#define DECORRELATION2(STEP) \
  int n = 10, x2 = (nnod1 + nnod2) / 5; \
  if (x2 < 10) x2 = 10; \
  int x1 = x2 / 4; \
  double y11, y12, *decay1 = allocate_d_vec(n), *decay2 = allocate_d_vec(n); \
  UPTO(rep, n) { \
    struct group *ref1 = CopyPartition(part1), *ref2 = CopyPartition(part2); \
    for (int step = 0; step <= x2; step++) { \
      STEP; \
      if (step == x1) { \
        y11 = MutualInformation(ref1, part1, 0); \
        y12 = MutualInformation(ref2, part2, 0); \
      } \
    } \
    double y21 = MutualInformation(ref1, part1, 0), y22 = MutualInformation(ref2, part2, 0); \
    decay1[rep] = nnod1 > 1 ? 2 * CalculateDecay(nnod1, x1, y11, x2, y21) : 1e-6; \
    decay2[rep] = nnod2 > 1 ? 2 * CalculateDecay(nnod2, x1, y12, x2, y22) : 1e-6; \
    if (decay1[rep] < 0 || decay2[rep] < 0) rep--; \
    RemovePartition(ref1); \
    RemovePartition(ref2); \
  } \
  double m1 = mean(decay1, n), m2 = mean(decay2, n), m, s, *decay; \
  if (m1 > m2) { \
    m = m1; s = stddev(decay1, n); decay = decay1; \
  } else { \
    m = m2; s = stddev(decay2, n); decay = decay2; \
  } \
  double all = m * n; \
  int used = 0; \
  UPTO(rep, n) { \
    if (fabs(decay[rep] - m) / s > 2) all -= decay[rep]; \
    else used++; \
  } \
  free_d_vec(decay1); \
  free_d_vec(decay2); \
  return all / used + 0.5;

int spec_GetDecorrelationStep2State(double *H, ARGS_2, char verbose) { DECORRELATION2(MCStep2State(1, H, PASS_2)) }

int spec_GetDecorrelationStepKState(int K, double *H, ARGS_K, char verbose)
{
  DECORRELATION2(MCStepKState(K, 1, H, PASS_K))
}

/* blocks of twenty samples until the mean energy has stopped falling five blocks in a row */
#define THERMALIZE2(STEP) \
  double H0 = 1e10, S0 = 1e-10, *values = allocate_d_vec(20); \
  int quiet = 0; \
  do { \
    UPTO(rep, 20) { \
      STEP; \
      values[rep] = *H; \
    } \
    double H1 = mean(values, 20), S1 = stddev(values, 20); \
    if (H0 - S0 / sqrt(20) < H1 + S1 / sqrt(20)) { \
      quiet++; \
    } else { \
      H0 = H1; \
      S0 = S1; \
      quiet = 0; \
    } \
  } while (quiet < 5); \
  free_d_vec(values);

void spec_ThermalizeMC2State(int step, double *H, ARGS_2, char verbose) { THERMALIZE2(MCStep2State(step, H, PASS_2)) }

void spec_ThermalizeMCKState(int K, int step, double *H, ARGS_K, char verbose)
{
  THERMALIZE2(MCStepKState(K, step, H, PASS_K))
}

/* the ratings without those asked for; every node in a group of its own */
#define FORGET if (IsThereLink(set[q]->n1, set[q]->n2) == 1) RemoveLink(set[q]->n1, set[q]->n2, 1);
#define QUERIES_TO(net_of, EACH) { \
    void *dict1 = MakeLabelDict((net_of)->net1), *dict2 = MakeLabelDict((net_of)->net2); \
    UPTO(q, nquery) { \
      set[q]->n1 = GetNodeDict(set[q]->n1->label, dict1); \
      set[q]->n2 = GetNodeDict(set[q]->n2->label, dict2); \
      EACH \
    } \
    FreeLabelDict(dict1); \
    FreeLabelDict(dict2); \
  }

#define SINGLES(net, nnod, nlist, glist, part) \
  struct node_gra **nlist = calloc(nnod, sizeof(struct node_gra *)); \
  struct group **glist = calloc(nnod, sizeof(struct group *)), *part = CreateHeaderGroup(); \
  { \
    struct group *last = part; \
    EACH_NODE(p, net) { \
      nlist[p->num] = p; \
      last = glist[p->num] = CreateGroup(last, p->num); \
    } \
  }

#define PUT(net, glist) { \
    ResetNetGroup(net); \
    EACH_NODE(p, net) AddNodeToGroup(glist[p->num], p); \
  }

#define BOTH_SIDES(r) \
  SINGLES(r->net1, nnod1, nlist1, glist1, part1) \
  SINGLES(r->net2, nnod2, nlist2, glist2, part2) \
  PUT(r->net1, glist1) \
  PUT(r->net2, glist2)

#define DROP_SIDES \
  RemovePartition(part1); \
  RemovePartition(part2); \
  free(glist1); \
  free(glist2); \
  free(nlist1); \
  free(nlist2);

#define PARTS_TMP { \
    FILE *f = fopen("part1.tmp", "w"); \
    FPrintPartition(f, part1, 1); \
    fclose(f); \
    f = fopen("part2.tmp", "w"); \
    FPrintPartition(f, part2, 1); \
    fclose(f); \
  }

#define START_2 \
  int **G1G2_0 = allocate_i_mat(nnod1, nnod2), **G2G1_0 = allocate_i_mat(nnod2, nnod1); \
  int **G1G2_1 = allocate_i_mat(nnod1, nnod2), **G2G1_1 = allocate_i_mat(nnod2, nnod1); \
  UPTO(i, nnod1) UPTO(j, nnod2) { \
    G1G2_0[i][j] = G2G1_0[j][i] = NWeightG2GLinks(glist1[i], glist2[j], 0); \
    G1G2_1[i][j] = G2G1_1[j][i] = NWeightG2GLinks(glist1[i], glist2[j], 1); \
  } \
  int **N1G2_0 = allocate_i_mat(nnod1, nnod2), **N2G1_0 = allocate_i_mat(nnod2, nnod1); \
  int **N1G2_1 = allocate_i_mat(nnod1, nnod2), **N2G1_1 = allocate_i_mat(nnod2, nnod1); \
  UPTO(i, nnod1) UPTO(j, nnod2) { \
    N1G2_0[i][j] = NWeightLinksToGroup(nlist1[i], glist2[j], 0); \
    N2G1_0[j][i] = NWeightLinksToGroup(nlist2[j], glist1[i], 0); \
    N1G2_1[i][j] = NWeightLinksToGroup(nlist1[i], glist2[j], 1); \
    N2G1_1[j][i] = NWeightLinksToGroup(nlist2[j], glist1[i], 1); \
  } \
  int groups1 = NNonEmptyGroups(part1), groups2 = NNonEmptyGroups(part2), *ng1 = &groups1, *ng2 = &groups2; \
  double H = H2State(part1, part2), H0 = 0; \
  if (step <= 0) step = GetDecorrelationStep2State(&H, PASS_2, verbose); \
  ThermalizeMC2State(step, &H, PASS_2, verbose); \
  if (verbose == 'd') H0 = H; \
  else H = 0;

#define END_2 \
  free_i_mat(G1G2_0, nnod1); \
  free_i_mat(G2G1_0, nnod2); \
  free_i_mat(G1G2_1, nnod1); \
  free_i_mat(G2G1_1, nnod2); \
  free_i_mat(N1G2_0, nnod1); \
  free_i_mat(N2G1_0, nnod2); \
  free_i_mat(N1G2_1, nnod1); \
  free_i_mat(N2G1_1, nnod2); \
  FreeFastLog(ll); \
  FreeFastLogChoose(lc, nlc); \
  FreeFastLogFact(lf);

double *spec_MultiLinkScore2State(struct binet *ratings, struct query **set, int nquery, int nIter, gsl_rng *gen,
                                  char verbose, int step)
{
  int nnod1 = CountNodes(ratings->net1), nnod2 = CountNodes(ratings->net2), nlc = 500, nll = 5000, nlf = 2000;
  double **lc = InitializeFastLogChoose(nlc), *ll = InitializeFastLog(nll), *lf = InitializeFastLogFact(nlf);
  struct binet *r = CopyBipart(ratings);
  QUERIES_TO(r, FORGET)
  double *score = allocate_d_vec(nquery);
  UPTO(q, nquery) score[q] = 0;
  BOTH_SIDES(r)
  START_2
  int samples = 0;
  UPTO(iter, nIter) {
    MCStep2State(step, &H, PASS_2);
    if (H - H0 < -400.0) {
      iter = 0;
      H = H0;
      samples = 0;
      UPTO(q, nquery) score[q] = 0;
    }
    samples++;
    UPTO(q, nquery) {
      int a = set[q]->n1->inGroup, b = set[q]->n2->inGroup;
      score[q] += (float)(G1G2_1[a][b] + 1) / (float)(G1G2_0[a][b] + G1G2_1[a][b] + 2);
    }
    if (iter % 100 == 0 && verbose != 'q') {
      FILE *f = fopen("scores.tmp", "w");
      UPTO(q, nquery) fprintf(f, "%s %s %lf\n", set[q]->n1->label, set[q]->n2->label, score[q] / samples);
      fclose(f);
      PARTS_TMP
    }
  }
  UPTO(q, nquery) score[q] /= samples;
  QUERIES_TO(ratings, )
  DROP_SIDES
  END_2
  RemoveBipart(r);
  return score;
}


#define SCORES_K(BURN_IN, STEP) \
  int nnod1 = CountNodes(ratings->net1), nnod2 = CountNodes(ratings->net2), nll = 5000, nlf = 10000; \
  int **N1G2[K], **N2G1[K], **G1G2[K], **G2G1[K]; \
  double *ll = InitializeFastLog(nll), *lf = InitializeFastLogFact(nlf); \
  struct binet *r = CopyBipart(ratings); \
  QUERIES_TO(r, FORGET) \
  double **score = allocate_d_mat(K, nquery); \
  UPTO(k, K) UPTO(q, nquery) score[k][q] = 0; \
  BOTH_SIDES(r) \
  UPTO(k, K) { \
    G1G2[k] = allocate_i_mat(nnod1, nnod2); \
    G2G1[k] = allocate_i_mat(nnod2, nnod1); \
    UPTO(i, nnod1) UPTO(j, nnod2) G1G2[k][i][j] = G2G1[k][j][i] = NWeightG2GLinks(glist1[i], glist2[j], k); \
  } \
  UPTO(k, K) { \
    N1G2[k] = allocate_i_mat(nnod1, nnod2); \
    N2G1[k] = allocate_i_mat(nnod2, nnod1); \
    UPTO(i, nnod1) UPTO(j, nnod2) { \
      N1G2[k][i][j] = NWeightLinksToGroup(nlist1[i], glist2[j], k); \
      N2G1[k][j][i] = NWeightLinksToGroup(nlist2[j], glist1[i], k); \
    } \
  } \
  int groups1 = NNonEmptyGroups(part1), groups2 = NNonEmptyGroups(part2), *ng1 = &groups1, *ng2 = &groups2; \
  double H = HKState(K, part1, part2); \
  BURN_IN \
  double H0 = H; \
  int samples = 0; \
  UPTO(iter, nIter) { \
    STEP; \
    if (H0 - H > 400) { \
      iter = 0; \
      H0 = H; \
      samples = 0; \
      UPTO(k, K) UPTO(q, nquery) score[k][q] = 0; \
    } \
    samples++; \
    UPTO(k, K) UPTO(q, nquery) { \
      int a = set[q]->n1->inGroup, b = set[q]->n2->inGroup, n = 0; \
      int m = G1G2[k][a][b]; \
      UPTO(h, K) n += G1G2[h][a][b]; \
      score[k][q] += (float)(m + 1) / (float)(n + K); \
    } \
    if (iter % 100 == 0 && verbose != 'q') { \
      FILE *f = fopen("scores.tmp", "w"); \
      UPTO(q, nquery) { \
        fprintf(f, "%s %s", set[q]->n1->label, set[q]->n2->label); \
        UPTO(k, K) fprintf(f, " %lf", score[k][q] / samples); \
        fprintf(f, "\n"); \
      } \
      fclose(f); \
      PARTS_TMP \
    } \
  } \
  UPTO(k, K) UPTO(q, nquery) score[k][q] /= samples; \
  QUERIES_TO(ratings, ) \
  DROP_SIDES \
  UPTO(k, K) { \
    free_i_mat(G1G2[k], nnod1); \
    free_i_mat(G2G1[k], nnod2); \
    free_i_mat(N1G2[k], nnod1); \
    free_i_mat(N2G1[k], nnod2); \
  } \
  FreeFastLog(ll); \
  FreeFastLogFact(lf); \
  RemoveBipart(r); \
  return score;

double **spec_MultiLinkScoreKState(int K, struct binet *ratings, struct query **set, int nquery, int nIter, gsl_rng *gen,
                                   char verbose, int step)
{
  SCORES_K(
    if (step <= 0) step = GetDecorrelationStepKState(K, &H, PASS_K, verbose);
    ThermalizeMCKState(K, step, &H, PASS_K, verbose);,
    MCStepKState(K, step, &H, PASS_K))
}

double **spec_GibbsMultiLinkScoreKState(int K, struct binet *ratings, struct query **set, int nquery, int nIter,
                                        gsl_rng *gen, char verbose)
{
  SCORES_K(GibbsThermalizeKState(K, &H, PASS_K, verbose);, GibbsStepKState(K, &H, PASS_K))
}


#define LINKS_OF(g) G2G[0][k][g][h->label]
#define LINKS_HERE N2G[0][k][x->num][h->label]

void spec_GibbsStepKState(int K, double *H, ARGS_K)
{
  int ***N2G[K], ***N2Ginv[K], ***G2G[K], ***inv[K];
  double *dH = allocate_d_vec(nnod1 > nnod2 ? nnod1 : nnod2);
  int *used1 = allocate_i_vec(nnod1), *used2 = allocate_i_vec(nnod2), n1 = 0, n2 = 0;
  EACH_GROUP(g, part1) if (g->size > 0) used1[n1++] = g->label;
  EACH_GROUP(g, part2) if (g->size > 0) used2[n2++] = g->label;
  for (int move = 0; move < nnod1 + nnod2; move++) {
    int first = move < nnod1, nnod = first ? nnod1 : nnod2, others = first ? nnod2 : nnod1;
    int *ng = first ? ng1 : ng2, *used = first ? used1 : used2, *theirs = first ? used2 : used1;
    int *nused = first ? &n1 : &n2, *nothers = first ? &n2 : &n1;
    struct node_gra *x = first ? nlist1[move] : nlist2[move - nnod1];
    struct group **mine = first ? glist1 : glist2, **others_of = first ? glist2 : glist1;
    struct group *part = first ? part1 : part2, *from, *to;
    CHOOSE_K
    int a = x->inGroup, b;
    from = mine[a];
    double before = 0, left = 0, norm = 0;
    UPTO(j, *nothers) {
      struct group *h = others_of[theirs[j]];
      if (h->size > 0) {
        int n = 0;
        UPTO(k, K) n += LINKS_OF(a);
        before += FastLogFact(n + K - 1, lf, nlf);
        UPTO(k, K) before -= FastLogFact(G2G[k][0][a][h->label], lf, nlf);
        n = 0;
        UPTO(k, K) n += LINKS_OF(a) - LINKS_HERE;
        left += FastLogFact(n + K - 1, lf, nlf);
        UPTO(k, K) left -= FastLogFact(LINKS_OF(a) - LINKS_HERE, lf, nlf);
      }
    }
    UPTO(i, *nused) {
      double there = 0, joined = 0, d = 0;
      b = used[i];
      to = mine[b];
      UPTO(j, *nothers) {
        struct group *h = others_of[theirs[j]];
        if (h->size > 0) {
          int n = 0;
          UPTO(k, K) n += LINKS_OF(b);
          there += FastLogFact(n + K - 1, lf, nlf);
          UPTO(k, K) there -= FastLogFact(LINKS_OF(b), lf, nlf);
          n = 0;
          UPTO(k, K) n += LINKS_OF(b) + LINKS_HERE;
          joined += FastLogFact(n + K - 1, lf, nlf);
          UPTO(k, K) joined -= FastLogFact(LINKS_OF(b) + LINKS_HERE, lf, nlf);
        }
      }
      if (from->size == 1 && to->size > 0) d = gsl_sf_lnfact(nnod - *ng) - gsl_sf_lnfact(nnod - (*ng - 1));
      else if (from->size > 1 && to->size == 0) d = gsl_sf_lnfact(nnod - *ng) - gsl_sf_lnfact(nnod - (*ng + 1));
      if (b == a) dH[b] = 0;
      else dH[b] = d + left - before + joined - there;
      norm += exp(-dH[b]);
    }
    double there = 0, joined = 0, d = 0;
    UPTO(j, *nothers) {
      struct group *h = others_of[theirs[j]];
      if (h->size > 0) {
        there += FastLogFact(K - 1, lf, nlf);
        int n = 0;
        UPTO(k, K) n += LINKS_HERE;
        joined += FastLogFact(n + K - 1, lf, nlf);
        UPTO(k, K) joined -= FastLogFact(LINKS_HERE, lf, nlf);
      }
    }
    if (from->size > 1) d = gsl_sf_lnfact(nnod - *ng) - gsl_sf_lnfact(nnod - (*ng + 1));
    d += left - before + joined - there;
    norm += (nnod - *nused) * exp(-d);
    double dice = norm * gsl_rng_uniform(gen);
    if (dice > norm - (nnod - *nused) * exp(-d)) {
      to = GetEmptyGroup(part);
      b = to->label;
      dH[b] = d;
      int known = 0;
      UPTO(j, *nused) if (used[j] == b) known = 1;
      if (!known) used[(*nused)++] = b;
    } else {
      int target = 0;
      double cum = 0;
      do cum += exp(-dH[used[target++]]); while (cum < dice && target < *nused);
      b = used[target - 1];
      to = mine[b];
    }
    MoveNode(x, from, to);
    *H += dH[b];
    SHIFTK(-=, +=)
    if (a != b) {
      if (from->size == 0) *ng -= 1;
      if (to->size == 1) *ng += 1;
    }
  }
  free_d_vec(dH);
  free_i_vec(used1);
  free_i_vec(used2);
}

void spec_GibbsThermalizeKState(int K, double *H, ARGS_K, char verbose) { THERMALIZE2(GibbsStepKState(K, H, PASS_K)) }

/* conflict.c: the score of every pair of the two sides */
struct query **spec_AllLinkScore2State(struct binet *ratings, int nIter, gsl_rng *gen, char verbose, int step)
{
  int nnod1 = CountNodes(ratings->net1), nnod2 = CountNodes(ratings->net2), nlc = 500, nll = 5000, nlf = 2000;
  double **lc = InitializeFastLogChoose(nlc), *ll = InitializeFastLog(nll), *lf = InitializeFastLogFact(nlf);
  int nquery = nnod1 * nnod2, n = 0;
  struct query **set = calloc(nquery, sizeof(struct query *));
  EACH_NODE(p, ratings->net1) EACH_NODE(m, ratings->net2) {
    set[n] = CreateQuery(p, m);
    set[n]->score = 0;
    n++;
  }
  BOTH_SIDES(ratings)
  START_2
  int samples = 0;
  UPTO(iter, nIter) {
    MCStep2State(step, &H, PASS_2);
    if (H - H0 < -400.0) {
      iter = 0;
      H = H0;
      samples = 0;
      UPTO(q, nquery) set[q]->score = 0;
    }
    samples++;
    UPTO(q, nquery) {
      int a = set[q]->n1->inGroup, b = set[q]->n2->inGroup;
      set[q]->score += (float)(G1G2_1[a][b] + 1) / (float)(G1G2_0[a][b] + G1G2_1[a][b] + 2);
    }
  }
  UPTO(q, nquery) set[q]->score /= samples;
  DROP_SIDES
  END_2
  return set;
}

void spec_RemoveRatings(struct binet *ratings, int r)
{
  EACH_NODE(p, ratings->net1) {
    struct node_lis *m = p->neig;
    while (m->next) {
      if (m->next->weight == r) RemoveLink(p, m->next->ref, 1);
      else m = m->next;
    }
  }
}

struct query **spec_ReadQueries(FILE *f, int n, struct binet *r)
{
  char a[MAX_LABEL_LENGTH], b[MAX_LABEL_LENGTH];
  void *dict1 = MakeLabelDict(r->net1), *dict2 = MakeLabelDict(r->net2);
  struct query **set = calloc(n, sizeof(struct query *));
  UPTO(q, n) {
    fscanf(f, "%s %s\n", a, b);
    struct node_gra *x = GetNodeDict(a, dict1);
    if (!x) {
      x = CreateNodeGraph(r->net1, a);
      FreeLabelDict(dict1);
      dict1 = MakeLabelDict(r->net1);
    }
    struct node_gra *y = GetNodeDict(b, dict2);
    if (!y) {
      y = CreateNodeGraph(r->net2, b);
      FreeLabelDict(dict2);
      dict2 = MakeLabelDict(r->net2);
    }
    set[q] = CreateQuery(x, y);
  }
  FreeLabelDict(dict1);
  FreeLabelDict(dict2);
  return set;
}
