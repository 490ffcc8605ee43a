/* quality of partitions, agreement of partitions, and roles of nodes in a partition */
#include "spec.h"
#include "partition.h"

/* Newman and Girvan: sum over groups of l/L - (d/2L)^2 ; d counts link ends in the group */
double spec_Modularity(struct group *part)
{
  double ends = 0, q = 0;
  EACH_GROUP(g, part) ends += g->totlinks + g->inlinks;
  EACH_GROUP(g, part) {
    double d = g->totlinks + g->inlinks;
    q += 2.0 * g->inlinks / ends - (d / ends) * (d / ends);
  }
  return q;
}

double spec_ModularityWeight(struct group *part)
{
  double ends = 0, q = 0;
  EACH_GROUP(g, part) ends += g->totlinksW + g->inlinksW;
  EACH_GROUP(g, part) {
    double d = g->totlinksW + g->inlinksW;
    q += 2 * g->inlinksW / ends - (d / ends) * (d / ends);
  }
  return q;
}

/* normalised mutual information of Danon et al. */
double spec_MutualInformation(struct group *a, struct group *b, int by_label)
{
  int n = PartitionSize(a);
  double ha = 0, hb = 0, hab = 0;
  if (n != PartitionSize(b))
    fprintf(stderr, "WARNING : partitions have different size!\n");
  EACH_GROUP(g, a) if (g->size > 0) ha += g->size * log((double)g->size / n);
  EACH_GROUP(g, b) if (g->size > 0) hb += g->size * log((double)g->size / n);
  EACH_GROUP(g, a) EACH_GROUP(h, b)
    if (g->size > 0 && h->size > 0) {
      int common = 0;
      EACH_MEMBER(x, g) {
        EACH_MEMBER(y, h)
          if ((by_label == 0 && x->node == y->node) ||
              (by_label == 1 && strcmp(x->nodeLabel, y->nodeLabel) == 0)) {
            common++;
            break;
          }
      }
      if (common > 0)
        hab += common * log((double)common * n / ((double)g->size * h->size));
    }
  return -2 * hab / (ha + hb);
}

/* one minus the sum over groups of the squared fraction of the links that go to the group */
double spec_ParticipationCoefficient(struct node_gra *node)
{
  int k = NodeDegree(node);
  double s = 0;
  if (k == 0) return 0;
  EACH_LINK(l, node) s += (double)NLinksToGroupByNum(node, l->ref->inGroup) / k / k;
  return 1 - s;
}

double spec_WeightedParticipationCoefficient(struct node_gra *node, struct group *part)
{
  double w = NodeStrength(node), s = 0;
  if (NodeDegree(node) == 0) return 0;
  EACH_GROUP(g, part) s += StrengthToGroup(node, g) / w * StrengthToGroup(node, g) / w;
  return 1 - s;
}

/* z-score of the within-module degree; 0 when all nodes of the module have the same */
double spec_WithinModuleRelativeDegree(struct node_gra *node, struct group *part)
{
  struct group *g = part;
  double m1 = 0, m2 = 0, sd;
  while (g->label != node->inGroup) g = g->next;
  EACH_MEMBER(m, g) {
    double k = NLinksToGroup(m->ref, g);
    m1 += k;
    m2 += k * k;
  }
  m1 = m1 / g->size;
  m2 = m2 / g->size;
  sd = sqrt(m2 - m1 * m1);
  return sd == 0 ? 0 : (NLinksToGroup(node, g) - m1) / sd;
}

double spec_WithinModuleRelativeStrength(struct node_gra *node, struct group *part)
{
  struct group *g = part;
  double m1 = 0, m2 = 0, sd;
  while (g->label != node->inGroup) g = g->next;
  EACH_MEMBER(m, g) {
    double k = StrengthToGroup(m->ref, g);
    m1 += k;
    m2 += k * k;
  }
  m1 = m1 / g->size;
  m2 = m2 / g->size;
  sd = sqrt(m2 - m1 * m1);
  return sd == 0 ? 0 : (StrengthToGroup(node, g) - m1) / sd;
}

/* Guimera and Amaral, Nature 433, 895 (2005) */
int spec_GetRole(double P, double z)
{
  int hub = !(z < 2.5);
  if (hub)
    return !(P < 0.30) ? (!(P < 0.75) ? 6 : 5) : 4;
  return (P < 0.05) ? 0 : (P < 0.62) ? 1 : (P < 0.80) ? 2 : 3;
}

struct group *spec_CatalogRoleIdent(struct node_gra *net, struct group *mod)
{
  struct group *role[7], *roles = CreateHeaderGroup();
  MapPartToNet(mod, net);
  role[0] = CreateGroup(roles, 0);
  for (int i = 1; i < 7; i++)
    role[i] = CreateGroup(role[i - 1], i);
  EACH_GROUP(g, mod) EACH_MEMBER(m, g)
    AddNodeToGroupSoft(role[GetRole(ParticipationCoefficient(m->ref), WithinModuleRelativeDegree(m->ref, g))],
                       m->ref->label);
  MapPartToNet(roles, net);
  return roles;
}

struct group *spec_CatalogRoleIdentStrength(struct node_gra *net, struct group *mod)
{
  struct group *role[7], *roles = CreateHeaderGroup();
  MapPartToNet(mod, net);
  role[0] = CreateGroup(roles, 0);
  for (int i = 1; i < 7; i++)
    role[i] = CreateGroup(role[i - 1], i);
  EACH_GROUP(g, mod) EACH_MEMBER(m, g)
    AddNodeToGroupSoft(role[GetRole(WeightedParticipationCoefficient(m->ref, mod),
                                    WithinModuleRelativeStrength(m->ref, g))], m->ref->label);
  MapPartToNet(roles, net);
  return roles;
}

/* each group found stands for the reference group it shares most nodes with; two for the same: the better one keeps it */
double spec_CorrectlyClassified(struct group *ref, struct group *act)
{
  int n = PartitionSize(ref), good = 0;
  int *group = allocate_i_vec(n), *map = allocate_i_vec(n), *score = allocate_i_vec(n), *best = allocate_i_vec(n);
  UPTO(i, n) {
    group[i] = map[i] = -1;
    score[i] = best[i] = 0;
  }
  EACH_GROUP(g, ref) EACH_MEMBER(m, g) group[m->node] = g->label;
  EACH_GROUP(h, act) {
    EACH_MEMBER(m, h) score[group[m->node]]++;
    EACH_GROUP(g, ref) {
      if (best[h->label] < score[g->label]) {
        best[h->label] = score[g->label];
        map[h->label] = g->label;
      }
      score[g->label] = 0;
    }
  }
  EACH_GROUP(g, act)
    for (struct group *h = g->next; h; h = h->next)
      if (map[g->label] == map[h->label]) {
        if (best[g->label] > best[h->label]) map[h->label] = -1;
        else map[g->label] = -1;
      }
  EACH_GROUP(h, act)
    if (map[h->label] > -1)
      EACH_MEMBER(m, h) if (group[m->node] == map[h->label]) good++;
  free_i_vec(group);
  free_i_vec(map);
  free_i_vec(score);
  free_i_vec(best);
  return (double)good / n;
}
