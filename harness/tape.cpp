// Value, gradient and Hessian of a straight-line program (see harness/autodiff.py).
#include <cmath>
#include <cstdint>
#include <cstring>
#include <vector>
enum { CONST_, LEAF_, SUM_, PROD_, DIV_, POW_, NEG_, EXP_, LOG_, SQRT_, SIN_, COS_, ABS_ };
typedef double D;

static inline void unary(int k, D x, D v, D &d1, D &d2) {
  switch (k) {
  case EXP_: d1 = v; d2 = v; break;
  case LOG_: d1 = 1 / x; d2 = -1 / (x * x); break;
  // at zero the outer factors of this code base vanish to second order: use zero slopes there
  case SQRT_: if (x == 0) { d1 = d2 = 0; } else { d1 = 0.5 / v; d2 = -0.25 / (v * x); } break;
  case SIN_: d1 = std::cos(x); d2 = -v; break;
  case COS_: d1 = -std::sin(x); d2 = -v; break;
  default: d1 = x < 0 ? -1 : 1; d2 = 0;
  }
}

static inline D ipow(D b, D p) {
  if (p == 2) return b * b;
  if (p == 1) return b;
  if (p == 0) return 1;
  if (p == -1) return 1 / b;
  return std::pow(b, p);
}

extern "C" {

void tape_eval(int64_t n, const int32_t *kind, const int64_t *a, const int64_t *b, const int64_t *args,
               const D *cst, const D *leaf, D *v) {
  for (int64_t i = 0; i < n; i++) {
    switch (kind[i]) {
    case CONST_: v[i] = cst[i]; break;
    case LEAF_: v[i] = leaf[a[i]]; break;
    case SUM_: { D s = 0; for (int64_t k = 0; k < b[i]; k++) s += v[args[a[i] + k]]; v[i] = s; break; }
    case PROD_: v[i] = v[a[i]] * v[b[i]]; break;
    case DIV_: v[i] = v[a[i]] / v[b[i]]; break;
    case POW_: v[i] = ipow(v[a[i]], v[b[i]]); break;
    case NEG_: v[i] = -v[a[i]]; break;
    case EXP_: v[i] = std::exp(v[a[i]]); break;
    case LOG_: v[i] = std::log(v[a[i]]); break;
    case SQRT_: v[i] = std::sqrt(v[a[i]]); break;
    case SIN_: v[i] = std::sin(v[a[i]]); break;
    case COS_: v[i] = std::cos(v[a[i]]); break;
    default: v[i] = std::fabs(v[a[i]]);
    }
  }
}

// live: operations depending on the free leaves. Reverse sweep; adj has n entries.
void tape_grad(int64_t n, const int32_t *kind, const int64_t *a, const int64_t *b, const int64_t *args,
               const D *v, const uint8_t *live, D *adj) {
  std::memset(adj, 0, n * sizeof(D));
  adj[n - 1] = 1;
  for (int64_t i = n - 1; i >= 0; i--) {
    D w = adj[i];
    if (w == 0 || !live[i]) continue;
    switch (kind[i]) {
    case CONST_: case LEAF_: break;
    case SUM_: for (int64_t k = 0; k < b[i]; k++) adj[args[a[i] + k]] += w; break;
    case PROD_: adj[a[i]] += w * v[b[i]]; adj[b[i]] += w * v[a[i]]; break;
    case DIV_: adj[a[i]] += w / v[b[i]]; adj[b[i]] -= w * v[i] / v[b[i]]; break;
    case POW_: adj[a[i]] += w * v[b[i]] * ipow(v[a[i]], v[b[i]] - 1); break;
    case NEG_: adj[a[i]] -= w; break;
    default: { D d1, d2; unary(kind[i], v[a[i]], v[i], d1, d2); adj[a[i]] += w * d1; }
    }
  }
}

// One column of the Hessian per free leaf (ops slot[j]); H is m*m.
void tape_hess(int64_t n, const int32_t *kind, const int64_t *a, const int64_t *b, const int64_t *args,
               const D *v, const uint8_t *live, const D *adj, int64_t m, const int64_t *slot, D *H) {
  std::vector<D> t(n), r(n);
  for (int64_t j = 0; j < m; j++) {
    std::fill(t.begin(), t.end(), 0.0);
    t[slot[j]] = 1;
    for (int64_t i = 0; i < n; i++) {
      if (!live[i]) continue;
      switch (kind[i]) {
      case CONST_: case LEAF_: break;
      case SUM_: { D s = 0; for (int64_t k = 0; k < b[i]; k++) s += t[args[a[i] + k]]; t[i] = s; break; }
      case PROD_: t[i] = t[a[i]] * v[b[i]] + v[a[i]] * t[b[i]]; break;
      case DIV_: t[i] = (t[a[i]] - v[i] * t[b[i]]) / v[b[i]]; break;
      case POW_: t[i] = t[a[i]] == 0 ? 0 : v[b[i]] * ipow(v[a[i]], v[b[i]] - 1) * t[a[i]]; break;
      case NEG_: t[i] = -t[a[i]]; break;
      default: { D d1, d2; unary(kind[i], v[a[i]], v[i], d1, d2); t[i] = d1 * t[a[i]]; }
      }
    }
    std::fill(r.begin(), r.end(), 0.0);
    for (int64_t i = n - 1; i >= 0; i--) {
      if (!live[i]) continue;
      D w = adj[i], q = r[i];
      if (w == 0 && q == 0) continue;
      switch (kind[i]) {
      case CONST_: case LEAF_: break;
      case SUM_: for (int64_t k = 0; k < b[i]; k++) r[args[a[i] + k]] += q; break;
      case PROD_:
        r[a[i]] += q * v[b[i]] + w * t[b[i]];
        r[b[i]] += q * v[a[i]] + w * t[a[i]];
        break;
      case DIV_: {
        D x = v[b[i]], tb = t[b[i]];
        r[a[i]] += q / x - w * tb / (x * x);
        r[b[i]] += -q * v[i] / x - w * (t[i] / x - v[i] * tb / (x * x));
        break;
      }
      case POW_: {
        D p = v[b[i]], x = v[a[i]];
        D d1 = p * ipow(x, p - 1), d2 = (p == 1 || p == 0) ? 0 : p * (p - 1) * ipow(x, p - 2);
        r[a[i]] += q * d1 + w * d2 * t[a[i]];
        break;
      }
      case NEG_: r[a[i]] -= q; break;
      default: {
        D d1, d2;
        unary(kind[i], v[a[i]], v[i], d1, d2);
        r[a[i]] += q * d1 + w * d2 * t[a[i]];
      }
      }
    }
    for (int64_t k = 0; k < m; k++) H[k * m + j] = r[slot[k]];
  }
}
}
