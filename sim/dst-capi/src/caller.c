/* The caller of the C interface: everything goes through the prototypes and constants of rustsat.h */
#include "rustsat.h"

typedef void (*cb)(int lit, void *data);

enum { TOT, GTE, ADDER, DPW, PAIRWISE, LADDER, BITWISE, COMMANDER, BIMANDER, TWOPRODUCT };

static int code(MaybeError e) {
  switch (e) {
  case Ok: return 0;
  case NotEncoded: return 1;
  case Unsat: return 2;
  case InvalidState: return 3;
  case InvalidLiteral: return 4;
  case PrecisionNotPow2: return 5;
  case PrecisionDecreased: return 6;
  }
  return 100 + (int)e;
}

void *c_new(int k) {
  switch (k) {
  case TOT: return tot_new();
  case GTE: return gte_new();
  case ADDER: return bin_adder_new();
  case DPW: return dpw_new();
  case PAIRWISE: return pairwise_new();
  case LADDER: return ladder_new();
  case BITWISE: return bitwise_new();
  case COMMANDER: return commander_new();
  case BIMANDER: return bimander_new();
  default: return twoproduct_new();
  }
}

void c_drop(int k, void *p) {
  switch (k) {
  case TOT: tot_drop(p); break;
  case GTE: gte_drop(p); break;
  case ADDER: bin_adder_drop(p); break;
  case DPW: dpw_drop(p); break;
  case PAIRWISE: pairwise_drop(p); break;
  case LADDER: ladder_drop(p); break;
  case BITWISE: bitwise_drop(p); break;
  case COMMANDER: commander_drop(p); break;
  case BIMANDER: bimander_drop(p); break;
  default: twoproduct_drop(p); break;
  }
}

int c_add(int k, void *p, int lit, size_t w) {
  switch (k) {
  case TOT: return code(tot_add(p, lit));
  case GTE: return code(gte_add(p, lit, w));
  case ADDER: return code(bin_adder_add(p, lit, w));
  case DPW: return code(dpw_add(p, lit, w));
  case PAIRWISE: return code(pairwise_add(p, lit));
  case LADDER: return code(ladder_add(p, lit));
  case BITWISE: return code(bitwise_add(p, lit));
  case COMMANDER: return code(commander_add(p, lit));
  case BIMANDER: return code(bimander_add(p, lit));
  default: return code(twoproduct_add(p, lit));
  }
}

void c_reserve(int k, void *p, uint32_t *n) {
  switch (k) {
  case TOT: tot_reserve(p, n); break;
  case GTE: gte_reserve(p, n); break;
  case ADDER: bin_adder_reserve(p, n); break;
  default: dpw_reserve(p, n); break;
  }
}

/* lower: 0 upper bounds, 1 lower bounds */
void c_encode(int k, void *p, int lower, size_t min, size_t max, uint32_t *n, cb f, void *d) {
  switch (k) {
  case TOT:
    if (lower) tot_encode_lb(p, min, max, n, f, d);
    else tot_encode_ub(p, min, max, n, f, d);
    break;
  case GTE: gte_encode_ub(p, min, max, n, f, d); break;
  case ADDER:
    if (lower) bin_adder_encode_lb(p, min, max, n, f, d);
    else bin_adder_encode_ub(p, min, max, n, f, d);
    break;
  case DPW: dpw_encode_ub(p, min, max, n, f, d); break;
  case PAIRWISE: pairwise_encode(p, n, f, d); break;
  case LADDER: ladder_encode(p, n, f, d); break;
  case BITWISE: bitwise_encode(p, n, f, d); break;
  case COMMANDER: commander_encode(p, n, f, d); break;
  case BIMANDER: bimander_encode(p, n, f, d); break;
  default: twoproduct_encode(p, n, f, d); break;
  }
}

/* the totalizer gives its one assumption through a pointer */
int c_enforce(int k, void *p, int lower, size_t b, int *one, cb f, void *d) {
  switch (k) {
  case TOT: return code(lower ? tot_enforce_lb(p, b, one) : tot_enforce_ub(p, b, one));
  case GTE: return code(gte_enforce_ub(p, b, f, d));
  case ADDER: return code(lower ? bin_adder_enforce_lb(p, b, f, d) : bin_adder_enforce_ub(p, b, f, d));
  default: return code(dpw_enforce_ub(p, b, f, d));
  }
}

int c_dpw_precision(void *p, size_t d) { return code(dpw_set_precision(p, d)); }
size_t c_dpw_next_precision(void *p) { return dpw_next_precision(p); }
int c_dpw_is_max(void *p) { return dpw_is_max_precision(p) ? 1 : 0; }
size_t c_dpw_coarse(void *p, size_t b) { return dpw_coarse_ub(p, b); }
void c_dpw_limit(void *p, size_t min, size_t max, cb f, void *d) { dpw_limit_range(p, min, max, f, d); }
