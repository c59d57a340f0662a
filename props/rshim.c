/* The reasoner's own headers are C only: this file wraps the calls that the
   harness of C29-C31 makes. */
#include <unistd.h>
#include <fcntl.h>
#include "../config.h"
#include "../Db/dballoc.h"
#include "../Db/dbmem.h"
#include "../Db/dbdata.h"
#include "../Parser/dbparse.h"
#include "../Reasoner/rincludes.h"
#include "../Reasoner/rmain.h"

void *rs_new(void *db) {
  glb *g = wr_glb_new_full(db);
  if (g) { g->print_initial_parser_result = 0; g->print_generic_parser_result = 0; g->parser_print_level = 0; }
  return g;
}
void rs_free(void *g) { wr_glb_free((glb *)g); }
/* returns the import result; the stored clauses go to out, *n: how many */
int rs_import(void *gg, char *text, void **out, int max, int *n) {
  glb *g = (glb *)gg; cvec v = wr_cvec_new(g, max + 3); int r, i;
  if (!v) return -99;
  r = wr_import_otter_file(g, NULL, text, v);
  *n = 0;
  if (!r) for (i = CVEC_START; i < CVEC_NEXT(v) && *n < max; i++) out[(*n)++] = (void *)v[i];
  wr_vec_free(g, v);
  return r;
}
int rs_import_file(void *gg, char *name) { return wr_import_otter_file((glb *)gg, name, NULL, NULL); }
int rs_isrule(void *gg, void *cl) { (void)gg; return wg_rec_is_rule_clause(((glb *)gg)->db, cl) != 0; }
int rs_isfact(void *gg, void *cl) { (void)gg; return wg_rec_is_fact_clause(((glb *)gg)->db, cl) != 0; }
int rs_natoms(void *gg, void *cl) { return rs_isrule(gg, cl) ? (int)wg_count_clause_atoms(((glb *)gg)->db, cl) : 1; }
int rs_neg(void *gg, void *cl, int i) { gint m; if (!rs_isrule(gg, cl)) return 0; m = wg_get_rule_clause_atom_meta(((glb *)gg)->db, cl, i); return wg_atom_meta_is_neg(((glb *)gg)->db, m) != 0; }
gint rs_atom(void *gg, void *cl, int i) { glb *g = (glb *)gg; return rs_isrule(gg, cl) ? wg_get_rule_clause_atom(g->db, cl, i) : encode_record(g->db, cl); }
int rs_first(void *gg) { return ((glb *)gg)->unify_firstuseterm; }
int rs_equal(void *gg, gint a, gint b) { return wr_equal_term((glb *)gg, a, b, 1); }
int rs_unify(void *gg, gint a, gint b) { glb *g = (glb *)gg; int r = wr_unify_term(g, a, b, 1); wr_clear_varstack(g, g->varstack); return r; }
int rs_match(void *gg, gint a, gint b) { glb *g = (glb *)gg; int r = wr_match_term(g, a, b, 1); wr_clear_varstack(g, g->varstack); return r; }
int rs_subsume(void *gg, void *a, void *b) { return (int)wr_subsume_cl((glb *)gg, (gptr)a, (gptr)b, 1); }
void rs_clear_all(void *gg) { wr_clear_all_varbanks((glb *)gg); wr_clear_varstack((glb *)gg, ((glb *)gg)->varstack); }
int rs_is_clear(void *gg) { return wr_varbanks_are_clear((glb *)gg, ((glb *)gg)->varbanks); }
/* unify and, when that works, build the instances of both terms; they stay
   valid until the next call.  Operators are the anonymous constants. */
int rs_unify_build(void *gg, gint a, gint b, int rename, gint *ia, gint *ib) {
  glb *g = (glb *)gg; int i, r = wr_unify_term(g, a, b, 1);
  if (r) {
    (g->derived_termbuf)[1] = 2; g->build_buffer = g->derived_termbuf;
    g->build_subst = 1; g->build_calc = 0; g->build_dcopy = 0; g->use_comp_funs = 1;
    g->build_rename = rename; g->build_rename_maxseenvnr = -1; g->build_rename_vc = 0; g->build_rename_banknr = 3;
    g->build_rename_bank = (g->varbanks) + ((g->build_rename_banknr) * NROF_VARSINBANK);
    *ia = wr_build_calc_term(g, a); *ib = wr_build_calc_term(g, b);
    for (i = 0; i < g->build_rename_vc; i++) (g->build_rename_bank)[i] = UNASSIGNED;
  }
  wr_clear_varstack(g, g->varstack);
  return r;
}
gint rs_operator(int plus) { return plus == 1 ? ACONST_PLUS : plus == 0 ? ACONST_EQUAL : plus == 2 ? ACONST_TRUE : ACONST_FALSE; }
int rs_funpos(void *gg) { return ((glb *)gg)->unify_funpos; }
