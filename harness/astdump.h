/* JSON rendering of a CLooG AST, shared by the harnesses (public API only). */
#ifndef ASTDUMP_H
#define ASTDUMP_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <cloog/isl/cloog.h>
#include <cloog/pprint.h>
#include <isl/set.h>
#include <isl/point.h>
#include <isl/val.h>

static void js_str(FILE *f, const char *s)
{
	fputc('"', f);
	for (; s && *s; ++s) {
		unsigned char c = (unsigned char)*s;
		if (c == '"' || c == '\\')
			fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126)
			fprintf(f, "\\u%04x", c);
		else
			fputc(c, f);
	}
	fputc('"', f);
}

static void js_int(FILE *f, cloog_int_t v)
{
	fputc('"', f);
	cloog_int_print(f, v);
	fputc('"', f);
}

static void js_expr(FILE *f, struct clast_expr *e)
{
	int i;
	if (!e) {
		fprintf(f, "null");
		return;
	}
	switch (e->type) {
	case clast_expr_name:
		fprintf(f, "{\"k\":\"n\",\"v\":");
		js_str(f, ((struct clast_name *)e)->name);
		fprintf(f, "}");
		break;
	case clast_expr_term: {
		struct clast_term *t = (struct clast_term *)e;
		fprintf(f, "{\"k\":\"t\",\"c\":");
		js_int(f, t->val);
		fprintf(f, ",\"e\":");
		js_expr(f, t->var);
		fprintf(f, "}");
		break;
	}
	case clast_expr_bin: {
		struct clast_binary *b = (struct clast_binary *)e;
		const char *o = b->type == clast_bin_fdiv ? "fdiv" :
			b->type == clast_bin_cdiv ? "cdiv" :
			b->type == clast_bin_div ? "div" :
			b->type == clast_bin_mod ? "mod" : "?";
		fprintf(f, "{\"k\":\"b\",\"o\":\"%s\",\"e\":", o);
		js_expr(f, b->LHS);
		fprintf(f, ",\"c\":");
		js_int(f, b->RHS);
		fprintf(f, "}");
		break;
	}
	case clast_expr_red: {
		struct clast_reduction *r = (struct clast_reduction *)e;
		const char *o = r->type == clast_red_sum ? "sum" :
			r->type == clast_red_min ? "min" :
			r->type == clast_red_max ? "max" : "?";
		fprintf(f, "{\"k\":\"r\",\"o\":\"%s\",\"l\":[", o);
		for (i = 0; i < r->n; ++i) {
			if (i)
				fputc(',', f);
			js_expr(f, r->elts[i]);
		}
		fprintf(f, "]}");
		break;
	}
	default:
		fprintf(f, "{\"k\":\"?\"}");
	}
}

struct js_pt { FILE *f; int first; };
static isl_stat js_point(__isl_take isl_point *p, void *u)
{
	struct js_pt *q = u;
	int i, n;
	isl_space *sp = isl_point_get_space(p);
	n = isl_space_dim(sp, isl_dim_set);
	isl_space_free(sp);
	fprintf(q->f, "%s[", q->first ? "" : ",");
	q->first = 0;
	for (i = 0; i < n; ++i) {
		isl_val *v = isl_point_get_coordinate_val(p, isl_dim_set, i);
		fprintf(q->f, "%s%ld", i ? "," : "", isl_val_get_num_si(v));
		isl_val_free(v);
	}
	fprintf(q->f, "]");
	isl_point_free(p);
	return isl_stat_ok;
}

/* the integer points of a domain in a window, for given parameters */
static void points(FILE *f, CloogDomain *d, int np, long *p, long lo, long hi)
{
	isl_set *set = isl_set_copy(isl_set_from_cloog_domain(d));
	int i, n = isl_set_dim(set, isl_dim_set);
	struct js_pt q = { f, 1 };
	for (i = 0; i < np; ++i)
		set = isl_set_fix_si(set, isl_dim_param, i, p[i]);
	for (i = 0; i < n; ++i) {
		set = isl_set_lower_bound_si(set, isl_dim_set, i, lo);
		set = isl_set_upper_bound_si(set, isl_dim_set, i, hi);
	}
	set = isl_set_project_out(set, isl_dim_param, 0, isl_set_dim(set, isl_dim_param));
	fprintf(f, "[");
	isl_set_foreach_point(set, &js_point, &q);
	fprintf(f, "]");
	isl_set_free(set);
}

/* js_want_dom: for each of the js_npv parameter vectors, the points */
static int js_want_dom, js_npv, js_np;
static long js_pv[16][8];

/* js_want_par: the annotations of the loops */
static int js_want_par;

static void js_set(FILE *f, CloogDomain *d)
{
	int i;
	if (!d) {
		fprintf(f, "null");
		return;
	}
	fprintf(f, "[");
	for (i = 0; i < js_npv; ++i) {
		if (i)
			fputc(',', f);
		points(f, d, js_np, js_pv[i], -99, 99);
	}
	fprintf(f, "]");
}

static void js_stmts(FILE *f, struct clast_stmt *s)
{
	int first = 1, i;
	fputc('[', f);
	for (; s; s = s->next) {
		if (CLAST_STMT_IS_A(s, stmt_root))
			continue;
		if (!first)
			fputc(',', f);
		first = 0;
		if (CLAST_STMT_IS_A(s, stmt_ass)) {
			struct clast_assignment *a = (struct clast_assignment *)s;
			fprintf(f, "{\"k\":\"ass\",\"v\":");
			js_str(f, a->LHS);
			fprintf(f, ",\"e\":");
			js_expr(f, a->RHS);
			fputc('}', f);
		} else if (CLAST_STMT_IS_A(s, stmt_block)) {
			fprintf(f, "{\"k\":\"blk\",\"b\":");
			js_stmts(f, ((struct clast_block *)s)->body);
			fputc('}', f);
		} else if (CLAST_STMT_IS_A(s, stmt_for)) {
			struct clast_for *l = (struct clast_for *)s;
			fprintf(f, "{\"k\":\"for\",\"v\":");
			js_str(f, l->iterator);
			fprintf(f, ",\"lb\":");
			js_expr(f, l->LB);
			fprintf(f, ",\"ub\":");
			js_expr(f, l->UB);
			fprintf(f, ",\"st\":");
			js_int(f, l->stride);
			if (js_want_dom) {
				fprintf(f, ",\"dom\":");
				js_set(f, l->domain);
			}
			if (js_want_par) {
				fprintf(f, ",\"par\":%d,\"pv\":", l->parallel);
				js_str(f, l->private_vars);
				fprintf(f, ",\"rd\":");
				js_str(f, l->reduction_vars);
				fprintf(f, ",\"tv\":");
				js_str(f, l->time_var_name);
				fprintf(f, ",\"ud\":");
				js_str(f, l->user_directive);
			}
			fprintf(f, ",\"b\":");
			js_stmts(f, l->body);
			fputc('}', f);
		} else if (CLAST_STMT_IS_A(s, stmt_guard)) {
			struct clast_guard *g = (struct clast_guard *)s;
			fprintf(f, "{\"k\":\"if\",\"q\":[");
			for (i = 0; i < g->n; ++i) {
				if (i)
					fputc(',', f);
				fprintf(f, "{\"l\":");
				js_expr(f, g->eq[i].LHS);
				fprintf(f, ",\"r\":");
				js_expr(f, g->eq[i].RHS);
				fprintf(f, ",\"s\":%d}", g->eq[i].sign > 0 ? 1 :
					g->eq[i].sign < 0 ? -1 : 0);
			}
			fprintf(f, "],\"b\":");
			js_stmts(f, g->then);
			fputc('}', f);
		} else if (CLAST_STMT_IS_A(s, stmt_user)) {
			struct clast_user_stmt *u = (struct clast_user_stmt *)s;
			struct clast_stmt *t;
			fprintf(f, "{\"k\":\"usr\",\"s\":%d,\"n\":",
				u->statement->number);
			if (u->statement->name)
				js_str(f, u->statement->name);
			else
				fprintf(f, "null");
			if (js_want_dom) {
				fprintf(f, ",\"dom\":");
				js_set(f, u->domain);
			}
			fprintf(f, ",\"usr\":%d", u->statement->usr ?
				*(int *)u->statement->usr : 0);
			fprintf(f, ",\"sub\":[");
			for (t = u->substitutions; t; t = t->next) {
				struct clast_assignment *a = (struct clast_assignment *)t;
				if (t != u->substitutions)
					fputc(',', f);
				js_expr(f, a->RHS);
			}
			fprintf(f, "]}");
		} else
			fprintf(f, "{\"k\":\"?\"}");
	}
	fputc(']', f);
}
#endif
