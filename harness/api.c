/* api: runs scripts of library calls.  Job lines as for gen; the file holds
 * one call per line, registers are numbers: S states, O options, D domains,
 * T scatterings, U union domains, I inputs, P programs, A trees.
 * The calls with results append to the JSON list "out". */
#define _GNU_SOURCE
#include "astdump.h"
#include "batch.h"

#define N 64
static CloogState *S[N];
static isl_ctx *C[N];
static CloogOptions *O[N];
static CloogDomain *D[N];
static CloogScattering *T[N];
static CloogUnionDomain *U[N];
static CloogInput *I[N];
static CloogProgram *P[N];
static struct clast_stmt *A[N];
static int usr[256];
static FILE *out;
static int nout;

/* bytes handed out by malloc and not given back */
#if defined(__SANITIZE_ADDRESS__)
size_t __sanitizer_get_current_allocated_bytes(void);
#define in_use() ((long)__sanitizer_get_current_allocated_bytes())
#else
#include <malloc.h>
#define in_use() ((long)mallinfo2().uordblks)
#endif

static char *cur;
static long num(void)
{
	return strtol(cur, &cur, 10);
}
static char *word(void)
{
	char *w;
	while (*cur == ' ')
		++cur;
	w = cur;
	while (*cur && *cur != ' ')
		++cur;
	if (*cur)
		*cur++ = 0;
	return w;
}
static char *rest(void)
{
	while (*cur == ' ')
		++cur;
	return cur;
}

static void sep(void)
{
	if (nout++)
		fputc(',', out);
}

static CloogMatrix *matrix(void)
{
	int nr = num(), nc = num(), i, j;
	CloogMatrix *m = cloog_matrix_alloc(nr, nc);
	for (i = 0; i < nr; ++i)
		for (j = 0; j < nc; ++j)
			cloog_int_read(m->p[i][j], word());
	return m;
}

static void setopt(CloogOptions *o, const char *k, long v)
{
#define F(x) if (!strcmp(k, #x)) o->x = v; else
	F(l) F(f) F(stop) F(strides) F(sh) F(otl) F(esp) F(fsp) F(block) F(first_unroll)
	F(compilable) F(callable) F(language) F(save_domains) F(quiet) F(noblocks)
	F(noscalars) F(backtrack) F(override) F(leaks)
	{ fprintf(stderr, "option %s\n", k); _exit(7); }
}

static void mem(void (*f)(FILE *, int, int), int a, int b)
{
	char *buf;
	size_t sz;
	FILE *m = open_memstream(&buf, &sz);
	f(m, a, b);
	fclose(m);
	sep();
	js_str(out, buf);
	free(buf);
}
static void f_text(FILE *m, int a, int o) { clast_pprint(m, A[a], 0, O[o]); }
static void f_idump(FILE *m, int i, int o) { cloog_input_dump_cloog(m, I[i], O[o]); }
static void f_ptext(FILE *m, int p, int o) { cloog_program_pprint(m, P[p], O[o]); }

static void call(char *line)
{
	char *c;
	int a, b, d, i, n;
	long v[512];

	cur = line;
	c = word();
	if (!*c || *c == '#')
		return;
#define IS(x) else if (!strcmp(c, x))
	if (!strcmp(c, "state")) {
		a = num();
		S[a] = cloog_state_malloc();
	} IS("islstate") {
		a = num();
		C[a] = isl_ctx_alloc();
		S[a] = cloog_isl_state_malloc(C[a]);
	} IS("sfree") {
		a = num();
		cloog_state_free(S[a]);
		S[a] = NULL;
		if (C[a])
			isl_ctx_free(C[a]);
		C[a] = NULL;
	} IS("count") {
		a = num();
		sep();
		fprintf(out, "[%d,%d,%d,%d,%d,%d]", S[a]->block_allocated, S[a]->block_freed,
			S[a]->loop_allocated, S[a]->loop_freed, S[a]->statement_allocated,
			S[a]->statement_freed);
	} IS("options") {
		a = num();
		O[a] = cloog_options_malloc(S[num()]);
		O[a]->quiet = 1;
	} IS("oshow") {
		a = num();
		sep();
#define G(x) fprintf(out, "%c\"" #x "\":%ld", c0, (long) O[a]->x); c0 = ',';
		char c0 = '{';
		G(f) G(l) G(strides) G(sh) G(esp) G(fsp) G(otl) G(block) G(noscalars) G(noblocks)
		G(save_domains) G(first_unroll) G(language) G(backtrack)
#undef G
		fputc('}', out);
	} IS("opt") {
		char *k;
		a = num();
		k = word();
		setopt(O[a], k, num());
	} IS("ofree") {
		a = num();
		cloog_options_free(O[a]);
		O[a] = NULL;
	} IS("dmat") {			/* D S nparam rows cols values */
		CloogMatrix *m;
		a = num();
		b = num();
		d = num();
		m = matrix();
		D[a] = cloog_domain_from_cloog_matrix(S[b], m, d);
		cloog_matrix_free(m);
	} IS("dstr") {
		a = num();
		b = num();
		D[a] = cloog_domain_from_isl_set(isl_set_read_from_str(S[b]->backend->ctx, rest()));
	} IS("dcube") {
		cloog_int_t lo, hi;
		a = num();
		b = num();
		d = num();
		cloog_int_init(lo);
		cloog_int_init(hi);
		cloog_int_set_si(lo, num());
		cloog_int_set_si(hi, num());
		D[a] = cloog_domain_cube(S[b], d, lo, hi);
		cloog_int_clear(lo);
		cloog_int_clear(hi);
	} IS("dbounds") {
		struct cloog_vec *lo, *hi;
		a = num();
		b = num();
		n = num();
		lo = cloog_vec_alloc(n);
		hi = cloog_vec_alloc(n);
		for (i = 0; i < n; ++i) {
			cloog_int_set_si(lo->p[i], num());
			cloog_int_set_si(hi->p[i], num());
		}
		D[a] = cloog_domain_from_bounds(S[b], lo, hi);
		cloog_vec_free(lo);
		cloog_vec_free(hi);
	} IS("duniv") {
		a = num();
		b = num();
		D[a] = cloog_domain_universe(S[b], num());
	} IS("dcopy") {
		a = num();
		b = num();
		D[a] = cloog_domain_copy(D[b]);
	} IS("dfree") {
		a = num();
		cloog_domain_free(D[a]);
		D[a] = NULL;
	} IS("dunion") {		/* consumes both */
		a = num();
		b = num();
		d = num();
		D[a] = cloog_domain_union(D[b], D[d]);
		if (b != a)
			D[b] = NULL;
		if (d != a)
			D[d] = NULL;
	} IS("dinter") {
		a = num();
		b = num();
		d = num();
		D[a] = cloog_domain_intersection(D[b], D[d]);
	} IS("ddiff") {
		a = num();
		b = num();
		d = num();
		D[a] = cloog_domain_difference(D[b], D[d]);
	} IS("dsimplify") {
		a = num();
		b = num();
		d = num();
		D[a] = cloog_domain_simplify(D[b], D[d]);
	} IS("dproject") {
		a = num();
		b = num();
		D[a] = cloog_domain_project(D[b], num());
	} IS("dextend") {
		a = num();
		b = num();
		D[a] = cloog_domain_extend(D[b], num());
	} IS("dconvex") {
		a = num();
		D[a] = cloog_domain_convex(D[num()]);
	} IS("dsimple") {
		a = num();
		D[a] = cloog_domain_simple_convex(D[num()]);
	} IS("dempty") {
		a = num();
		D[a] = cloog_domain_empty(D[num()]);
	} IS("dcut") {			/* first rest domain: consumes the domain */
		CloogDomain *r;
		a = num();
		b = num();
		d = num();
		D[a] = cloog_domain_cut_first(D[d], &r);
		D[b] = r;
		if (d != a && d != b)
			D[d] = NULL;
	} IS("dcutq") {			/* the same, but an empty union is only copied */
		CloogDomain *r;
		a = num();
		b = num();
		d = num();
		if (cloog_domain_isempty(D[d])) {
			D[a] = cloog_domain_copy(D[d]);
		} else {
			D[a] = cloog_domain_cut_first(D[d], &r);
			D[b] = r;
		}
	} IS("dsimpu") {		/* result domain: consumes the domain */
		a = num();
		b = num();
		D[a] = cloog_domain_simplify_union(D[b]);
		if (a != b)
			D[b] = NULL;
	} IS("dsplit") {
		a = num();
		b = num();
		D[a] = cloog_domain_bound_splitter(D[b], num());
	} IS("dfromctx") {		/* consumes */
		a = num();
		b = num();
		D[a] = cloog_domain_from_context(D[b]);
		if (a != b)
			D[b] = NULL;
	} IS("dscatter") {		/* result domain scattering: consumes the domain */
		a = num();
		b = num();
		d = num();
		D[a] = cloog_domain_scatter(D[b], T[d]);
		if (a != b)
			D[b] = NULL;
	} IS("dpoints") {		/* D np p.. lo hi */
		a = num();
		n = num();
		for (i = 0; i < n; ++i)
			v[i] = num();
		b = num();
		d = num();
		sep();
		points(out, D[a], n, v, b, d);
	} IS("dempty?") {
		sep();
		fprintf(out, "%d", cloog_domain_isempty(D[num()]));
	} IS("dconvex?") {
		sep();
		fprintf(out, "%d", cloog_domain_isconvex(D[num()]));
	} IS("ddim") {
		sep();
		a = num();
		fprintf(out, "[%d,%d]", cloog_domain_dimension(D[a]), cloog_domain_parameter_dimension(D[a]));
	} IS("dequal?") {
		a = num();
		b = num();
		sep();
		fprintf(out, "%d", cloog_domain_lazy_equal(D[a], D[b]));
	} IS("ddisjoint?") {
		a = num();
		b = num();
		sep();
		fprintf(out, "%d", cloog_domain_lazy_disjoint(D[a], D[b]));
	} IS("dnever?") {
		sep();
		fprintf(out, "%d", cloog_domain_never_integral(D[num()]));
	} IS("dbounded?") {
		a = num();
		sep();
		fprintf(out, "%d", cloog_domain_is_bounded(D[a], num()));
	} IS("dotl?") {
		a = num();
		sep();
		fprintf(out, "%d", cloog_domain_is_otl(D[a], num()));
	} IS("dconst?") {		/* D dimension (0 based) */
		cloog_int_t val;
		int r;
		a = num();
		b = num();
		cloog_int_init(val);
		r = cloog_domain_lazy_isconstant(D[a], b, &val);
		sep();
		fprintf(out, "[%d", r);
		if (r) {
			fprintf(out, ",");
			cloog_int_print(out, val);
		}
		fprintf(out, "]");
		cloog_int_clear(val);
	} IS("dfollows?") {
		a = num();
		b = num();
		sep();
		fprintf(out, "%d", cloog_domain_follows(D[a], D[b], num()));
	} IS("dsortq") {		/* n D.. level -> permutation, [] if one is a union */
		CloogDomain *l[N];
		int perm[N];
		n = num();
		d = 1;
		for (i = 0; i < n; ++i) {
			l[i] = D[num()];
			if (!cloog_domain_isconvex(l[i]) || cloog_domain_isempty(l[i]))
				d = 0;
		}
		b = num();
		sep();
		if (!d)
			n = 0;
		cloog_domain_sort(l, n, b, perm);
		fprintf(out, "[");
		for (i = 0; i < n; ++i)
			fprintf(out, "%s%d", i ? "," : "", perm[i]);
		fprintf(out, "]");
	} IS("tmat") {			/* T S nscat nparam rows cols values */
		CloogMatrix *m;
		int e;
		a = num();
		b = num();
		d = num();
		e = num();
		m = matrix();
		T[a] = cloog_scattering_from_cloog_matrix(S[b], m, d, e);
		cloog_matrix_free(m);
	} IS("tstr") {
		a = num();
		b = num();
		T[a] = cloog_scattering_from_isl_map(isl_map_read_from_str(S[b]->backend->ctx, rest()));
	} IS("tfree") {
		a = num();
		cloog_scattering_free(T[a]);
		T[a] = NULL;
	} IS("ud") {
		a = num();
		U[a] = cloog_union_domain_alloc(num());
	} IS("add") {			/* U name|- D T|-1 usr */
		char *nm;
		a = num();
		nm = word();
		b = num();
		d = num();
		i = num();
		usr[i & 255] = i;
		U[a] = cloog_union_domain_add_domain(U[a], strcmp(nm, "-") ? nm : NULL, D[b],
			d >= 0 ? T[d] : NULL, i ? &usr[i & 255] : NULL);
		D[b] = NULL;
		if (d >= 0)
			T[d] = NULL;
	} IS("name") {			/* U p|i|s index name */
		char *k;
		a = num();
		k = word();
		b = num();
		U[a] = cloog_union_domain_set_name(U[a], *k == 'p' ? CLOOG_PARAM : *k == 'i' ? CLOOG_ITER :
			CLOOG_SCAT, b, word());
	} IS("udumap") {
		a = num();
		b = num();
		U[a] = cloog_union_domain_from_isl_union_map(isl_union_map_read_from_str(S[b]->backend->ctx,
			rest()));
	} IS("uduset") {
		a = num();
		b = num();
		U[a] = cloog_union_domain_from_isl_set(isl_set_read_from_str(S[b]->backend->ctx, rest()));
	} IS("udfree") {
		a = num();
		cloog_union_domain_free(U[a]);
		U[a] = NULL;
	} IS("input") {			/* I D U */
		a = num();
		b = num();
		d = num();
		I[a] = cloog_input_alloc(D[b], U[d]);
		D[b] = NULL;
		U[d] = NULL;
	} IS("iread") {			/* I O file */
		FILE *f;
		a = num();
		b = num();
		f = fopen(word(), "r");
		I[a] = cloog_input_read(f, O[b]);
		fclose(f);
	} IS("itext") {			/* I O text, \n for the end of a line */
		FILE *f;
		char *t, *w;
		a = num();
		b = num();
		for (t = w = rest(); *t; ++t)
			if (t[0] == '\\' && t[1] == 'n') {
				*w++ = '\n';
				++t;
			} else
				*w++ = *t;
		f = fmemopen(cur, w - cur, "r");
		I[a] = cloog_input_read(f, O[b]);
		fclose(f);
	} IS("iprog") {			/* P I O: takes the input apart */
		a = num();
		b = num();
		P[a] = cloog_program_alloc(I[b]->context, I[b]->ud, O[num()]);
		free(I[b]);
		I[b] = NULL;
	} IS("ifree") {
		a = num();
		cloog_input_free(I[a]);
		I[a] = NULL;
	} IS("idump") {
		a = num();
		mem(f_idump, a, num());
	} IS("gen") {			/* A I O */
		a = num();
		b = num();
		A[a] = cloog_clast_create_from_input(I[b], O[num()]);
		I[b] = NULL;
	} IS("prog") {			/* P D U O */
		a = num();
		b = num();
		d = num();
		P[a] = cloog_program_alloc(D[b], U[d], O[num()]);
		D[b] = NULL;
		U[d] = NULL;
	} IS("pgen") {
		a = num();
		P[a] = cloog_program_generate(P[a], O[num()]);
	} IS("pclast") {		/* A P O */
		a = num();
		b = num();
		A[a] = cloog_clast_create(P[b], O[num()]);
	} IS("ptext") {
		a = num();
		mem(f_ptext, a, num());
	} IS("pfree") {
		a = num();
		cloog_program_free(P[a]);
		P[a] = NULL;
	} IS("ast") {
		struct clast_root *r;
		a = num();
		r = (struct clast_root *)A[a];
		sep();
		fprintf(out, "{\"params\":[");
		for (i = 0; i < r->names->nb_parameters; ++i) {
			if (i)
				fputc(',', out);
			js_str(out, r->names->parameters[i]);
		}
		fprintf(out, "],\"ast\":");
		js_stmts(out, A[a]);
		fprintf(out, "}");
	} IS("text") {
		a = num();
		mem(f_text, a, num());
	} IS("afree") {
		a = num();
		cloog_clast_free(A[a]);
		A[a] = NULL;
	} else {
		fprintf(stderr, "unknown call %s\n", c);
		_exit(7);
	}
}

static void script(const char *file)
{
	char *line = NULL;
	size_t cap = 0;
	ssize_t len;
	FILE *f = fopen(file, "r");

	nout = 0;
	while ((len = getline(&line, &cap, f)) > 0) {
		if (line[len - 1] == '\n')
			line[len - 1] = 0;
		call(line);
	}
	free(line);
	fclose(f);
}

/* with the token "again" the script is run three times; what the third run
 * leaves allocated is its leak */
static void child(char *file, char *toks, FILE *o)
{
	long m = 0;

	out = o;
	fprintf(out, "\"out\":[");
	script(file);
	if (!strcmp(toks, "again")) {
		fprintf(out, "],\"out2\":[");
		script(file);
		m = in_use();
		fprintf(out, "],\"out3\":[");
		script(file);
		m = in_use() - m;
	}
	fprintf(out, "],\"leak\":%ld,\"done\":1", m);
	fflush(out);
	_exit(0);
}
