/* gen: batch driver.  Reads job lines from stdin:
 *     <id> TAB <timeout seconds> TAB <input file> TAB <tokens separated by space>
 * Runs each job in a forked child: real command line parser, real reader, real
 * generator; prints one JSON line per job with the AST and, if asked, the
 * pretty printed text.  Tokens starting with '@' are for this driver:
 *   @fs=a,b,c @ls=a,b,c   statement-wise -f/-l (library only options)
 *   @savedom=np:p1,p2,q1,q2,..  options->save_domains = 1, dump the points of
 *                         the domains for the parameter vectors
 *   @text                 also return the pretty printed program
 *   @filter=IT:K:S        (several) clast_filter with iterator IT ('*': none), K
 *                         'e' (exact) or 's' (subset), S statement numbers or '*'
 *   @annot=SEED           annotate loops the way a parallelizer does
 *   @dump                 also return cloog_input_dump_cloog's text
 */
#define _GNU_SOURCE
#include "astdump.h"
#include "batch.h"

static int *parse_list(const char *s, int *n)
{
	int *r = malloc(sizeof(int) * 64);
	*n = 0;
	while (*s && *n < 64) {
		r[(*n)++] = strtol(s, (char **)&s, 10);
		if (*s == ',')
			++s;
	}
	return r;
}

/* the loops in the order of the text */
static struct clast_for *forv[4096];
static int n_for;
static void loops_of(struct clast_stmt *s)
{
	for (; s; s = s->next) {
		if (CLAST_STMT_IS_A(s, stmt_block))
			loops_of(((struct clast_block *)s)->body);
		else if (CLAST_STMT_IS_A(s, stmt_guard))
			loops_of(((struct clast_guard *)s)->then);
		else if (CLAST_STMT_IS_A(s, stmt_for)) {
			if (n_for < 4096)
				forv[n_for++] = (struct clast_for *)s;
			loops_of(((struct clast_for *)s)->body);
		}
	}
}

static void filter(FILE *out, struct clast_stmt *root, char *spec)
{
	ClastFilter fl;
	struct clast_for **loops;
	int nl, ns, *stmts, i, j, n = 0, *sf = NULL;
	char *it = spec, *k = strchr(spec, ':'), *st;

	*k++ = 0;
	st = strchr(k, ':');
	*st++ = 0;
	fl.iter = strcmp(it, "*") ? it : NULL;
	if (strcmp(st, "*"))
		sf = parse_list(st, &n);
	fl.stmts_filter = sf;
	fl.nstmts_filter = n;
	fl.filter_type = *k == 'e' ? exact : subset;
	clast_filter(root, fl, &loops, &nl, &stmts, &ns);
	fprintf(out, "{\"loops\":[");
	for (i = 0; i < nl; ++i) {
		for (j = 0; j < n_for && forv[j] != loops[i]; ++j)
			;
		fprintf(out, "%s%d", i ? "," : "", j < n_for ? j + 1 : 0);
	}
	fprintf(out, "],\"stmts\":[");
	for (i = 0; i < ns; ++i)
		fprintf(out, "%s%d", i ? "," : "", stmts[i]);
	fprintf(out, "]}");
	free(loops);
	free(stmts);
	free(sf);
}

static unsigned ann_state;
static int ann(int n)
{
	ann_state = ann_state * 1103515245u + 12345u;
	return (ann_state >> 16) % n;
}

/* the variables the body of a loop assigns, comma separated */
static void assigned(struct clast_stmt *s, char *buf)
{
	for (; s; s = s->next) {
		const char *v = NULL;
		struct clast_stmt *b = NULL;
		if (CLAST_STMT_IS_A(s, stmt_ass))
			v = ((struct clast_assignment *)s)->LHS;
		else if (CLAST_STMT_IS_A(s, stmt_block))
			b = ((struct clast_block *)s)->body;
		else if (CLAST_STMT_IS_A(s, stmt_guard))
			b = ((struct clast_guard *)s)->then;
		else if (CLAST_STMT_IS_A(s, stmt_for)) {
			v = ((struct clast_for *)s)->iterator;
			b = ((struct clast_for *)s)->body;
		}
		if (v) {
			char t[300];
			snprintf(t, sizeof(t), ",%s,", v);
			if (!strstr(buf, t)) {
				strcat(buf, v);
				strcat(buf, ",");
			}
		}
		if (b)
			assigned(b, buf);
	}
}

/* one level of parallelism of each kind per nest, as the names of the bound
 * variables are shared */
static void annotate(struct clast_stmt *s, int par, int vec)
{
	static const int kinds[] = { 0, CLAST_PARALLEL_OMP, CLAST_PARALLEL_OMP,
		CLAST_PARALLEL_OMP | CLAST_PARALLEL_USER, CLAST_PARALLEL_MPI,
		CLAST_PARALLEL_MPI | CLAST_PARALLEL_OMP, CLAST_PARALLEL_VEC, CLAST_PARALLEL_VEC,
		CLAST_PARALLEL_OMP | CLAST_PARALLEL_VEC, CLAST_PARALLEL_MPI | CLAST_PARALLEL_VEC,
		CLAST_PARALLEL_MPI | CLAST_PARALLEL_OMP | CLAST_PARALLEL_USER,
		CLAST_PARALLEL_USER, 0 };
	for (; s; s = s->next) {
		if (CLAST_STMT_IS_A(s, stmt_block))
			annotate(((struct clast_block *)s)->body, par, vec);
		else if (CLAST_STMT_IS_A(s, stmt_guard))
			annotate(((struct clast_guard *)s)->then, par, vec);
		else if (CLAST_STMT_IS_A(s, stmt_for)) {
			struct clast_for *f = (struct clast_for *)s;
			int k = kinds[ann(13)], p = k & (CLAST_PARALLEL_OMP | CLAST_PARALLEL_MPI);
			char buf[4000] = ",", t[40];
			if ((p && par) || (k == CLAST_PARALLEL_VEC && vec) || !f->LB || !f->UB)
				k = p = 0;
			f->parallel = k;
			if (ann(4) == 0) {
				snprintf(t, sizeof(t), "t%d", ann(3));
				f->time_var_name = strdup(t);
			}
			if (k & CLAST_PARALLEL_OMP) {
				assigned(f->body, buf);
				if (buf[1] && ann(4)) {
					strcat(buf, "lbv,ubv");
					f->private_vars = strdup(buf + 1);
				}
				if (ann(3) == 0)
					f->reduction_vars = strdup("+:red_");
			}
			if ((k & CLAST_PARALLEL_USER) && ann(3))
				f->user_directive = strdup("omp parallel for schedule(static)");
			annotate(f->body, par || p, vec || k == CLAST_PARALLEL_VEC);
		}
	}
}

static void child(char *file, char *toks, FILE *out)
{
	char *argv[128];
	int argc = 0, i, want_text = 0, want_dump = 0, savedom = 0;
	int *fs = NULL, *ls = NULL, nfs = 0, nls = 0;
	char *t;
	FILE *in = NULL, *o = NULL;
	CloogState *state;
	CloogOptions *options;
	CloogInput *input;
	struct clast_stmt *root;
	char *dump = NULL, *filters[64];
	int n_filters = 0, want_ann = 0;

	argv[argc++] = "cloog";
	for (t = strtok(toks, " "); t && argc < 120; t = strtok(NULL, " ")) {
		if (t[0] != '@') {
			argv[argc++] = t;
			continue;
		}
		if (!strncmp(t, "@fs=", 4))
			fs = parse_list(t + 4, &nfs);
		else if (!strncmp(t, "@ls=", 4))
			ls = parse_list(t + 4, &nls);
		else if (!strncmp(t, "@savedom=", 9)) {
			int *v, n;
			js_np = atoi(t + 9);
			v = parse_list(strchr(t, ':') + 1, &n);
			js_npv = js_np ? n / js_np : 1;
			for (i = 0; js_np && i < n; ++i)
				js_pv[i / js_np][i % js_np] = v[i];
			free(v);
			savedom = js_want_dom = 1;
		}
		else if (!strncmp(t, "@filter=", 8) && n_filters < 64)
			filters[n_filters++] = t + 8;
		else if (!strncmp(t, "@annot=", 7)) {
			want_ann = js_want_par = 1;
			ann_state = atoi(t + 7);
		}
		else if (!strcmp(t, "@text"))
			want_text = 1;
		else if (!strcmp(t, "@dump"))
			want_dump = 1;
	}
	argv[argc++] = file;
	argv[argc] = NULL;
	state = cloog_state_malloc();
	cloog_options_read(state, argc, argv, &in, &o, &options);
	options->quiet = 1;
	if (fs) {
		options->fs = fs;
		options->ls = ls;
		options->fs_ls_size = nfs;
	}
	options->save_domains = savedom;
	input = cloog_input_read(in, options);
	if (in != stdin)
		fclose(in);
	if (want_dump) {
		size_t sz;
		FILE *m = open_memstream(&dump, &sz);
		cloog_input_dump_cloog(m, input, options);
		fclose(m);
	}
	root = cloog_clast_create_from_input(input, options);
	if (n_filters || want_ann)
		loops_of(root);
	if (n_filters) {
		fprintf(out, "\"filters\":[");
		for (i = 0; i < n_filters; ++i) {
			if (i)
				fputc(',', out);
			filter(out, root, filters[i]);
		}
		fprintf(out, "],");
	}
	if (want_ann)
		annotate(root, 0, 0);
	fprintf(out, "\"params\":[");
	{
		CloogNames *names = ((struct clast_root *)root)->names;
		for (i = 0; i < names->nb_parameters; ++i) {
			if (i)
				fputc(',', out);
			js_str(out, names->parameters[i]);
		}
	}
	fprintf(out, "],\"lang\":%d,\"ast\":", options->language);
	js_stmts(out, root);
	if (want_text) {
		char *buf;
		size_t sz;
		FILE *m = open_memstream(&buf, &sz);
		clast_pprint(m, root, 0, options);
		fclose(m);
		fprintf(out, ",\"text\":");
		js_str(out, buf);
		free(buf);
	}
	if (dump) {
		fprintf(out, ",\"dump\":");
		js_str(out, dump);
		free(dump);
	}
	cloog_clast_free(root);
	options->fs = options->ls = NULL;
	cloog_options_free(options);
	fprintf(out, ",\"cnt\":[%d,%d,%d,%d,%d,%d]", state->block_allocated,
		state->block_freed, state->loop_allocated, state->loop_freed,
		state->statement_allocated, state->statement_freed);
	cloog_state_free(state);
	fprintf(out, ",\"done\":1");
	fflush(out);
	_exit(0);
}
