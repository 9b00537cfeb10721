/* opts: replays command lines into cloog_options_read.  Job lines on stdin:
 *     <id> TAB <word> TAB <word> ...        (an empty word is written \x01)
 * Every job runs in a child; prints one JSON line per job: exit status, the
 * messages, and, when the command line was accepted, the options and where
 * the input and output go. */
#define _GNU_SOURCE
#include "astdump.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>

#define F(x) fprintf(out, "\"" #x "\":%d,", (int)o->x)

static void where(FILE *out, const char *key, FILE *f)
{
	char p[64], b[1024];
	ssize_t n;
	sprintf(p, "/proc/self/fd/%d", fileno(f));
	n = readlink(p, b, sizeof(b) - 1);
	b[n < 0 ? 0 : n] = 0;
	fprintf(out, "\"%s\":", key);
	js_str(out, f == stdin ? "stdin" : f == stdout ? "stdout" :
		strrchr(b, '/') ? strrchr(b, '/') + 1 : b);
	fputc(',', out);
}

static void child(int argc, char **argv, FILE *out)
{
	CloogState *state = cloog_state_malloc();
	CloogOptions *o;
	FILE *in = NULL, *of = NULL;

	cloog_options_read(state, argc, argv, &in, &of, &o);
	fprintf(out, ",\"opt\":{");
	F(l); F(f); F(stop); F(strides); F(sh); F(first_unroll); F(otl); F(esp);
	F(fsp); F(block); F(compilable); F(callable); F(exact_clast_filtering);
	F(leaks); F(backtrack); F(override); F(structure); F(noblocks);
	F(noscalars); F(nosimplify); F(quiet);
	fprintf(out, "\"openscop\":%d},", o->openscop);
	where(out, "in", in);
	where(out, "outf", of);
	fprintf(out, "\"name\":");
	js_str(out, o->name ? o->name : "(null)");
	cloog_options_free(o);
	cloog_state_free(state);
	fflush(out);
	fflush(stdout);
	_exit(0);
}

static char *slurp(const char *fn)
{
	static char buf[20000];
	FILE *f = fopen(fn, "r");
	size_t n = f ? fread(buf, 1, sizeof(buf) - 1, f) : 0;
	buf[n] = 0;
	if (f)
		fclose(f);
	return buf;
}

int main(void)
{
	char *line = NULL;
	size_t cap = 0;
	ssize_t len;

	while ((len = getline(&line, &cap, stdin)) > 0) {
		char *argv[256], *id, *t;
		int argc = 0, fd[2], st = 0;
		pid_t pid;
		char buf[8192];
		size_t n = 0;
		if (line[len - 1] == '\n')
			line[len - 1] = 0;
		id = strtok(line, "\t");
		argv[argc++] = "cloog";
		while ((t = strtok(NULL, "\t")) && argc < 250)
			argv[argc++] = t[0] == 1 ? "" : t;
		argv[argc] = NULL;
		if (pipe(fd) < 0)
			return 3;
		pid = fork();
		if (pid < 0)
			return 3;
		if (pid == 0) {
			FILE *out;
			int nul = open("/dev/null", O_RDONLY);
			int a = open("stdout.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600);
			int b = open("stderr.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600);
			close(fd[0]);
			dup2(nul, 0);
			dup2(a, 1);
			dup2(b, 2);
			alarm(20);
			out = fdopen(fd[1], "w");
			child(argc, argv, out);
		}
		close(fd[1]);
		for (;;) {
			ssize_t r = read(fd[0], buf + n, sizeof(buf) - 1 - n);
			if (r <= 0)
				break;
			n += r;
		}
		buf[n] = 0;
		close(fd[0]);
		waitpid(pid, &st, 0);
		printf("{\"id\":%s,\"exit\":%d,\"sig\":%d,\"stdout\":", id,
			WIFEXITED(st) ? WEXITSTATUS(st) : -1,
			WIFSIGNALED(st) ? WTERMSIG(st) : 0);
		js_str(stdout, slurp("stdout.txt"));
		printf(",\"stderr\":");
		js_str(stdout, slurp("stderr.txt"));
		printf("%s}\n", buf);
		fflush(stdout);
	}
	return 0;
}
