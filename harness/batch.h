/* Batch driver shared by the harnesses: one forked child per job line
 *     <id> TAB <timeout seconds> TAB <file> TAB <tokens separated by space>
 * and one JSON line per job. */
#ifndef BATCH_H
#define BATCH_H
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <errno.h>
#include <fcntl.h>

static void child(char *file, char *toks, FILE *out);

int main(void)
{
	char *line = NULL;
	size_t cap = 0;
	ssize_t len;

	signal(SIGPIPE, SIG_IGN);
	while ((len = getline(&line, &cap, stdin)) > 0) {
		char *id, *to, *file, *toks;
		int fd[2], st = 0, timeout;
		pid_t pid;
		char *buf = NULL;
		size_t n = 0, a = 0;

		if (line[len - 1] == '\n')
			line[len - 1] = 0;
		id = strtok(line, "\t");
		to = strtok(NULL, "\t");
		file = strtok(NULL, "\t");
		toks = strtok(NULL, "\t");
		if (!id || !to || !file)
			continue;
		timeout = atoi(to);
		if (pipe(fd) < 0)
			return 3;
		pid = fork();
		if (pid < 0)
			return 3;
		if (pid == 0) {
			static char empty[1];
			struct rlimit rl = { 0, 0 };
			int nul = open("/dev/null", O_RDWR);
			FILE *out;
			close(fd[0]);
			setrlimit(RLIMIT_CORE, &rl);
			rl.rlim_cur = rl.rlim_max = timeout;
			setrlimit(RLIMIT_CPU, &rl);
			alarm(timeout * 3);
			dup2(nul, 0);
			dup2(nul, 1);
			dup2(nul, 2);
			out = fdopen(fd[1], "w");
			child(file, toks ? toks : empty, out);
			_exit(9);
		}
		close(fd[1]);
		for (;;) {
			ssize_t r;
			if (n + 65536 > a) {
				a = (n + 65536) * 2;
				buf = realloc(buf, a);
			}
			r = read(fd[0], buf + n, 65536);
			if (r < 0 && errno == EINTR)
				continue;
			if (r <= 0)
				break;
			n += r;
		}
		close(fd[0]);
		waitpid(pid, &st, 0);
		printf("{\"id\":%s,\"exit\":%d,\"sig\":%d", id,
			WIFEXITED(st) ? WEXITSTATUS(st) : -1,
			WIFSIGNALED(st) ? WTERMSIG(st) : 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && n) {
			printf(",");
			fwrite(buf, 1, n, stdout);
		}
		printf("}\n");
		fflush(stdout);
		free(buf);
	}
	return 0;
}
#endif
