// Runs a program and lets a chosen file operation fail (or kills the program there).
//   inject LOG RULES -- cmd...
// LOG: '-' or a file which gets one line per file operation:
//       thread(main|other) call action(-|rule's) path path2 extra(bytes to write, or w|c for opening for writing|creating) existed(0|1) size of the file before a write
//       (separated by tabs), and lines "snap name name ..." with the *.plot files in the directories of $WATCH (':' separated) when they change
// RULES: '-' or rules separated by ';': thread,call,name,n,more,what
//       thread: main|other|any; call: pattern; name: pattern for the path (empty: any file below /tmp, /verif, /dev/shm or /root);
//       n: the n-th such operation (over all threads), sN: the write that makes the file N bytes long or longer; more: how many further ones (-1: all);
//       what: an error number, KILL, INT, TERM (signal after letting the call pass), HOLDms or SHORTn (a read or write transfers only n bytes)
// The operations are intercepted by seccomp user notification; exit: as the program (128 + signal if killed).
#define _GNU_SOURCE
#include <errno.h>
#include <dirent.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <poll.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

static const struct { int nr; const char* name; int path; } CALLS[] = {
	{SYS_openat, "openat", 1}, {SYS_open, "open", 0}, {SYS_creat, "creat", 0}, {SYS_read, "read", -1}, {SYS_pread64, "pread", -1}, {SYS_readv, "readv", -1},
	{SYS_write, "write", -1}, {SYS_pwrite64, "pwrite", -1}, {SYS_writev, "writev", -1}, {SYS_pwritev, "pwritev", -1}, {SYS_lseek, "lseek", -1},
	{SYS_close, "close", -1}, {SYS_fsync, "fsync", -1}, {SYS_fdatasync, "fdatasync", -1}, {SYS_ftruncate, "ftruncate", -1}, {SYS_truncate, "truncate", 0},
	{SYS_rename, "rename", 0}, {SYS_renameat, "renameat", 1}, {SYS_renameat2, "renameat2", 1}, {SYS_unlink, "unlink", 0}, {SYS_unlinkat, "unlinkat", 1},
	{SYS_link, "link", 0}, {SYS_linkat, "linkat", 1}, {SYS_copy_file_range, "copy_file_range", -1}, {SYS_sendfile, "sendfile", -1}, {SYS_fallocate, "fallocate", -1}, {SYS_mkdir, "mkdir", 0},
};
#define NCALLS (int)(sizeof(CALLS) / sizeof(CALLS[0]))

static void die(const char* s) { perror(s); exit(99); }

static int send_fd(int sock, int fd)
{
	struct msghdr m = {}; char c = 0, cb[CMSG_SPACE(sizeof(int))] = {};
	struct iovec io = {&c, 1};
	m.msg_iov = &io; m.msg_iovlen = 1; m.msg_control = cb; m.msg_controllen = sizeof cb;
	struct cmsghdr* h = CMSG_FIRSTHDR(&m);
	h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN(sizeof(int));
	memcpy(CMSG_DATA(h), &fd, sizeof fd);
	return sendmsg(sock, &m, 0) < 0;
}
static int recv_fd(int sock)
{
	struct msghdr m = {}; char c, cb[CMSG_SPACE(sizeof(int))] = {};
	struct iovec io = {&c, 1}; int fd;
	m.msg_iov = &io; m.msg_iovlen = 1; m.msg_control = cb; m.msg_controllen = sizeof cb;
	if(recvmsg(sock, &m, 0) <= 0 || !CMSG_FIRSTHDR(&m)) return -1;
	memcpy(&fd, CMSG_DATA(CMSG_FIRSTHDR(&m)), sizeof fd);
	return fd;
}


struct rule { char thr[16], call[32], name[600], what[16]; long n, more, cnt, size; };
static struct rule R[32]; static int NR = 0;
static struct { unsigned long long id; double at; } held[64]; static int nheld = 0;
static FILE* LOG;
static double now(void) { struct timeval t; gettimeofday(&t, NULL); return t.tv_sec + t.tv_usec * 1e-6; }

static int cmps(const void* a, const void* b) { return strcmp(*(char**)a, *(char**)b); }
static void snap(void)
{
	static char* last = NULL;
	const char* w = getenv("WATCH");
	if(!LOG || !w) return;
	char* names[4096]; int n = 0;
	char* dup = strdup(w); char* q = dup; char* d;
	while((d = strsep(&q, ":"))) {
		DIR* dir = opendir(d); struct dirent* e;
		if(!dir) continue;
		while((e = readdir(dir))) {
			size_t l = strlen(e->d_name);
			if(l > 5 && !strcmp(e->d_name + l - 5, ".plot") && n < 4096) { if(asprintf(&names[n], "%s/%s", d, e->d_name) > 0) n++; }
		}
		closedir(dir);
	}
	free(dup);
	qsort(names, n, sizeof(char*), cmps);
	char* buf = strdup("snap");
	for(int i = 0; i < n; ++i) { char* nb; if(asprintf(&nb, "%s\t%s", buf, names[i]) > 0) { free(buf); buf = nb; } free(names[i]); }
	if(!last || strcmp(last, buf)) { fprintf(LOG, "%s\n", buf); free(last); last = buf; } else free(buf);
}
static void get_path(int pid, unsigned long long addr, char* out)	// absolute path from the program's memory
{
	char link[64], p[4097] = ""; out[0] = 0;
	snprintf(link, sizeof link, "/proc/%d/mem", pid);
	int m = open(link, O_RDONLY);
	if(m >= 0) { ssize_t g = pread(m, p, 4096, addr); p[g > 0 ? g : 0] = 0; close(m); }
	if(p[0] && p[0] != '/') {
		char c[4097]; snprintf(link, sizeof link, "/proc/%d/cwd", pid);
		ssize_t g = readlink(link, c, 4096); c[g > 0 ? g : 0] = 0;
		snprintf(out, 8200, "%s/%s", c, p);
	} else strcpy(out, p);
}

// performs a read or write of at most n bytes for the program; bytes transferred, or -1
static long do_short(int pid, const struct seccomp_data* d, long n)
{
	if((d->nr != SYS_read && d->nr != SYS_write) || (long)d->args[2] <= n || n < 1 || n > 65536) return -1;
	static char buf[65536]; char link[64]; long r = -1;
	int pf = syscall(SYS_pidfd_open, pid, 0); if(pf < 0) return -1;
	int fd = syscall(SYS_pidfd_getfd, pf, (int)d->args[0], 0); close(pf); if(fd < 0) return -1;
	snprintf(link, sizeof link, "/proc/%d/mem", pid);
	int m = open(link, O_RDWR);
	if(m >= 0 && d->nr == SYS_read) { r = read(fd, buf, n); if(r > 0 && pwrite(m, buf, r, d->args[1]) != r) r = -1; }
	else if(m >= 0) { r = pread(m, buf, n, d->args[1]) == n ? write(fd, buf, n) : -1; }
	if(m >= 0) close(m);
	close(fd);
	return r;
}

int main(int argc, char** argv)
{
	if(argc < 5) return 99;
	LOG = strcmp(argv[1], "-") ? fopen(argv[1], "w") : NULL;
	if(strcmp(argv[2], "-")) {
		char* all = strdup(argv[2]); char* p;
		while((p = strsep(&all, ";")) && NR < 32) {
			char* f[6];
			for(int i = 0; i < 6; ++i) if(!(f[i] = strsep(&p, ","))) return 99;
			struct rule* r = &R[NR++];
			strncpy(r->thr, f[0], 15); strncpy(r->call, f[1], 31); strncpy(r->name, f[2], 599); if(f[3][0] == 's') r->size = atol(f[3] + 1), r->n = 1; else r->n = atol(f[3]); r->more = atol(f[4]); strncpy(r->what, f[5], 15);
		}
	}
	int sv[2];
	if(socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) die("socketpair");
	pid_t pid = fork();
	if(pid < 0) die("fork");
	if(!pid) {
		close(sv[0]);
		setpgid(0, 0);
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if(prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) die("no_new_privs");
		// write() to the terminal/pipe (fd 1, 2) and everything not listed is let through
		struct sock_filter f[8 + 2 * NCALLS]; int n = 0;
		f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
		for(int i = 0; i < NCALLS; ++i) {
			f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)CALLS[i].nr, 0, 1);
			f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_USER_NOTIF);
		}
		f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
		struct sock_fprog prog = {(unsigned short)n, f};
		int fd = syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, SECCOMP_FILTER_FLAG_NEW_LISTENER, &prog);
		if(fd < 0) die("seccomp");
		send_fd(sv[1], fd);
		// no close() here: the supervisor answers from now on
		execv(argv[4], argv + 4);
		_exit(98);
	}
	close(sv[1]);
	int fd = recv_fd(sv[0]);
	if(fd < 0) return 99;
	int status = 0;
	struct seccomp_notif req; struct seccomp_notif_resp resp;
	while(1) {
		struct pollfd pf = {fd, POLLIN, 0};
		int pr = poll(&pf, 1, nheld ? 2 : 20);
		for(int i = 0; i < nheld;) {
			if(held[i].at <= now()) {
				memset(&resp, 0, sizeof resp); resp.id = held[i].id; resp.flags = SECCOMP_USER_NOTIF_FLAG_CONTINUE;
				ioctl(fd, SECCOMP_IOCTL_NOTIF_SEND, &resp);
				held[i] = held[--nheld];
			} else ++i;
		}
		if(pr > 0 && (pf.revents & POLLIN)) {
			memset(&req, 0, sizeof req);
			if(ioctl(fd, SECCOMP_IOCTL_NOTIF_RECV, &req)) { if(errno == EINTR || errno == ENOENT) continue; break; }
			int ci = 0; while(ci < NCALLS && CALLS[ci].nr != req.data.nr) ci++;
			static char path[8300], path2[8300]; char link[64]; path[0] = path2[0] = 0;
			int fi = ci < NCALLS ? CALLS[ci].path : -1;
			const char* call = ci < NCALLS ? CALLS[ci].name : "?";
			char extra[32] = "-"; int two = 0;
			if(fi >= 0) {
				get_path(req.pid, req.data.args[fi], path);
				if(!strcmp(call, "rename") || !strcmp(call, "link")) two = 1, get_path(req.pid, req.data.args[1], path2);
				if(!strncmp(call, "renameat", 8) || !strcmp(call, "linkat")) two = 1, get_path(req.pid, req.data.args[3], path2);
				if(!strcmp(call, "openat") || !strcmp(call, "open")) {
					int fl = req.data.args[fi + 1];
					strcpy(extra, (fl & O_CREAT) ? "c" : (fl & O_ACCMODE) != O_RDONLY ? "w" : "r");
				}
				if(!strcmp(call, "creat")) strcpy(extra, "c");
			} else {
				snprintf(link, sizeof link, "/proc/%d/fd/%d", req.pid, (int)req.data.args[0]);
				ssize_t g = readlink(link, path, 4096); path[g > 0 ? g : 0] = 0;
				if(strstr(call, "write")) snprintf(extra, sizeof extra, "%lld", (long long)req.data.args[2]);
			}
			const char* thr = req.pid == (unsigned)pid ? "main" : "other";
			memset(&resp, 0, sizeof resp);
			resp.id = req.id; resp.flags = SECCOMP_USER_NOTIF_FLAG_CONTINUE;
			const char* act = "-"; int sig = 0, hold = 0;
			for(int i = 0; i < NR && ci < NCALLS; ++i) {
				struct rule* r = &R[i];
				if(strcmp(r->thr, "any") && strcmp(r->thr, thr)) continue;
				if(fnmatch(r->call, call, 0)) continue;
				if(!*r->name) {
					if(strncmp(path, "/tmp/", 5) && strncmp(path, "/verif/", 7) && strncmp(path, "/dev/shm/", 9) && strncmp(path, "/root/", 6)) continue;
				} else if(fnmatch(r->name, path, 0) && (!two || fnmatch(r->name, path2, 0))) continue;
				if(r->size) { struct stat fs; if(!strstr(call, "write") || stat(path, &fs) || fs.st_size + (long)req.data.args[2] < r->size) continue; }
				r->cnt++;
				if(r->cnt < r->n || (r->more >= 0 && r->cnt > r->n + r->more)) continue;
				if(!strcmp(r->what, "KILL")) { kill(pid, SIGKILL); resp.error = -EIO; resp.flags = 0; }
				else if(!strcmp(r->what, "INT")) sig = SIGINT;
				else if(!strcmp(r->what, "TERM")) sig = SIGTERM;
				else if(!strncmp(r->what, "HOLD", 4)) hold = atoi(r->what + 4);
				else if(!strncmp(r->what, "SHORT", 5)) { long g = do_short(pid, &req.data, atol(r->what + 5)); if(g >= 0) { resp.val = g; resp.error = 0; resp.flags = 0; } }
				else { resp.error = -atoi(r->what); resp.flags = 0; }
				act = r->what;
			}
			struct stat st;
			int names = ci < NCALLS && fi >= 0;
			if(names && (two || strcmp(extra, "r"))) snap();
			if(LOG && ci < NCALLS && path[0] == '/') fprintf(LOG, "%s\t%s\t%s\t%s\t%s\t%s\t%d\t%lld\n", thr, call, act, path, path2, extra, names ? lstat(two ? path2 : path, &st) == 0 : 1, strstr(call, "write") && !stat(path, &st) ? (long long)st.st_size : 0);
			if(hold && nheld < 64) { held[nheld].id = req.id; held[nheld++].at = now() + hold * 1e-3; }
			else ioctl(fd, SECCOMP_IOCTL_NOTIF_SEND, &resp);
			if(sig) {
				if(LOG) fprintf(LOG, "signal\t%s\n", act);
				kill(pid, sig);
			}
		} else {
			pid_t w = waitpid(pid, &status, WNOHANG);
			if(w == pid) break;
		}
	}
	snap();
	int rc = WIFSIGNALED(status) ? 128 + WTERMSIG(status) : WEXITSTATUS(status);
	if(LOG) { fprintf(LOG, "exit\t%d\n", rc); fclose(LOG); }
	return rc;
}
