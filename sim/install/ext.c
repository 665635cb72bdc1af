// The external commands of the install script, simulated: every call is logged, meets its planned fault if it has one,
// and otherwise does what the command does, confined to the scratch directory $SIM_ROOT.
// A fault hits before, after or in the middle of what the command does; it ends the command, or the whole process group.
//   $SIM_ROOT/plan: lines "<name>\t<occurrence>\t<action>\t<argument>", <name> being a command or a whole command line
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static char *root, *name, line[8192];
static char act[64], arg[256];

static char *slurp(const char *p, size_t *n) {
  int f = open(p, O_RDONLY | O_CLOEXEC);
  if (f < 0) return NULL;
  struct stat st;
  fstat(f, &st);
  char *b = malloc(st.st_size + 1);
  size_t k = 0;
  ssize_t r;
  while (k < (size_t)st.st_size && (r = read(f, b + k, st.st_size - k)) > 0) k += r;
  close(f);
  b[k] = 0;
  if (n) *n = k;
  return b;
}
static char *at(const char *f) {
  char *p;
  if (asprintf(&p, "%s/%s", root, f) < 0) abort();
  return p;
}
static void logline(const char *what) {
  int f = open(at("log"), O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
  char *s;
  int n = asprintf(&s, "%s\t%s\n", line, what);
  if (f >= 0 && write(f, s, n) != n) abort();
}
// Which occurrence of this command line is this?
static int count(const char *key) {
  unsigned long h = 5381;
  for (const char *c = key; *c; c++) h = h * 33 + (unsigned char)*c;
  char *p;
  if (asprintf(&p, "%s/n/%016lx", root, h) < 0) abort();
  int f = open(p, O_RDWR | O_CREAT | O_CLOEXEC, 0666);
  if (f < 0) return 0;
  flock(f, LOCK_EX);
  char b[16] = {0};
  if (read(f, b, 15) < 0) abort();
  int n = atoi(b) + 1;
  int l = snprintf(b, 16, "%d", n);
  if (pwrite(f, b, l, 0) != l) abort();
  close(f);
  return n;
}
static void die_all(void) {
  // the whole process group dies, or is asked to, at this point
  int sig = !strncmp(act, "int", 3) ? SIGINT : !strncmp(act, "term", 4) ? SIGTERM : !strncmp(act, "hup", 3) ? SIGHUP : SIGKILL;
  logline("KILLED");
  signal(sig, SIG_DFL);
  kill(0, sig);
  for (;;) pause();
}
static void fail(const char *m, int code) {
  if (m) fprintf(stderr, "%s: %s\n", name, m);
  exit(code);
}
// another installation, from its beginning to its end, at this point
static void other(void) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    setsid();
    setenv("SIM_NEST", "1", 1);
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0);
    dup2(n, 1);
    dup2(n, 2);
    for (int f = 3; f < 64; f++) close(f);
    if (chdir(getenv("HOME"))) _exit(1);
    execl("/bin/bash", "bash", at("script.sh"), NULL);
    _exit(127);
  }
  // one that waits for a lock of this one is ended
  int st, ms = 0;
  while (waitpid(p, &st, WNOHANG) == 0) {
    usleep(1000);
    if (++ms > 8000) {
      kill(-p, SIGKILL);
      waitpid(p, &st, 0);
      strcpy(line, "other: ");
      logline("KILLED");
      break;
    }
  }
  errno = 0;
}
static int inside(const char *p) {
  char b[8192];
  char *q = strdup(p), *d = strdup(p);
  if (!realpath(q, b) && !realpath(dirname(d), b)) return 0;
  return !strncmp(b, root, strlen(root)) && (b[strlen(root)] == '/');
}
static int deadly(void) { return !strncmp(act, "kill", 4) || !strncmp(act, "int", 3) || !strncmp(act, "term", 4) || !strncmp(act, "hup", 3); }
// "killpart", "killbefore", "killafter" stand for every way to be ended
static int is(const char *a) {
  if (!strncmp(a, "kill", 4)) return deadly() && !strcmp(act + (act[0] == 'k' || act[0] == 't' ? 4 : 3), a + 4);
  return !strcmp(act, a);
}
static void put(const char *path, const char *b, size_t n, int mode) {
  int f = open(path, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, mode);
  if (f < 0) fail(strerror(errno), 1);
  for (size_t k = 0; k < n;) {
    ssize_t r = write(f, b + k, n - k);
    if (r < 0) fail(strerror(errno), 1);
    k += r;
  }
  close(f);
}
static void real(char **argv, int exit_code) {
  // what tar starts by itself is part of tar
  int own = !strcmp(name, "tar");
  static const char *dirs[] = {"/usr/bin", "/bin", "/usr/sbin", "/sbin"};
  pid_t p = exit_code < 0 ? 0 : fork();
  if (p == 0) {
    if (own) setenv("PATH", "/usr/bin:/bin", 1);
    for (unsigned i = 0; i < 4; i++) {
      char *q;
      if (asprintf(&q, "%s/%s", dirs[i], name) < 0) abort();
      execv(q, argv);
    }
    fail("command not found", 127);
  }
  int st;
  waitpid(p, &st, 0);
}

static void do_curl(int c, char **v) {
  char *url = NULL, *out = NULL, *fmt = NULL;
  int f = 0, O = 0, wget = !strcmp(name, "wget");
  f = wget;
  O = wget;
  for (int i = 1; i < c; i++) {
    if (!strncmp(v[i], "--", 2)) {
      if (!strcmp(v[i], "--fail") || !strcmp(v[i], "--fail-with-body")) f = 1;
      else if ((!strcmp(v[i], "--output") || !strcmp(v[i], "--output-document")) && i + 1 < c) out = v[++i];
      else if (!strncmp(v[i], "--output=", 9)) out = v[i] + 9;
      else if (!strncmp(v[i], "--output-document=", 18)) out = v[i] + 18;
      else if (!strcmp(v[i], "--write-out") && i + 1 < c) fmt = v[++i];
      else if (!strcmp(v[i], "--url") && i + 1 < c) url = v[++i];
      else if (!strcmp(v[i], "--remote-name")) O = 1;
      else if ((!strcmp(v[i], "--retry") || !strcmp(v[i], "--retry-delay") || !strcmp(v[i], "--max-time") || !strcmp(v[i], "--connect-timeout") || !strcmp(v[i], "--header") || !strcmp(v[i], "--proto") || !strcmp(v[i], "--user-agent")) && i + 1 < c) i++;
    } else if (v[i][0] == '-' && v[i][1]) {
      for (char *o = v[i] + 1; *o; o++) {
        if (*o == 'f') f = 1;
        else if (*o == 'O' && !wget) O = 1;
        else if (strchr(wget ? "OPtTU" : "oHmAXwCYyezEKbud", *o)) {
          char *val = o[1] ? o + 1 : i + 1 < c ? v[++i] : NULL;
          if (*o == (wget ? 'O' : 'o')) out = val;
          if (*o == 'w') fmt = val;
          break;
        }
      }
    } else url = v[i];
  }
  if (!url) fail("no URL specified", 2);
  if (O && !out) out = basename(strdup(url));
  if (out && !strcmp(out, "-")) out = NULL;
  size_t n = 0;
  char *b = NULL;
  int code = 200;
  if (strstr(url, "api.github.com")) b = slurp(at("api.json"), &n);
  else {
    // an asset is known by its URL
    char *list = slurp(at("assets"), NULL);
    for (char *l = strtok(list, "\n"); l; l = strtok(NULL, "\n")) {
      char *t = strchr(l, '\t');
      *t = 0;
      if (!strcmp(l, url)) b = slurp(at(t + 1), &n);
    }
  }
  if (!b || is("http")) {
    code = b ? atoi(arg) : 404;
    b = "<html><head><title>Error</title></head><body>something went wrong</body></html>\n";
    n = strlen(b);
    if (strstr(url, "api.github.com")) { b = "{\"message\": \"API rate limit exceeded\"}\n"; n = strlen(b); }
  }
  if (code >= 400 && f) { fprintf(stderr, "%s: (22) The requested URL returned error: %d\n", name, code); if (fmt) printf("%d", code), fflush(stdout); exit(wget ? 8 : 22); }
  int ret = 0;
  if (is("partial") || is("killpart") || is("cut")) {
    n = n * (unsigned)atoi(arg) / 1000;
    ret = is("cut") ? 0 : 18; // "cut": a middle box ends the transfer as if it were complete
  }
  if (is("empty")) n = 0;
  if (is("garbage")) {
    n = 1000 + atoi(arg);
    b = malloc(n);
    unsigned long x = 88172645463325252UL + n;
    for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = x; }
  }
  if (out) {
    if (!inside(out)) fail("(23) Failure writing output to destination", 23);
    put(out, b, n, 0666);
  } else if (write(1, b, n) != (ssize_t)n) exit(23);
  if (deadly() && is("killpart")) die_all();
  if (ret) fprintf(stderr, "curl: (18) transfer closed with outstanding read data remaining\n");
  for (char *p = fmt; p && *p; p++) {
    if (!strncmp(p, "%{http_code}", 12)) { printf("%d", code); p += 11; }
    else if (!strncmp(p, "%{response_code}", 16)) { printf("%d", code); p += 15; }
    else if (!strncmp(p, "\\n", 2)) { putchar('\n'); p++; }
    else putchar(*p);
  }
  fflush(stdout);
  if (is("after")) ret = atoi(arg);
  if (is("killafter")) die_all();
  exit(ret);
}
static void partial_copy(const char *src, const char *dst) {
  size_t n;
  char *b = slurp(src, &n);
  if (!b) fail(strerror(errno), 1);
  struct stat st;
  stat(src, &st);
  put(dst, b, n * (unsigned)atoi(arg) / 1000, 0600);
}
static void do_mv(int c, char **v, int copy) {
  char *a[64];
  int n = 0, t = 0, nt = 0;
  char *td = NULL;
  int inst = !strcmp(name, "install"), mode = inst ? 0755 : -1;
  for (int i = 1; i < c && n < 64; i++) {
    if (v[i][0] == '-' && v[i][1]) {
      if (inst && (!strcmp(v[i], "-d") || !strcmp(v[i], "--directory"))) return real(v, -1);
      if (inst && !strcmp(v[i], "-m") && i + 1 < c) { mode = strtol(v[++i], NULL, 8); continue; }
      if (inst && !strncmp(v[i], "-m", 2)) mode = strtol(v[i] + 2, NULL, 8);
      if (inst && !strncmp(v[i], "--mode=", 7)) mode = strtol(v[i] + 7, NULL, 8);
      if (!strcmp(v[i], "-T") || !strcmp(v[i], "--no-target-directory")) nt = 1;
      if (!strcmp(v[i], "-t") && i + 1 < c) { td = v[++i]; t = 1; }
    } else a[n++] = v[i];
  }
  if (t) a[n++] = td;
  if (n != 2) return real(v, -1); // several sources: leave it to the real one
  char *src = a[0], *dst = a[1];
  struct stat s, d;
  if (stat(src, &s)) { fprintf(stderr, "%s: cannot stat '%s': No such file or directory\n", name, src); exit(1); }
  if (!inside(src) || !inside(dst)) { logline("OUTSIDE"); fail("Permission denied", 1); }
  size_t l = strlen(dst);
  if (!stat(dst, &d) && S_ISDIR(d.st_mode) && !nt) {
    if (asprintf(&dst, "%s/%s", dst, basename(strdup(src))) < 0) abort();
  } else if (l && dst[l - 1] == '/') fail("cannot move: Not a directory", 1);
  // which file system is a path on? $SIM_ROOT/xdev lists the prefixes of other devices
  int cross = copy;
  char *x = slurp(at("xdev"), NULL), rs[8192], rd[8192];
  char *dd = dirname(strdup(dst));
  if (x && realpath(src, rs) && realpath(dd, rd))
    for (char *p = strtok(x, "\n"); p; p = strtok(NULL, "\n")) cross |= !strncmp(rs, p, strlen(p)) != !strncmp(rd, p, strlen(p));
  if (!cross || !S_ISREG(s.st_mode)) {
    // a rename happens or does not
    if (is("partial")) fail("cannot move: No space left on device", 1);
    if (is("killpart")) die_all();
    if (!S_ISREG(s.st_mode) && copy) real(v, -1);
    if (rename(src, dst)) fail(strerror(errno), 1);
  } else {
    if ((!copy || inst) && unlink(dst) && errno != ENOENT) fail("inter-device move failed", 1);
    if (is("partial")) { partial_copy(src, dst); fail("error writing: No space left on device", 1); }
    if (is("killpart")) { partial_copy(src, dst); die_all(); }
    size_t k;
    char *b = slurp(src, &k);
    put(dst, b, k, s.st_mode & 0777);
    if (!copy) chmod(dst, s.st_mode & 0777);
    if (inst) chmod(dst, mode);
    if (!copy) unlink(src);
  }
  if (is("killafter")) die_all();
  exit(is("after") ? atoi(arg) : 0);
}
int main(int c, char **v) {
  root = getenv("SIM_ROOT");
  name = basename(strdup(v[0]));
  if (!root) fail("no simulation", 99);
  size_t k = 0;
  for (int i = 0; i < c; i++) k += snprintf(line + k, k < sizeof line ? sizeof line - k : 0, "%s%s", i ? " " : "", i ? v[i] : name);
  for (char *p = line; *p; p++) if (*p == '\n' || *p == '\t') *p = ' ';
  int nest = !!getenv("SIM_NEST");
  // the name of the scratch directory does not matter
  size_t rl = strlen(root);
  for (char *p; (p = strstr(line, root));) { *p = '@'; memmove(p + 1, p + rl, strlen(p + rl) + 1); }
  if (nest) {
    memmove(line + 7, line, strlen(line) < sizeof line - 8 ? strlen(line) + 1 : sizeof line - 8);
    memcpy(line, "other: ", 7);
    line[sizeof line - 1] = 0;
  }
  int occ = nest ? 0 : count(line), nocc = nest ? 0 : count(name);
  char *plan = nest ? NULL : slurp(at("plan"), NULL);
  for (char *l = plan ? strtok(plan, "\n") : NULL; l; l = strtok(NULL, "\n")) {
    char key[8192], a[64], b[256];
    int n;
    if (sscanf(l, "%8191[^\t]\t%d\t%63[^\t]\t%255[^\n]", key, &n, a, b) != 4) continue;
    if ((!strcmp(key, line) && n == occ) || (!strcmp(key, name) && n == nocc)) { strcpy(act, a); strcpy(arg, b); break; }
  }
  logline(act[0] ? act : "-");
  if (nest && !strcmp(name, "sleep") && count("other sleep") > 20) {
    logline("KILLED");
    kill(0, SIGKILL);
  }
  if (is("otherbefore")) {
    other();
    act[0] = 0;
  }
  if (is("otherafter")) {
    act[0] = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p) {
      int st;
      waitpid(p, &st, 0);
      other();
      exit(WIFEXITED(st) ? WEXITSTATUS(st) : 1);
    }
  }
  if (is("before")) fail(strcmp(name, "curl") ? "Input/output error" : "(6) Could not resolve host", atoi(arg));
  if (is("killbefore")) die_all();
  if (is("absent")) fail("command not found", 127);
  if (!strcmp(name, "curl") || !strcmp(name, "wget")) do_curl(c, v);
  if (!strcmp(name, "mv")) do_mv(c, v, 0);
  if (!strcmp(name, "cp") || !strcmp(name, "install")) do_mv(c, v, 1);
  if (!strcmp(name, "sleep") || !strcmp(name, "sync")) {
    if (deadly()) die_all();
    exit(act[0] ? 1 : 0);
  }
  if (!strcmp(name, "mktemp")) {
    // fresh names, always the same ones
    int dir = 0;
    char *tmp = getenv("TMPDIR"), *t = NULL, *in = NULL, *suf = "";
    if (!tmp || !*tmp) tmp = "/tmp";
    for (int i = 1; i < c; i++) {
      if (!strcmp(v[i], "-d") || !strcmp(v[i], "--directory")) dir = 1;
      else if (!strcmp(v[i], "-p") && i + 1 < c) in = v[++i];
      else if (!strncmp(v[i], "--tmpdir=", 9)) in = v[i] + 9;
      else if (!strcmp(v[i], "--tmpdir") || !strcmp(v[i], "-t")) in = tmp;
      else if (!strncmp(v[i], "--suffix=", 9)) suf = v[i] + 9;
      else if (v[i][0] != '-') t = v[i];
    }
    if (!t) { t = "tmp.XXXXXXXXXX"; if (!in) in = tmp; }
    char *p;
    if (asprintf(&p, "%s%s%s%s", in ? in : "", in ? "/" : "", t, suf) < 0) abort();
    char *x = strstr(p, "XXX"), *e = x;
    if (!x) fail("too few X's in template", 1);
    while (*e == 'X') e++;
    for (int k = 0; k < 100000; k++) {
      char d[16];
      snprintf(d, 16, "%06d", k);
      int w = e - x, l = 6;
      for (int i = 0; i < w; i++) x[w - 1 - i] = i < l ? d[5 - i] : 'a';
      if (!inside(p)) fail("Permission denied", 1);
      int f = dir ? mkdir(p, 0700) : open(p, O_CREAT | O_EXCL | O_WRONLY, 0600);
      if (f >= 0) { puts(p); fflush(stdout); if (deadly()) die_all(); exit(act[0] ? 1 : 0); }
      if (errno != EEXIST) fail(strerror(errno), 1);
    }
    fail("no free name", 1);
  }
  if (!strcmp(name, "cat") && (is("partial") || is("killpart")) && c == 2) {
    size_t n;
    char *b = slurp(v[1], &n);
    if (!b) fail("No such file or directory", 1);
    n = n * (unsigned)atoi(arg) / 1000;
    for (size_t k = 0; k < n;) { ssize_t r = write(1, b + k, n - k); if (r < 0) exit(1); k += r; }
    if (deadly()) die_all();
    exit(1);
  }
  if (!strcmp(name, "uname")) {
    char *u = slurp(at(c > 1 && !strcmp(v[1], "-m") ? "uname.m" : "uname.s"), NULL);
    if (!is("garbage")) fputs(u, stdout);
    fflush(stdout);
    if (is("killafter") || is("killpart")) die_all();
    exit(is("after") || is("partial") ? atoi(arg) : 0);
  }
  if (!strcmp(name, "tar") && (is("partial") || is("killpart"))) {
    // unpacks some, then ends: the members come out in full, then the last one is cut short
    char *dir = ".";
    for (int i = 1; i < c; i++) if (!strcmp(v[i], "-O") || !strcmp(v[i], "--to-stdout")) dir = NULL;
    if (!dir) {
      size_t n;
      char *b = slurp(at("payload"), &n);
      if (write(1, b, n * (unsigned)atoi(arg) / 1000) < 0) exit(2);
      if (deadly()) die_all();
      exit(2);
    }
    for (int i = 1; i + 1 < c; i++) if (!strcmp(v[i], "-C") || !strcmp(v[i], "--directory")) dir = v[i + 1];
    if (!inside(dir)) fail("Cannot open: Permission denied", 2);
    size_t n;
    char *b = slurp(at("payload"), &n), *p;
    if (asprintf(&p, "%s/afmt", dir) < 0) abort();
    put(p, b, n * (unsigned)atoi(arg) / 1000, 0755);
    if (deadly()) die_all();
    fail("Cannot write: No space left on device", 2);
  }
  if (!strcmp(name, "rm") || !strcmp(name, "rmdir") || !strcmp(name, "unlink") || !strcmp(name, "chmod") || !strcmp(name, "ln") || !strcmp(name, "mkdir") || !strcmp(name, "touch") || !strcmp(name, "truncate")) {
    for (int i = 1; i < c; i++) {
      int mode = !strcmp(name, "chmod") && i == 1;
      if (v[i][0] == '-' || mode || inside(v[i])) continue;
      char *d = strdup(v[i]), b[8192];
      while (strlen(d) > 1 && !realpath(d, b)) d = dirname(d);
      if (strncmp(b, root, strlen(root))) { logline("OUTSIDE"); fail("Permission denied", 1); }
    }
  }
  // filters read all of their input first, so that no writer is ever cut off in the middle
  if (!strcmp(name, "head") && c > 1 && strncmp(v[c - 1], "/", 1)) {
    char *p = at("n/stdin.XXXXXX"), b[65536];
    int f = mkstemp(p);
    ssize_t r;
    while ((r = read(0, b, sizeof b)) > 0) if (write(f, b, r) != r) abort();
    lseek(f, 0, SEEK_SET);
    dup2(f, 0);
    unlink(p);
  }
  if (act[0]) {
    real(v, 0);
    if (deadly()) die_all();
    exit(atoi(arg) ? atoi(arg) : 1);
  }
  real(v, -1);
  return 0;
}
