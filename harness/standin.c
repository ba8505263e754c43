/* Stand-in for compiler, linker, archiver, action programs and small tools. The program name decides the role.
   Every run appends a start line and an end line to $VLOG:
     S <id> <role> <hex cwd> <hex arg>...          E <id> <exit code> r:<hex file read>... w:<hex file written>...
   What it writes depends on all arguments and on the content of everything it reads. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdint.h>
#include <time.h>
#include <errno.h>
#include <sys/stat.h>
#include <signal.h>
static uint64_t h = 1469598103934665603ULL;
static void mix(const void *p, size_t n) { const unsigned char *c = p; while (n--) { h ^= *c++; h *= 1099511628211ULL; } h ^= 0xff; h *= 1099511628211ULL; }
static char buf[1 << 20]; static size_t bl;
static void put(const char *s) { size_t n = strlen(s); if (bl + n + 2 < sizeof buf) { memcpy(buf + bl, s, n); bl += n; } }
static void puthex(const char *s) { static const char d[] = "0123456789abcdef"; if (!*s) put("-"); for (; *s && bl + 4 < sizeof buf; s++) { buf[bl++] = d[(unsigned char)*s >> 4]; buf[bl++] = d[*s & 15]; } }
static void flushlog(void) { const char *l = getenv("VLOG"); buf[bl++] = '\n'; if (l) { int f = open(l, O_WRONLY | O_APPEND | O_CREAT, 0644); if (f >= 0) { if (write(f, buf, bl) < 0) {} close(f); } } bl = 0; }
static char *args[8192]; static int na;
static char *reads[4096]; static int nr;
static char *writes[256]; static int nw;
static int missing;
static char *slurp(const char *p, size_t *n) {
  int f = open(p, O_RDONLY); struct stat st; if (f < 0) return 0; if (fstat(f, &st) || !S_ISREG(st.st_mode)) { close(f); return 0; }
  char *b = malloc(st.st_size + 1); ssize_t k = read(f, b, st.st_size); close(f); if (k < 0) k = 0; b[k] = 0; *n = k; return b; }
static void addargs(int depth, char *a, int sub) {
  if (a[0] == '@' && depth < 3) { size_t n; char *b = slurp(a + 1, &n); if (b) { char *t, *sv = 0; for (t = strtok_r(b, " \t\n", &sv); t; t = strtok_r(0, " \t\n", &sv)) addargs(depth + 1, t, 1); return; } }
  if (na < 8000) args[na++] = a; (void)sub; }
static int readfile(char *p) { size_t n; for (int i = 0; i < nr; i++) if (!strcmp(reads[i], p)) return 1; char *b = slurp(p, &n); if (!b) return 0; reads[nr++] = p; mix(b, n); free(b); return 1; }
static char *incs[256]; static int ni;
static void scan(char *p) {
  size_t n; for (int i = 0; i < nr; i++) if (!strcmp(reads[i], p)) return;
  char *b = slurp(p, &n); if (!b) { fprintf(stderr, "stand-in: cannot read %s\n", p); missing = 1; return; }
  reads[nr++] = p; mix(b, n);
  char *s = b; while (s && *s) { char *e = strchr(s, '\n'); if (!strncmp(s, "#include \"", 10)) { char *q = strchr(s + 10, '"'); if (q && (!e || q < e)) {
      char nm[1024]; size_t k = q - s - 10; memcpy(nm, s + 10, k); nm[k] = 0; char *dir = strdup(p); char *sl = strrchr(dir, '/'); char *c; int ok = 0;
      if (sl) { *sl = 0; if (asprintf(&c, "%s/%s", dir, nm) < 0) exit(9); } else c = strdup(nm);
      if (access(c, R_OK) == 0) { scan(c); ok = 1; }
      for (int i = 0; i < ni && !ok; i++) { if (asprintf(&c, "%s/%s", incs[i], nm) < 0) exit(9); if (access(c, R_OK) == 0) { scan(c); ok = 1; } }
      if (!ok) { fprintf(stderr, "stand-in: %s: cannot find %s\n", p, nm); missing = 1; } } }
    s = e ? e + 1 : 0; } }
/* a builder that is interrupted removes what its commands were writing, at once: a file that only then comes into being would stay */
static const char *volatile opening;
static void on_int(int sig) { if (opening) unlink(opening); signal(sig, SIG_DFL); raise(sig); }
static void emit(char *out, const char *tag) { char t[64]; unlink(out); opening = out; int f = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0755); opening = NULL; if (f < 0) { fprintf(stderr, "stand-in: cannot write %s: %s\n", out, strerror(errno)); missing = 1; return; }
  int n = snprintf(t, sizeof t, "%s %016llx\n", tag, (unsigned long long)h); if (write(f, t, n) < 0) missing = 1; close(f); writes[nw++] = out; }
static void jitter(void) { const char *j = getenv("VJIT"); if (j && *j) { unsigned long s = strtoul(j, 0, 10); uint64_t x = h ^ (s * 0x9E3779B97F4A7C15ULL); x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32; usleep((x % 12) * 1000); } }
int main(int argc, char **argv) { if (signal(SIGINT, on_int) == SIG_IGN) signal(SIGINT, SIG_IGN);
  char *me = strrchr(argv[0], '/'); me = me ? me + 1 : argv[0];
  const char *full = me; if (me[0] == 'h') me++;      /* hcc, hcxx, har: the tools of the host toolset */
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return 9;
  if (!strcmp(me, "nm") || !strcmp(me, "readelf")) { size_t n; char *b = slurp(argv[argc - 1], &n); if (!b) return 1; if (me[0] == 'r') printf(" SONAME %s\n", argv[argc - 1]); else printf("%s", b); return 0; }
  if (me[0] == 'c') for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "-E")) { printf("#define __linux__ 1\n"); return 0; }
  for (int i = 1; i < argc; i++) { if (me[0] == 'l' || me[0] == 't') args[na++] = argv[i]; else addargs(0, argv[i], 0); }
  char id[64]; struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); snprintf(id, sizeof id, "%d.%ld", getpid(), ts.tv_nsec);
  put("S "); put(id); put(" "); put(full); put(" "); puthex(cwd); for (int i = 0; i < na; i++) { put(" "); puthex(args[i]); } flushlog();
  for (int i = 0; i < na; i++) mix(args[i], strlen(args[i]));
  mix(me, strlen(me));
  int rc = 0;
  if (!strcmp(me, "ln")) {          /* the copy step: ln -f FROM TO */
    pid_t p = fork(); if (!p) { argv[0] = "/bin/ln"; execv("/bin/ln", argv); _exit(127); } int st = 0; extern pid_t waitpid(pid_t, int *, int); waitpid(p, &st, 0); rc = (st >> 8) & 255; if (argc > 2) { reads[nr++] = argv[argc - 2]; writes[nw++] = argv[argc - 1]; }
  } else if (!strcmp(me, "tool") || !strcmp(me, "tool2")) {   /* --in FILE, --out FILE, anything else is a literal */
    char *outs[64]; int no = 0; jitter();
    for (int i = 0; i + 1 < na; i++) { if (!strcmp(args[i], "--in")) { if (!readfile(args[++i])) { fprintf(stderr, "tool: cannot read %s\n", args[i]); missing = 1; } } else if (!strcmp(args[i], "--out")) outs[no++] = args[++i]; }
    if (!missing) for (int i = 0; i < no; i++) { mix("o", 1); emit(outs[i], "// tool"); }
    rc = missing;
  } else if (!strcmp(me, "ar")) { jitter(); for (int i = 2; i < na; i++) if (!readfile(args[i])) { fprintf(stderr, "ar: cannot read %s\n", args[i]); missing = 1; } if (!missing && na > 1) emit(args[1], "AR"); rc = missing; }
  else {
    int c = 0; char *out = 0, *mf = 0, *src = 0; 
    for (int i = 0; i < na; i++) if (!strcmp(args[i], "-c")) c = 1;
    jitter();
    for (int i = 0; i < na; i++) { char *a = args[i]; if (!strcmp(a, "-o") && i + 1 < na) out = args[++i]; else if (!strcmp(a, "-MF") && i + 1 < na) mf = args[++i]; else if (!strncmp(a, "-I", 2) && ni < 250) incs[ni++] = a + 2; }
    for (int i = 0; i < na; i++) { char *a = args[i]; if (!strcmp(a, "-o") || !strcmp(a, "-MF")) { i++; continue; } if (a[0] == '-' || !*a) continue;
      if (c) { if (!src) { size_t k = strlen(a); src = a; if (k > 2 && !strcmp(a + k - 2, ".s")) { if (!readfile(a)) missing = 1; } /* .s is not preprocessed */ else scan(a); } } else if (strchr(a, '/') || strchr(a, '.')) { if (!readfile(a)) { fprintf(stderr, "link: cannot read %s\n", a); missing = 1; } } }
    if (!missing && out) { emit(out, c ? "OBJ" : "BIN");
      if (mf && c) { FILE *f = fopen(mf, "w"); if (f) { int col = fprintf(f, "%s:", out); for (int i = 0; i < nr; i++) { if (col + strlen(reads[i]) > 74) { fprintf(f, " \\\n"); col = 0; } col += fprintf(f, " %s", reads[i]); } fprintf(f, "\n"); fclose(f); } } }
    rc = missing; }
  put("E "); put(id); { char t[16]; snprintf(t, sizeof t, " %d", rc); put(t); }
  for (int i = 0; i < nr; i++) { put(" r:"); puthex(reads[i]); } for (int i = 0; i < nw; i++) { put(" w:"); puthex(writes[i]); } flushlog();
  return rc; }
