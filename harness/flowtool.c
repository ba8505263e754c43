/* Stand-in for cc, g++ and ar in histories of commands: what they write says what it was made from.
   An object is one line "U <source> <its version> <version of h.h or -> <defines F_... sorted, joined by commas>"; archives and
   programs are the lines of what they were made from, sorted. Each compile appends a line to $VLOG. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int cmp(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static char *defs[512], *lines[4096], *ins[512]; static int nd, nl, ni;
static char *dup_line(FILE *f) { char b[8192]; if (!fgets(b, sizeof b, f)) return 0; b[strcspn(b, "\n")] = 0; return strdup(b); }
int main(int argc, char **argv) {
  char *me = strrchr(argv[0], '/'), *out = 0, *mf = 0, *src = 0, *l; int c = 0, i; FILE *f;
  me = me ? me + 1 : argv[0];
  for (i = 1; i < argc; i++) if (!strcmp(argv[i], "-E")) { printf("#define __linux__ 1\n"); return 0; }
  if (!strcmp(me, "ar")) { out = argv[2]; for (i = 3; i < argc; i++) {
    if (argv[i][0] != '@') { ins[ni++] = argv[i]; continue; }
    if (!(f = fopen(argv[i] + 1, "r"))) return 1;
    char w[4096]; while (fscanf(f, "%4095s", w) == 1 && ni < 500) ins[ni++] = strdup(w); fclose(f); } }
  else for (i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "-c")) c = 1;
    else if (!strcmp(argv[i], "-o") && i + 1 < argc) out = argv[++i];
    else if (!strcmp(argv[i], "-MF") && i + 1 < argc) mf = argv[++i];
    else if (!strncmp(argv[i], "-DF_", 4)) defs[nd++] = argv[i] + 2;
    else if (argv[i][0] != '-' && ni < 500) ins[ni++] = argv[i];
  }
  if (!out || !ni) return 2;
  if (c) {
    char ver[256] = "-", hv[256] = "-", hdr[4096] = ""; char *base, *sl;
    src = ins[0]; if (!(f = fopen(src, "r"))) { fprintf(stderr, "cannot read %s\n", src); return 1; }
    while ((l = dup_line(f))) {
      if (!strcmp(l, "error")) { fprintf(stderr, "%s: error\n", src); return 1; }
      if (!strncmp(l, "// v", 4)) snprintf(ver, sizeof ver, "%s", l + 4);
      if (!strncmp(l, "#include \"h.h\"", 14)) {
        snprintf(hdr, sizeof hdr, "%s", src); sl = strrchr(hdr, '/'); strcpy(sl ? sl + 1 : hdr, "h.h");
        FILE *h = fopen(hdr, "r"); char *x; if (!h) { fprintf(stderr, "cannot read %s\n", hdr); return 1; }
        x = dup_line(h); if (x && !strncmp(x, "// v", 4)) snprintf(hv, sizeof hv, "%s", x + 4); fclose(h);
      }
    }
    fclose(f);
    if (getenv("VLOG") && (f = fopen(getenv("VLOG"), "a"))) { fprintf(f, "%s\n", src); fclose(f); }
    qsort(defs, nd, sizeof *defs, cmp);
    base = strrchr(src, '/'); base = base ? base + 1 : src;
    if (!(f = fopen(out, "w"))) return 1;
    fprintf(f, "U %s %s %s ", base, ver, hv); for (i = 0; i < nd; i++) fprintf(f, "%s%s", i ? "," : "", defs[i]); fprintf(f, "\n"); fclose(f);
    if (mf && (f = fopen(mf, "w"))) { fprintf(f, "%s: %s %s\n", out, src, hdr); fclose(f); }
    return 0;
  }
  for (i = 0; i < ni; i++) { if (!(f = fopen(ins[i], "r"))) { fprintf(stderr, "cannot read %s\n", ins[i]); return 1; } while ((l = dup_line(f)) && nl < 4000) if (l[0] == 'U') lines[nl++] = l; fclose(f); }
  qsort(lines, nl, sizeof *lines, cmp);
  unlink(out); if (!(f = fopen(out, "w"))) return 1;
  for (i = 0; i < nl; i++) fprintf(f, "%s\n", lines[i]);
  fclose(f); return 0;
}
