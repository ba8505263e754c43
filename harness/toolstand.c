/* Stand-in for the tools a build runs, where it matters which of them is run (G16). Every run appends a line to $VLOG:
     <hex of wrappers and own name, joined by blanks> <hex arg>...
   A name with "wrapper" in it runs the command in its arguments; any other writes what the real tool would. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
static char buf[1 << 20]; static size_t bl;
static void hex(const char *s) { if (!*s) buf[bl++] = '-'; for (; *s && bl + 4 < sizeof buf; s++) bl += sprintf(buf + bl, "%02x", (unsigned char)*s); buf[bl++] = ' '; }
static void put(const char *p) { unlink(p); int f = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0755); if (f < 0) { perror(p); exit(1); } if (write(f, "x\n", 2) < 0) exit(1); close(f); }
int main(int argc, char **argv) {
  char *me = strrchr(argv[0], '/'); me = me ? me + 1 : argv[0];
  char names[4096]; const char *w = getenv("VWRAP"); snprintf(names, sizeof names, "%s%s%s", w ? w : "", w ? " " : "", me);
  if (strstr(me, "wrapper")) { if (argc < 2) return 2; setenv("VWRAP", names, 1); execvp(argv[1], argv + 1); perror(argv[1]); return 127; }
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "-E")) { printf("#define __linux__ 1\n"); return 0; }
  hex(names); for (int i = 1; i < argc; i++) hex(argv[i]); buf[bl - 1] = '\n';
  const char *l = getenv("VLOG"); if (l) { int f = open(l, O_WRONLY | O_APPEND | O_CREAT, 0644); if (f >= 0) { if (write(f, buf, bl) < 0) return 9; close(f); } }
  int out = 0;
  for (int i = 1; i + 1 < argc; i++) { if (!strcmp(argv[i], "-o")) { put(argv[i + 1]); out = 1; } if (!strcmp(argv[i], "-MF")) { int f = open(argv[i + 1], O_WRONLY | O_CREAT | O_TRUNC, 0644); if (f < 0) { perror(argv[i + 1]); return 1; } if (write(f, "x.o:\n", 5) < 0) return 9; close(f); } }
  if (!out && argc > 2 && (!strncmp(argv[1], "crs", 3) || !strncmp(argv[1], "rcs", 3))) put(argv[2]);
  else if (!out) printf(" SONAME %s\n", argc > 1 ? argv[argc - 1] : "");
  return 0; }
