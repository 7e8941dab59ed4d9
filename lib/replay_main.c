/* native side of vf.h: feeds the values of a solver counterexample to the harness */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vf.h"
static FILE *in;
long vf_in(const char *tag)
{
    char name[128]; long v;
    if (!in || fscanf(in, "%127s %ld", name, &v) != 2) {
        fprintf(stderr, "REPLAY: no more inputs at '%s'\n", tag);
        return 0;
    }
    if (strcmp(name, tag) != 0) {
        fprintf(stderr, "REPLAY: expected input '%s', file has '%s'\n", tag, name);
        _exit(77);
    }
    return v;
}
void vf_fail(const char *msg) { fprintf(stderr, "REPLAY: assertion fails on the real code: %s\n", msg); fflush(NULL); _exit(42); }
void vf_infeasible(void) { fprintf(stderr, "REPLAY: assumption not met\n"); _exit(77); }
void vf_stop(void) { _exit(0); }
int main(int argc, char **argv)
{
    if (argc > 1 && !(in = fopen(argv[1], "r"))) { perror(argv[1]); return 77; }
    vf_main();
    fprintf(stderr, "REPLAY: property held on this run\n");
    _exit(0);
}
