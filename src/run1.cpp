// run1 SEED[,r0,r1,...] ARGS... : one msolve run with the explorer's rand()
#include "run.hpp"
int main(int argc, char **argv) {
    char *e; g_rand.state = strtoull(argv[1], &e, 10) * 6364136223846793005ull + 1442695040888963407ull;
    while (*e == ',') g_rand.script.push_back(strtol(e + 1, &e, 10));
    argv[1] = (char *)"msolve";
    return msolve_main(argc - 1, argv + 1);
}
