/* vauto LOG ... JSON SEED: an objective function program that needs no guidance. Appends its last two arguments and
 * the number of arguments to LOG in one write, and answers with a value that is a function of the seed. */
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int main(int argc, char **argv) {
    if (argc < 4) return 9;
    const char *json = argv[argc - 2], *seed = argv[argc - 1];
    size_t n = strlen(json) + strlen(seed) + 64;
    char *line = malloc(n);
    int k = snprintf(line, n, "%d\t%s\t%s\n", argc, seed, json);
    int fd = open(argv[1], O_WRONLY | O_APPEND | O_CREAT, 0666);
    if (fd < 0 || write(fd, line, k) != k) return 8;
    uint64_t s = strtoull(seed, NULL, 10), h = s * 0x9E3779B97F4A7C15u;
    if (s % 7 == 6) printf("{}\n");
    else printf("{\"objFuncVal\": %s%llu.25}\n", s % 2 ? "-" : "", (unsigned long long)(h >> 44));
    return 0;
}
