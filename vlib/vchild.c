/* Scripted objective function program: does what the driver at the other end of a socket says.
 * As long as the process lives the socket is open, so that the driver sees its death as an end of file. */
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/un.h>
#include <unistd.h>

static int sock = -1;

static void put(const void *p, size_t n) {
    const char *c = p;
    while (n) {
        ssize_t k = send(sock, c, n, MSG_NOSIGNAL);
        if (k < 0) {
            if (errno == EINTR) continue;
            _exit(97);
        }
        c += k;
        n -= k;
    }
}

static void get(void *p, size_t n) {
    char *c = p;
    while (n) {
        ssize_t k = recv(sock, c, n, 0);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) _exit(99); /* the driver is gone */
        c += k;
        n -= k;
    }
}

static void num(uint32_t x) { put(&x, 4); }

static void hello(int role, int argc, char **argv) {
    struct sockaddr_un a = {.sun_family = AF_UNIX};
    const char *path = getenv("VCHILD_SOCK");
    if (!path || strlen(path) >= sizeof a.sun_path) _exit(96);
    strcpy(a.sun_path, path);
    sock = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    while (connect(sock, (struct sockaddr *)&a, sizeof a)) {
        if (errno != EINTR && errno != EAGAIN) _exit(95);
    }
    num(role);
    num(getpid());
    num(getpgrp());
    num(argc);
    for (int i = 0; i < argc; i++) {
        num(strlen(argv[i]));
        put(argv[i], strlen(argv[i]));
    }
}

static void write_all(int fd, const char *p, size_t n) {
    while (n) {
        ssize_t k = write(fd, p, n);
        if (k < 0) {
            if (errno == EINTR) continue;
            return;
        }
        p += k;
        n -= k;
    }
}

static void ignore(void) {
    int s[] = {SIGTERM, SIGINT, SIGHUP, SIGQUIT, SIGUSR1, SIGUSR2, SIGALRM};
    for (unsigned i = 0; i < sizeof s / sizeof *s; i++) signal(s[i], SIG_IGN);
}

int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    signal(SIGCHLD, SIG_IGN);
    hello(0, argc, argv);
    for (;;) {
        char op;
        uint32_t n;
        get(&op, 1);
        get(&n, 4);
        unsigned char *d = malloc(n + 1);
        get(d, n);
        switch (op) {
        case 'o': write_all(1, (char *)d, n); break;
        case 'e': write_all(2, (char *)d, n); break;
        case 'b': { /* fd, count, pattern: that many bytes */
            uint32_t count, pat = n - 5;
            static char buf[60060]; /* whole patterns of 1 to 7 bytes */
            for (unsigned i = 0; i < sizeof buf; i++) buf[i] = d[5 + i % pat];
            memcpy(&count, d + 1, 4);
            while (count) {
                uint32_t k = count < sizeof buf ? count : sizeof buf;
                write_all(d[0], buf, k);
                count -= k;
            }
            break;
        }
        case 'c': close(d[0]); break;
        case 'i': ignore(); break;
        case 'x': _exit(d[0]);
        case 's': signal(d[0], SIG_DFL); raise(d[0]); pause(); break;
        case 'f': { /* flags: 1 close stdio, 2 ignore signals */
            pid_t p = fork();
            if (p == 0) {
                close(sock);
                if (d[0] & 1) {
                    close(0);
                    close(1);
                    close(2);
                }
                if (d[0] & 2) ignore();
                hello(1, argc, argv);
            }
            break;
        }
        default: _exit(94);
        }
        free(d);
        put("k", 1);
    }
}
