/* On SIGRTMIN+3 writes the number of bytes allocated now to the file named
   by VERIF_HEAPSTAT, on SIGRTMIN+4 the open descriptors to that name + ".fd";
   does nothing without that variable. */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static int fd = -1, fd2 = -1;

static void list(int sig)
{
    char path[32] = "/proc/self/fd/", to[300];
    int i, n, k, d;
    for (i = 0; i < 4096; i++) {
        if (i == fd || i == fd2 || fcntl(i, F_GETFD) < 0)
            continue;
        k = 14;
        for (d = 1000; d; d /= 10)
            if (i >= d || d == 1)
                path[k++] = '0' + i / d % 10;
        path[k] = 0;
        n = readlink(path, to, sizeof to - 1);
        if (n < 0) {
            memcpy(to, "?", 1);
            n = 1;
        }
        to[n++] = '\n';
        if (write(fd2, to, n) < 0)
            return;
    }
    if (write(fd2, ".\n", 2) < 0)
        return;
}

static void report(int sig)
{
    char buf[24];
    int i = sizeof buf;
    size_t n = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
    buf[--i] = '\n';
    do {
        buf[--i] = '0' + n % 10;
        n /= 10;
    } while (n);
    if (write(fd, buf + i, sizeof buf - i) < 0)
        return;
}

__attribute__((constructor)) static void setup(void)
{
    const char *path = getenv("VERIF_HEAPSTAT");
    struct sigaction sa;
    char path2[500];
    if (!path)
        return;
    snprintf(path2, sizeof path2, "%s.fd", path);
    fd2 = open(path2, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    fd = open(path, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = report;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGRTMIN + 3, &sa, NULL);
    sa.sa_handler = list;
    sigaction(SIGRTMIN + 4, &sa, NULL);
}
