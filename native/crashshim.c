/* LD_PRELOAD shim: watches what a process does to the files of a database, kills the process at the k-th
 * operation, or records the operations, so that the state of the disk at any crash can be rebuilt. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF = 0, KILL = 1, TORN = 2, RECORD = 3 };

static int mode = OFF;
static long target = 0, count = 0;
static char match[512];
static int log_fd = -1;

static ssize_t (*real_pwrite64)(int, const void *, size_t, off64_t);
static ssize_t (*real_pwrite)(int, const void *, size_t, off_t);
static ssize_t (*real_write)(int, const void *, size_t);
static int (*real_fsync)(int);
static int (*real_fdatasync)(int);
static int (*real_ftruncate)(int, off_t);
static int (*real_ftruncate64)(int, off64_t);
static int (*real_unlink)(const char *);
static int (*real_rename)(const char *, const char *);

#define RESOLVE(f) do { if (!real_##f) *(void **)&real_##f = dlsym(RTLD_NEXT, #f); } while (0)

void gbmon_arm(int m, long k, const char *substr, int fd) {
    mode = m;
    target = k;
    count = 0;
    strncpy(match, substr, sizeof(match) - 1);
    log_fd = fd;
}

long gbmon_count(void) { return count; }

static int path_of(int fd, char *buf, size_t n) {
    char link[64];
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    ssize_t r = readlink(link, buf, n - 1);
    if (r < 0) return 0;
    buf[r] = 0;
    return strstr(buf, match) != NULL;
}

static void put(const void *p, size_t n) {
    const char *c = p;
    RESOLVE(write);
    while (n > 0) {
        ssize_t r = real_write(log_fd, c, n);
        if (r <= 0) abort();
        c += r;
        n -= r;
    }
}

static void record(char op, const char *path, long long off, const void *data, long long len) {
    long long plen = strlen(path);
    put(&op, 1);
    put(&plen, 8);
    put(path, plen);
    put(&off, 8);
    put(&len, 8);
    if (data && len > 0) put(data, len);
}

/* a mark in the recorded log: operation i has returned */
void gbmon_mark(long long i) {
    if (mode == RECORD) record('M', "", i, NULL, 0);
}

/* returns 1 if the process has to die at this operation */
static int hit(void) {
    count++;
    return (mode == KILL || mode == TORN) && count == target;
}

static void die(void) {
    kill(getpid(), SIGKILL);
    for (;;) pause();
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
    char path[1024];
    RESOLVE(pwrite64);
    if (mode != OFF && path_of(fd, path, sizeof(path))) {
        if (hit()) {
            if (mode == TORN && n > 1) real_pwrite64(fd, buf, n / 2, off);
            die();
        }
        if (mode == RECORD) record('W', path, off, buf, n);
    }
    return real_pwrite64(fd, buf, n, off);
}

ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
    return pwrite64(fd, buf, n, off);
}

ssize_t write(int fd, const void *buf, size_t n) {
    char path[1024];
    RESOLVE(write);
    if (mode != OFF && fd != log_fd && path_of(fd, path, sizeof(path))) {
        off64_t off = lseek64(fd, 0, SEEK_CUR);
        if (hit()) {
            if (mode == TORN && n > 1) real_write(fd, buf, n / 2);
            die();
        }
        if (mode == RECORD) record('W', path, off, buf, n);
    }
    return real_write(fd, buf, n);
}

static void sync_event(int fd) {
    char path[1024];
    if (mode != OFF && path_of(fd, path, sizeof(path))) {
        if (hit()) die();
        if (mode == RECORD) record('S', path, 0, NULL, 0);
    }
}

int fsync(int fd) {
    RESOLVE(fsync);
    sync_event(fd);
    return real_fsync(fd);
}

int fdatasync(int fd) {
    RESOLVE(fdatasync);
    sync_event(fd);
    return real_fdatasync(fd);
}

int ftruncate64(int fd, off64_t n) {
    char path[1024];
    RESOLVE(ftruncate64);
    if (mode != OFF && path_of(fd, path, sizeof(path))) {
        if (hit()) die();
        if (mode == RECORD) record('T', path, n, NULL, 0);
    }
    return real_ftruncate64(fd, n);
}

int ftruncate(int fd, off_t n) {
    return ftruncate64(fd, n);
}

int unlink(const char *p) {
    RESOLVE(unlink);
    if (mode != OFF && strstr(p, match)) {
        if (hit()) die();
        if (mode == RECORD) record('U', p, 0, NULL, 0);
    }
    return real_unlink(p);
}

int rename(const char *a, const char *b) {
    RESOLVE(rename);
    if (mode != OFF && (strstr(a, match) || strstr(b, match))) {
        if (hit()) die();
        if (mode == RECORD) { record('R', a, 0, b, strlen(b)); }
    }
    return real_rename(a, b);
}
