/* Trees of processes forked from single-threaded parents, threads inside them, exec, output left in buffers. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
static uint64_t s;
static uint64_t rnd(void) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
enum { N = 300 };
static char *b[N];
static size_t z[N];
static void bad(const char *w) { printf("WRONG %s\n", w); fflush(stdout); _exit(9); }
static void churn(int n) {
    for(int i = 0; i < n; i++) {
        int k = rnd() % N;
        if(b[k]) { for(size_t o = 0; o < z[k]; o++) if(b[k][o] != (char) (k + z[k])) bad("contents"); free(b[k]); b[k] = NULL; }
        if(rnd() % 3) { z[k] = rnd() % 8 ? rnd() % 3000 : rnd() % 200000; b[k] = malloc(z[k]); memset(b[k], k + z[k], z[k]); }
    }
}
static void *th(void *a) {
    uint64_t x = (uintptr_t) a + 1, h = 0;
    char *v[50] = {0};
    for(int i = 0; i < 3000; i++) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        int k = x % 50;
        free(v[k]);
        size_t n = x >> 20 & 4095;
        v[k] = malloc(n + 1);
        memset(v[k], k, n + 1);
        h += v[k][n];
    }
    for(int i = 0; i < 50; i++) free(v[i]);
    return (void *) (uintptr_t) h;
}
static int tree(int depth) {
    churn(2000);
    int sum = rnd() % 10;
    for(int i = 0; i < 3 && depth; i++) {
        int p[2];
        if(pipe(p)) bad("pipe");
        pid_t c = fork();
        if(c == 0) {
            close(p[0]);
            s += i * 77 + 1;
            int r = tree(depth - 1);
            if(depth == 1) { /* threads at the leaves */
                pthread_t t[4];
                void *x;
                for(long k = 0; k < 4; k++) pthread_create(&t[k], NULL, th, (void *) (k + i));
                for(int k = 0; k < 4; k++) { pthread_join(t[k], &x); r += (uintptr_t) x % 7; }
            }
            FILE *f = fdopen(p[1], "w");
            fprintf(f, "%d %0*d\n", r, 3000, 0); /* flushed by exit */
            if(i == 1) { fflush(f); _exit(0); }
            exit(r & 31);
        }
        close(p[1]);
        churn(500);
        FILE *f = fdopen(p[0], "r");
        int r = -1, st, zero;
        if(fscanf(f, "%d %d", &r, &zero) != 2) bad("no answer from a child");
        fclose(f);
        waitpid(c, &st, 0);
        if(!WIFEXITED(st) || (i != 1 && WEXITSTATUS(st) != (r & 31))) bad("a child ended badly");
        sum += r;
    }
    churn(500);
    return sum;
}
int main(int argc, char **argv) {
    s = strtoull(argv[1], NULL, 10) * 2654435761u + 88172645463325252ull;
    setvbuf(stdout, NULL, _IOFBF, 70000);
    printf("buffered before the forks\n");
    fflush(stdout);
    printf("sum %d\n", tree(atoi(argv[2])));
    fflush(stdout);
    pid_t c = fork();
    if(c == 0) { churn(100); execlp("sh", "sh", "-c", "echo executed; ls / | wc -l | tr -d 0-9; exit 3", NULL); _exit(9); }
    int st;
    waitpid(c, &st, 0);
    printf("exec %d\n", st);
    fflush(stdout);
    c = vfork();
    if(c == 0) { execlp("true", "true", NULL); _exit(9); }
    waitpid(c, &st, 0);
    printf("vfork %d %d\n", st, system("exit 5"));
    return 7;
}
