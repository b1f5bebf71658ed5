// vsched's interface without a scheduler, for long sequential runs at full speed (harnesses whose names start with p_).
#pragma once
#include "vsched.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
static FILE *pl_out;
extern "C" {
int vs_self() { return 0; }
void vs_point() {}
void vs_log(const char *f, ...) { va_list a; va_start(a, f); vfprintf(pl_out, f, a); va_end(a); fputc('\n', pl_out); }
void vs_op(const char *) {}
void vs_spawn(void (*fn)(void *), void *arg) { fn(arg); }
int vs_wait_quiescent() { vs_log("q"); return 0; }
void vs_gate() {}
void vs_gate_open(int) {}
void vs_finish() { fflush(pl_out); _exit(0); }
void vs_opt(const char *, long) {}
int vs_heap_check() { return 0; }
}
static std::string pl_run(const char *script)
{
    int fd[2]; if (pipe(fd)) abort();
    fflush(stdout);
    pid_t p = fork();
    if (!p) { close(fd[0]); pl_out = fdopen(fd[1], "w"); alarm(300); scenario(script); fflush(pl_out); _exit(0); }
    close(fd[1]);
    std::string s; char b[65536]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, n);
    close(fd[0]);
    int st; waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) s += WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "livelock\n" : "crash\n";
    return s;
}
int main(int c, char **v)
{
    if (c > 3 && !strcmp(v[1], "--replay")) { fputs(pl_run(v[3]).c_str(), stdout); return 0; }
    if (c < 3) return 2;
    FILE *f = fopen(v[1], "r"), *o = fopen(v[2], "w");
    if (!f || !o) return 2;
    static char line[1 << 20];
    while (fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        int id, pos = 0; double x;
        if (sscanf(line, "%d %lf %lf %lf %lf %lf %lf %n", &id, &x, &x, &x, &x, &x, &x, &pos) < 7) return 2;
        auto t = std::chrono::steady_clock::now();
        std::string h = pl_run(line + pos);
        double w = std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
        fprintf(o, "H %d 0 -\n%s.\nE %d 1 1 0 0 0 0 %.3f\n", id, h.c_str(), id, w);
    }
    return fclose(o) ? 2 : 0;
}
