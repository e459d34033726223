/* helpers for executable-contract programs: prog SEED SECONDS */
#ifndef VN_H
#define VN_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <stdarg.h>
#include <execinfo.h>
static uint64_t vn_state = 88172645463325252ull;
static double vn_t0, vn_budget = 10;
static unsigned long vn_evals, vn_nontriv;
static char vn_case[8192];          /* description of the case being run: printed if the process dies */
static char vn_samples[3][600]; static int vn_nsamples;
static double vn_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t vn_rand(void) { uint64_t z = (vn_state += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static unsigned vn_r(unsigned n) { return n ? (unsigned)(vn_rand() % n) : 0; }
static int vn_more(double frac) { return vn_now() - vn_t0 < vn_budget * frac; }
static void vn_esc(char *dst, size_t cap, const void *src, size_t n) {
	const unsigned char *s = src; size_t o = 0, i;
	for (i = 0; i < n && o + 6 < cap; i++) {
		if (s[i] >= 32 && s[i] < 127 && s[i] != '"' && s[i] != '\\') dst[o++] = s[i];
		else o += sprintf(dst + o, "\\x%02x", s[i]);
	}
	dst[o] = 0;
}
static const char *vn_q(const void *src, size_t n) { static char b[8][2048]; static int k; k = (k + 1) & 7; vn_esc(b[k], sizeof(b[k]), src, n); return b[k]; }
static void vn_setcase(const char *fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(vn_case, sizeof(vn_case), fmt, a); va_end(a); }
static void vn_sample(const char *fmt, ...) { if (vn_nsamples < 3) { va_list a; va_start(a, fmt); vsnprintf(vn_samples[vn_nsamples++], 600, fmt, a); va_end(a); } }
static void vn_fail(const char *fmt, ...) {
	va_list a; va_start(a, fmt);
	printf("FAILING INPUT: "); vprintf(fmt, a); va_end(a);
	printf("\ncase: %s\n", vn_case); fflush(stdout);
	_exit(1);
}
static void vn_die(int sig) { /* abort()/assertion inside the code under test */
	char b[64]; int n = snprintf(b, sizeof(b), "FAILING INPUT (signal %d): ", sig);
	if (write(1, b, n) < 0) {}
	if (write(1, vn_case, strlen(vn_case)) < 0) {}
	if (write(1, "\n", 1) < 0) {}
	_exit(1);
}
extern void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static void vn_asan(void) { printf("FAILING INPUT (sanitizer report): %s\n", vn_case); fflush(stdout); }
static unsigned vn_last_evals_alarm; 
static void vn_alarm(int s) { /* watchdog: one case running for very long */
	static unsigned long last = ~0ul;
	if (last == vn_evals) { printf("FAILING INPUT (no progress, does not terminate): %s\n", vn_case); fflush(stdout); _exit(1); }
	last = vn_evals; alarm(60); (void) s;
}
static void vn_init(int argc, char **argv) {
	vn_t0 = vn_now();
	if (argc > 1) vn_state ^= strtoull(argv[1], 0, 10) * 0x2545F4914F6CDD1Dull;
	if (argc > 2) vn_budget = atof(argv[2]);
	signal(SIGABRT, vn_die); signal(SIGSEGV, vn_die); signal(SIGFPE, vn_die); signal(SIGTRAP, vn_die); signal(SIGALRM, vn_alarm); alarm(60);
	signal(SIGPIPE, SIG_IGN);
	if (__asan_set_death_callback) __asan_set_death_callback(vn_asan);
}
static int vn_done(const char *rule) {
	char e[1400]; int i;
	printf("VPSTAT {\"evaluations\": %lu, \"distinct_nontrivial\": %lu, \"rule\": \"%s\", \"samples\": [", vn_evals, vn_nontriv, rule);
	for (i = 0; i < vn_nsamples; i++) { size_t o = 0; const char *s = vn_samples[i]; for (; *s && o + 3 < sizeof(e); s++) { if (*s == '"' || *s == '\\') e[o++] = '\\'; e[o++] = ((unsigned char)*s < 32 || (unsigned char)*s > 126) ? '?' : *s; } e[o] = 0; printf("%s\"%s\"", i ? ", " : "", e); }
	printf("]}\n");
	fflush(stdout);
	_exit(0);
}
#ifdef VN_NOLOG /* linked with --wrap=li_log_write: log output is not part of any property */
int __wrap_li_log_write(void) { return 1; }
void __wrap_li_log_split_lines(void) { }
void __wrap_li_log_split_lines_(void) { }
#endif
#endif
