/* Starting slugs spends 25 ms on clearing CUDD's initial tables, which are sized for 3 GB of memory. When VP_CACHE is
 * set, the computed table and the memory target start small (both still grow as CUDD sees fit). Resource limits keep a
 * runaway process (and only this process) in check. Nothing else changes. */
#include <stdlib.h>
#include <sys/resource.h>
void *__real_Cudd_Init(unsigned a, unsigned b, unsigned slots, unsigned cache, size_t mem);
void *__wrap_Cudd_Init(unsigned a, unsigned b, unsigned slots, unsigned cache, size_t mem) {
	const char *e = getenv("VP_CACHE");
	if (!e) return __real_Cudd_Init(a, b, slots, cache, mem);
	return __real_Cudd_Init(a, b, slots, atoi(e), (size_t)64 << 20);
}
static void limit(int what, const char *name, long unit) {
	const char *e = getenv(name);
	struct rlimit r;
	if (!e) return;
	r.rlim_cur = atol(e) * unit;
	r.rlim_max = what == RLIMIT_CPU ? r.rlim_cur + 2 : r.rlim_cur;
	setrlimit(what, &r);
}
__attribute__((constructor)) static void limits(void) {
	struct rlimit core = {0, 0};
	setrlimit(RLIMIT_CORE, &core);
	limit(RLIMIT_CPU, "VP_CPU", 1);
	limit(RLIMIT_FSIZE, "VP_FSIZE_MB", 1L << 20);
	limit(RLIMIT_AS, "VP_AS_MB", 1L << 20);
}
