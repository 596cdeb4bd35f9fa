/* Cooperative scheduler behind the thread sanitizer's instrumentation.
 *
 * The code under test is compiled with -Zsanitizer=thread but linked with this file instead of the
 * sanitizer's run time: every atomic operation, and every access to a static variable outside of a
 * lock, enters the scheduler before it happens. Exactly one managed thread runs at any time. The
 * futex system call, sched_yield, nanosleep and pthread_create/join are replaced by versions that
 * the scheduler knows about. All decisions are enumerated depth first, with a bound on the number
 * of preemptions. This file itself is not instrumented.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 64
#define MAXC 100000
#define MAXJ 4096

enum { FREE, READY, FUTEX, JOIN, IDLE, WAITJOB, DONE };

struct job {
	void (*run)(struct job *, int migrated);
	volatile int state; /* 0 pending, 1 running, 2 done */
};

struct th {
	int state, yielded, daemon, worker, timed, timedout, made, locks;
	uint32_t *faddr;
	int join;
	struct job *wait;
	volatile int *waitflag;
	sem_t sem;
	pthread_t pt;
	void (*fn)(void *);
	void *(*pfn)(void *);
	void *arg, *ret;
	long run; /* consecutive points */
	uintptr_t laddr;
	uint64_t lval;
	long spin;
	struct job *dq[MAXJ];
	int lo, hi;
	uint64_t hist; /* hash of what this thread did and saw */
};

static struct th T[MAXT];
static int nT, cur, ended, shutdown_flag;
static sem_t finish;
static __thread int self = -1;

static struct job *inj[MAXJ];
static int inj_lo, inj_hi, pool_n, pool_started;
int mc_pool_size = 2;

/* choices */
static int ch[MAXC], cn[MAXC], nch, pos;
static int preempts, bound;
/* how often an execution may deviate from the first choice of the scheduler; < 0: as it likes */
int mc_delay_bound = -1;
static int delays;
static long points, point_limit = 2000000;
static uint64_t st_exec, st_points, st_choices, st_maxthreads, st_preempt, st_diverged, st_maxchoices, st_pruned;
static int replaying;
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static void (*tls_dtors)(void);
static long (*real_syscall)(long, ...);
static int (*real_yield)(void);
static char *stat_lo, *stat_hi;
extern char __data_start, _end;
volatile long *mc_heartbeat;

/* distinct states: per thread, the hash of its steps and the values they saw */
static uint64_t *seen;
static uint64_t seen_cap, seen_n;
static uint64_t mix(uint64_t a, uint64_t b)
{
	a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
	a *= 0xff51afd7ed558ccdull;
	return a ^ (a >> 32);
}
static void seen_add(uint64_t h)
{
	if (!h)
		h = 1;
	if (!seen_cap) {
		seen_cap = 1 << 16;
		seen = calloc(seen_cap, 8);
	}
	if (seen_n * 2 > seen_cap) {
		if (seen_cap >= 1ull << 24)
			return;
		uint64_t *o = seen, oc = seen_cap;
		seen_cap *= 4;
		seen = calloc(seen_cap, 8);
		seen_n = 0;
		for (uint64_t i = 0; i < oc; i++)
			if (o[i])
				seen_add(o[i]);
		free(o);
	}
	uint64_t i = h & (seen_cap - 1);
	while (seen[i] && seen[i] != h)
		i = (i + 1) & (seen_cap - 1);
	if (!seen[i]) {
		seen[i] = h;
		seen_n++;
	}
}

/* What happened, up to the order of independent steps: every thread's history is a hash chained
 * over its steps and, for each access, over the histories of the accesses it depends on. Equal
 * histories of all threads mean equivalent executions, which reach the same state. */
#define MEMN (1 << 16)
static struct {
	uintptr_t a;
	unsigned epoch;
	uint64_t w, r;
} mem[MEMN];
static unsigned epoch;
static char POOL;
static void event(const volatile void *p, int write)
{
	if (self < 0 || ended)
		return;
	struct th *t = &T[self];
	uintptr_t a = (uintptr_t)p;
	unsigned i = (unsigned)((a >> 2) * 2654435761u) % MEMN, n = 0;
	while (mem[i].epoch == epoch && mem[i].a != a) {
		i = (i + 1) % MEMN;
		if (++n > MEMN / 2) {
			printf("ERROR too many addresses\n");
			fflush(stdout);
			_exit(12);
		}
	}
	if (mem[i].epoch != epoch) {
		mem[i].epoch = epoch;
		mem[i].a = a;
		mem[i].w = mem[i].r = 0;
	}
	if (write) {
		t->hist = mix(t->hist, mix(mem[i].w, mem[i].r));
		mem[i].w = t->hist;
		mem[i].r = 0;
	} else {
		t->hist = mix(t->hist, mem[i].w + 3);
		mem[i].r += mix(t->hist, 7);
	}
}
/* states whose continuations have been explored, with the preemptions that were left */
static uint64_t *ck;
static unsigned char *cv;
static uint64_t ck_cap, ck_n;
static int use_cache = 1, pruned;
static int cached(uint64_t h, int left)
{
	if (!h)
		h = 1;
	if (!ck_cap) {
		ck_cap = 1 << 16;
		ck = calloc(ck_cap, 8);
		cv = calloc(ck_cap, 1);
	}
	if (ck_n * 2 > ck_cap && ck_cap < 1ull << 24) {
		uint64_t *o = ck, oc = ck_cap;
		unsigned char *ov = cv;
		ck_cap *= 4;
		ck = calloc(ck_cap, 8);
		cv = calloc(ck_cap, 1);
		for (uint64_t i = 0; i < oc; i++)
			if (o[i]) {
				uint64_t j = o[i] & (ck_cap - 1);
				while (ck[j])
					j = (j + 1) & (ck_cap - 1);
				ck[j] = o[i];
				cv[j] = ov[i];
			}
		free(o);
		free(ov);
	}
	uint64_t j = h & (ck_cap - 1);
	while (ck[j] && ck[j] != h)
		j = (j + 1) & (ck_cap - 1);
	if (ck[j]) {
		if (cv[j] >= left)
			return 1;
		cv[j] = left;
		return 0;
	}
	if (ck_n * 10 < ck_cap * 9) {
		ck[j] = h;
		cv[j] = left;
		ck_n++;
	}
	return 0;
}

static void fail(const char *fmt, ...)
{
	char b[512];
	va_list a;
	va_start(a, fmt);
	vsnprintf(b, sizeof b, fmt, a);
	va_end(a);
	printf("FAIL %s\nCHOICES", b);
	for (int i = 0; i < pos; i++)
		printf(" %d", ch[i]);
	printf("\n");
	fflush(stdout);
	_exit(10);
}
void mc_fail(const char *m) { fail("%s", m); }
void mc_print_choices(void)
{
	printf("CHOICES");
	for (int i = 0; i < pos; i++)
		printf(" %d", ch[i]);
	printf("\n");
	fflush(stdout);
}

static uint64_t state_hash(int me, int what)
{
	uint64_t h = me + 2 + 100 * what;
	for (int i = 0; i < nT; i++)
		h = mix(mix(h, T[i].hist), T[i].state * 4 + T[i].yielded * 2 + T[i].timedout);
	return h;
}
static int choose_(int n, int what)
{
	if (pos >= nch && use_cache && !replaying && cached(mix(state_hash(self, what), delays), bound - preempts)) {
		/* everything from here on has been seen */
		pruned = 1;
		st_pruned++;
		return 0;
	}
	if (pos < nch) {
		if (!replaying && cn[pos] != n) {
			/* the code is not a function of the schedule alone */
			st_diverged++;
			if (ch[pos] >= n)
				ch[pos] = n - 1;
			cn[pos] = n;
		}
		int c = ch[pos];
		if (c >= n)
			c = n - 1;
		pos++;
		return c;
	}
	if (pos >= MAXC)
		fail("too many decisions in one execution");
	ch[pos] = 0;
	cn[pos] = n;
	pos++;
	nch = pos;
	return 0;
}
static int choose(int n, int what)
{
	if (n <= 1)
		return 0;
	if (pruned)
		return 0;
	/* (1: a decision of the scenario, the others are the scheduler's) */
	int limited = what > 1 && mc_delay_bound >= 0;
	if (limited && delays >= mc_delay_bound)
		return 0;
	int c = choose_(n, what);
	if (limited && c)
		delays++;
	return c;
}
int mc_choose(int n)
{
	int c = choose(n, 1);
	if (self >= 0)
		T[self].hist = mix(T[self].hist, c + 100);
	return c;
}
int mc_self(void) { return self; }

static int pending(void)
{
	if (inj_lo < inj_hi)
		return 1;
	for (int i = 0; i < nT; i++)
		if (T[i].lo < T[i].hi)
			return 1;
	return 0;
}

static int enabled(int i)
{
	struct th *t = &T[i];
	switch (t->state) {
	case READY: return 1;
	case JOIN: return T[t->join].state == DONE;
	case IDLE: return shutdown_flag || pending();
	case WAITJOB: return (t->wait && t->wait->state == 2) || (t->waitflag && *t->waitflag == 0) || (t->worker >= 0 && pending());
	default: return 0;
	}
}

/* Decide who runs next. `free_` : switching is no preemption. Returns when this thread runs again. */
static void resched(int me, int free_)
{
	int e[MAXT], n = 0, mine = 0;
	/* whoever yielded may run again once another thread made a step */
	if (me >= 0 && !T[me].yielded)
		for (int i = 0; i < nT; i++)
			T[i].yielded = 0;
	if (me >= 0 && enabled(me) && !T[me].yielded) {
		e[n++] = me;
		mine = 1;
	}
	for (int i = 0; i < nT; i++)
		if (i != me && enabled(i) && !T[i].yielded)
			e[n++] = i;
	if (!n) {
		/* all wait for each other: take turns */
		for (int k = 1; k <= nT && !n; k++) {
			int i = ((me < 0 ? 0 : me) + k) % nT;
			if (T[i].yielded && enabled(i))
				e[n++] = i;
		}
		for (int i = 0; i < nT; i++)
			T[i].yielded = 0;
	}
	if (!n) {
		for (int i = 0; i < nT; i++)
			if (T[i].state == FUTEX && T[i].timed) {
				T[i].state = READY;
				T[i].timedout = 1;
				e[n++] = i;
				break;
			}
	}
	if (!n) {
		int open = 0;
		for (int i = 0; i < nT; i++)
			if (T[i].state != DONE && T[i].state != FREE && !(T[i].daemon && T[i].state == IDLE))
				open++;
		if (open)
			fail("deadlock: %d threads are blocked and none can run", open);
		/* everything is done: the daemons are told to leave */
		if (!shutdown_flag) {
			shutdown_flag = 1;
			for (int i = 0; i < nT; i++)
				if (enabled(i))
					e[n++] = i;
			if (n)
				n = 1;
		}
		if (!n) {
			sem_post(&finish);
			return;
		}
	}
	int c = 0;
	if (n > 1 && !shutdown_flag) {
		if (mine && !free_) {
			if (preempts < bound) {
				c = choose(n, 2);
				if (c) {
					preempts++;
					st_preempt++;
				}
			}
		} else
			c = choose(n, 3);
	}
	int to = e[c];
	if (to != me && me >= 0)
		T[me].run = 0;
	cur = to;
	if (to == me)
		return;
	/* once another thread runs, a finished slot may be in use again */
	int leave = me < 0 || T[me].state == DONE;
	sem_post(&T[to].sem);
	if (!leave)
		while (sem_wait(&T[me].sem))
			;
}

static void point(int free_)
{
	int me = self;
	if (me < 0 || ended)
		return;
	points++;
	if (points > point_limit)
		fail("no progress: an execution takes more than %ld steps", point_limit);
	struct th *t = &T[me];
	t->hist = mix(t->hist, 1);
	seen_add(state_hash(me, 0));
	if (++t->run > 20000) {
		t->run = 0;
		t->yielded = 1;
	}
	resched(me, free_);
	T[me].yielded = 0;
}
void mc_point(void) { point(0); }

/* a thread that keeps reading the same value is waiting for another thread */
static void spin_note(uintptr_t a, uint64_t v)
{
	int me = self;
	if (me < 0 || ended)
		return;
	struct th *t = &T[me];
	if (t->laddr == a && t->lval == v) {
		if (++t->spin > 8) {
			t->spin = 0;
			t->yielded = 1;
			points++;
			resched(me, 1);
			T[me].yielded = 0;
		}
	} else {
		t->laddr = a;
		t->lval = v;
		t->spin = 0;
	}
}
static void unspin(void)
{
	if (self >= 0)
		T[self].laddr = 0;
}

/* ---- threads ----
 * The threads of the operating system are kept and reused. After each use the destructors of the
 * thread-local variables are run and the variables are set back, so that every use is that of a
 * new thread. */
static int find_tls(struct dl_phdr_info *i, size_t z, void *p)
{
	(void)z;
	void **out = p;
	for (int k = 0; k < i->dlpi_phnum; k++)
		if (i->dlpi_phdr[k].p_type == PT_TLS) {
			out[0] = i->dlpi_tls_data;
			out[1] = (void *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
			out[2] = (void *)i->dlpi_phdr[k].p_filesz;
			out[3] = (void *)i->dlpi_phdr[k].p_memsz;
		}
	return 1; /* the executable is the first */
}
static void *start(void *p)
{
	struct th *t = p;
	int me = t - T;
	void *tls[4] = {0};
	dl_iterate_phdr(find_tls, tls);
	for (;;) {
		while (sem_wait(&t->sem))
			;
		self = me;
		if (t->pfn)
			t->ret = t->pfn(t->arg);
		else
			t->fn(t->arg);
		if (tls_dtors)
			tls_dtors();
		if (tls[0]) {
			memcpy(tls[0], tls[1], (size_t)tls[2]);
			memset((char *)tls[0] + (size_t)tls[2], 0, (size_t)tls[3] - (size_t)tls[2]);
		}
		self = -1;
		t->state = DONE;
		resched(me, 1);
	}
	return 0;
}

static int new_thread(void (*fn)(void *), void *(*pfn)(void *), void *arg, int daemon, int worker)
{
	if (nT >= MAXT)
		fail("too many threads");
	int i = nT++;
	struct th *t = &T[i];
	t->state = READY;
	t->yielded = t->timed = t->timedout = t->locks = 0;
	t->daemon = daemon;
	t->worker = worker;
	t->wait = 0;
	t->waitflag = 0;
	t->run = t->spin = 0;
	t->laddr = 0;
	t->hist = mix(i + 1, 0);
	if (self >= 0) {
		T[self].hist = mix(T[self].hist, 5);
		t->hist = mix(t->hist, T[self].hist);
	}
	t->lo = t->hi = 0;
	t->fn = fn;
	t->pfn = pfn;
	t->arg = arg;
	t->ret = 0;
	if (!t->made) {
		t->made = 1;
		sem_init(&t->sem, 0, 0);
		pthread_attr_t at;
		pthread_attr_init(&at);
		pthread_attr_setstacksize(&at, 1 << 20);
		if (real_create(&t->pt, &at, start, t)) {
			printf("ERROR cannot create threads\n");
			fflush(stdout);
			_exit(12);
		}
		pthread_attr_destroy(&at);
	}
	if ((uint64_t)nT > st_maxthreads)
		st_maxthreads = nT;
	return i;
}

int mc_spawn(void (*fn)(void *), void *arg)
{
	if (self < 0)
		fail("mc_spawn outside");
	int i = new_thread(fn, 0, arg, 0, -1);
	return i;
}
void mc_join(int i)
{
	int me = self;
	if (T[i].state != DONE) {
		T[me].state = JOIN;
		T[me].join = i;
		resched(me, 1);
		T[me].state = READY;
	}
	T[me].hist = mix(T[me].hist, T[i].hist);
}

int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{
	if (!real_create)
		real_create = dlsym(RTLD_NEXT, "pthread_create");
	if (self < 0)
		return real_create(pt, a, f, arg);
	int i = new_thread(0, f, arg, 0, -1);
	*pt = T[i].pt;
	point(0);
	return 0;
}
int pthread_join(pthread_t pt, void **r)
{
	if (!real_join)
		real_join = dlsym(RTLD_NEXT, "pthread_join");
	if (self < 0)
		return real_join(pt, r);
	for (int i = 0; i < nT; i++)
		if (pthread_equal(T[i].pt, pt)) {
			mc_join(i);
			if (r)
				*r = T[i].ret;
			return 0;
		}
	return real_join(pt, r);
}
int pthread_detach(pthread_t pt)
{
	if (self >= 0)
		for (int i = 0; i < nT; i++)
			if (pthread_equal(T[i].pt, pt))
				return 0;
	static int (*real)(pthread_t);
	if (!real)
		real = dlsym(RTLD_NEXT, "pthread_detach");
	return real(pt);
}

/* ---- the pool: deques, stealing, an injector; as rayon, decided by the scheduler ---- */
static void run_job(struct job *j, int migrated)
{
	j->state = 1;
	event(&POOL, 1);
	j->run(j, migrated); /* sets the state itself: the job may be gone afterwards */
	event(&POOL, 1);
	point(1);
}
void mc_job_done(struct job *j)
{
	event(&POOL, 1);
	j->state = 2;
}

static struct job *take(int me)
{
	struct th *t = &T[me];
	event(&POOL, 1);
	if (t->lo < t->hi)
		return t->dq[--t->hi];
	int v[MAXT + 1], n = 0;
	for (int i = 0; i < nT; i++)
		if (i != me && T[i].lo < T[i].hi)
			v[n++] = i;
	if (inj_lo < inj_hi)
		v[n++] = -1;
	if (!n)
		return 0;
	int c = v[choose(n, 4)];
	t->hist = mix(t->hist, c + 1000);
	if (c < 0)
		return inj[inj_lo++];
	return T[c].dq[T[c].lo++];
}
static void worker(void *arg)
{
	(void)arg;
	int me = self;
	while (!shutdown_flag) {
		struct job *j = take(me);
		if (j) {
			run_job(j, 1);
			continue;
		}
		T[me].state = IDLE;
		resched(me, 1);
		T[me].state = READY;
	}
}
static void pool_start(void)
{
	if (pool_started)
		return;
	pool_started = 1;
	pool_n = mc_pool_size;
	for (int i = 0; i < pool_n; i++)
		new_thread(worker, 0, 0, 1, i);
}
int mc_pool_threads(void)
{
	return self < 0 ? 1 : mc_pool_size;
}
int mc_worker_index(void)
{
	return self < 0 ? -1 : T[self].worker;
}
/* from outside the pool */
void mc_inject(struct job *j)
{
	pool_start();
	event(&POOL, 1);
	if (inj_hi >= MAXJ)
		fail("too many jobs");
	inj[inj_hi++] = j;
}
void mc_push(struct job *j)
{
	struct th *t = &T[self];
	if (t->worker < 0) {
		mc_inject(j);
		return;
	}
	if (t->lo == t->hi)
		t->lo = t->hi = 0;
	if (t->hi >= MAXJ)
		fail("too many jobs");
	event(&POOL, 1);
	t->dq[t->hi++] = j;
	point(1);
}
/* wait for a job or for a counter to reach zero; workers run other jobs meanwhile.
   returns 1 if `j` was taken back by its owner and has to be run by the caller */
int mc_wait(struct job *j, volatile int *flag)
{
	int me = self;
	struct th *t = &T[me];
	for (;;) {
		event(&POOL, 1);
		if (j && j->state == 2)
			return 0;
		if (flag && *flag == 0)
			return 0;
		if (t->worker >= 0) {
			if (j && t->lo < t->hi && t->dq[t->hi - 1] == j) {
				t->hi--;
				return 1;
			}
			struct job *o = take(me);
			if (o) {
				run_job(o, 1);
				continue;
			}
		}
		t->wait = j;
		t->waitflag = flag;
		t->state = WAITJOB;
		resched(me, 1);
		t->state = READY;
		t->wait = 0;
		t->waitflag = 0;
	}
}

/* ---- system calls ---- */
long syscall(long nr, ...)
{
	va_list ap;
	va_start(ap, nr);
	long a[6];
	for (int i = 0; i < 6; i++)
		a[i] = va_arg(ap, long);
	va_end(ap);
	if (nr == SYS_futex && self >= 0 && !ended) {
		uint32_t *ad = (uint32_t *)a[0];
		int op = a[1] & FUTEX_CMD_MASK, me = self;
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
			if (__atomic_load_n(ad, __ATOMIC_SEQ_CST) != (uint32_t)a[2]) {
				event(ad, 1);
				errno = EAGAIN;
				return -1;
			}
			event(ad, 1);
			T[me].state = FUTEX;
			T[me].faddr = ad;
			T[me].timed = a[3] != 0;
			T[me].timedout = 0;
			resched(me, 1);
			T[me].timed = 0;
			event(ad, 1);
			if (T[me].timedout) {
				T[me].hist = mix(T[me].hist, 77);
				T[me].timedout = 0;
				errno = ETIMEDOUT;
				return -1;
			}
			return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
			event(ad, 1);
			long n = a[2], k = 0;
			while (k < n) {
				int w[MAXT], m = 0;
				for (int i = 0; i < nT; i++)
					if (T[i].state == FUTEX && T[i].faddr == ad)
						w[m++] = i;
				if (!m)
					break;
				int i = w[n - k >= m ? 0 : choose(m, 5)];
				T[i].hist = mix(T[i].hist, T[me].hist);
				T[me].hist = mix(T[me].hist, i);
				T[i].state = READY;
				k++;
			}
			return k;
		}
	}
	if (!real_syscall)
		real_syscall = dlsym(RTLD_NEXT, "syscall");
	return real_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
static void yield_(void)
{
	int me = self;
	points++;
	if (points > point_limit)
		fail("no progress: an execution takes more than %ld steps", point_limit);
	T[me].yielded = 1;
	resched(me, 1);
	T[me].yielded = 0;
}
int sched_yield(void)
{
	if (self >= 0 && !ended) {
		yield_();
		return 0;
	}
	if (!real_yield)
		real_yield = dlsym(RTLD_NEXT, "sched_yield");
	return real_yield();
}
int nanosleep(const struct timespec *a, struct timespec *b)
{
	if (self >= 0 && !ended) {
		yield_();
		return 0;
	}
	static int (*real)(const struct timespec *, struct timespec *);
	if (!real)
		real = dlsym(RTLD_NEXT, "nanosleep");
	return real(a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b)
{
	if (self >= 0 && !ended) {
		yield_();
		return 0;
	}
	static int (*real)(clockid_t, int, const struct timespec *, struct timespec *);
	if (!real)
		real = dlsym(RTLD_NEXT, "clock_nanosleep");
	return real(c, f, a, b);
}

/* hand-overs are cheaper on one processor */
void mc_pin(int k)
{
	cpu_set_t a, b;
	if (sched_getaffinity(0, sizeof a, &a))
		return;
	int n = CPU_COUNT(&a);
	if (!n)
		return;
	k %= n;
	for (int i = 0; i < CPU_SETSIZE; i++)
		if (CPU_ISSET(i, &a) && !k--) {
			CPU_ZERO(&b);
			CPU_SET(i, &b);
			sched_setaffinity(0, sizeof b, &b);
			return;
		}
}

/* ---- exploration ---- */
static void one(void (*body)(void *), void *arg)
{
	nT = 0;
	pos = 0;
	preempts = 0;
	delays = 0;
	pruned = 0;
	epoch++;
	points = 0;
	ended = shutdown_flag = 0;
	inj_lo = inj_hi = 0;
	pool_started = 0;
	int i = new_thread(body, 0, arg, 0, -1);
	cur = i;
	sem_post(&T[i].sem);
	while (sem_wait(&finish))
		;
	st_exec++;
	st_points += points;
	st_choices += pos;
	if ((uint64_t)pos > st_maxchoices)
		st_maxchoices = pos;
	if (mc_heartbeat)
		++*mc_heartbeat;
}
static void init(void)
{
	static int done;
	if (done)
		return;
	done = 1;
	if (!real_create)
		real_create = dlsym(RTLD_NEXT, "pthread_create");
	if (!real_join)
		real_join = dlsym(RTLD_NEXT, "pthread_join");
	if (!real_syscall)
		real_syscall = dlsym(RTLD_NEXT, "syscall");
	tls_dtors = (void (*)(void))dlvsym(RTLD_DEFAULT, "__call_tls_dtors", "GLIBC_PRIVATE");
	sem_init(&finish, 0, 0);
	use_cache = !getenv("MC_NOCACHE");
	stat_lo = &__data_start;
	stat_hi = &_end;
}
/* after() is called between executions; nonzero stops. Returns 0 if the space was exhausted, 1 if
   the limit was reached, 2 if after() stopped. */
int mc_explore(void (*body)(void *), void *arg, int (*after)(void *), int bound_, long limit, uint64_t *st)
{
	init();
	bound = bound_;
	replaying = 0;
	nch = 0;
	st_exec = st_points = st_choices = st_maxthreads = st_preempt = st_diverged = st_maxchoices = 0;
	if (seen)
		memset(seen, 0, seen_cap * 8);
	seen_n = 0;
	if (ck) {
		memset(ck, 0, ck_cap * 8);
		ck_n = 0;
	}
	st_pruned = 0;
	int r = 0;
	for (;;) {
		one(body, arg);
		if (after(arg)) {
			r = 2;
			break;
		}
		nch = pos;
		while (nch > 0 && ch[nch - 1] + 1 >= cn[nch - 1])
			nch--;
		if (!nch)
			break;
		ch[nch - 1]++;
		if (limit > 0 && (long)st_exec >= limit) {
			r = 1;
			break;
		}
	}
	st[0] = st_exec;
	st[1] = st_points;
	st[2] = st_choices;
	st[3] = st_maxthreads;
	st[4] = st_preempt;
	st[5] = st_diverged;
	st[6] = st_maxchoices;
	st[7] = seen_n;
	st[8] = st_pruned;
	return r;
}
int mc_replay(void (*body)(void *), void *arg, int (*after)(void *), int bound_, const int *c, int n)
{
	init();
	bound = bound_;
	replaying = 1;
	for (int i = 0; i < n && i < MAXC; i++) {
		ch[i] = c[i];
		cn[i] = 1 << 30;
	}
	nch = n;
	one(body, arg);
	return after(arg);
}

/* ---- the sanitizer's interface ---- */
static inline void plain(void *p)
{
	if (self < 0 || ended)
		return;
	if ((char *)p >= stat_lo && (char *)p < stat_hi && !T[self].locks) {
		point(0);
		event(p, 1);
	}
}
#define P(n) void __tsan_##n(void *p) { plain(p); }
P(read1) P(read2) P(read4) P(read8) P(read16) P(write1) P(write2) P(write4) P(write8) P(write16)
P(unaligned_read2) P(unaligned_read4) P(unaligned_read8) P(unaligned_read16)
P(unaligned_write2) P(unaligned_write4) P(unaligned_write8) P(unaligned_write16)
P(read_write1) P(read_write2) P(read_write4) P(read_write8) P(read_write16)
P(unaligned_read_write2) P(unaligned_read_write4) P(unaligned_read_write8) P(unaligned_read_write16)
P(volatile_read1) P(volatile_read2) P(volatile_read4) P(volatile_read8) P(volatile_read16)
P(volatile_write1) P(volatile_write2) P(volatile_write4) P(volatile_write8) P(volatile_write16)
P(unaligned_volatile_read2) P(unaligned_volatile_read4) P(unaligned_volatile_read8) P(unaligned_volatile_read16)
P(unaligned_volatile_write2) P(unaligned_volatile_write4) P(unaligned_volatile_write8) P(unaligned_volatile_write16)
P(vptr_read)
void __tsan_vptr_update(void **p, void *v) { (void)v; plain(p); }
void __tsan_read_range(void *p, unsigned long n) { (void)n; plain(p); }
void __tsan_write_range(void *p, unsigned long n) { (void)n; plain(p); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { plain((void *)s); plain(d); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { plain((void *)s); plain(d); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { plain(d); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int o) { (void)o; point(0); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int o) { (void)o; }

/* locks held, for the accesses to static variables: a 32-bit word that is taken from 0 */
static inline void lockset(int bits, uint64_t old, uint64_t new_, int ok)
{
	if (self < 0 || bits != 32 || !ok)
		return;
	if (old == 0 && new_ == 1)
		T[self].locks++;
	else if (new_ == 0 && (old == 1 || old == 2) && T[self].locks > 0)
		T[self].locks--;
}
#define A(bits, ty) \
	ty __tsan_atomic##bits##_load(const volatile ty *a, int o) { if (!(bits == 8 && o == 0 && self >= 0 && T[self].locks)) /* not the poison flag of a lock just taken */ point(0); ty v = __atomic_load_n(a, 5); event(a, 0); spin_note((uintptr_t)a, (uint64_t)v); return v; } \
	void __tsan_atomic##bits##_store(volatile ty *a, ty v, int o) { (void)o; point(0); unspin(); ty w = __atomic_load_n(a, 5); __atomic_store_n(a, v, 5); event(a, 1); lockset(bits, w, v, 1); } \
	ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int o) { (void)o; point(0); ty w = __atomic_exchange_n(a, v, 5); event(a, 1); lockset(bits, w, v, 1); if (w == v) spin_note((uintptr_t)a, (uint64_t)w); else unspin(); return w; } \
	ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int o) { (void)o; point(0); unspin(); ty w = __atomic_fetch_add(a, v, 5); event(a, 1); return w; } \
	ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int o) { (void)o; point(0); unspin(); ty w = __atomic_fetch_sub(a, v, 5); event(a, 1); return w; } \
	ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int o) { (void)o; point(0); unspin(); ty w = __atomic_fetch_and(a, v, 5); event(a, 1); return w; } \
	ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int o) { (void)o; point(0); unspin(); ty w = __atomic_fetch_or(a, v, 5); event(a, 1); return w; } \
	ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int o) { (void)o; point(0); unspin(); ty w = __atomic_fetch_xor(a, v, 5); event(a, 1); return w; } \
	ty __tsan_atomic##bits##_fetch_nand(volatile ty *a, ty v, int o) { (void)o; point(0); unspin(); ty w = __atomic_fetch_nand(a, v, 5); event(a, 1); return w; } \
	static inline int cas##bits(volatile ty *a, ty *e, ty v) { point(0); ty old = *e; int ok = __atomic_compare_exchange_n(a, e, v, 0, 5, 5); event(a, ok); lockset(bits, old, v, ok); if (ok) unspin(); else spin_note((uintptr_t)a, (uint64_t)*e); return ok; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int o, int f) { (void)o; (void)f; return cas##bits(a, e, v); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int o, int f) { (void)o; (void)f; return cas##bits(a, e, v); } \
	ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty e, ty v, int o, int f) { (void)o; (void)f; cas##bits(a, &e, v); return e; }
A(8, uint8_t)
A(16, uint16_t)
A(32, uint32_t)
A(64, uint64_t)
