// The C++ interface, driven from Rust: objects live in slots
#include <adv.hpp>
#include <algorithm>
#include <cstddef>
#include <new>
#include <utility>
#include <vector>

using adv::AContext;
using adv::ADouble;

static ADouble* v[16];
static AContext* c[16];

// allocations made while the interface is running
static int inside;
static long live, total;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void on_malloc(const volatile void* p, size_t) {
	if (inside && p) {
		live++;
		total++;
	}
}
static void on_free(const volatile void* p) {
	if (inside && p) {
		live--;
	}
}
struct In {
	In() { inside++; }
	~In() { inside--; }
};

static ADouble by_value(ADouble x) {
	return x;
}
static ADouble named(ADouble x, bool which) {
	ADouble a = x;
	ADouble b = x;
	if (which) {
		return a;
	}
	return b;
}

extern "C" {

int sh_init() {
	static int r = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
	return r;
}
long sh_live() { return live; }
void sh_reset() { live = 0; }

// variables
void sh_default(int i) { In in; v[i] = new ADouble(); }
void sh_from(int i, double x) { In in; v[i] = new ADouble(x); }
void sh_copy(int i, int j) { In in; v[i] = new ADouble(*v[j]); }
void sh_move(int i, int j) { In in; v[i] = new ADouble(std::move(*v[j])); }
void sh_assign(int i, int j) { In in; ADouble& r = (*v[i] = *v[j]); if (&r != v[i]) __builtin_trap(); }
void sh_massign(int i, int j) { In in; ADouble& r = (*v[i] = std::move(*v[j])); if (&r != v[i]) __builtin_trap(); }
void sh_assign_double(int i, double x) { In in; *v[i] = x; }
void sh_swap(int i, int j) { In in; std::swap(*v[i], *v[j]); }
void sh_pass(int i, int j) { In in; *v[i] = by_value(*v[j]); }
void sh_pass_move(int i, int j) { In in; *v[i] = by_value(std::move(*v[j])); }
void sh_named(int i, int j, int w) { In in; *v[i] = named(*v[j], w != 0); }
// through a growing vector
void sh_vector(int i, int j) {
	In in;
	std::vector<ADouble> a;
	for (int k = 0; k < 3; k++) {
		a.push_back(*v[j]);
	}
	a.erase(a.begin());
	a.insert(a.begin(), ADouble(7.0));
	*v[i] = a.back();
}
void sh_del(int i) { In in; delete v[i]; v[i] = nullptr; }

// contexts
void sh_cnew(int k) { In in; c[k] = new AContext(); }
void sh_cmove(int k, int l) { In in; c[k] = new AContext(std::move(*c[l])); }
void sh_cmassign(int k, int l) { In in; AContext& r = (*c[k] = std::move(*c[l])); if (&r != c[k]) __builtin_trap(); }
void sh_creset(int k) { In in; *c[k] = AContext(); }
void sh_cswap(int k, int l) { In in; std::swap(*c[k], *c[l]); }
void sh_cdel(int k) { In in; delete c[k]; c[k] = nullptr; }
void sh_indep(int i, int k) {
	In in;
	if (v[i]) {
		*v[i] = c[k]->new_independent();
	} else {
		v[i] = new ADouble(c[k]->new_independent());
	}
}
void sh_dep(int k, int i) { In in; c[k]->set_dependent(*v[i]); }

// operations; the target is created or assigned to
static void put(int i, ADouble x) {
	if (v[i]) {
		*v[i] = x;
	} else {
		v[i] = new ADouble(x);
	}
}
void sh_vv(int op, int i, int a, int b) {
	In in;
	const ADouble &x = *v[a], &y = *v[b];
	switch (op) {
	case 0: put(i, x + y); break;
	case 1: put(i, x - y); break;
	case 2: put(i, x * y); break;
	case 3: put(i, x / y); break;
	case 4: put(i, adv::min(x, y)); break;
	case 5: put(i, adv::max(x, y)); break;
	}
}
void sh_vd(int op, int i, int a, double y) {
	In in;
	const ADouble& x = *v[a];
	switch (op) {
	case 0: put(i, x + y); break;
	case 1: put(i, x - y); break;
	case 2: put(i, x * y); break;
	case 3: put(i, x / y); break;
	case 4: put(i, adv::min(x, y)); break;
	case 5: put(i, adv::max(x, y)); break;
	}
}
void sh_dv(int op, int i, double x, int b) {
	In in;
	const ADouble& y = *v[b];
	switch (op) {
	case 0: put(i, x + y); break;
	case 1: put(i, x - y); break;
	case 2: put(i, x * y); break;
	case 3: put(i, x / y); break;
	case 4: put(i, adv::min(x, y)); break;
	case 5: put(i, adv::max(x, y)); break;
	}
}
void sh_un(int f, int i, int a) {
	In in;
	const ADouble& x = *v[a];
	switch (f) {
	case 0: put(i, adv::sin(x)); break;
	case 1: put(i, adv::cos(x)); break;
	case 2: put(i, adv::tan(x)); break;
	case 3: put(i, adv::abs(x)); break;
	case 4: put(i, adv::exp(x)); break;
	case 5: put(i, adv::ln(x)); break;
	}
}
// several operations in one expression, with temporaries
void sh_expr(int e, int i, int a, int b) {
	In in;
	const ADouble &x = *v[a], &y = *v[b];
	switch (e) {
	case 0: put(i, (x + y) * (x - y)); break;
	case 1: put(i, 2.0 * x - y / 4.0); break;
	case 2: put(i, adv::max(x * y, adv::min(x, 0.5)) + 1.0); break;
	case 3: put(i, adv::exp(adv::sin(x) * y) - adv::cos(1.0 - x)); break;
	}
}
double sh_dun(int f, double x) {
	switch (f) {
	case 0: return adv::sin(x);
	case 1: return adv::cos(x);
	case 2: return adv::tan(x);
	case 3: return adv::abs(x);
	case 4: return adv::exp(x);
	default: return adv::ln(x);
	}
}
double sh_dbin(int f, double x, double y) { return f == 0 ? adv::min(x, y) : adv::max(x, y); }
}
