/* Random programs over dynamic arrays; every call and its result is logged. */
#include <except.h>
#include "hx.h"
#include <stdlib.h>
#define NH 4
static array_t A[NH];
static char *buf;
static int nextv = 1;

static void full(const char *e, int h) {
	size_t i, n = $size(A[h]); char *p = buf;
	p += sprintf(p, "[");
	for (i = 0; i < n; i++) p += sprintf(p, "%s%lld", i ? "," : "", (long long)A[h][i].long_long);
	sprintf(p, "]");
	hx_ev("\"e\":\"%s\",\"h\":%d,\"size\":%d,\"cap\":%d,\"list\":%s", e, h, (int)n, (int)$capacity(A[h]), buf);
}
static void iter(int h, int back) {
	char *p = buf; int first = 1;
	p += sprintf(p, "[");
	if (!back) { foreach(x in A[h]) { p += sprintf(p, "%s%lld", first ? "" : ",", x.long_long); first = 0; } }
	else { foreach_back(x in A[h]) { p += sprintf(p, "%s%lld", first ? "" : ",", x.long_long); first = 0; } }
	sprintf(p, "]");
	hx_ev("\"e\":\"%s\",\"h\":%d,\"list\":%s", back ? "iterback" : "iter", h, buf);
}
static int cmp(const void *a, const void *b, void *u) {
	long long x = ((const values_t *)a)->long_long, y = ((const values_t *)b)->long_long;
	(void)u; return x < y ? -1 : x > y;
}
static volatile int thrown;
#define GUARDED(...) do { thrown = 0; try { __VA_ARGS__; } catch (logic_error) { thrown = 1; } } while (0)

static void make(int h) {
	int n, i, k = hx_rnd(7);
	if (k == 0) { A[h] = array(); hx_ev("\"e\":\"new\",\"h\":%d,\"kind\":\"array\",\"list\":[]", h); }
	else if (k == 1) {
		int a = nextv, b = nextv + 1, c = nextv + 2; nextv += 3;
		n = hx_rnd(3) + 1;
		A[h] = n == 1 ? arrays(1, casting(a)) : n == 2 ? arrays(2, casting(a), casting(b)) : arrays(3, casting(a), casting(b), casting(c));
		hx_ev("\"e\":\"new\",\"h\":%d,\"kind\":\"array\",\"list\":%s", h,
			(sprintf(buf, n == 1 ? "[%d]" : n == 2 ? "[%d,%d]" : "[%d,%d,%d]", a, b, c), buf));
	} else if (k == 2) {
		int s = hx_rnd(20) - 10; int e = s + hx_rnd(hx_chance(20) ? 150 : 12) - 3;
		A[h] = range(s, e);
		hx_ev("\"e\":\"range\",\"h\":%d,\"start\":%d,\"stop\":%d,\"step\":1,\"kind\":\"range\"", h, s, e);
	} else if (k == 3) {
		int s = hx_rnd(20) - 10; int e = s + hx_rnd(hx_chance(20) ? 300 : 12) - 3; int st = hx_rnd(3) + 1;
		A[h] = rangeing(s, e, st);
		hx_ev("\"e\":\"range\",\"h\":%d,\"start\":%d,\"stop\":%d,\"step\":%d,\"kind\":\"range\"", h, s, e, st);
	} else if (k == 4) {
		char t[128]; int len = hx_rnd(hx_chance(20) ? 100 : 6); char *p = buf;
		for (i = 0; i < len; i++) t[i] = 33 + hx_rnd(90);
		t[len] = 0;
		A[h] = range_char(t);
		p += sprintf(p, "[");
		for (i = 0; i < len; i++) p += sprintf(p, "%s%d", i ? "," : "", t[i]);
		sprintf(p, "]");
		hx_ev("\"e\":\"new\",\"h\":%d,\"kind\":\"range\",\"list\":%s", h, buf);
	} else {
		int g = hx_rnd(NH);
		if (A[g] == NULL) { A[h] = array(); hx_ev("\"e\":\"new\",\"h\":%d,\"kind\":\"array\",\"list\":[]", h); }
		else { array_t d = NULL; A[h] = $copy(d, A[g]); hx_ev("\"e\":\"copy\",\"h\":%d,\"from\":%d", h, g); }
	}
	full("check", h);
}

void hx_scenario(int i) {
	int ops, k, h, big = hx_chance(25), big_h = hx_rnd(NH);
	buf = malloc(1 << 20);
	hx_cfg("\"alloc\":1");
	events_set_allocator(rp_malloc, rp_realloc, rp_calloc, rpfree);
	ops = 30 + hx_rnd(90);
	for (k = 0; k < ops; k++) {
		h = hx_rnd(NH);
		if (A[h] == NULL) { make(h); continue; }
		switch (hx_rnd(16)) {
		case 0: case 1: case 2: case 3: case 4: {
			int m = big && h == big_h ? hx_rnd(60) + 1 : 1, j;
			for (j = 0; j < m; j++) {
				int v = nextv++, how = hx_rnd(8);
				GUARDED(
					switch (how) {
					case 0: $append_signed(A[h], v); break;
					case 1: $append_unsigned(A[h], v); break;
					case 2: $append_string(A[h], (char *)(intptr_t)v); break;
					case 3: $append_func(A[h], (data_func_t)(intptr_t)v); break;
					case 4: if (hx_chance(50)) { $append_signed(A[h], -v); v = -v; } else { $append(A[h], (intptr_t)v); } break;
					default: $append(A[h], (intptr_t)v); break;
					});
				if (how == 4 && thrown) { /* value unused */ }
				hx_ev("\"e\":\"append\",\"h\":%d,\"v\":%d,\"thrown\":%d,\"size\":%d,\"cap\":%d", h, v, thrown, (int)$size(A[h]), (int)$capacity(A[h]));
				if (thrown) break;
			}
			break; }
		case 5: case 6: {
			int n = (int)$size(A[h]); int at = hx_chance(15) ? n + hx_rnd(3) : hx_rnd(n + 1);
			GUARDED($remove(A[h], at));
			hx_ev("\"e\":\"remove\",\"h\":%d,\"i\":%d,\"thrown\":%d,\"size\":%d", h, at, thrown, (int)$size(A[h]));
			break; }
		case 7: {
			values_t v; v.long_long = 0;
			GUARDED(v = $pop(A[h]));
			hx_ev("\"e\":\"pop\",\"h\":%d,\"r\":%lld,\"thrown\":%d,\"size\":%d", h, thrown ? 0 : v.long_long, thrown, (int)$size(A[h]));
			break; }
		case 8: {
			values_t v; v.long_long = 0;
			GUARDED(v = $shift(A[h]));
			hx_ev("\"e\":\"shift\",\"h\":%d,\"r\":%lld,\"thrown\":%d,\"size\":%d", h, thrown ? 0 : v.long_long, thrown, (int)$size(A[h]));
			break; }
		case 9:
			if (hx_chance(40)) {
				GUARDED(A[h] = $reset(A[h]));
				hx_ev("\"e\":\"reset\",\"h\":%d,\"thrown\":%d,\"size\":%d", h, thrown, (int)$size(A[h]));
			} break;
		case 10:
			if (hx_chance(30)) { A[h] = $tuple(A[h]); hx_ev("\"e\":\"freeze\",\"h\":%d,\"size\":%d", h, (int)$size(A[h])); }
			break;
		case 11: {
			int n = hx_rnd(hx_chance(20) ? 400 : 90);
			$reserve(A[h], n);
			hx_ev("\"e\":\"reserve\",\"h\":%d,\"n\":%d,\"size\":%d,\"cap\":%d", h, n, (int)$size(A[h]), (int)$capacity(A[h]));
			break; }
		case 12: iter(h, hx_rnd(2)); break;
		case 13: full("check", h); break;
		case 14:
			if (hx_chance(50) && $size(A[h]) > 0) {
				int at = hx_rnd((int)$size(A[h])); int v = nextv++;
				A[h][at].long_long = v;
				hx_ev("\"e\":\"store\",\"h\":%d,\"i\":%d,\"v\":%d", h, at, v);
			} else if ($size(A[h]) > 0) {
				memsort(A[h], $size(A[h]), sizeof(values_t), cmp, NULL);
				full("sorted", h);
			}
			break;
		case 15:
			if (hx_chance(50)) {
				/* ranges are released by their scope */
				hx_ev("\"e\":\"drop\",\"h\":%d", h);
				A[h] = NULL;
			}
			break;
		}
	}
	for (h = 0; h < NH; h++) if (A[h]) full("check", h);
}
