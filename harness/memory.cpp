// Drives the memory primitives on a buffer with guard bytes on either side, at every residue of its address.
#include "lib.hpp"
static unsigned char store[4096 + 64]; static unsigned char* b; static int N;
struct Two { unsigned char x, y; }; struct Big { unsigned char x[5]; };
static unsigned char* base(int at) { unsigned char* p = store + 512; p += (64 - (uintptr_t) p % 64) % 64; return p + at; }
static void vf_reset() { b = nullptr; N = 0; J j; j.s("op", "Reset"); vf_emit(j); }
static int at(void const* p) { return p ? (int)( (unsigned char const*) p - b ) : -1; }
static void vf_step(Toks const& t) {
	std::string op = t.op(); J j; j.s("op", op);
	if ( op == "new" ) { // residue length pattern
		memset(store, 0xEE, sizeof store); b = base(t.i(1)); N = t.i(2);
		for ( int k = 0; k < N; ++k ) b[k] = (unsigned char)( ( (k + 1) * 7 + t.i(3) ) % 251 + 1 );
		j.i("n", N).i("q", t.i(3));
	}
	else if ( op == "copy" ) { j.i("d", t.i(1)).i("s", t.i(2)).i("n", t.i(3)).i("ret", at(mem_copy(b + t.i(1), b + t.i(2), t.i(3)))); }
	else if ( op == "move" ) { j.i("d", t.i(1)).i("s", t.i(2)).i("n", t.i(3)).i("ret", at(mem_move(b + t.i(1), b + t.i(2), t.i(3)))); }
	else if ( op == "set" )  { j.i("d", t.i(1)).i("v", t.i(2)).i("n", t.i(3)).i("ret", at(mem_set(b + t.i(1), (u8) t.i(2), t.i(3)))); }
	else if ( op == "zero" ) { if ( t.i(2) == 5 ) zero_item((Big*)(b + t.i(1))); else if ( t.i(2) % 5 == 0 ) zero_array((Big*)(b + t.i(1)), t.i(2) / 5); else zero_size(b + t.i(1), t.i(2)); j.i("d", t.i(1)).i("n", t.i(2)); }
	else if ( op == "swap" ) {
		int n = t.i(3); unsigned char *x = b + t.i(1), *y = b + t.i(2); j.i("d", t.i(1)).i("s", t.i(2)).i("n", n);
		if ( n == 1 ) swap(*x, *y); else if ( n == 2 ) swap(*(Two*) x, *(Two*) y); else swap(*(Big*) x, *(Big*) y);
	}
	else if ( op == "find" ) { j.i("v", t.i(1)).i("s", t.i(2)).i("n", t.i(3)).i("ret", at(mem_find(b + t.i(2), (u8) t.i(1), t.i(3)))); }
	else if ( op == "null" ) { JA r; r.bo(mem_copy(nullptr, b, t.i(1)) == nullptr); r.bo(mem_move(nullptr, b, t.i(1)) == nullptr); r.bo(mem_set(nullptr, 1, t.i(1)) == nullptr); j.raw("rets", r.done()); }
	else if ( op == "arith" ) { // x alignment
		ssize x = t.i(1), a = t.i(2); unsigned char* p = base(0);
		j.i("x", x).i("a", a).bo("pow", is_power_of_two(x)).i("up", align_forward_s64(x, a));
		ssize r = ( x % 512 + 512 ) % 512; uintptr_t o = (uintptr_t) p; // p is a multiple of 64, and a divides 64
		j.i("at", r).i("ptr", (long long)( (uintptr_t) align_forward(p + r, a) - o ));
		j.i("add", (unsigned char*) pointer_add(p, x) - p).i("cadd", (unsigned char const*) pointer_add_const(p, x) - p).i("diff", pointer_diff(p, p + x));
	}
	else if ( op == "crc" ) {
		std::string s = t.s(1); unsigned char* q = base(t.i(2)); memcpy(q, s.data(), s.size());
		u32 c = crc32(q, s.size()); u64 d = crc64(q, s.size()); JA m, r, w; for ( unsigned char x : s ) m.i(x); for ( int k = 0; k < 4; ++k ) r.i( c >> 8 * k & 255 ); for ( int k = 0; k < 8; ++k ) w.i( (long long)( d >> 8 * k & 255 ) );
		j.raw("msg", m.done()).raw("c32", r.done()).raw("c64", w.done()); vf_emit(j); return;
	}
	else abort();
	if ( op != "arith" ) {
		JA m; for ( int k = 0; k < N; ++k ) m.i(b[k]);
		for ( int k = 1; k <= 200; ++k ) if ( b[-k] != 0xEE || b[N + k - 1] != 0xEE ) { m.i(-1); break; }   // the guards
		j.raw("m", m.done());
	}
	vf_emit(j);
}
int main(int c, char** v) { return vf_main(c, v); }
