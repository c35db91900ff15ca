// Drives the growable array through its public operations and logs the whole projected state after each call.
#include "lib.hpp"
template<int N> struct Wide { int v; int pad[N]; };   // items larger than a word: every word is checked on reading
typedef Wide<5> W5;
static long long blocks; static bool refuse;
static int way;   // each operation alternates between its function and its member
#define WAY(f, m) (way % 2 ? (m) : (f))
static void* proc(void*, AllocType type, ssize size, ssize, void* old, ssize, u64) {
	switch (type) {
		case EAllocation_ALLOC: { if ( refuse ) return nullptr; void* p = malloc(size); memset(p, 0xA5, size); blocks++; return p; }
		case EAllocation_FREE:  if ( old ) { free(old); blocks--; } return nullptr;
		default: return nullptr;
	}
}
static AllocatorInfo info() { AllocatorInfo a = { proc, nullptr }; return a; }
static void mk(int& o, int v) { o = v; }
static void mk(char& o, int v) { o = (char)v; }
static void mk(u64& o, int v) { o = (u64)v | ((u64)v << 40); }
template<int N> static void mk(Wide<N>& o, int v) { o.v = v; for (int& p : o.pad) p = v; }
static int rd(int o) { return o; }
static int rd(char o) { return o; }
static int rd(u64 o) { return (o & 0xffffffff) == (o >> 40) ? (int)(o & 0xffff) : -1; }
template<int N> static int rd(Wide<N> const& o) { for (int p : o.pad) if ( p != o.v ) return -1; return o.v; }

struct Dyn { virtual void reset() = 0; virtual void step(Toks const& t) = 0; };
template<class T> struct Drv : Dyn {
	T* h[4]; bool alive[4];
	Array<T>& A(int a) { return *(Array<T>*) & h[a]; }
	void reset() { for (int a = 0; a < 4; ++a) { h[a] = nullptr; alive[a] = false; } blocks = 0; refuse = false; J j; j.s("op", "Reset"); vf_emit(j); }
	void state(J& j, int a) {
		j.bo("alive", alive[a]);
		JA items; int n = 0;
		if ( alive[a] ) {
			for ( T* p = array_begin<T>(A(a)); p != array_end<T>(A(a)); p = array_next<T>(A(a), p) ) { items.i(rd(*p)); n++; if ( n > 100000 ) break; }
			if ( (usize)n != array_num<T>(A(a)) || (usize)n != A(a).num() || A(a).begin() != array_begin<T>(A(a)) || A(a).end() != array_end<T>(A(a)) || A(a).get_header() != array_get_header<T>(A(a)) || Array<T>::grow_formula(n) != array_grow_formula(n) ) items.i(-2);
			for ( usize k = 0; k < array_num<T>(A(a)); ++k ) if ( rd(((T*)A(a))[k]) != rd(array_begin<T>(A(a))[k]) || rd(A(a)[(ssize) k]) != rd(array_begin<T>(A(a))[k]) ) items.i(-3);
			j.i("cap", array_get_header<T>(A(a))->Capacity);
		}
		else j.i("cap", 0);
		j.raw("items", items.done()); j.i("live", blocks);
	}
	void step(Toks const& t) {
		int a = t.i(1); J j; ++way; j.s("op", t.op()).i("a", a);
		std::string const& op = t.op();
		void* before = h[a]; bool ok = true; std::vector<T> vs; JA vj;
		auto items = [&](size_t from) { for ( size_t k = from; k < t.n(); ++k ) { T x; mk(x, t.i(k)); vs.push_back(x); vj.i(t.i(k)); } j.raw("vs", vj.done()); };
		T v; mk(v, 0);
		if ( op == "init" ) {
			refuse = t.i(3); int n = t.i(2);
			Array<T> r = n == 8 ? WAY(array_init<T>(info()), Array<T>::init(info())) : WAY(array_init_reserve<T>(info(), n), Array<T>::init_reserve(info(), n));
			h[a] = (T*) r; ok = alive[a] = h[a] != nullptr;
			j.i("n", n);
		}
		else if ( op == "append" )       { mk(v, t.i(2)); refuse = t.i(3); j.i("v", t.i(2)); ok = WAY(array_append<T>(& A(a), v), A(a).append(v)); }
		else if ( op == "append_items" ) { refuse = t.i(2); items(3); ok = WAY(array_append_items<T>(& A(a), vs.data(), vs.size()), A(a).append(vs.data(), vs.size())); }
		else if ( op == "append_array" ) { refuse = t.i(3); j.i("b", t.i(2)); ok = WAY(array_append_array<T>(& A(a), A(t.i(2))), A(a).append(A(t.i(2)))); }
		else if ( op == "append_at" )    { mk(v, t.i(2)); refuse = t.i(4); j.i("v", t.i(2)).i("i", t.i(3)); ok = WAY(array_append_at<T>(& A(a), v, t.i(3)), A(a).append_at(v, t.i(3))); }
		else if ( op == "append_items_at" ) { refuse = t.i(3); j.i("i", t.i(2)); items(4); ok = WAY(array_append_items_at<T>(& A(a), vs.data(), vs.size(), t.i(2)), A(a).append_at(vs.data(), vs.size(), t.i(2))); }
		else if ( op == "back" )         { T* p = WAY(array_back<T>(A(a)), A(a).back()); JA q; if ( p ) q.i(rd(*p)); j.raw("val", q.done()); }
		else if ( op == "clear" )        WAY(array_clear<T>(A(a)), A(a).clear());
		else if ( op == "fill" )         { mk(v, t.i(4)); j.i("b", t.i(2)).i("e", t.i(3)).i("v", t.i(4)); ok = WAY(array_fill<T>(A(a), t.i(2), t.i(3), v), A(a).fill(t.i(2), t.i(3), v)); }
		else if ( op == "free" )         { WAY(array_free<T>(& A(a)), A(a).free()); alive[a] = h[a] != nullptr; }
		else if ( op == "pop" )          WAY(array_pop<T>(A(a)), A(a).pop());
		else if ( op == "remove_at" )    { j.i("i", t.i(2)); WAY(array_remove_at<T>(A(a), t.i(2)), A(a).remove_at(t.i(2))); }
		else if ( op == "reserve" )      { refuse = t.i(3); j.i("n", t.i(2)); ok = WAY(array_reserve<T>(& A(a), t.i(2)), A(a).reserve(t.i(2))); }
		else if ( op == "grow" )         { refuse = t.i(3); j.i("n", t.i(2)); ok = WAY(array_grow<T>(& A(a), t.i(2)), A(a).grow(t.i(2))); }
		else if ( op == "resize" ) {
			refuse = t.i(3); j.i("n", t.i(2)); usize old = array_num<T>(A(a));
			ok = WAY(array_resize<T>(& A(a), t.i(2)), A(a).resize(t.i(2)));
			if ( ok ) for ( usize k = old; k < array_num<T>(A(a)); ++k ) mk( ((T*)A(a))[k], 0 );   // the caller's duty
		}
		else if ( op == "set_capacity" ) { refuse = t.i(3); j.i("n", t.i(2)); ok = WAY(array_set_capacity<T>(& A(a), t.i(2)), A(a).set_capacity(t.i(2))); }
		else abort();
		j.bo("refuse", refuse).bo("ok", ok).bo("moved", before != nullptr && h[a] != before);
		refuse = false;
		state(j, a);
		vf_emit(j);
	}
};
static Dyn* dyn;
static void vf_reset() { dyn->reset(); }
static void vf_step(Toks const& t) { dyn->step(t); }
int main(int argc, char** argv) {
	std::string ty = argc > 3 ? argv[3] : "int";
	if ( ty == "int" ) dyn = new Drv<int>; else if ( ty == "char" ) dyn = new Drv<char>; else if ( ty == "u64" ) dyn = new Drv<u64>; else dyn = new Drv<W5>;
	return vf_main(argc, argv);
}
