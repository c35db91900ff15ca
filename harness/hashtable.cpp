// Drives the hash table; after each call looks up every key used in the script.
#if ! defined(VF_CLIKE)
#define GEN_SUPPORT_CPP_REFERENCES 1
#endif
#include "lib.hpp"
static long long blocks;
static int way;   // each operation alternates between its function, member and overload
#if defined(VF_CLIKE)
#define WAY(f, m, o) f
#else
#define WAY(f, m, o) (way % 3 == 0 ? (f) : way % 3 == 1 ? (m) : (o))
#endif
static void* proc(void*, AllocType type, ssize size, ssize, void* old, ssize, u64) {
	switch (type) {
		case EAllocation_ALLOC: { void* p = malloc(size); memset(p, 0xA5, size); blocks++; return p; }
		case EAllocation_FREE:  if ( old ) { free(old); blocks--; } return nullptr;
		default: return nullptr;
	}
}
struct Wide { int v; int pad[5]; };
static void mk(int& o, int v) { o = v; }
static void mk(u64& o, int v) { o = (u64)v | ((u64)v << 40); }
static void mk(Wide& o, int v) { o.v = v; for (int& p : o.pad) p = v; }
static int rd(int o) { return o; }
static int rd(u64 o) { return (o & 0xffffffff) == (o >> 40) ? (int)(o & 0xffff) : -1; }
static int rd(Wide const& o) { for (int p : o.pad) if ( p != o.v ) return -1; return o.v; }
static JA* visits; static int delta;
template<class T> static void visit(u64 k, T v) { JA p; p.s(std::to_string(k)); p.i(rd(v)); visits->raw(p.done()); }
template<class T> static void visit_mut(u64 k, T* v) { visit<T>(k, *v); mk(*v, rd(*v) + delta); }
struct Dyn { virtual void reset() = 0; virtual void step(Toks const& t) = 0; };
template<class T> struct Drv : Dyn {
	HashTable<T> h; bool live; std::set<u64> keys;
	void reset() { h.Hashes = { nullptr }; h.Entries = { nullptr }; live = false; keys.clear(); blocks = 0; J j; j.s("op", "Reset"); vf_emit(j); }
	void step(Toks const& t) {
		std::string const& op = t.op(); J j; j.s("op", op); ++way;
		u64 k = t.n() > 1 ? strtoull(t.t[1].c_str(), nullptr, 10) : 0; std::string ks = std::to_string(k);
		T v; mk(v, t.i(2));
		AllocatorInfo ai = { proc, nullptr }; JA vs; visits = & vs;
		if ( op == "init" ) { h = t.i(1) == 8 ? WAY(hashtable_init<T>(ai), HashTable<T>::init(ai), hashtable_init<T>(ai)) : WAY(hashtable_init_reserve<T>(ai, t.i(1)), HashTable<T>::init_reserve(ai, t.i(1)), hashtable_init_reserve<T>(ai, t.i(1))); live = true; }
		else if ( op == "destroy" ) { WAY(hashtable_destroy<T>(& h), h.destroy(), destroy(h)); live = false; }
		else if ( op == "set" )    { keys.insert(k); j.s("k", ks).i("v", t.i(2)); WAY(hashtable_set<T>(& h, k, v), h.set(k, v), set(h, k, v)); }
		else if ( op == "get" )    { keys.insert(k); T* p = WAY(hashtable_get<T>(h, k), h.get(k), h.get(k)); JA r; if ( p ) r.i(rd(*p)); j.s("k", ks).raw("r", r.done()); }
		else if ( op == "poke" )   { T* p = WAY(hashtable_get<T>(h, k), h.get(k), h.get(k)); if ( p ) *p = v; j.s("k", ks).i("v", t.i(2)).bo("r", p != nullptr); }
		else if ( op == "remove" ) { j.s("k", ks); WAY(hashtable_remove<T>(h, k), h.remove(k), h.remove(k)); }
		else if ( op == "remove_entry" ) {
			usize n = array_num<HashTableEntry<T>>(h.Entries); usize at = t.i(1) % (n ? n : 1);
			if ( n ) { j.s("k", std::to_string(((HashTableEntry<T>*)h.Entries)[at].Key)); WAY(hashtable_remove_entry<T>(h, at), h.remove_entry(at), h.remove_entry(at)); WAY(hashtable_rehash_fast<T>(h), h.rehash_fast(), h.rehash_fast()); }
			else j.s("k", "none");
		}
		else if ( op == "clear" )  WAY(hashtable_clear<T>(h), h.clear(), h.clear());
		else if ( op == "grow" )   WAY(hashtable_grow<T>(& h), h.grow(), grow(h));
		else if ( op == "rehash" ) WAY(hashtable_rehash<T>(& h, t.i(1)), h.rehash(t.i(1)), rehash(h, t.i(1)));
		else if ( op == "rehash_fast" ) WAY(hashtable_rehash_fast<T>(h), h.rehash_fast(), h.rehash_fast());
		else if ( op == "map" )    { WAY(hashtable_map<T>(h, visit<T>), h.map(visit<T>), h.map(visit<T>)); j.raw("vs", vs.done()); }
		else if ( op == "map_mut" ) { delta = t.i(1); j.i("d", delta); WAY(hashtable_map_mut<T>(h, visit_mut<T>), h.map_mut(visit_mut<T>), h.map_mut(visit_mut<T>)); j.raw("vs", vs.done()); }
		else abort();
		JA all;
		if ( live ) for ( u64 x : keys ) { T* p = hashtable_get<T>(h, x); if ( p ) { JA q; q.s(std::to_string(x)); q.i(rd(*p)); all.raw(q.done()); } }
		j.bo("live", live).raw("all", all.done()).i("blocks", blocks);
		vf_emit(j);
	}
};
static Dyn* dyn;
static void vf_reset() { dyn->reset(); }
static void vf_step(Toks const& t) { dyn->step(t); }
int main(int argc, char** argv) {
	std::string ty = argc > 3 ? argv[3] : "int";
	if ( ty == "int" ) dyn = new Drv<int>; else if ( ty == "u64" ) dyn = new Drv<u64>; else dyn = new Drv<Wide>;
	return vf_main(argc, argv);
}
