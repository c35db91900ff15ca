// Drives arenas, fixed arenas, pools and the fallback allocator; every live block is filled with a pattern of its own and
// checked after every operation.
#include "lib.hpp"
#include <setjmp.h>
#include <new>
extern "C" void* vf_exit_jmp;
struct Blk { long long id; char* p; ssize n; };
struct A { std::string kind; Arena ar = {}; Pool po = {}; char* mem = nullptr; ssize total = 0; std::vector<Blk> live; FixedArena_1KB* fx = nullptr; };
static std::map<std::string, A> al; static Context* base_ctx; static Context* fctx; static bool own_backing;
static unsigned char pat(long long id, ssize k) { return (unsigned char)(id * 37 + k * 11 + 1); }
static void fill(Blk& b) { for ( ssize k = 0; k < b.n; ++k ) b.p[k] = (char) pat(b.id, k); }
static bool intact() {
	for ( auto& x : al ) for ( auto& b : x.second.live ) for ( ssize k = 0; k < b.n; ++k ) if ( (unsigned char) b.p[k] != pat(b.id, k) ) return false;
	return true;
}
static void* backing_proc(void*, AllocType type, ssize size, ssize align, void* old, ssize old_size, u64) {
	if ( type == EAllocation_ALLOC ) { char* p = (char*) aligned_alloc(64, (size + 127) / 64 * 64); memset(p, 0x33, size); return p; }
	if ( type == EAllocation_FREE ) ::free(old);
	return nullptr;
}
static int way;   // each operation alternates between its function, member and overload
#if defined(VF_CLIKE)
#define WAY(f, m, o) f
#else
#define WAY(f, m, o) (way % 3 == 0 ? (f) : way % 3 == 1 ? (m) : (o))
#endif
static ssize asked;
static void* asking_proc(void* d, AllocType type, ssize size, ssize align, void* old, ssize old_size, u64 f) { if ( type == EAllocation_ALLOC ) asked = size; return backing_proc(d, type, size, align, old, old_size, f); }
static AllocatorInfo fallback() { return fctx->Allocator_Temp; }
static std::string regions() {
	JA r; if ( fctx ) for ( ssize k = 0; k < (ssize) array_num(fctx->Fallback_AllocatorBuckets); ++k ) { Arena& b = fctx->Fallback_AllocatorBuckets[k];
		r.raw(J().i("base", (long long)((uintptr_t) b.PhysicalStart % 4096)).i("size", b.TotalSize).done()); }
	return r.done();
}
static void place(J& j, A& a, char* p, ssize size = 1) {
	if ( a.kind != "fallback" ) { ssize d = p - a.mem; if ( d > 100000000 || d < -100000000 ) d = -1; j.i("r", 1).i("off", d); return; }
	for ( ssize k = 0; k < (ssize) array_num(fctx->Fallback_AllocatorBuckets); ++k ) { Arena& b = fctx->Fallback_AllocatorBuckets[k];
		if ( p >= (char*) b.PhysicalStart && p < (char*) b.PhysicalStart + b.TotalSize ) { j.i("r", k + 1).i("off", p - (char*) b.PhysicalStart); return; } }
	if ( size == 0 ) // nothing may also be at a bucket's end
		for ( ssize k = 0; k < (ssize) array_num(fctx->Fallback_AllocatorBuckets); ++k ) { Arena& b = fctx->Fallback_AllocatorBuckets[k]; if ( p == (char*) b.PhysicalStart + b.TotalSize ) { j.i("r", k + 1).i("off", b.TotalSize); return; } }
	j.i("r", 0).i("off", -1);
}
static std::vector<Blk> hp; static long long stats0[2];
static void vf_reset() {
	for ( auto& b : hp ) allocator_free(heap(), b.p); hp.clear();
	if ( ! base_ctx ) { base_ctx = new Context(); memset((void*) base_ctx, 0, sizeof *base_ctx); init(base_ctx); }
	if ( fctx ) { set_context(fctx); deinit(fctx); delete fctx; fctx = nullptr; set_context(base_ctx); }
	for ( auto& x : al ) { A& a = x.second; if ( a.kind == "pool" ) WAY(pool_free(& a.po), a.po.free(), free(a.po)); else if ( a.kind == "arena" && a.ar.Backing.Proc ) WAY(arena_free(& a.ar), a.ar.free(), free(a.ar)); else if ( a.kind == "arena" && ! a.fx ) ::free(a.mem - ((uintptr_t) a.mem % 64)); if ( a.fx ) ::free((char*) a.fx - (uintptr_t) a.fx % 64); }
	al.clear();
#ifdef GEN_HEAP_ANALYSIS
	stats0[0] = heap_stats_alloc_count(); stats0[1] = heap_stats_used_memory();
#endif
	J j; j.s("op", "Reset"); vf_emit(j);
}
static AllocatorInfo info(A& a) { return a.kind == "fallback" ? fallback() : a.kind == "pool" ? WAY(pool_allocator_info(& a.po), (AllocatorInfo) a.po, allocator_info(a.po)) : a.fx ? WAY(fixed_arena_allocator_info(a.fx), (AllocatorInfo) *a.fx, allocator_info(*a.fx)) : WAY(arena_allocator_info(& a.ar), (AllocatorInfo) a.ar, allocator_info(a.ar)); }
static Arena* arena_of(A& a) { return a.fx ? & a.fx->arena : & a.ar; }
// The heap: h* operations; `mod` is the address's residue, `apart` says the block touches no other live one
static void heap_step(std::string const& op, Toks const& t) {
	J j; j.s("op", op); size_t k = 0; long long id = t.i(1); while ( k < hp.size() && hp[k].id != id ) ++k;
	auto report = [&](char* p, ssize size, ssize align) {
		bool apart = true; for ( auto& b : hp ) if ( p < b.p + b.n && b.p < p + size ) apart = false;
		j.i("id", id).i("size", size).i("align", align).i("mod", (long long)((uintptr_t) p % 4096)).bo("apart", apart);
	};
	auto same = [](Blk& b) { for ( ssize q = 0; q < b.n; ++q ) if ( (unsigned char) b.p[q] != pat(b.id, q) ) return false; return true; };
	if ( op == "halloc" ) { // id size align
		ssize size = t.i(2), align = t.i(3); char* p = (char*)( align == 16 ? alloc(heap(), size) : alloc_align(heap(), size, align) );
		report(p, size, align); bool z = true; for ( ssize q = 0; q < size; ++q ) z = z && p[q] == 0; j.bo("zero", z); hp.push_back({ id, p, size }); fill(hp.back());
	}
	else if ( op == "hresize" ) { // id size align
		if ( k == hp.size() ) return;
		Blk b = hp[k]; ssize size = t.i(2), align = t.i(3); hp.erase(hp.begin() + k);
		char* p = (char*)( align == 16 ? resize(heap(), b.p, b.n, size) : resize_align(heap(), b.p, b.n, size, align) );
		if ( size ) { report(p, size, align); bool z = true; for ( ssize q = 0; q < size && q < b.n; ++q ) z = z && (unsigned char) p[q] == pat(b.id, q); j.bo("kept", z); hp.push_back({ id, p, size }); fill(hp.back()); }
		else j.i("id", id).i("size", 0).bo("kept", p == nullptr);
	}
	else { if ( k == hp.size() ) return; allocator_free(heap(), hp[k].p); j.i("id", id); hp.erase(hp.begin() + k); }
	bool in = true; for ( auto& b : hp ) in = in && same(b); j.bo("intact", in);
#ifdef GEN_HEAP_ANALYSIS
	JA st; st.i(heap_stats_alloc_count() - stats0[0]); st.i(heap_stats_used_memory() - stats0[1]); j.raw("stats", st.done());
#else
	j.raw("stats", "[]");
#endif
	vf_emit(j);
}
static void vf_step(Toks const& t) {
	if ( t.op()[0] == 'h' ) { heap_step(t.op(), t); return; }
	std::string op = t.op(), n = t.n() > 1 ? t.t[1] : ""; J j; j.s("op", op).s("a", n); jmp_buf jb; ++way;
	if ( op == "anew" ) { // name base total [how]
		A a; a.kind = "arena"; ssize total = t.i(3); std::string how = t.n() > 4 ? t.t[4] : "mem"; AllocatorInfo bk = { backing_proc, nullptr };
		if ( how == "fixed" ) { a.fx = new ( (char*) aligned_alloc(64, 4096) + t.i(2) / 8 * 8 ) FixedArena_1KB(); fixed_arena_init(a.fx); a.mem = a.fx->memory; total = kilobytes(1); }
		else if ( how == "alloc" ) { a.ar = WAY(arena_init_from_allocator(bk, total), Arena::init_from_allocator(bk, total), arena_init_from_allocator(bk, total)); a.mem = (char*) a.ar.PhysicalStart; }
		else if ( how == "sub" ) { Arena parent = arena_init_from_allocator(bk, 64); a.ar = WAY(arena_init_sub(& parent, total), Arena::init_sub(parent, total), init_sub(parent, total)); a.mem = (char*) a.ar.PhysicalStart; WAY(arena_free(& parent), parent.free(), free(parent)); }
		else { char* m = (char*) aligned_alloc(64, (total + t.i(2) + 63) / 64 * 64 + 64); memset(m, 0x44, total + t.i(2)); a.mem = m + t.i(2); a.ar = WAY(arena_init_from_memory(a.mem, total), Arena::init_from_memory(a.mem, total), arena_init_from_memory(a.mem, total)); }
		a.total = total; al[n] = a;
		j.i("base", (long long)((uintptr_t) a.mem % 4096)).i("total", total);
	}
	else if ( op == "pnew" ) { // name n bsize balign
		A a; a.kind = "pool"; AllocatorInfo bk = { asking_proc, nullptr };
		if ( t.i(4) == 16 && t.i(2) % 2 ) a.po = WAY(pool_init(bk, t.i(2), t.i(3)), Pool::init(bk, t.i(2), t.i(3)), pool_init(bk, t.i(2), t.i(3))); else a.po = WAY(pool_init_align(bk, t.i(2), t.i(3), t.i(4)), Pool::init_align(bk, t.i(2), t.i(3), t.i(4)), pool_init_align(bk, t.i(2), t.i(3), t.i(4)));
		a.mem = (char*) a.po.PhysicalStart; a.total = asked; al[n] = a;
		j.i("base", (long long)((uintptr_t) a.mem % 4096)).i("total", asked).i("n", t.i(2)).i("bsize", t.i(3)).i("balign", t.i(4));
	}
	else if ( op == "fnew" ) { // name bucket
		fctx = new Context(); memset((void*) fctx, 0, sizeof *fctx); fctx->InitSize_Fallback_Allocator_Bucket_Size = t.i(2); fctx->CodePool_NumBlocks = 8; fctx->SizePer_StringArena = 2048;
		fctx->InitSize_LexerTokens = 16; fctx->InitSize_CodePoolsArray = 4; fctx->InitSize_StringArenasArray = 4; fctx->InitSize_BuilderBuffer = 1024;
		init(fctx); A a; a.kind = "fallback"; al[n] = a; j.i("bucket", t.i(2)).raw("regions", regions());
	}
	else if ( op == "alloc" || op == "falloc" ) { // name id size align
		A& a = al[n]; ssize size = t.i(3); bool ok = false; char* p = nullptr;
		vf_exit_jmp = & jb; if ( setjmp(jb) == 0 ) { p = (char*)( t.i(4) == 16 ? alloc(info(a), size) : alloc_align(info(a), size, t.i(4)) ); ok = p != nullptr; } vf_exit_jmp = nullptr;
		j.i("id", t.i(2)).i("size", size).i("align", t.i(4)).bo("ok", ok);
		if ( op == "falloc" ) j.raw("regions", regions());
		if ( ok ) { place(j, a, p, size); bool z = true; for ( ssize k = 0; k < size; ++k ) z = z && p[k] == 0; j.bo("zero", z); a.live.push_back({ t.i(2), p, size }); fill(a.live.back()); }
	}
	else if ( op == "resize" || op == "fresize" ) { // name id newsize align
		A& a = al[n]; size_t k = 0; while ( k < a.live.size() && a.live[k].id != t.i(2) ) ++k; if ( k == a.live.size() ) return;
		Blk b = a.live[k]; ssize size = t.i(3); bool ok = false; char* p = nullptr;
		vf_exit_jmp = & jb; if ( setjmp(jb) == 0 ) { p = (char*)( t.i(4) == 16 ? resize(info(a), b.p, b.n, size) : resize_align(info(a), b.p, b.n, size, t.i(4)) ); ok = p != nullptr; } vf_exit_jmp = nullptr;
		j.i("id", t.i(2)).i("size", size).i("align", t.i(4)).bo("ok", ok);
		if ( op == "fresize" ) j.raw("regions", regions());
		if ( ok ) { place(j, a, p); bool z = true; for ( ssize q = 0; q < size && q < b.n; ++q ) z = z && (unsigned char) p[q] == pat(b.id, q); j.bo("kept", z); a.live.erase(a.live.begin() + k); a.live.push_back({ b.id, p, size }); fill(a.live.back()); }
	}
	else if ( op == "free" || op == "pfree" ) {
		A& a = al[n]; size_t k = 0; while ( k < a.live.size() && a.live[k].id != t.i(2) ) ++k; if ( k == a.live.size() ) return;
		allocator_free(info(a), a.live[k].p); a.live.erase(a.live.begin() + k); j.i("id", t.i(2));
	}
	else if ( op == "freeall" || op == "pfreeall" ) { A& a = al[n]; free_all(info(a)); a.live.clear(); }
	else if ( op == "pclear" ) { A& a = al[n]; WAY(pool_clear(& a.po), a.po.clear(), clear(a.po)); a.live.clear(); }
	else if ( op == "palloc" ) { // name id
		A& a = al[n]; char* p = nullptr; bool ok = a.po.FreeList != nullptr;
		if ( ok ) { p = (char*) alloc_align(info(a), a.po.BlockSize, a.po.BlockAlign); ok = p != nullptr; }
		j.i("id", t.i(2)).i("size", a.po.BlockSize).bo("ok", ok);
		if ( ok ) { place(j, a, p); bool z = true; for ( ssize k = 0; k < a.po.BlockSize; ++k ) z = z && p[k] == 0; j.bo("zero", z); a.live.push_back({ t.i(2), p, a.po.BlockSize }); fill(a.live.back()); }
	}
	else if ( op == "remaining" ) { A& a = al[n]; j.i("align", t.i(2)).i("ret", a.fx && t.i(2) ? WAY(fixed_arena_size_remaining(a.fx, t.i(2)), a.fx->size_remaining(t.i(2)), size_remaining(*a.fx, t.i(2))) : WAY(arena_size_remaining(arena_of(a), t.i(2)), arena_of(a)->size_remaining(t.i(2)), size_remaining(*arena_of(a), t.i(2)))); WAY(arena_check(arena_of(a)), arena_of(a)->check(), check(*arena_of(a))); }
	auto it = al.find(n); if ( it != al.end() && it->second.kind == "pool" ) j.i("used", it->second.po.TotalSize);
	j.bo("intact", intact()); vf_emit(j);
}
int main(int c, char** v) {
#ifdef GEN_HEAP_ANALYSIS
	heap_stats_init();
#endif
	return vf_main(c, v); }
