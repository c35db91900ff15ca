// Drives files, memory streams, the builder and the scanner over a file layer with injected faults.
#include "lib.hpp"
#include <sys/wait.h>
#include <sys/mman.h>
static Context* ctx;
static FileInfo F[4]; static bool isopen[4]; static char* backing[4]; static Builder B; static bool bopen;
static void rmfiles() { unlink("a"); unlink("b"); unlink("c"); }
static void vf_reset() {
	if ( ! ctx ) { ctx = new Context(); memset((void*)ctx, 0, sizeof *ctx); init(ctx); }
	for ( int k = 1; k <= 3; ++k ) { if ( isopen[k] ) file_close(& F[k]); isopen[k] = false; free(backing[k]); backing[k] = nullptr; }
	if ( bopen ) { vf_fault_write = 0; builder_write(& B); bopen = false; }
	rmfiles(); vf_open_handles = 0;
	J j; j.s("op", "Reset"); vf_emit(j);
}
static char const* err(FileError e) {
	switch ( e ) { case EFileError_NONE: return "none"; case EFileError_INVALID: return "invalid"; case EFileError_EXISTS: return "exists";
		case EFileError_NOT_EXISTS: return "not_exists"; case EFileError_PERMISSION: return "permission"; default: return "other"; }
}
static void fault(long long f, bool open) {
	if ( open ) { vf_fault_open = (int) f; return; }
	vf_fault_write = vf_fault_read = f == -1; vf_fault_write_max = vf_fault_read_max = f > 0 ? f - 1 : -1;
}
static void nofault() { vf_fault_open = vf_fault_write = vf_fault_read = 0; vf_fault_write_max = vf_fault_read_max = -1; }
static u32 mode(std::string const& m) {
	u32 r = m[0] == 'r' ? EFileMode_READ : m[0] == 'w' ? EFileMode_WRITE : EFileMode_APPEND;
	return m.size() > 1 ? r | EFileMode_RW : r;
}
static bool logged(char const* path) { std::string s(vf_log_text, vf_log_len); return s.find(path) != std::string::npos; }
static void observe(J& j) {
	JA none; std::string d = "{"; bool first = true;
	for ( char const* p : { "a", "b", "c" } ) {
		FILE* f = fopen(p, "rb"); if ( ! f ) continue;
		std::string s; int c; while ( (c = fgetc(f)) != EOF ) s += (char) c; fclose(f);
		if ( ! first ) d += ','; first = false; d += std::string("\"") + p + "\":" + J::bytes_of(s.data(), s.size());
	}
	j.raw("disk", d + "}").i("handles", vf_open_handles);
}
static void pfmt(Builder* b, char const* f, ...) { va_list va; va_start(va, f); builder_print_fmt_va(b, f, va); va_end(va); }
static void vf_step(Toks const& t) {
	std::string op = t.op(); J j; j.s("op", op); vf_log_len = 0; int s = t.i(1);
	if ( op == "open" ) { // slot path mode fault
		fault(t.i(4), true); FileError e; memset(& F[s], 0, sizeof F[s]);
		if ( t.t[3] == "r" && t.i(4) == 0 && t.t[2] == "a" ) e = file_open(& F[s], "a"); else e = file_open_mode(& F[s], mode(t.t[3]), t.t[2].c_str());
		isopen[s] = e == EFileError_NONE;
		j.i("s", s).s("path", t.t[2]).s("mode", t.t[3]).i("fault", t.i(4)).s("err", err(e)); if ( isopen[s] ) j.s("name", F[s].filename);
	}
	else if ( op == "snew" ) { bool r = file_stream_new(& F[s], heap()); isopen[s] = r; j.i("s", s).bo("ret", r); }
	else if ( op == "sopen" ) { // slot kind data
		std::string d = t.s(3); char* b = (char*) malloc(d.size() + 1); memcpy(b, d.data(), d.size()); free(backing[s]); backing[s] = b;
		char* exact = (char*) malloc(d.empty() ? 1 : d.size()); memcpy(exact, d.data(), d.size()); free(b); backing[s] = exact;
		bool r = file_stream_open(& F[s], heap(), (u8*) exact, d.size(), t.t[2] == "ro" ? (FileStreamFlags) 0 : t.t[2] == "rw" ? EFileStream_WRITABLE : EFileStream_CLONE_WRITABLE);
		isopen[s] = r; j.i("s", s).s("kind", t.t[2]).bytes("data", d.data(), d.size()).bo("ret", r);
		if ( t.t[2] == "clone" ) { free(exact); backing[s] = nullptr; }
	}
	else if ( op == "write" || op == "writeat" ) { // slot fault data [off]
		std::string d = t.s(3); char* b = (char*) malloc(d.empty() ? 1 : d.size()); memcpy(b, d.data(), d.size()); fault(t.i(2), false);
		j.i("s", s).i("fault", t.i(2)).bytes("data", d.data(), d.size());
		if ( op == "write" ) j.bo("ret", file_write(& F[s], b, d.size()));
		else { ssize n = -1; bool r = file_write_at_check(& F[s], b, d.size(), t.i(4), & n); j.i("off", t.i(4)).bo("ret", r).i("count", n); }
		nofault(); j.i("pos", file_tell(& F[s])); free(b);
	}
	else if ( op == "read" || op == "readat" ) { // slot fault n [off]
		ssize n = t.i(3), got = -1; char* b = (char*) malloc(n + 1); memset(b, 0x5a, n + 1); fault(t.i(2), false); bool r;
		if ( op == "read" ) r = file_read(& F[s], b, n); else r = file_read_at_check(& F[s], b, n, t.i(4), & got);
		nofault(); ssize m = n; while ( m > 0 && b[m - 1] == 0x5a ) --m;
		j.i("s", s).i("fault", t.i(2)).i("n", n).i("off", t.i(4)).bo("ret", r).i("count", got).bytes("data", b, m).i("pos", file_tell(& F[s])); free(b);
	}
	else if ( op == "seek" )    { s64 r = file_seek(& F[s], t.i(2)); j.i("s", s).i("off", t.i(2)).i("ret", r).i("pos", file_tell(& F[s])); }
	else if ( op == "seekend" ) { s64 r = file_seek_to_end(& F[s]); j.i("s", s).i("ret", r).i("pos", file_tell(& F[s])); }
	else if ( op == "size" )    { s64 r = file_size(& F[s]); j.i("s", s).i("ret", r).i("pos", file_tell(& F[s])); }
	else if ( op == "buf" )     { ssize n = -1; u8* p = file_stream_buf(& F[s], & n); j.i("s", s).bytes("data", p, n < 0 ? 0 : n); }
	else if ( op == "close" )   { FileError e = file_close(& F[s]); isopen[s] = false; free(backing[s]); backing[s] = nullptr; j.i("s", s).s("ret", err(e)); }
	else if ( op == "contents" ) { // path zero fault
		fault(t.i(3), false); FileContents c = file_read_contents(heap(), t.i(2), t.t[1].c_str()); nofault();
		j.s("path", t.t[1]).bo("zero", t.i(2)).i("fault", t.i(3)).bo("has", c.data != nullptr).i("size", c.size);
		if ( c.data ) { j.bytes("data", c.data, c.size).bo("term", t.i(2) && ((char*) c.data)[c.size] == 0); allocator_free(heap(), c.data); }
	}
	else if ( op == "bopen" ) { // path fault
		fault(t.i(2), true); B = builder_open(t.t[1].c_str()); nofault(); bopen = t.i(2) == 0;
		j.s("path", t.t[1]).i("fault", t.i(2)).bo("reported", logged(t.t[1].c_str()));
	}
	else if ( op == "bpad" ) { builder_pad_lines(& B, t.i(1)); j.i("n", t.i(1)); }
	else if ( op == "bprint" ) {
		Code c = t.t[1] == "newline" ? Code(fmt_newline) : t.t[1] == "comment" ? (Code) def_comment(Str { t.s(2).c_str(), (ssize) t.s(2).size() }) : untyped_str(cache_str(Str { strdup(t.s(2).c_str()), (ssize) t.s(2).size() }));
		StrBuilder x = code_to_strbuilder(c); j.bytes("text", x.Data, strbuilder_length(x));
		#if ! GEN_C_LIKE_CPP
		if ( t.i(3) ) B.print(c); else
		#endif
		builder_print(& B, c);
	}
	else if ( op == "bfmt" ) { // text number
		std::string a = t.s(1); std::string w = a + ":" + std::to_string(t.i(2)) + ";"; 
		#if ! GEN_C_LIKE_CPP
		if ( t.i(2) % 2 ) B.print_fmt("%s:%d;", a.c_str(), (int) t.i(2)); else
		#endif
		pfmt(& B, "%s:%d;", a.c_str(), (int) t.i(2));
		j.bytes("text", w.data(), w.size());
	}
	else if ( op == "bwrite" ) {
		fault(t.i(1), false); std::string name = B.File.filename;
		#if ! GEN_C_LIKE_CPP
		if ( t.i(1) == 0 ) B.write(); else
		#endif
		builder_write(& B);
		nofault(); bopen = false; std::string lg(vf_log_text, vf_log_len);
		j.i("fault", t.i(1)).bo("reported", lg.find("ailed to write") != std::string::npos);
	}
	else if ( op == "mk" ) { FILE* f = fopen(t.t[1].c_str(), "wb"); std::string d = t.s(2); fwrite(d.data(), 1, d.size(), f); fclose(f); j = J(); j.s("op", "mk").s("path", t.t[1]).bytes("data", d.data(), d.size()); }
	else if ( op == "scan" ) { // path fault; in a child, because a file that cannot be read ends the process
		struct Sh { int st; int log; ssize n; char d[200000]; };
		static Sh* sh; if ( ! sh ) sh = (Sh*) mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		memset(sh, 0, 64); fault(t.i(2), false); vf_log_len = 0; fflush(vf_out);
		pid_t p = fork();
		if ( p == 0 ) {
			char const* path = t.t[1].c_str();
			atexit([]{}); // process_exit ends the child through _exit with the log unread, so the parent looks at stderr's copy below
			Code c = scan_file(path);
			if ( ! c || c->Type == CT_Invalid ) sh->st = 2;
			else { sh->st = c->Type == CT_Untyped ? 1 : 3; sh->n = c->Content.Len; memcpy(sh->d, c->Content.Ptr, sh->n < 200000 ? sh->n : 200000); }
			sh->log = vf_open_handles; _exit(0);
		}
		int w = 0; waitpid(p, & w, 0); nofault();
		char const* st = WIFEXITED(w) && WEXITSTATUS(w) == 0 ? (sh->st == 1 ? "ok" : sh->st == 2 ? "invalid" : "type") : WIFEXITED(w) && WEXITSTATUS(w) == 1 ? "refused" : "died";
		j.s("path", t.t[1]).i("fault", t.i(2)).s("status", st).bo("reported", WIFEXITED(w) && WEXITSTATUS(w) == 1);
		if ( sh->st == 1 ) j.bytes("data", sh->d, sh->n).i("leaked", sh->log - vf_open_handles);
	}
	observe(j); vf_emit(j);
}
int main(int c, char** v) { return vf_main(c, v); }
