// Drives every entry point of the formatted printer with a format built from pieces.
#include "lib.hpp"
struct Piece { std::string k, mod, text; bool minus, zero; long long width, prec; int star; u64 v; };
static std::vector<std::string> split(std::string const& s, char c) { std::vector<std::string> r(1); for ( char x : s ) if ( x == c ) r.emplace_back(); else r.back() += x; return r; }
static std::string unhex(std::string const& v) { Toks t; t.t.push_back(v); return t.s(0); }
static StrBuilder keep[64]; static int nkeep; static std::vector<char*> cstrs;
static AllocatorInfo H() { return heap(); }
static void vf_reset() { J j; j.s("op", "Reset"); vf_emit(j); }
static std::string by(std::string const& s) { return J::bytes_of(s.data(), s.size()); }
static void vf_step(Toks const& t) {
	std::string entry = t.t[1]; long long cap = 512; if ( size_t at = entry.find(':'); at != std::string::npos ) { cap = atoll(entry.c_str() + at + 1); entry.resize(at); }
	std::string before = t.s(2);
	std::vector<Piece> ps; JA ds;
	for ( size_t k = 3; k < t.n(); ++k ) {
		std::vector<std::string> f = split(t.t[k], '/'); Piece p;
		p.k = f[0]; p.minus = f[1] == "1"; p.zero = f[2] == "1"; p.width = atoll(f[3].c_str()); p.prec = atoll(f[4].c_str()); p.mod = f[5]; p.star = atoi(f[6].c_str());
		p.text = unhex(f[7]); p.v = strtoull(f[8].c_str(), nullptr, 10); if ( p.k == "PC" ) p.k = "%";
		ps.push_back(p);
		JA l; for ( int q = 3; q >= 0; --q ) l.i((p.v >> (16 * q)) & 0xffff);
		J j; j.s("k", p.k).bo("minus", p.minus).bo("zero", p.zero).i("width", p.width).i("prec", p.prec).s("mod", p.mod).raw("text", by(p.text)).raw("v", l.done());
		ds.raw(j.done());
	}
	std::string fmt; std::vector<u64> args; nkeep = 0; std::vector<char*> owned;
	for ( Piece& p : ps ) {
		if ( p.k == "lit" ) { fmt += p.text; continue; }
		fmt += '%'; bool negstar = p.star && p.minus;
		if ( p.minus && ! negstar ) fmt += '-';
		if ( p.zero ) fmt += '0';
		if ( p.width >= 0 ) { if ( p.star ) { fmt += '*'; args.push_back((u64)(s64)(int)(negstar ? -p.width : p.width)); } else fmt += std::to_string(p.width); }
		if ( p.prec >= 0 ) { fmt += '.'; if ( p.star ) { fmt += '*'; args.push_back(p.prec); } else fmt += std::to_string(p.prec); }
		fmt += p.mod; fmt += p.k;
		char* c = (char*) malloc(p.text.size() + 1); memcpy(c, p.text.data(), p.text.size()); c[p.text.size()] = 0; owned.push_back(c);
		if ( p.k == "s" ) args.push_back((u64) c);
		else if ( p.k == "S" ) { char* e = (char*) malloc(p.text.size() + (p.text.empty())); memcpy(e, p.text.data(), p.text.size()); owned.push_back(e); args.push_back((u64) e); args.push_back(p.text.size()); }
		else if ( p.k == "SB" ) { keep[nkeep] = strbuilder_make_length(H(), p.text.data(), p.text.size()); args.push_back((u64) keep[nkeep].Data); nkeep++; }
		else if ( p.k == "c" || p.k == "r" ) args.push_back((unsigned char) p.text[0]);
		else if ( p.k == "%" ) {}
		else args.push_back(p.v);
	}
	args.resize(args.size() + 12);
	// a System V va_list whose register area is used up: everything comes from `args`
	va_list va; struct VL { unsigned gp, fp; void* over; void* reg; }; VL* vl = (VL*) va; vl->gp = 48; vl->fp = 176; vl->over = args.data(); vl->reg = nullptr;
	u64* A = args.data(); char const* f = fmt.c_str();
	J j; std::string out; long long ret = 0; int term = 0; long long room = 1 << 20;
	char* buf = (char*) malloc(cap); memset(buf, 0xEE, cap); owned.push_back(buf); // what is past its end is not the printer's
	#if GEN_C_LIKE_CPP
	entry = entry[0] == 'm' ? entry.substr(1) : entry; // no members
	#endif
	#define ARGS A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8], A[9]
	StrBuilder sb = { nullptr }; bool app = false;
	if ( entry == "va" )       { ret = c_str_fmt_va(buf, cap, f, va); out.assign(buf, strnlen(buf, cap)); term = (long long) out.size() == cap; room = cap; }
	else if ( entry == "buf" ) { char* b = c_str_fmt_buf_va(f, va); out = b; ret = out.size() + 1; room = 131072; }
	else if ( entry == "file" ) {
		FileInfo fi; file_open_mode(& fi, EFileMode_WRITE, "fmt.txt"); ret = c_str_fmt_file_va(& fi, f, va); file_close(& fi);
		FILE* q = fopen("fmt.txt", "rb"); char c; while ( fread(& c, 1, 1, q) == 1 ) out += c; fclose(q);
	}
	else if ( entry == "fmt" ) { ret = c_str_fmt(buf, cap, f, ARGS); out.assign(buf, strnlen(buf, cap)); term = (long long) out.size() == cap; room = cap; }
	else if ( entry == "sbfmt" )    { sb = strbuilder_fmt(H(), buf, cap, f, ARGS); room = cap; }
	else if ( entry == "sbfmtbuf" ) sb = strbuilder_fmt_buf(H(), f, ARGS);
	else if ( entry == "append" ) { app = true; sb = strbuilder_make_length(H(), before.data(), before.size()); if ( ! strbuilder_append_fmt(& sb, f, ARGS) ) out = "!"; }
	#if ! GEN_C_LIKE_CPP
	else if ( entry == "msbfmt" )    { sb = StrBuilder::fmt(H(), buf, cap, f, ARGS); room = cap; }
	else if ( entry == "msbfmtbuf" ) sb = StrBuilder::fmt_buf(H(), f, ARGS);
	else if ( entry == "mappend" ) { app = true; sb = strbuilder_make_length(H(), before.data(), before.size()); if ( ! sb.append_fmt(f, ARGS) ) out = "!"; }
	#endif
	else abort();
	if ( sb.Data ) { out += std::string((char*)sb, strbuilder_length(sb)); term = sb.Data[strbuilder_length(sb)]; ret = strbuilder_length(sb) + 1; strbuilder_free(& sb); }
	j.s("op", app ? "append" : "fmt").s("entry", entry).s("fmt", fmt).raw("ds", ds.done()).raw("out", by(out)).i("ret", ret).i("cap", room).i("term", term).raw("before", by(before));
	for ( char* c : owned ) free(c);
	for ( int k = 0; k < nkeep; ++k ) strbuilder_free(& keep[k]);
	vf_emit(j);
}
int main(int argc, char** argv) { return vf_main(argc, argv); }
