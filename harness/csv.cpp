// Reads a table with csv_parse(_delimiter) and, if it was accepted, writes it back through one of the writers.
#include "lib.hpp"
static std::string by(char const* s) { return J::bytes_of(s, s ? strlen(s) : 0); }
static void vf_reset() { J j; j.s("op", "Reset"); vf_emit(j); }
// csv delim header writer text
static void vf_step(Toks const& t) {
	int d = t.i(1); bool header = t.i(2); std::string w = t.t[3], text = t.s(4);
	char* buf = (char*) malloc(text.size() + 1); memcpy(buf, text.data(), text.size()); buf[text.size()] = 0;
	CSV_Object root; memset(& root, 0, sizeof root);
	u8 err = d == ',' && text.size() % 2 ? csv_parse(& root, buf, heap(), header) : csv_parse_delimiter(& root, buf, heap(), header, (char) d);
	J j; j.s("op", "csv").i("delim", d).bo("header", header).bytes("text", text.data(), text.size());
	j.s("err", err == ECSV_Error__NONE ? "ok" : err == ECSV_Error__UNEXPECTED_END_OF_INPUT ? "eof" : err == ECSV_Error__MISMATCHED_ROWS ? "rows" : "internal");
	j.bo("object", root.type == EADT_TYPE_OBJECT);
	JA names, cols;
	if ( err == ECSV_Error__NONE ) {
		for ( usize c = 0; c < array_num(root.nodes); ++c ) {
			ADT_Node& col = root.nodes[c]; JA cells;
			if ( col.type != EADT_TYPE_ARRAY ) { cols.raw("\"not an array\""); continue; }
			if ( header ) names.raw(by(col.name)); else if ( col.name ) names.raw("\"?\"");
			for ( usize r = 0; r < array_num(col.nodes); ++r ) {
				ADT_Node& n = col.nodes[r];
				J q; q.bo("q", n.name_style == EADT_NAME_STYLE_DOUBLE_QUOTE);
				if ( n.type == EADT_TYPE_STRING ) q.raw("s", by(n.string)); else q.i("type", n.type);
				cells.raw(q.done());
			}
			cols.raw(cells.done());
		}
		std::string out;
		if ( w == "builder" )   { StrBuilder s = csv_write_strbuilder_delimiter(heap(), & root, (char) d); out.assign(s.Data, strbuilder_length(s)); strbuilder_free(& s); }
		else if ( w == "string" && d == ',' ) { StrBuilder s = csv_write_string(heap(), & root); out.assign(s.Data, strbuilder_length(s)); strbuilder_free(& s); }
		else {
			FileInfo fi; memset(& fi, 0, sizeof fi); file_open_mode(& fi, EFileMode_WRITE, "table.csv");
			if ( d == ',' ) csv_write(& fi, & root); else csv_write_delimiter(& fi, & root, (char) d);
			file_close(& fi); FILE* q = fopen("table.csv", "rb"); int c; while ( q && (c = fgetc(q)) != EOF ) out += (char) c; if ( q ) fclose(q);
		}
		j.bytes("out", out.data(), out.size());
	}
	j.raw("names", names.done()).raw("cols", cols.done());
	csv_free(& root); free(buf); vf_emit(j);
}
int main(int c, char** v) { return vf_main(c, v); }
