// A C++ tokenizer of its own: the lexemes of a text. Comments and white space are nothing; a directive's lexemes are followed by "<nl>".
// '>' is always a lexeme of its own (closing template argument lists); "@(" is a parenthesis right after the name in a #define.
#pragma once
static bool lex_word(unsigned char c) { return isalnum(c) || c == '_' || c >= 128 || c == '$'; }
static std::vector<std::string> lexemes(std::string const& s) {
	static char const* ops[] = { "...", "<<=", "->*", "::", "->", "++", "--", "<<", "<=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "##" };
	std::vector<std::string> r; size_t i = 0, n = s.size(); bool line = true, dir = false; size_t at = 0;
	while ( i < n ) {
		char c = s[i];
		if ( c == '\\' && i + 1 < n && (s[i + 1] == '\n' || s[i + 1] == '\r' && i + 2 < n && s[i + 2] == '\n') ) { i += s[i + 1] == '\n' ? 2 : 3; continue; }
		if ( c == '\n' ) { if ( dir ) r.push_back("<nl>"); dir = false; line = true; ++i; continue; }
		if ( isspace((unsigned char) c) ) { ++i; continue; }
		if ( c == '/' && i + 1 < n && s[i + 1] == '/' ) { while ( i < n && s[i] != '\n' ) ++i; continue; }
		if ( c == '/' && i + 1 < n && s[i + 1] == '*' ) { size_t e = s.find("*/", i + 2); i = e == std::string::npos ? n : e + 2; continue; }
		if ( c == '#' && line ) { dir = true; line = false; at = r.size(); r.push_back("#"); ++i; continue; }
		line = false;
		if ( c == '"' || c == '\'' ) { size_t b = i++; while ( i < n && s[i] != c && s[i] != '\n' ) i += s[i] == '\\' ? 2 : 1; if ( i < n ) ++i; if ( i > n ) i = n; r.push_back(s.substr(b, i - b)); continue; }
		if ( isdigit((unsigned char) c) || c == '.' && i + 1 < n && isdigit((unsigned char) s[i + 1]) ) {
			size_t b = i++; while ( i < n && (lex_word(s[i]) || s[i] == '.' || s[i] == '\'' || (s[i] == '+' || s[i] == '-') && strchr("eEpP", s[i - 1])) ) ++i;
			r.push_back(s.substr(b, i - b)); continue; }
		if ( lex_word(c) ) { size_t b = i; while ( i < n && lex_word(s[i]) ) ++i; r.push_back(s.substr(b, i - b)); continue; }
		if ( c == '(' && dir && r.size() == at + 3 && r[at + 1] == "define" && i && lex_word(s[i - 1]) ) { r.push_back("@("); ++i; continue; }
		bool got = false; for ( auto o : ops ) if ( s.compare(i, strlen(o), o) == 0 ) { r.push_back(o); i += strlen(o); got = true; break; }
		if ( got ) continue;
		r.push_back(std::string(1, c)); ++i;
	}
	if ( dir ) r.push_back("<nl>");
	return r;
}
static std::string lexemes_json(std::string const& s) { JA a; for ( auto& x : lexemes(s) ) a.s(x); return a.done(); }
static std::string lexicon(std::set<std::string> const& ts) { J j; j.i(" ", 0); for ( auto& t : ts ) if ( ! t.empty() ) { std::string k = J::quote(t); j.raw(k.substr(1, k.size() - 2).c_str(), lexemes_json(t)); } return j.done(); }
