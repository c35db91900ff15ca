#include "prelude.hpp"
#include <string>
#include <vector>
#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS
#define GEN_ENFORCE_STRONG_CODE_TYPES
#define GEN_DONT_USE_FATAL
#include "gen.cpp"
using namespace gen;
static int failed = 0;
#define EXPECT(...) do { if ( ! (__VA_ARGS__) ) { printf("%s:%d: not so: %s\n", __FILE__, __LINE__, #__VA_ARGS__); failed = 1; } } while (0)
static std::string text(Str s) { return std::string(s.Ptr ? s.Ptr : "", s.Len); }
static std::string show(Code c) { StrBuilder b = code_to_strbuilder(c); return std::string(b, strbuilder_length(b)); }
static void start(Context* c) { c->InitSize_Fallback_Allocator_Bucket_Size = 1 << 26; init(c); }
static Str lit(std::string const& s) { char* p = (char*) calloc(1, s.size() + 8); memcpy(p, s.data(), s.size()); return Str { p, (ssize) s.size() }; }
