// The library under test, as a single translation unit. VF_VARIANT selects how it is consumed.
#pragma once
#include "prelude.hpp"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS
#define GEN_ENFORCE_STRONG_CODE_TYPES
#if ! defined(VF_FATAL)
#define GEN_DONT_USE_FATAL  // refusals return the invalid node instead of ending the process
#endif
#if defined(VF_CLIKE)
#define GEN_C_LIKE_CPP 1
#endif
#if defined(VF_SINGLE)
#define GEN_IMPLEMENTATION
#include "gen.hpp"
#elif defined(VF_SEGMENTED)
#include "gen.cpp"
#include "gen.builder.cpp"
#include "gen.scanner.cpp"
#else
#include "gen.cpp"
#endif
using namespace gen;
extern "C" { extern int vf_fault_open, vf_fault_write, vf_fault_read; extern long long vf_fault_write_max, vf_fault_read_max, vf_open_handles, vf_vm_live, vf_log_len; extern char vf_log_text[8192]; }
#include "vf.hpp"
