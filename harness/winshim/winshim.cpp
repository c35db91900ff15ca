#include <setjmp.h>
// Implementation of the handful of Win32 calls the library uses, on top of POSIX, for the verification harness.
// - every file access is confined to $VF_FSROOT (a scratch directory); anything else fails with ACCESS_DENIED.
// - faults can be injected: vf_fault_* globals.
// - console handles go to /dev/null unless $VF_LOG names a file descriptor.
#include "windows.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <string>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>

extern "C" {
// --- fault injection / observation interface used by the drivers ---------------------------------
int       vf_fault_open      = 0;   // next CreateFileW fails with this error code
long long vf_fault_write_max = -1;  // WriteFile accepts at most this many bytes in total, then fails
long long vf_fault_read_max  = -1;  // ReadFile  returns at most this many bytes per call
int       vf_fault_write     = 0;   // WriteFile fails
int       vf_fault_read      = 0;   // ReadFile fails
long long vf_open_handles    = 0;   // currently open file handles
long long vf_vm_live         = 0;   // live VirtualAlloc'ed regions
char      vf_log_text[8192];        // what was last written to the console
long long vf_log_len         = 0;

static DWORD last_error = 0;
static int   log_fd     = -2;
#define STD_BASE 0x10000

static int logfd() {
	if ( log_fd == -2 ) {
		char const* e = getenv("VF_LOG");
		log_fd = e ? atoi(e) : open("/dev/null", O_WRONLY);
	}
	return log_fd;
}
static bool narrow( wchar_t const* wn, std::string& out ) {
	// harness paths are ASCII; wchar_t is 16 bit under -fshort-wchar
	uint16_t const* p = (uint16_t const*) wn;
	if ( ! p ) return false;
	out.clear();
	for ( ; *p; ++p ) { if ( *p > 127 ) return false; out += *p == '\\' ? '/' : (char)*p; }
	return true;
}
static bool confined( std::string const& path ) {
	char const* root = getenv("VF_FSROOT");
	if ( ! root ) return false;
	std::string dir = path.find('/') == std::string::npos ? "." : path.substr(0, path.rfind('/'));
	if ( dir.empty() ) dir = "/";
	char a[PATH_MAX], b[PATH_MAX];
	if ( ! realpath(dir.c_str(), a) || ! realpath(root, b) ) return false;
	size_t n = strlen(b);
	return strncmp(a, b, n) == 0 && ( a[n] == 0 || a[n] == '/' );
}
int MultiByteToWideChar(unsigned, DWORD, char const* s, int n, wchar_t* w, int wn) {
	uint16_t* o = (uint16_t*) w;
	if ( w == nullptr ) return n;
	if ( wn < n ) return 0;
	for ( int i = 0; i < n; ++i ) o[i] = (unsigned char)s[i];
	return n;
}
HANDLE CreateFileW(wchar_t const* name, DWORD access, DWORD, void*, DWORD disp, DWORD, HANDLE) {
	if ( vf_fault_open ) { last_error = vf_fault_open; vf_fault_open = 0; return INVALID_HANDLE_VALUE; }
	std::string path;
	if ( ! narrow(name, path) ) { last_error = 123; return INVALID_HANDLE_VALUE; }
	bool rd = access & GENERIC_READ, wr = access & GENERIC_WRITE;
	if ( ! confined(path) ) { 
		// reading is allowed anywhere (generators read the library's sources); writing only inside the root
		if ( wr ) { last_error = ERROR_ACCESS_DENIED; return INVALID_HANDLE_VALUE; }
	}
	int flags = rd && wr ? O_RDWR : wr ? O_WRONLY : O_RDONLY;
	if ( disp == CREATE_ALWAYS ) flags |= O_CREAT | O_TRUNC;
	if ( disp == OPEN_ALWAYS   ) flags |= O_CREAT;
	struct stat st;
	if ( stat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode) ) { last_error = ERROR_ACCESS_DENIED; return INVALID_HANDLE_VALUE; }
	int fd = open(path.c_str(), flags, 0644);
	if ( fd < 0 ) { last_error = ERROR_FILE_NOT_FOUND; return INVALID_HANDLE_VALUE; }
	vf_open_handles++;
	return (HANDLE)(intptr_t)(fd + 1);
}
static bool is_std(HANDLE h) { return (intptr_t)h >= STD_BASE && (intptr_t)h < STD_BASE + 3; }
static int  fd_of(HANDLE h)  { return (int)(intptr_t)h - 1; }
BOOL SetFilePointerEx(HANDLE h, LARGE_INTEGER off, LARGE_INTEGER* out, DWORD whence) {
	if ( is_std(h) ) { if (out) out->QuadPart = 0; return 1; }
	long long r = lseek(fd_of(h), off.QuadPart, whence);
	if ( r < 0 ) return 0;
	if ( out ) out->QuadPart = r;
	return 1;
}
BOOL ReadFile(HANDLE h, void* buf, DWORD n, DWORD* got, void*) {
	if ( vf_fault_read ) { vf_fault_read = 0; return 0; }
	if ( vf_fault_read_max >= 0 && n > (DWORD)vf_fault_read_max ) n = (DWORD)vf_fault_read_max;
	ssize_t r = is_std(h) ? 0 : read(fd_of(h), buf, n);
	if ( r < 0 ) return 0;
	*got = (DWORD)r;
	return 1;
}
BOOL WriteFile(HANDLE h, void const* buf, DWORD n, DWORD* put, void*) {
	if ( is_std(h) ) {
		for ( DWORD i = 0; i < n && vf_log_len < (long long) sizeof vf_log_text; ++i ) vf_log_text[vf_log_len++] = ((char const*) buf)[i];
		if ( write(logfd(), buf, n) < 0 ) {} *put = n; return 1;
	}
	if ( vf_fault_write ) { vf_fault_write = 0; return 0; }
	if ( vf_fault_write_max >= 0 ) {
		if ( vf_fault_write_max == 0 && n > 0 ) return 0;
		if ( n > (DWORD)vf_fault_write_max ) n = (DWORD)vf_fault_write_max;
		vf_fault_write_max -= n;
	}
	ssize_t r = write(fd_of(h), buf, n);
	if ( r < 0 ) return 0;
	*put = (DWORD)r;
	return 1;
}
BOOL CloseHandle(HANDLE h) {
	if ( is_std(h) || h == INVALID_HANDLE_VALUE || h == nullptr ) return 1;
	if ( close(fd_of(h)) == 0 ) { vf_open_handles--; return 1; }
	return 0;
}
HANDLE GetStdHandle(DWORD w) { return (HANDLE)(intptr_t)(STD_BASE + (int)(-10 - (int)w)); }
DWORD  GetLastError(void) { return last_error; }
void*  vf_exit_jmp; // where to continue when the library ends the process
void   ExitProcess(DWORD c) { fflush(nullptr); if ( vf_exit_jmp ) { void* j = vf_exit_jmp; vf_exit_jmp = nullptr; longjmp(*(jmp_buf*) j, 1); } _exit(c); }
void*  VirtualAlloc(void* a, size_t n, DWORD type, DWORD) {
	if ( type & MEM_RESET ) return a;
	void* p = mmap(a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if ( p == MAP_FAILED ) return nullptr;
	vf_vm_live++;
	return p;
}
BOOL   VirtualFree(void*, size_t, DWORD) { vf_vm_live--; return 1; }
size_t VirtualQuery(void const* a, MEMORY_BASIC_INFORMATION* i, size_t n) { memset(i, 0, n); i->BaseAddress = (void*)a; i->AllocationBase = (void*)a; i->State = MEM_COMMIT; return n; }
void   GetSystemInfo(SYSTEM_INFO* si) { si->dwPageSize = 4096; si->dwAllocationGranularity = 65536; }
void*  _aligned_malloc(size_t n, size_t al) { void* p = nullptr; if ( al < sizeof(void*) ) al = sizeof(void*); return posix_memalign(&p, al, n ? n : 1) == 0 ? p : nullptr; }
void   _aligned_free(void* p) { free(p); }
}
