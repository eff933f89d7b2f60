// Generic executor of real functions on explicit memory images (used to replay counterexamples and
// to validate the contracts on the compiled library).  No knowledge of the library is built in.
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dlfcn.h>
#include <link.h>
#include <wchar.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <vector>
#include <string>
#include <cxxabi.h>
#include <typeinfo>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>

typedef uint64_t u64;
typedef uint32_t u32;
struct Rd {
	const unsigned char* p; const unsigned char* e;
	u32 w() { u32 v; memcpy(&v, p, 4); p += 4; return v; }
	u64 q() { u64 v; memcpy(&v, p, 8); p += 8; return v; }
	std::string s() { u32 n = w(); std::string r((const char*)p, n); p += n; return r; }
	const unsigned char* bytes(u32 n) { const unsigned char* r = p; p += n; return r; }
};
static int outfd;
static std::string out;
static void ow(u32 v) { out.append((char*)&v, 4); }
static void oq(u64 v) { out.append((char*)&v, 8); }
static void os(const std::string& s) { ow(s.size()); out += s; }
static void flush() { size_t o = 0; while (o < out.size()) { ssize_t k = write(outfd, out.data() + o, out.size() - o); if (k <= 0) _exit(3); o += k; } out.clear(); }

static void* sym(const std::string& n) { return dlsym(RTLD_DEFAULT, n.c_str()); }
struct Blk { u32 id; char* p; u64 size; bool stat; };
typedef u64(*FnI)(u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double, u64, u64, u64, u64, u64, u64);
typedef double(*FnD)(u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double, u64, u64, u64, u64, u64, u64);

static void describe(u64 v, const std::vector<Blk>& bl)
{
	// 0: plain number, 1: block+offset, 2: symbol+offset
	for (auto& b : bl)
		if (v >= (u64)b.p && v < (u64)b.p + (b.size ? b.size : 1)) { ow(1); ow(b.id); oq(v - (u64)b.p); return; }
	Dl_info di;
	if (v > 4096 && dladdr((void*)v, &di) && di.dli_sname && di.dli_saddr) { ow(2); os(di.dli_sname); oq(v - (u64)di.dli_saddr); return; }
	for (auto& b : bl)
		if (v == (u64)b.p + b.size) { ow(1); ow(b.id); oq(v - (u64)b.p); return; }
	ow(0); oq(v);
}

// an object with a vtable in static storage, or a wide literal it points to
static __attribute__((no_sanitize("address"))) void adoptstatic(u64 v, std::vector<Blk>& bl, u32& next, bool literal)
{
	extern char __executable_start, _end;
	if (v < (u64)&__executable_start || v + 8 > (u64)&_end) return;
	Dl_info di; ElfW(Sym)* sy = 0;
	if (!dladdr1((void*)v, &di, (void**)&sy, RTLD_DL_SYMENT)) return;
	if (di.dli_sname && sy && (u64)di.dli_saddr == v) {
		u64 w; memcpy(&w, (void*)v, 8);
		Dl_info d2;
		if (ELF64_ST_TYPE(sy->st_info) != STT_OBJECT || sy->st_size < 8 || !dladdr((void*)w, &d2) || !d2.dli_sname || strncmp(d2.dli_sname, "_ZTV", 4) || !strncmp(di.dli_sname, "_ZT", 3)) return;
		char nm[8]; void* ra = 0; size_t rz = 0;
		__asan_locate_address((void*)v, nm, sizeof nm, &ra, &rz);
		if (ra != (void*)v || rz < 8) return;
		Blk b = { next++, (char*)v, rz, true };
		bl.push_back(b);
	} else if (literal && !di.dli_sname) {
		u64 n = 0;
		while (n < 4096 && ((volatile wchar_t*)v)[n]) n++;
		Blk b = { next++, (char*)v, (n + 1) * 4, false };
		bl.push_back(b);
	}
}

static void adopt(u64 v, std::vector<Blk>& bl, u32& next, bool literal = false)
{
	if (v < 4096 || (v & 3)) return;
	for (auto& b : bl) if (v >= (u64)b.p && v < (u64)b.p + (b.size ? b.size : 1)) return;
	if (!__sanitizer_get_ownership((void*)v)) { adoptstatic(v, bl, next, literal); return; }
	Blk b = { next++, (char*)v, __sanitizer_get_allocated_size((void*)v), false };
	bl.push_back(b);
}

static int runcase(Rd& r)
{
	u32 id = r.w();
	std::string fn = r.s();
	u32 ret = r.w();
	u32 nb = r.w();
	std::vector<Blk> bl;
	struct Rel { u32 b; u32 off; u32 kind; u32 tgt; std::string s; u64 add; };
	std::vector<Rel> rels;
	u32 next = 1;
	for (u32 i = 0; i < nb; i++) {
		Blk b; b.id = r.w(); b.size = r.w(); b.stat = false;
		const unsigned char* d = r.bytes(b.size);
		b.p = (char*)malloc(b.size);
		memcpy(b.p, d, b.size);
		bl.push_back(b);
		if (b.id >= next) next = b.id + 1;
		u32 nr = r.w();
		for (u32 j = 0; j < nr; j++) {
			Rel x; x.b = i; x.off = r.w(); x.kind = r.w();
			if (x.kind == 1) x.tgt = r.w(); else x.s = r.s();
			x.add = r.q();
			rels.push_back(x);
		}
	}
	auto addr = [&](u32 kind, u32 tgt, const std::string& s, u64 add) -> u64 {
		if (kind == 1) { for (auto& b : bl) if (b.id == tgt) return (u64)b.p + add; return 0; }
		u64 a = (u64)sym(s); if (!a) { fprintf(stderr, "missing symbol %s\n", s.c_str()); _exit(90); } return a + add; };
	for (auto& x : rels) { u64 a = addr(x.kind, x.tgt, x.s, x.add); memcpy(bl[x.b].p + x.off, &a, 8); }
	void* ga[16]; u32 gz[16]; u64 gv[16], go[16];
	u32 ng = r.w();
	for (u32 i = 0; i < ng; i++) {
		std::string s = r.s(); u32 sz = r.w(); u32 kind = r.w(); u64 v;
		if (kind == 0) v = r.q(); else { u32 t = kind == 1 ? r.w() : 0; std::string q = kind == 2 ? r.s() : ""; u64 add = r.q(); v = addr(kind, t, q, add); }
		void* a = sym(s); if (!a || i >= 16) _exit(90);
		ga[i] = a; gz[i] = sz; gv[i] = v;
	}
	u32 na = r.w();
	u64 I[12] = { 0 }; u64 D[8] = { 0 }; int ni = 0, nd = 0;
	for (u32 i = 0; i < na; i++) {
		u32 kind = r.w();
		if (kind == 3) { u64 v = r.q(); if (nd < 8) D[nd++] = v; continue; }
		u64 v;
		if (kind == 0) v = r.q();
		else { u32 t = kind == 1 ? r.w() : 0; std::string q = kind == 2 ? r.s() : ""; u64 add = r.q(); v = addr(kind, t, q, add); }
		if (ni < 12) I[ni++] = v;
	}
	u32 nro = r.w();
	std::vector<std::pair<std::string, u32> > ro;
	for (u32 i = 0; i < nro; i++) { std::string s = r.s(); u32 n = r.w(); ro.push_back(std::make_pair(s, n)); }
	void* f = sym(fn);
	if (!f) { fprintf(stderr, "missing function %s\n", fn.c_str()); _exit(90); }
	double d[8]; memcpy(d, D, sizeof d);
	u64 rv = 0; std::string exc;
	struct itimerval tv = { {0, 0}, {4, 0} };
	setitimer(ITIMER_REAL, &tv, 0);
	const char* ex = 0;
	// globals have their case values only during the call
	for (u32 i = 0; i < ng; i++) { memcpy(&go[i], ga[i], gz[i]); memcpy(ga[i], &gv[i], gz[i]); }
	try {
		if (ret == 3) { double x = ((FnD)f)(I[0], I[1], I[2], I[3], I[4], I[5], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], I[6], I[7], I[8], I[9], I[10], I[11]); memcpy(&rv, &x, 8); }
		else rv = ((FnI)f)(I[0], I[1], I[2], I[3], I[4], I[5], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], I[6], I[7], I[8], I[9], I[10], I[11]);
	}
	catch (...) {
		std::type_info* t = abi::__cxa_current_exception_type();
		ex = t ? t->name() : "?";
	}
	for (u32 i = 0; i < ng; i++) { gv[i] = 0; memcpy(&gv[i], ga[i], gz[i]); memcpy(ga[i], &go[i], gz[i]); }
	if (ex) exc = ex;
	struct itimerval t0 = { {0, 0}, {0, 0} };
	setitimer(ITIMER_REAL, &t0, 0);
	ow(0x52455355); ow(id); os(exc); oq(rv);
	u32 npre = bl.size();
	adopt(rv, bl, next);
	for (u32 i = 0; i < ng; i++) if (gz[i] == 8) adopt(gv[i], bl, next);
	std::string body; u32 count = 0; std::string keep;
	for (size_t i = 0; i < bl.size() && i < 400; i++) {
		Blk b = bl[i];
		keep.swap(out); out.clear();
		bool alive = i >= npre || (__sanitizer_get_ownership(b.p) != 0);
		ow(b.id); ow(alive); ow(alive ? b.size : 0);
		if (alive) {
			out.append(b.p, b.size);
			std::string rs; u32 nr = 0;
			std::string k2; k2.swap(out);
			for (u64 o = 0; o + 8 <= b.size; o += 8) {
				u64 v; memcpy(&v, b.p + o, 8);
				if (v < 65536 || v >> 47) continue;
				adopt(v, bl, next, b.stat || i >= npre);
				size_t before = out.size();
				ow(o); size_t kpos = out.size();
				describe(v, bl);
				u32 kind; memcpy(&kind, out.data() + kpos, 4);
				if (kind == 0) out.resize(before); else nr++;
			}
			k2.swap(out);
			ow(nr); out += k2;
		}
		body += out; count++;
		out.swap(keep);
	}
	describe(rv, bl);
	ow(count); out += body;
	ow(ro.size());
	if (ro.size() != ng) _exit(90);
	for (u32 i = 0; i < ng; i++) { oq(gv[i]); describe(gv[i], bl); }
	ow(0x454e4421);
	flush();
	for (u32 i = 0; i < npre; i++) if (__sanitizer_get_ownership(bl[i].p)) free(bl[i].p);
	return 0;
}

int main(int argc, char** argv)
{
	int fd = open(argv[1], O_RDONLY);
	off_t n = lseek(fd, 0, SEEK_END);
	unsigned char* base = (unsigned char*)mmap(0, n, PROT_READ, MAP_PRIVATE, fd, 0);
	outfd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0600);
	bool isolate = argc > 4 && argv[4][0] == '1';
	Rd r = { base, base + n };
	u32 total = r.w();
	std::vector<const unsigned char*> pos; std::vector<u32> len;
	for (u32 i = 0; i < total; i++) { u32 k = r.w(); pos.push_back(r.p); len.push_back(k); r.p += k; }
	volatile u32* done = (u32*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	u32 i = 0;
	while (i < total) {
		std::string log = std::string(argv[3]);
		*done = i;
		pid_t c = fork();
		if (c == 0) {
			int lf = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
			dup2(lf, 2); dup2(lf, 1);
			for (u32 k = i; k < total; k++) {
				Rd q = { pos[k], pos[k] + len[k] };
				*done = k;
				runcase(q);
				*done = k + 1;
				if (isolate) break;
			}
			_exit(0);
		}
		int st = 0;
		waitpid(c, &st, 0);
		u32 k = *done;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { i = k; continue; }
		// the case k killed the process
		std::string txt;
		int lf = open(log.c_str(), O_RDONLY);
		char buf[6000]; ssize_t m = lf >= 0 ? read(lf, buf, sizeof buf) : 0;
		if (lf >= 0) close(lf);
		if (m > 0) txt.assign(buf, m);
		ow(0x44454144); Rd q = { pos[k], pos[k] + 4 }; ow(q.w());
		ow(WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st)); os(txt);
		ow(0x454e4421);
		lseek(outfd, 0, SEEK_END);
		flush();
		i = k + 1;
	}
	return 0;
}
