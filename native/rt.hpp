// Runtime of the native replay: opaque element operations with a lifetime registry, recorded user callables,
// tracked allocation, injected failures. The replayed call runs the real headers under AddressSanitizer.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <vector>
#include <sstream>
#include <string>
#include <exception>
#include <typeinfo>
#include <new>
#include <cxxabi.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>
using u64 = unsigned long;
struct User {};
namespace rt {
struct Ent { int code; u64 size; u64 tok; };
struct Blk { char * p; u64 size; std::string fam; bool alive, heap; long id; bool big = false; };
struct Range { u64 p, n, s; int code; };   // live elements of a huge object; touching one of them ends the replay
inline std::map<u64, Ent> reg; inline std::vector<Blk> blks; inline std::vector<Range> ranges;
inline bool on = false; inline long throw_at = -1, fail_at = -1, nops = 0, nallocs = 0; inline u64 freshn = 0, result = 0x5151; inline u64 resref = 0;
inline FILE * out; inline std::map<std::string, std::map<std::vector<u64>, u64>> tab; inline std::map<std::string, u64> tabelse;
struct Off { bool s; Off() : s(on) { on = false; } ~Off() { on = s; } };
inline u64 fresh() { return 0xF000000000000000ul + 0x101 * ++freshn; }
inline u64 look(const std::string & t, std::vector<u64> k) { auto & m = tab[t]; auto i = m.find(k); return i != m.end() ? i->second : tabelse[t]; }
[[noreturn]] inline void viol(const char * cat, const char * msg) { on = false; fprintf(out, "VIOL %s %s\n", cat, msg); fclose(out); _exit(0); }
[[noreturn]] inline void giveup() { on = false; fprintf(out, "NOREPLAY element of a huge object\n"); fclose(out); _exit(0); }
inline void huge(u64 a, u64 n) { for(auto & r : ranges) if(a < r.p + r.n * r.s && r.p < a + n) giveup(); }
inline Blk * blk(void * p) { for(auto i = blks.rbegin(); i != blks.rend(); ++i) if(i->p == p) return &*i; return nullptr; }
inline void access(u64 a, u64 n, const char * what) {
	if(a < 4096) viol("mem", what);
	if(__asan_region_is_poisoned(reinterpret_cast<void *>(a), n)) viol("mem", what);
}
// the bytes of a live element: they depend on its address and belong to the element alone
inline unsigned char canary(u64 a) { u64 x = a * 0x9E3779B97F4A7C15ul; return (unsigned char)(x >> 56 ^ x >> 40); }
inline void fill(u64 a, u64 n) { for(u64 i = 0; i < n; ++i) reinterpret_cast<unsigned char *>(a)[i] = canary(a + i); }
inline void intact(u64 a, u64 n) { for(u64 i = 0; i < n; ++i) if(reinterpret_cast<unsigned char *>(a)[i] != canary(a + i)) viol("life", "the bytes of a live element were changed"); }
inline void construct(u64 a, int code, u64 size, u64 tok) {
	access(a, size, "construction outside of accessible memory"); huge(a, size);
	auto i = reg.upper_bound(a);
	if(i != reg.end() && i->first < a + size) viol("life", "construction over a live element");
	if(i != reg.begin()) { --i; if(i->first + i->second.size > a) viol("life", "construction over a live element"); }
	reg[a] = Ent{code, size, tok}; fill(a, size);
}
inline Ent & live(u64 a, int code, const char * what) {
	huge(a, 1); auto i = reg.find(a); if(i == reg.end() || i->second.code != code) viol("life", what);
	access(a, i->second.size, "element in released memory"); intact(a, i->second.size);
	return i->second;
}
inline void may_throw(bool t) { if(t && nops++ == throw_at) throw User{}; }
inline void ctor_copy(u64 d, u64 s, int code, u64 size, bool thr) { Off o; u64 t = live(s, code, "copy construction from something that is not alive").tok; may_throw(thr); construct(d, code, size, t); }
inline void ctor_move(u64 d, u64 s, int code, u64 size, bool thr) { Off o; Ent & e = live(s, code, "move construction from something that is not alive"); may_throw(thr); u64 t = e.tok; construct(d, code, size, t); reg[s].tok = fresh(); }
inline void ctor_val(u64 d, u64 tok, int code, u64 size, bool thr) { Off o; may_throw(thr); construct(d, code, size, tok); }
inline void plain_val(u64 d, u64 tok, bool thr) { Off o; may_throw(thr); access(d, 8, "construction outside of accessible memory"); memcpy(reinterpret_cast<void *>(d), &tok, 8); }
inline void destroy(u64 d, int code) { Off o; Ent & e = live(d, code, "destruction of something that is not alive"); memset(reinterpret_cast<void *>(d), 0xDD, e.size); reg.erase(d); }
inline u64 asg_copy(u64 d, u64 s, int code, bool thr) { Off o; u64 t = live(s, code, "copy assignment from something that is not alive").tok; Ent & e = live(d, code, "assignment to something that is not alive"); if(thr && nops++ == throw_at) { e.tok = fresh(); throw User{}; } e.tok = t; return d; }
inline u64 asg_move(u64 d, u64 s, int code, bool thr) { Off o; u64 t = live(s, code, "move assignment from something that is not alive").tok; Ent & e = live(d, code, "assignment to something that is not alive"); may_throw(thr); e.tok = t; reg[s].tok = fresh(); return d; }
inline u64 asg_val(u64 d, u64 tok, int code, bool thr) { Off o; Ent & e = live(d, code, "assignment to something that is not alive"); if(thr && nops++ == throw_at) { e.tok = fresh(); throw User{}; } e.tok = tok; return d; }
inline void swp(u64 a, u64 b, int code) { Off o; Ent & x = live(a, code, "swap of something that is not alive"); Ent & y = live(b, code, "swap of something that is not alive"); std::swap(x.tok, y.tok); }
inline u64 rel(const char * t, u64 a, u64 b, int code) { Off o; u64 x = live(a, code, "comparison of something that is not alive").tok, y = live(b, code, "comparison of something that is not alive").tok; return look(t, {x, y}) & 1; }
inline u64 value(u64 a, int code) { Off o; return live(a, code, "argument is not alive").tok; }
inline u64 value_m(u64 a, int code) { Off o; Ent & e = live(a, code, "argument is not alive"); u64 t = e.tok; e.tok = fresh(); return t; }
inline u64 prel(const char * t, u64 a, u64 b) { Off o; return look(t, {a, b}) & 1; }
inline u64 dflt(const char * t) { Off o; return look(t, {}); }
inline u64 comb(u64 a, u64 b) { Off o; return look("args2", {a, b}); }
inline u64 fun(const char * t, u64 a) { Off o; return look(t, {a}); }
inline void dump() {
	for(auto & b : blks) {
		fprintf(out, "BLK %ld %d %d %lu %s %lu ", b.id, b.alive, b.heap, b.size, b.fam.c_str(), (u64)b.p);
		if(b.alive && b.size && b.size <= (1ul << 22)) for(u64 i = 0; i < b.size; ++i) fprintf(out, "%02x", (unsigned char)b.p[i]); else fputs("-", out);
		fputc('\n', out);
	}
	for(auto & b : blks) if(b.big && b.alive) {
		std::vector<unsigned char> m((b.size + 4095) / 4096); int left = 64;
		if(mincore(b.p, b.size, m.data())) { fprintf(out, "NOREPLAY mincore\n"); continue; }
		for(u64 i = 0; i < m.size(); ++i) if(m[i] & 1) {
			u64 n = i * 4096 + 4096 <= b.size ? 4096 : b.size - i * 4096; bool any = false; for(u64 j = 0; j < n; ++j) any |= b.p[i * 4096 + j] != 0;
			if(!any) continue;
			if(!left--) { fprintf(out, "NOREPLAY too many pages written\n"); break; }
			fprintf(out, "PG %ld %lu ", b.id, i * 4096); for(u64 j = 0; j < n; ++j) fprintf(out, "%02x", (unsigned char)b.p[i * 4096 + j]); fputc('\n', out);
		}
	}
	for(auto & r : ranges) fprintf(out, "RNG %lu %lu %lu %d\n", r.p, r.n, r.s, r.code);
	for(auto & r : reg) if(!__asan_region_is_poisoned(reinterpret_cast<void *>(r.first), r.second.size)) intact(r.first, r.second.size);
	for(auto & r : reg) fprintf(out, "REG %lu %d %lu %lu\n", r.first, r.second.code, r.second.size, r.second.tok);
}
// a call that reaches user code
inline u64 call(const char * name, bool thr, bool ref, u64 a, u64 b, u64 c, u64 d, u64 e, u64 f, const char * movable, int mcode) {
	Off o; bool t = thr && nops == throw_at; if(thr) ++nops;
	fprintf(out, "CALL %s %lu %lu %lu %lu %lu %lu %d\n", name, a, b, c, d, e, f, t); dump(); fprintf(out, "ENDCALL\n");
	(void)movable; (void)mcode;
	if(t) throw User{};
	return ref ? resref : result;
}
template<int N> struct foreign_t { static inline std::string fam; };
// the stream of the pre-state: a real string stream; mode 0: as it is, 1: blanks in front (to be skipped), 2: already failed
inline u64 stream, ghost; inline int smode, sblank; inline std::istringstream * sin; inline std::ostringstream * sout;
inline void stream_end() {
	if(sin) { int fl = (int)sin->rdstate(); sin->clear(); long pos = (long)sin->tellg() - sblank; if(pos < 0) pos = 0; memcpy((char *)ghost, &pos, 8); memcpy((char *)ghost + 8, &fl, 4); fprintf(out, "EV sentry %d\n", smode != 2); }
	if(sout) { int fl = (int)sout->rdstate(); long z = 0; memcpy((char *)ghost, &z, 8); memcpy((char *)ghost + 8, &fl, 4); for(unsigned char c : sout->str()) fprintf(out, "EV put %d\n", c); }
}
inline void release(void * p, const std::string & fam, const char *) {
	Blk * b = blk(p);
	if(!b) viol("own", "release of memory that was not allocated");
	if(!b->alive) viol("own", "buffer released twice");
	if(!b->heap) viol("own", "release of memory that was not allocated");
	if(b->fam != fam) viol("own", "buffer released with the wrong deallocator");
	for(auto & r : reg) if(r.first >= (u64)p && r.first < (u64)p + b->size) viol("life", "buffer still holds live elements");
	for(auto & r : ranges) if(r.p >= (u64)p && r.p < (u64)p + b->size) viol("life", "buffer still holds live elements");
	b->alive = false; fprintf(out, "EV free %ld %s\n", b->id, fam.c_str());
}
inline long nextid = -1;
inline void * got(void * p, u64 n, const char * fam) { fprintf(out, "EV allocated %ld %lu %s\n", nextid, n, fam); blks.push_back(Blk{(char *)p, n, fam, true, true, nextid--}); return p; }
inline bool want(u64 n, const char * fam) { fprintf(out, "EV alloc %lu %s\n", n, fam); if(nallocs++ == fail_at || n > (1ul << 28)) { fprintf(out, "EV allocfail %lu\n", n); return false; } return true; }
}
extern "C" {
void * __real_malloc(u64); void * __real_calloc(u64, u64); void * __real_realloc(void *, u64); void __real_free(void *);
void * __real__Znwm(u64); void * __real__Znam(u64); void __real__ZdlPv(void *); void __real__ZdaPv(void *);
void * __wrap_malloc(u64 n) { if(!rt::on) return __real_malloc(n); rt::Off o; return rt::want(n, "malloc") ? rt::got(__real_malloc(n), n, "malloc") : nullptr; }
void * __wrap_calloc(u64 a, u64 b) { if(!rt::on) return __real_calloc(a, b); rt::Off o; u64 n; bool ov = __builtin_mul_overflow(a, b, &n); if(ov) { fprintf(rt::out, "EV alloc %lu malloc\n", n); return nullptr; } return rt::want(n, "malloc") ? rt::got(__real_calloc(1, n), n, "malloc") : nullptr; }
void __wrap_free(void * p) { if(!rt::on) return __real_free(p); if(!p) return; rt::Off o; rt::release(p, "malloc", "free"); __real_free(p); }
void * __wrap_realloc(void * p, u64 n) { if(!rt::on) return __real_realloc(p, n); rt::Off o; if(!rt::want(n, "malloc")) return nullptr; void * q = __real_malloc(n); if(p) { rt::Blk * b = rt::blk(p); if(b) memcpy(q, p, b->size < n ? b->size : n); rt::release(p, "malloc", "realloc"); __real_free(p); } return rt::got(q, n, "malloc"); }
void * __wrap__Znwm(u64 n) { if(!rt::on) return __real__Znwm(n); rt::Off o; if(!rt::want(n, "new")) throw std::bad_alloc{}; return rt::got(__real__Znwm(n), n, "new"); }
void * __wrap__Znam(u64 n) { if(!rt::on) return __real__Znam(n); rt::Off o; if(!rt::want(n, "new[]")) throw std::bad_alloc{}; return rt::got(__real__Znam(n), n, "new[]"); }
void * __wrap__ZnwmRKSt9nothrow_t(u64 n, const void *) { if(!rt::on) return __real__Znwm(n); rt::Off o; if(!rt::want(n, "new")) return nullptr; return rt::got(__real__Znwm(n), n, "new"); }
void * __wrap__ZnamRKSt9nothrow_t(u64 n, const void *) { if(!rt::on) return __real__Znam(n); rt::Off o; if(!rt::want(n, "new[]")) return nullptr; return rt::got(__real__Znam(n), n, "new[]"); }
void __wrap__ZdlPv(void * p) { if(!rt::on) return __real__ZdlPv(p); if(!p) return; rt::Off o; rt::release(p, "new", "delete"); __real__ZdlPv(p); }
void __wrap__ZdlPvm(void * p, u64) { __wrap__ZdlPv(p); }
void __wrap__ZdaPv(void * p) { if(!rt::on) return __real__ZdaPv(p); if(!p) return; rt::Off o; rt::release(p, "new[]", "delete[]"); __real__ZdaPv(p); }
u64 __wrap__ZSt11_Hash_bytesPKvmm(u64 p, u64 n, u64 seed) { if(rt::on) { rt::Off o; fprintf(rt::out, "EV hash %lu %lu %lu\n", p, n, seed); } return 0x5151; }
u64 __real__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(u64 s, u64 p, u64 n);
u64 __wrap__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(u64 s, u64 p, u64 n) { if(rt::stream && s == rt::stream) return __real__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(s, p, n); rt::Off o; fprintf(rt::out, "EV ostream %lu %lu %lu\n", s, p, n); return s; }
void __wrap__ZdaPvm(void * p, u64) { __wrap__ZdaPv(p); }
}
namespace rt {
// functions that stand for the stored deallocators and user functions of the pre-state
inline std::string foreign_name[16]; inline int foreign_kind[16];   // 0: deallocator, 1: user function, 2: user function that does not throw, +4: returns a reference
template<int N> u64 foreign(u64 a, u64 b, u64 c, u64 d, u64 e, u64 f) {
	if(foreign_kind[N] == 0) { Off o; release((void *)a, foreign_name[N], "stored deallocator"); if(!blk((void *)a)->big) __real_free((void *)a); else __asan_poison_memory_region((void *)a, 4096); return 0; }
	return call(foreign_name[N].c_str(), (foreign_kind[N] & 3) == 1, foreign_kind[N] & 4, a, b, c, d, e, f, "", 0);
}
using fn6 = u64 (*)(u64, u64, u64, u64, u64, u64);
inline const fn6 foreigns[16] = {foreign<0>, foreign<1>, foreign<2>, foreign<3>, foreign<4>, foreign<5>, foreign<6>, foreign<7>, foreign<8>, foreign<9>, foreign<10>, foreign<11>, foreign<12>, foreign<13>, foreign<14>, foreign<15>};
[[noreturn]] inline void on_terminate() { on = false; fprintf(out, "EXIT terminate\n"); dump(); fclose(out); _exit(0); }
inline u64 addr(long id) { for(auto & b : blks) if(b.id == id) return (u64)b.p; return 0; }
inline int run(int argc, char ** argv) {
	if(argc < 3) return 2;
	FILE * in = fopen(argv[1], "r"); out = fopen(argv[2], "w"); if(!in || !out) return 2;
	std::set_terminate(on_terminate);
	char w[64]; std::vector<u64> args; u64 fn = 0; std::vector<std::pair<u64, std::vector<u64>>> d; (void)d;
	while(fscanf(in, "%63s", w) == 1) {
		std::string k{w};
		if(k == "BLK") { long id; u64 n; int heap; char fam[256]; if(fscanf(in, "%ld %lu %d %255s", &id, &n, &heap, fam) != 4) return 2; char * p; if(n > (1ul << 22)) { void * q = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(q == MAP_FAILED) return 4; p = (char *)q; blks.push_back(Blk{p, n, fam, true, heap != 0, id, true}); continue; } else { p = (char *)__real_malloc(n); if(!p) return 4; memset(p, 0xA5, n); } blks.push_back(Blk{p, n, fam, true, heap != 0, id}); }
		else if(k == "RAW") { long id; u64 off, n; if(fscanf(in, "%ld %lu %lu", &id, &off, &n) != 3) return 2; char * p = (char *)addr(id) + off; for(u64 i = 0; i < n; ++i) { unsigned x; if(fscanf(in, "%2x", &x) != 1) return 2; p[i] = (char)x; } }
		else if(k == "PTR") { long id, t; u64 off, o; if(fscanf(in, "%ld %lu %ld %lu", &id, &off, &t, &o) != 4) return 2; u64 v = (t ? addr(t) : 0) + o; memcpy((char *)addr(id) + off, &v, 8); }
		else if(k == "FOR") { int i, kind; char nm[256]; if(fscanf(in, "%d %d %255s", &i, &kind, nm) != 3) return 2; foreign_name[i] = nm; foreign_kind[i] = kind; }
		else if(k == "FPT") { long id; u64 off; int i; if(fscanf(in, "%ld %lu %d", &id, &off, &i) != 3) return 2; u64 v = (u64)foreigns[i]; memcpy((char *)addr(id) + off, &v, 8); }
		else if(k == "LIV") { long id; u64 off, s, t; int c; if(fscanf(in, "%ld %lu %d %lu %lu", &id, &off, &c, &s, &t) != 5) return 2; reg[addr(id) + off] = Ent{c, s, t}; fill(addr(id) + off, s); }
		else if(k == "LIVR") { long id; u64 off, n, s; int c; if(fscanf(in, "%ld %lu %lu %lu %d", &id, &off, &n, &s, &c) != 5) return 2; ranges.push_back(Range{addr(id) + off, n, s, c}); }
		else if(k == "TAB") { char nm[64]; int n; u64 e; if(fscanf(in, "%63s %d %lu", nm, &n, &e) != 3) return 2; tabelse[nm] = e; for(int i = 0; i < n; ++i) { int a; if(fscanf(in, "%d", &a) != 1) return 2; std::vector<u64> v(a); for(auto & x : v) if(fscanf(in, "%lu", &x) != 1) return 2; u64 r; if(fscanf(in, "%lu", &r) != 1) return 2; tab[nm][v] = r; } }
		else if(k == "THROW") { if(fscanf(in, "%ld", &throw_at) != 1) return 2; }
		else if(k == "FAIL") { if(fscanf(in, "%ld", &fail_at) != 1) return 2; }
		else if(k == "RES") { if(fscanf(in, "%lu", &result) != 1) return 2; }
		else if(k == "REF") { long id; if(fscanf(in, "%ld", &id) != 1) return 2; resref = addr(id); }
		else if(k == "ARGI") { u64 v; if(fscanf(in, "%lu", &v) != 1) return 2; args.push_back(v); }
		else if(k == "ARGP") { long t; u64 o; if(fscanf(in, "%ld %lu", &t, &o) != 2) return 2; args.push_back((t ? addr(t) : 0) + o); }
		else if(k == "ARGF") { int i; if(fscanf(in, "%d", &i) != 1) return 2; args.push_back((u64)foreigns[i]); }
		else if(k == "STREAM") {
			char nm[8]; long id, g; u64 n; if(fscanf(in, "%7s %ld %ld %d %lu", nm, &id, &g, &smode, &n) != 5) return 2; std::string t; stream = addr(id); ghost = addr(g);
			if(smode == 1) { t = " \n"; sblank = 2; }
			for(u64 i = 0; i < n; ++i) { unsigned x; if(fscanf(in, "%2x", &x) != 1) return 2; t += (char)x; }
			if(nm[0] == 'i') { sin = new((void *)stream) std::istringstream(t); if(smode != 1) sin->unsetf(std::ios::skipws); if(smode == 2) sin->setstate(std::ios::failbit); }
			else sout = new((void *)stream) std::ostringstream;
		}
		else if(k == "FN") { if(fscanf(in, "%lu", &fn) != 1) return 2; }
		else return 2;
	}
	args.resize(6);
	for(int i = 0; i < 16; ++i) fprintf(out, "FADDR %d %lu\n", i, (u64)foreigns[i]);
	try { on = true; u64 r = ((fn6)fn)(args[0], args[1], args[2], args[3], args[4], args[5]); on = false; stream_end(); fprintf(out, "EXIT ret %lu\n", r); }
	catch(...) { on = false; const std::type_info * t = abi::__cxa_current_exception_type(); fprintf(out, "EXIT exc %s\n", t ? t->name() : "?"); }
	dump(); fprintf(out, "OPS %ld %ld\nDONE\n", nops, nallocs); fclose(out); _exit(0);
}
}
