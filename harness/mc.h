// Shared parts of the native explorers: level selection, guarded buffers, sharded exploration, replay files.
#pragma once
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "common.h"
#include "encoder.h"
#include "decoder.h"
#include "crc.h"

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;

#ifdef VF_RPC // the kernels run elsewhere, see rpc.cc
namespace RapidYenc { uint32_t vf_combine(uint32_t, uint32_t, uint64_t), vf_zeros(uint32_t, uint64_t), vf_unzero(uint32_t, uint64_t), vf_2pow(int64_t), vf_256pow(uint64_t); }
#define crc32_combine vf_combine
#define crc32_zeros vf_zeros
#define crc32_unzero vf_unzero
#define crc32_2pow vf_2pow
#define crc32_256pow vf_256pow
uint8_t* vf_rpc_arena(size_t); void vf_rpc_start(int), vf_rpc_stop(); extern void (*vf_rpc_dead)(const char*);
#endif

struct VfLevel { const char* name; int isa; int crc; };
extern "C" const VfLevel vf_levels[];
extern "C" int vf_isa, vf_crc;
extern "C" void (*vf_probe_hook)(int);

// ---- levels -------------------------------------------------------------------------------------------------
// level -1: nothing initialised (portable code); otherwise an index into vf_levels
static const char* level_name(int l) { return l < 0 ? "generic" : vf_levels[l].name; }
static int level_by_name(const char* n) {
	for(int i = 0; vf_levels[i].name; i++) if(!strcmp(vf_levels[i].name, n)) return i;
	return -1;
}
static bool level_runs_here(int l) {
#ifdef VF_RPC
	return l >= 0;
#endif
	if(l < 0) return true;
	__builtin_cpu_init();
	const char* n = vf_levels[l].name;
	bool clmul = __builtin_cpu_supports("pclmul") && __builtin_cpu_supports("sse4.1") && __builtin_cpu_supports("ssse3");
	bool avx2 = __builtin_cpu_supports("avx2") && __builtin_cpu_supports("bmi") && __builtin_cpu_supports("bmi2") && __builtin_cpu_supports("lzcnt") && __builtin_cpu_supports("popcnt");
	if(!strcmp(n, "sse2")) return true;
	if(!strcmp(n, "ssse3")) return __builtin_cpu_supports("ssse3");
	if(!strcmp(n, "sse41")) return clmul && __builtin_cpu_supports("popcnt");
	if(!strcmp(n, "avx")) return clmul && __builtin_cpu_supports("avx") && __builtin_cpu_supports("popcnt");
	if(!strcmp(n, "avx2")) return clmul && avx2;
	if(!strcmp(n, "avx2v") || !strcmp(n, "avx3")) {
		if(!strcmp(n, "avx3") && !(__builtin_cpu_supports("avx512bw") && __builtin_cpu_supports("avx512vl"))) return false;
		return clmul && avx2 && __builtin_cpu_supports("vpclmulqdq");
	}
	if(!strcmp(n, "vbmi2")) return clmul && avx2 && __builtin_cpu_supports("vpclmulqdq") && __builtin_cpu_supports("avx512vbmi2") && __builtin_cpu_supports("avx512bw") && __builtin_cpu_supports("avx512vl");
	return false;
}
// those an explorer visits: the named ones, of which the CPU can run
static std::vector<int> levels_of(std::initializer_list<const char*> names) {
	std::vector<int> v;
#ifdef VF_RPC
	for(int i = 0; vf_levels[i].name; i++) v.push_back(i);
	return v;
#endif
	v.push_back(-1);
	for(const char* n : names) { int l = level_by_name(n); if(level_runs_here(l)) v.push_back(l); }
	return v;
}
// a level is chosen once per process, through the project's own dispatchers
[[noreturn]] static void violation(const char* fmt, ...);
static void level_init(int l) {
#ifdef VF_RPC
	vf_rpc_dead = [](const char* m) { violation("%s", m); };
	vf_rpc_start(l); return;
#endif
	if(l < 0) { vf_isa = 0; vf_crc = 0; RapidYenc::crc32_init(); return; }
	vf_isa = vf_levels[l].isa; vf_crc = vf_levels[l].crc;
	RapidYenc::encoder_init();
	RapidYenc::decoder_init();
	RapidYenc::crc32_init();
}

static void (*level_setup)(int) = level_init;

// ---- options ------------------------------------------------------------------------------------------------
struct Opt {
	std::string prop, replay_dir = "replays", replay;
	bool thorough = false;
	int jobs = 8;
	double budget = 1e9; // seconds; a capped run says so
	std::map<std::string, std::string> kv;
	bool has(const char* k) const { return kv.count(k); }
	long num(const char* k, long d) const { auto i = kv.find(k); return i == kv.end() ? d : atol(i->second.c_str()); }
	std::string str(const char* k, const char* d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
};
static Opt opt;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }

// ---- guarded buffers ----------------------------------------------------------------------------------------
struct Arena { // [guard][size bytes][guard]
	u8* base; size_t size;
	explicit Arena(size_t want) {
		size = (want + 4095) & ~(size_t)4095;
#ifdef VF_RPC
		base = vf_rpc_arena(size); return;
#endif
		u8* m = (u8*)mmap(0, size + 8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
		if(m == MAP_FAILED) { perror("mmap"); _exit(3); }
		mprotect(m, 4096, PROT_NONE);
		mprotect(m + 4096 + size, 4096, PROT_NONE);
		base = m + 4096;
	}
	u8* end() const { return base + size; }
};

// ---- the case being executed (for crash reports and replay) ---------------------------------------------------
struct Cur {
	int level; const char* kind; // kind: which sub-check
	const u8* in; size_t len;
	long p[8];                   // sub-check parameters, meaning fixed per kind
};
static Cur cur;
static volatile u64 n_exec;      // real executions of the implementation
static u64 n_states, n_trans;    // reference model states/edges walked
static std::set<u64>* outcomes;  // distinct observed outcomes (sampled hash domain bounded)

static std::string hex(const u8* d, size_t n) {
	static const char* H = "0123456789abcdef"; std::string s; s.reserve(n*2);
	for(size_t i = 0; i < n; i++) { s += H[d[i]>>4]; s += H[d[i]&15]; }
	return s;
}
static std::vector<u8> unhex(const std::string& s) {
	std::vector<u8> v;
	for(size_t i = 0; i + 1 < s.size(); i += 2) v.push_back((u8)strtoul(s.substr(i, 2).c_str(), 0, 16));
	return v;
}
static int report_fd = 1;
static std::vector<u8>* cur_copy; // input snapshot when the run itself modifies it (in-situ)
static const u8* cur_in() { return cur_copy ? cur_copy->data() : cur.in; }

[[noreturn]] static void violation(const char* fmt, ...) {
	char msg[1024]; va_list a; va_start(a, fmt); vsnprintf(msg, sizeof msg, fmt, a); va_end(a);
	for(char* c = msg; *c; c++) if(*c == '"' || *c == '\\' || *c == '\n') *c = '\'';
	mkdir(opt.replay_dir.c_str(), 0777);
	char path[512];
	snprintf(path, sizeof path, "%s/%s-%s-%s-%d.case", opt.replay_dir.c_str(), opt.prop.c_str(), cur.kind ? cur.kind : "x", level_name(cur.level), (int)getpid());
	FILE* f = fopen(path, "w");
	if(f) {
		fprintf(f, "# %s\nprop=%s\nlevel=%s\nkind=%s\nparams=", msg, opt.prop.c_str(), level_name(cur.level), cur.kind ? cur.kind : "x");
		for(int i = 0; i < 8; i++) fprintf(f, "%ld%s", cur.p[i], i < 7 ? "," : "\n");
		fprintf(f, "input=%s\n", cur.in && cur.len < 100000 ? hex(cur_in(), cur.len).c_str() : "");
		fclose(f);
	}
	dprintf(report_fd, "V\t%s\t%s\n", path, msg);
	_exit(1);
}

static void on_fault(int sig) {
	// the exploring thread is the only one; the case in `cur` is the one that crashed
	static bool again; if(again) _exit(3); again = true;
	if(!cur.kind || !strcmp(cur.kind, "idle")) { dprintf(2, "signal %d in the explorer itself\n", sig); _exit(3); }
	violation("signal %d (%s) at level %s in %s, input length %zu", sig,
		sig == SIGSEGV || sig == SIGBUS ? "access outside the buffers" : sig == SIGILL ? "illegal instruction" : sig == SIGVTALRM ? "no progress for 30 s of CPU time" : "fault",
		level_name(cur.level), cur.kind ? cur.kind : "?", cur.len);
}
static volatile u64 last_exec;
static void on_tick(int) {
	if(n_exec == last_exec && cur.kind && strcmp(cur.kind, "idle")) on_fault(SIGVTALRM);
	last_exec = n_exec;
}
static void arm() {
	static u8 stk[65536]; stack_t ss = {}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, 0);
	struct sigaction sa = {}; sa.sa_handler = on_fault; sa.sa_flags = SA_ONSTACK|SA_NODEFER;
	for(int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) sigaction(s, &sa, 0);
	sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK|SA_RESTART; sigaction(SIGVTALRM, &sa, 0);
	struct itimerval it = {{30,0},{30,0}}; setitimer(ITIMER_VIRTUAL, &it, 0);
}

// ---- sharded exploration ------------------------------------------------------------------------------------
// task = one process; it initialises its level and walks the items that belong to its shard
struct Task { int level, shard, nshards; };
static std::vector<std::string> samples;
static void sample(const char* fmt, ...) {
	if(samples.size() >= 3) return;
	char b[600]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
	samples.push_back(b);
}
static double t_start, t_deadline;
static bool capped;
static bool out_of_time() { if(now() > t_deadline) { capped = true; return true; } return false; }

static std::map<std::string, u64> counters;
static void count(const std::string& k, u64 n = 1) { counters[k] += n; }

static int explore(const std::vector<int>& levels, int nshards, const std::function<void(const Task&)>& body) {
	std::vector<Task> tasks;
	for(int s = 0; s < nshards; s++) for(int l : levels) tasks.push_back({l, s, nshards});
	struct Kid { pid_t pid; int fd; std::string buf; Task t; };
	std::vector<Kid> kids; size_t next = 0; int bad = 0;
	std::vector<std::string> viol; u64 ex = 0, st = 0, tr = 0; bool cap = false;
	std::set<std::string> smp; std::map<std::string, u64> cnt; std::set<u64> outs;
	fflush(stdout);
	while(next < tasks.size() || !kids.empty()) {
		while(next < tasks.size() && (int)kids.size() < opt.jobs && viol.empty()) {
			int p[2]; if(pipe(p)) { perror("pipe"); return 3; }
			pid_t pid = fork();
			if(pid < 0) { perror("fork"); return 3; }
			if(!pid) {
				close(p[0]); report_fd = p[1];
				outcomes = new std::set<u64>;
				cur.level = tasks[next].level; cur.kind = "init";
				arm(); level_setup(tasks[next].level); cur.kind = "idle";
				body(tasks[next]);
				cur.kind = "idle";
				std::string o = "D\t" + std::to_string(n_exec) + "\t" + std::to_string(n_states) + "\t" + std::to_string(n_trans) + "\t" + (capped ? "1" : "0") + "\n";
				for(auto& s : samples) o += "S\t" + s + "\n";
				for(auto& c : counters) o += "C\t" + c.first + "\t" + std::to_string(c.second) + "\n";
				for(u64 h : *outcomes) o += "O\t" + std::to_string(h) + "\n";
				o += "E\n";
				for(size_t w = 0; w < o.size(); ) { ssize_t k = write(p[1], o.data()+w, o.size()-w); if(k <= 0) break; w += k; }
				_exit(0);
			}
			close(p[1]);
			kids.push_back({pid, p[0], "", tasks[next]}); next++;
		}
		if(kids.empty()) break;
		std::vector<struct pollfd> pf; for(auto& k : kids) pf.push_back({k.fd, POLLIN, 0});
		poll(pf.data(), pf.size(), 1000);
		for(size_t i = 0; i < kids.size(); ) {
			bool gone = false;
			if(pf[i].revents) {
				char b[65536]; ssize_t k = read(kids[i].fd, b, sizeof b);
				if(k > 0) kids[i].buf.append(b, k); else if(k == 0) gone = true;
			}
			if(!gone) { i++; continue; }
			int ws; waitpid(kids[i].pid, &ws, 0); close(kids[i].fd);
			bool done = false; std::string& s = kids[i].buf; size_t a = 0;
			while(a < s.size()) {
				size_t e = s.find('\n', a); if(e == std::string::npos) e = s.size();
				std::string l = s.substr(a, e - a); a = e + 1;
				if(l[0] == 'V') viol.push_back(l.substr(2));
				else if(l[0] == 'D') { unsigned long long x, y, z; int c; if(sscanf(l.c_str(), "D\t%llu\t%llu\t%llu\t%d", &x, &y, &z, &c) == 4) { ex += x; st += y; tr += z; cap |= c; } }
				else if(l[0] == 'S') { if(smp.size() < 12) smp.insert(l.substr(2)); }
				else if(l[0] == 'C') { size_t t = l.find('\t', 2); cnt[l.substr(2, t-2)] += strtoull(l.c_str()+t+1, 0, 10); }
				else if(l[0] == 'O') outs.insert(strtoull(l.c_str()+2, 0, 10));
				else if(l[0] == 'E') done = true;
			}
			if(!done && viol.empty()) { fprintf(stderr, "explorer process for level %s shard %d ended abnormally (status %x)\n", level_name(kids[i].t.level), kids[i].t.shard, ws); bad = 3; }
			kids.erase(kids.begin() + i); pf.erase(pf.begin() + i);
		}
		if(!viol.empty()) { for(auto& k : kids) kill(k.pid, SIGKILL); for(auto& k : kids) { waitpid(k.pid, 0, 0); close(k.fd); } kids.clear(); break; }
	}
	// machine-readable summary, one line
	std::string lv; for(int l : levels) lv += std::string(lv.empty() ? "" : ",") + "\"" + level_name(l) + "\"";
	printf("RESULT {\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"capped\":%s,\"outcomes\":%zu,\"wall\":%.2f,\"levels\":[%s],\"counters\":{",
		(unsigned long long)ex, (unsigned long long)st, (unsigned long long)tr, cap ? "true" : "false", outs.size(), now() - t_start, lv.c_str());
	bool first = true; for(auto& c : cnt) { printf("%s\"%s\":%llu", first ? "" : ",", c.first.c_str(), (unsigned long long)c.second); first = false; }
	printf("},\"samples\":["); first = true; for(auto& s : smp) { printf("%s\"%s\"", first ? "" : ",", s.c_str()); first = false; }
	printf("]}\n");
	for(auto& v : viol) { size_t t = v.find('\t'); printf("VIOL\t%s\t%s\n", v.substr(0, t).c_str(), v.substr(t+1).c_str()); }
	fflush(stdout);
	return viol.empty() ? bad : 1;
}

static u64 fnv(const u8* d, size_t n, u64 h = 1469598103934665603ull) { for(size_t i = 0; i < n; i++) h = (h ^ d[i]) * 1099511628211ull; return h; }
static void outcome(u64 h) { if(outcomes && outcomes->size() < 4096) outcomes->insert(h % 65521); }

struct ReplayCase { int level; std::string kind; long p[8]; std::vector<u8> in; };
static bool load_replay(const std::string& path, ReplayCase& r) {
	FILE* f = fopen(path.c_str(), "r"); if(!f) return false;
	static char line[300000]; r.level = -1;
	while(fgets(line, sizeof line, f)) {
		line[strcspn(line, "\n")] = 0;
		if(!strncmp(line, "level=", 6)) r.level = level_by_name(line+6);
		else if(!strncmp(line, "kind=", 5)) r.kind = line+5;
		else if(!strncmp(line, "params=", 7)) { char* q = line+7; for(int i = 0; i < 8; i++) { r.p[i] = strtol(q, &q, 10); if(*q == ',') q++; } }
		else if(!strncmp(line, "input=", 6)) r.in = unhex(line+6);
	}
	fclose(f); return true;
}

static void parse_args(int argc, char** argv) {
	for(int i = 1; i < argc; i++) {
		std::string a = argv[i]; size_t e = a.find('=');
		std::string k = a.substr(0, e), v = e == std::string::npos ? "1" : a.substr(e+1);
		if(k == "prop") opt.prop = v; else if(k == "thorough") opt.thorough = v == "1"; else if(k == "jobs") opt.jobs = atoi(v.c_str());
		else if(k == "budget") opt.budget = atof(v.c_str()); else if(k == "replays") opt.replay_dir = v; else if(k == "replay") opt.replay = v;
		else opt.kv[k] = v;
	}
	t_start = now(); t_deadline = t_start + opt.budget;
}
