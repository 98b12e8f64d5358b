// P16: the threaded spelling tool prints what the single-threaded one prints, under every schedule of its workers.
#include <sys/types.h>
#define SCHED_IMPL
#include "sched.hpp"
#include "api.hpp"
using namespace mc;
#ifdef __SANITIZE_THREAD__
static const bool TSAN = true;
#else
static const bool TSAN = false;
#endif
int voikkospell_main(int argc, char ** argv) asm("voikkospell_main");
static int inFd, outFd, errFd;
static string slurp(int fd) { string r; char b[65536]; ssize_t k; lseek(fd, 0, SEEK_SET); while ((k = read(fd, b, sizeof b)) > 0) r.append(b, k); return r; }
struct Result { string out, err; sched::Outcome o; };
static string root;
static Result runTool(const vector<string> & opts, int threads, const vector<sched::Dev> & devs, bool fine) {
	if (ftruncate(outFd, 0) || ftruncate(errFd, 0)) _exit(3);
	lseek(outFd, 0, SEEK_SET); lseek(errFd, 0, SEEK_SET); lseek(inFd, 0, SEEK_SET);
	Result r;
	r.o = sched::run(devs, [&]() {
		dup2(inFd, 0); dup2(outFd, 1); dup2(errFd, 2);
		vector<string> a = {"voikkospell", "-p", root, "-d", "fi-x-tool"};
		for (auto & o : opts) a.push_back(o);
		if (threads) { a.push_back("-j"); a.push_back(num(threads)); }
		vector<char *> v; for (auto & s : a) v.push_back(&s[0]);
		v.push_back(nullptr);
		sched::fine = fine;
		sched::begin();
		int rc = voikkospell_main((int) a.size(), v.data());
		sched::end();
		exit(rc);
	});
	r.out = slurp(outFd); r.err = slurp(errFd);
	return r;
}
static void setInput(const string & s) { if (ftruncate(inFd, 0)) _exit(3); lseek(inFd, 0, SEEK_SET); size_t d = 0; while (d < s.size()) { ssize_t k = write(inFd, s.data() + d, s.size() - d); if (k <= 0) _exit(3); d += k; } }
static string diff(const Result & want, const Result & got) {
	if (got.o.deadlock) return WEXITSTATUS(got.o.status) == 95 ? "a thread is joined that was not created" : "all threads wait for each other";
	if (got.o.status != want.o.status) return "ended with " + sched::statusText(got.o.status) + ", single-threaded " + sched::statusText(want.o.status) + (got.err.empty() ? "" : " " + show(got.err.substr(0, 1500)));
	if (got.err != want.err) return "other messages " + show(got.err.substr(0, 200));
	if (got.out == want.out) return "";
	size_t i = 0; while (i < got.out.size() && i < want.out.size() && got.out[i] == want.out[i]) i++;
	size_t line = 1 + std::count(want.out.begin(), want.out.begin() + i, '\n');
	return "output differs in line " + num(line) + ": " + show(got.out.substr(i, 60)) + " instead of " + show(want.out.substr(i, 60)) + " (" + num(got.out.size()) + " and " + num(want.out.size()) + " bytes)";
}
// input of n lines; every line can be told from every other
static string input(int kind, int n) {
	string s;
	static const vector<string> base = {"kissa", "koira", "kisaa", "Turku", "talo", "autotie", "syö", "ab"};
	for (int i = 0; i < n; i++) {
		string w;
		for (int k = i + 1; k; k /= 8) w += "aeioukst"[k % 8];
		if (kind == 3) s += i % 40 == 5 || i == n - 1 ? "kisa" + w.substr(0, 1) + "\n" : base[i % 2] + "\n"; // few misspellings, for suggestions
		else if (kind == 4) { static const vector<string> o = {"kissa1", "kissa.", "KISSA", "kissa", "Kissa", "a@b.fi", "kis-sa", "linja-auto", "linjaauto", "KISSA.", "kissa-1", "X1", "kissakoira", "-kissa", "koira-", "kISSA"}; s += o[i % o.size()] + "\n"; } // words on which the options matter
		else if (kind == 5) { static const vector<string> o = {"klssa", "kisaa", "kissa", "koria"}; s += (i % 125 < 4 ? o[i % 125] : "kissa") + "\n"; }
		else if (kind == 0) s += (i % 3 == 0 ? base[i / 3 % base.size()] : "k" + w) + "\n";
		else if (kind == 1) { // empty, malformed and overlong lines in between
			if (i % 5 == 1) s += "\n";
			if (i % 5 == 2) s += "\xff\n";
			if (i % 5 == 3) s += string(256, 'a') + "\n";
			s += (i % 2 ? base[i % base.size()] : "k" + w) + (i % 7 == 3 && i == n - 1 ? "" : "\n");
		}
		else s += base[i % base.size()] + (i == n - 1 ? "" : "\n"); // no newline at the end
	}
	return s;
}
static string optText(const vector<string> & o) { string r; for (auto & x : o) r += " " + x; return r; }
// all schedules reached by directing decisions, at most maxPre of them preemptions, starting from d
static long limit;
static bool descend(const string & desc, const vector<string> & opts, int T, const vector<sched::Dev> & d, bool fine, int maxPre, int maxForced, const Result & want) {
	if (limit-- <= 0) return true;
	Result r = runTool(opts, T, d, fine);
	E().step(); E().sh->progress++;
	string m = diff(want, r);
	if (!m.empty()) { E().fail(desc, "schedule" + sched::text(d) + ": " + m); return false; }
	uint64_t h = 7; for (auto & x : d) h = h * 1000003 + x.at * 64 + x.alt;
	E().state(hashStr(desc, h));
	for (uint64_t i = d.empty() ? 0 : d.back().at + 1; i < r.o.alts.size(); i++) {
		bool forced = r.o.alts[i] & 64; int k = r.o.alts[i] & 63;
		if (forced ? maxForced == 0 : maxPre == 0) continue;
		for (int a = 1; a <= k; a++) { auto e = d; e.push_back({i, a}); if (!descend(desc, opts, T, e, fine, maxPre - !forced, maxForced - forced, want)) return false; }
	}
	return true;
}
int main(int argc, char ** argv) {
	E().init(argc, argv);
	bool small = false, T = E().thorough;
	for (int i = 1; i < argc; i++) if (string(argv[i]) == "--small") small = true;
	root = scratch("dicts");
	api::finnish(root, "tool", api::finnishWords(), api::rules());
	inFd = memfd_create("in", 0); outFd = memfd_create("out", 0); errFd = memfd_create("err", 0);
	vector<vector<string>> OPTS = {{}, {"-t"}, {"-tt"}, {"-m"}, {"-M"}, {"-s"}, {"-x"}, {"-x;"}, {"-c5"}, {"-s", "-m", "ignore_dot=1"}};
	auto one = [&](const string & what, int kind, int n, const vector<string> & opts, int th, auto go) {
		if (!E().take()) return;
		string d = num(n) + " lines of kind " + num(kind) + ", voikkospell" + optText(opts) + " -j " + num(th) + what;
		E().desc(d);
		setInput(input(kind, n));
		Result want = runTool(opts, 0, {}, false);
		if (want.o.status != 0) { E().fail(d, "single-threaded run ended with " + sched::statusText(want.o.status)); return; }
		go(d, want);
	};
	// 1. every input length x thread count; each worker runs when created, or when waited for
	E().startFamily("input lengths and thread counts");
	vector<int> counts = {2, 3, 4, 5, 7, 200};
	int top = TSAN ? 1100 : T ? 3600 : 1600;
	for (int n = 0; n <= top; n++) {
		bool near = n < 8 || (n + 4) % 500 < 9 || (n + 2) % 250 < 5;
		if ((TSAN || small) && !near) continue;
		for (int th : counts) {
			if (th > 3 && !near && !T) continue;
			if (TSAN && th > 3) continue;
			for (auto & o : OPTS) {
				if (&o != &OPTS[0] && !(near && th < 5)) continue;
				if (TSAN && o.size() && o[0] != "-m" && o.size() < 2) continue;
								one("", o.size() && (o[0] == "-s" || o[0][1] == 'x') ? 3 : 0, n, o, th, [&](const string & d, const Result & want) {
					Result a = runTool(o, th, {}, false);
					E().step();
					string m = diff(want, a);
					if (!m.empty()) { E().fail(d, m); return; }
					// every worker runs as soon as it is created
					vector<sched::Dev> eager; uint64_t k = 0;
					for (;;) {
						Result r = runTool(o, th, eager, false);
						E().step(); E().sh->progress++;
						m = diff(want, r);
						if (!m.empty()) { E().fail(d, "schedule" + sched::text(eager) + ": " + m); return; }
						while (k < r.o.alts.size() && ((r.o.alts[k] & 64) || !(r.o.alts[k] & 63))) k++;
						if (k >= r.o.alts.size()) break;
						eager.push_back({k, r.o.alts[k] & 63}); k++;
						if (TSAN && eager.size() > 3) break;
					}
				});
			}
		}
	}
	E().startFamily("other inputs");
	for (int kind : {1, 2}) for (int n : {0, 1, 2, 3, 4, 5, 13, 499, 500, 501, 502, 503, 999, 1000, 1001, 1200, 1500, 1501}) for (int th : {2, 3, 5}) for (auto & o : OPTS) {
		if (TSAN && (n > 600 || (o.size() && o[0] != "-s"))) continue;
		if (o.size() && (o[0] == "-s" || o[0][1] == 'x') && n > 20) continue;
		one("", kind, n, o, th, [&](const string & d, const Result & want) { Result a = runTool(o, th, {}, false); E().step(); string m = diff(want, a); if (!m.empty()) E().fail(d, m); });
	}
	E().startFamily("every option reaches every worker");
	{
		vector<vector<string>> os = {{"-c5"}, {"-c0"}};
		for (auto n : {"ignore_dot", "ignore_numbers", "ignore_nonwords", "accept_first_uppercase", "accept_all_uppercase", "accept_extra_hyphens", "accept_missing_hyphens", "ocr_suggestions"}) for (auto v : {"=0", "=1"}) os.push_back({string(n) + v});
		size_t single = os.size();
		for (size_t i = 2; i < single; i++) for (size_t k = 2; k < single; k++) if (i / 2 != k / 2 && (T || (i % 2 == 1 && k % 2 == 1))) os.push_back({os[i][0], os[k][0]});
		for (auto & o : os) for (int n : {16, 501, 1501, 2016, 2601}) for (int th : {2, 3, 4, 5, 6}) {
			if ((TSAN || small) && (n > 600 || th > 2)) continue;
			if (!T && o.size() > 1 && (n != 2601 || th % 2)) continue;
			bool ocr = o[0].compare(0, 3, "ocr") == 0;
			auto oo = o; if (ocr) oo.push_back("-s");
			one("", ocr ? 5 : 4, n, oo, th, [&](const string & d, const Result & want) { Result a = runTool(oo, th, {}, false); E().step(); E().state(hashStr(want.out)); string m = diff(want, a); if (!m.empty()) E().fail(d, m); });
		}
	}
	if (!TSAN) {
		// 2. every order in which the workers can run, at the granularity of whole blocks
		E().startFamily("all orders of whole workers");
		for (int n : {1, 500, 501, 1000, 1001, 1500, 1501, 2000, 2001, 2500, 2600, 3001}) for (int th : {2, 3, 4, 5, 6}) {
			if (small && n > 1500) continue;
			if (!T && (n > 2100 || th > 4)) continue;
			one(", all orders", 0, n, {}, th, [&](const string & d, const Result & want) { limit = T ? 100000 : 1500; descend(d, {}, th, {}, false, 99, 99, want); if (limit < 0) E().sample(d + ": schedule limit reached"); });
		}
		// 3. preemption at every basic block of the tool
		E().startFamily("preemption at every basic block");
		vector<vector<string>> fineOpts = {{}, {"-t"}, {"-tt"}, {"-m"}, {"-s"}, {"-x;"}};
		for (auto & o : fineOpts) for (int n : {501, 502}) for (int th : {2, 3}) {
			if (!T && (n > 501 || th > 2 || (small && o.size()))) continue;
			string base = num(n) + " lines, voikkospell" + optText(o) + " -j " + num(th);
			setInput(input(o.size() && (o[0] == "-s" || o[0][1] == 'x') ? 3 : 0, n));
			Result want, first;
			bool have = false;
			// the tool's code has this many scheduling points in the undisturbed run
			want = runTool(o, 0, {}, false); first = runTool(o, th, {}, true); have = true;
			(void) have;
			size_t np = first.o.alts.size();
			vector<uint64_t> pts; // points where another thread can run
			for (uint64_t i = 0; i < np; i++) if (first.o.alts[i] & 63) pts.push_back(i);
			// when the long worker is in the middle of its block its steps repeat; the first and last of them are all taken
			size_t CHUNK = 16;
			for (size_t c = 0; c < pts.size(); c += CHUNK) {
				if (!T && c >= 1600 && c + 1600 < pts.size()) continue;
				if (!E().take()) continue;
				string d = base + ", preempted at points " + num(pts[c]) + "..";
				E().desc(d);
				setInput(input(o.size() && (o[0] == "-s" || o[0][1] == 'x') ? 3 : 0, n));
				for (size_t k = c; k < c + CHUNK && k < pts.size(); k++) for (int a = 1; a <= (first.o.alts[pts[k]] & 63); a++) {
					Result r = runTool(o, th, {{pts[k], a}}, true);
					E().step(); E().sh->progress++;
					E().state(hashStr(base, pts[k] * 64 + a));
					string m = diff(want, r);
					if (!m.empty()) { E().fail(d, "schedule" + sched::text({{pts[k], a}}) + ": " + m); break; }
					// a second preemption in the block that runs now, soon after
					if (T || (o.empty() && k % 16 == 0)) {
						for (uint64_t i = pts[k] + 1, z = 0; i < r.o.alts.size() && z < 8; i++) if (!(r.o.alts[i] & 64) && (r.o.alts[i] & 63)) {
							z++;
							Result q = runTool(o, th, {{pts[k], a}, {i, 1}}, true);
							E().step(); E().sh->progress++;
							m = diff(want, q);
							if (!m.empty()) { E().fail(d, "schedule" + sched::text({{pts[k], a}, {i, 1}}) + ": " + m); break; }
						}
					}
				}
			}
		}
	}
	return E().finish();
}
