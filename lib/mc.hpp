// Bounded exhaustive exploration driver shared by all harnesses.
// A harness enumerates cases deterministically; every case has a sequence number within its family.
// Shards partition the numbers; --only F:N replays one case.  The current case is kept in a shared
// mapping so that a crash or a hang is attributed to the case that caused it.
#ifndef MC_HPP
#define MC_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <string>
#include <vector>
#include <filesystem>
#include <set>
#include <map>
#include <algorithm>
#include <functional>
#include <unordered_set>
#include <pthread.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <dirent.h>

namespace mc {

inline std::string utf8(const std::wstring & s) {
	std::string r;
	for (wchar_t wc : s) {
		uint32_t c = (uint32_t) wc;
		if (c < 0x80) r += (char) c;
		else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
		else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
		else { r += (char)(0xF0 | (c >> 18 & 7)); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
	}
	return r;
}
// printable, unambiguous rendering
inline std::string show(const std::wstring & s) {
	std::string r = "\"";
	for (wchar_t wc : s) {
		uint32_t c = (uint32_t) wc;
		if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
		else if (c >= 0x20 && c < 0x7f) r += (char) c;
		else { char b[16]; snprintf(b, sizeof b, "\\u{%X}", c); r += b; }
	}
	return r + "\"";
}
inline std::string show(const std::string & s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
		else if (c >= 0x20 && c < 0x7f) r += (char) c;
		else { char b[16]; snprintf(b, sizeof b, "\\x%02X", c); r += b; }
	}
	return r + "\"";
}
inline std::string show(const wchar_t * s) { return s ? show(std::wstring(s)) : std::string("(null)"); }
inline std::string show(const char * s) { return s ? show(std::string(s)) : std::string("(null)"); }
inline std::string num(long long v) { return std::to_string(v); }

struct Shared { volatile uint64_t family, index, progress; volatile uint32_t inCase; char desc[8192]; };

struct Explorer {
	bool thorough = false;
	uint64_t shard = 0, shards = 1;
	std::string out = ".";
	bool only = false; uint64_t onlyFamily = 0, onlyIndex = 0;
	bool prefix = false; // run everything of the shard up to and including the case
	uint64_t family = 0, index = 0;
	uint64_t cases = 0, steps = 0;
	uint64_t failures = 0, maxFailures = 200;
	std::unordered_set<uint64_t> states;
	std::vector<std::string> samples;
	std::map<std::string, uint64_t> families;
	std::string familyName;
	Shared * sh = nullptr;
	FILE * failFile = nullptr;
	std::function<std::string()> describe;
	bool stop = false;
	uint64_t famCases = 0;
	int hangSeconds = 30;

	static Explorer & get() { static Explorer e; return e; }

	static void * watchdog(void * p) {
		Explorer & e = *(Explorer *) p;
		uint64_t last = ~0ull; int stuck = 0;
		for (;;) {
			usleep(1000000);
			uint64_t now = e.sh->progress;
			if (now == last && e.sh->inCase) { if (++stuck >= e.hangSeconds) { fprintf(stderr, "MC-HANG\n"); _exit(78); } }
			else { stuck = 0; last = now; }
		}
		return nullptr;
	}

	void init(int argc, char ** argv) {
		bool wd = true;
		for (int i = 1; i < argc; i++) {
			std::string a = argv[i];
			auto next = [&]() { return std::string(argv[++i]); };
			if (a == "--tier") thorough = next() == "thorough";
			else if (a == "--shard") shard = std::stoull(next());
			else if (a == "--shards") shards = std::stoull(next());
			else if (a == "--out") out = next();
			else if (a == "--only" || a == "--upto") {
				std::string v = next(); size_t c = v.find(':');
				onlyFamily = std::stoull(v.substr(0, c)); onlyIndex = std::stoull(v.substr(c + 1));
				if (a == "--only") only = true; else prefix = true;
			}
			else if (a == "--no-watchdog") wd = false;
			else if (a == "--hang") hangSeconds = std::stoi(next());
		}
		std::string f = out + "/current." + std::to_string(shard);
		int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("mc"); exit(3); }
		sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		close(fd);
		failFile = fopen((out + "/fail." + std::to_string(shard)).c_str(), "w");
		if (wd) { pthread_t t; pthread_create(&t, nullptr, watchdog, this); pthread_detach(t); }
	}
	void startFamily(const std::string & name) {
		endCase();
		if (!familyName.empty()) families[familyName] = famCases;
		familyName = name; family++; index = 0; famCases = 0;
	}
	// true if the case with the next number is to be run here
	bool take() {
		endCase();
		uint64_t i = index++;
		if (stop) return false;
		if (only) { if (family != onlyFamily || i != onlyIndex) return false; }
		else {
			if (i % shards != shard) return false;
			if (prefix && (family > onlyFamily || (family == onlyFamily && i > onlyIndex))) { stop = true; return false; }
		}
		sh->family = family; sh->index = i; sh->desc[0] = 0; sh->progress++; sh->inCase = 1;
		cases++; famCases++;
		return true;
	}
	void endCase() { if (sh) sh->inCase = 0; }
	// text of the case for crash attribution; call only where cheap enough
	void desc(const std::string & d) {
		size_t n = std::min(d.size(), sizeof(sh->desc) - 1);
		memcpy(sh->desc, d.data(), n); sh->desc[n] = 0;
		if (samples.size() < 6 && (cases & (cases - 1)) == 0) samples.push_back(familyName + ": " + d);
	}
	void sample(const std::string & d) { if (samples.size() < 12) samples.push_back(familyName + ": " + d); }
	void state(uint64_t h) { if (states.size() < 3000000) states.insert(h); }
	void step(uint64_t n = 1) { steps += n; }
	void fail(const std::string & caseDesc, const std::string & msg) {
		failures++;
		std::string d = caseDesc, m = msg;
		for (auto * s : {&d, &m}) for (char & c : *s) if (c == '\n' || c == '\t') c = ' ';
		fprintf(failFile, "%llu\t%llu\t%s\t%s\t%s\n", (unsigned long long) family, (unsigned long long) sh->index, familyName.c_str(), d.c_str(), m.c_str());
		fflush(failFile);
		if (failures >= maxFailures) stop = true;
	}
	int finish() {
		endCase();
		if (!familyName.empty()) families[familyName] = famCases;
		FILE * f = fopen((out + "/stats." + std::to_string(shard)).c_str(), "w");
		fprintf(f, "cases\t%llu\nsteps\t%llu\nfailures\t%llu\n", (unsigned long long) cases, (unsigned long long) steps, (unsigned long long) failures);
		for (auto & p : families) fprintf(f, "family\t%s\t%llu\n", p.first.c_str(), (unsigned long long) p.second);
		for (auto & s : samples) { std::string t = s; for (char & c : t) if (c == '\n' || c == '\t') c = ' '; fprintf(f, "sample\t%s\n", t.c_str()); }
		fclose(f);
		f = fopen((out + "/states." + std::to_string(shard)).c_str(), "wb");
		for (uint64_t s : states) fwrite(&s, 8, 1, f);
		fclose(f);
		fclose(failFile);
		return failures ? 1 : 0;
	}
};
inline Explorer & E() { return Explorer::get(); }

inline uint64_t hashBytes(const void * p, size_t n, uint64_t h = 1469598103934665603ull) {
	const unsigned char * c = (const unsigned char *) p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	return h ^ (h >> 29);
}
inline uint64_t hashStr(const std::string & s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }
inline uint64_t hashStr(const std::wstring & s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size() * sizeof(wchar_t), h); }

// all sequences over items 0..n-1 of length lo..hi, shortest first
template <class F> void sequences(size_t n, size_t lo, size_t hi, F f) {
	for (size_t len = lo; len <= hi; len++) {
		std::vector<size_t> v(len, 0);
		for (;;) {
			f((const std::vector<size_t> &) v);
			if (E().stop) return;
			size_t i = len;
			while (i > 0 && ++v[i - 1] == n) { v[i - 1] = 0; i--; }
			if (i == 0) break;
		}
	}
}
// all strings made of at most hi items of the alphabet
template <class F> void strings(const std::vector<std::wstring> & alphabet, size_t lo, size_t hi, F f) {
	std::wstring s;
	sequences(alphabet.size(), lo, hi, [&](const std::vector<size_t> & v) {
		s.clear();
		for (size_t i : v) s += alphabet[i];
		f((const std::wstring &) s);
	});
}
inline std::vector<std::wstring> chars(const wchar_t * s) {
	std::vector<std::wstring> r;
	for (; *s; s++) r.push_back(std::wstring(1, *s));
	return r;
}
// private scratch directory, removed at exit by the driver (lives under --out)
inline std::string scratch(const std::string & name) {
	std::string d = E().out + "/scratch." + std::to_string(E().shard);
	mkdir(d.c_str(), 0755);
	d += "/" + name;
	mkdir(d.c_str(), 0755);
	return d;
}
inline void writeFile(const std::string & path, const std::string & content) {
	FILE * f = fopen(path.c_str(), "wb");
	if (!f) { perror(path.c_str()); exit(3); }
	if (fwrite(content.data(), 1, content.size(), f) != content.size()) { perror("write"); exit(3); }
	fclose(f);
}
inline void mkdirs(const std::string & path) {
	for (size_t i = 1; i <= path.size(); i++) if (i == path.size() || path[i] == '/') mkdir(path.substr(0, i).c_str(), 0755);
}
// removes a directory of this run's own scratch area
inline void rmTree(const std::string & path) {
	if (E().out.empty() || path.compare(0, E().out.size(), E().out) != 0 || path.size() <= E().out.size() + 1) { fprintf(stderr, "not removing %s\n", path.c_str()); exit(3); }
	std::error_code ec; std::filesystem::remove_all(path, ec);
}
inline std::string readFile(const std::string & path) {
	FILE * f = fopen(path.c_str(), "rb");
	if (!f) return "";
	std::string r; char b[65536]; size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
	fclose(f);
	return r;
}
}
#endif
