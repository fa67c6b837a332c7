#include <signal.h>
// Runs, replays and minimises simulated executions.
#include "director.h"

#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdlib>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <thread>
#include <unistd.h>

using namespace sim;

extern "C" char sim_release_build[]; // (its address tells how the code under test was compiled)

namespace {

const char *buildName() { return reinterpret_cast<uintptr_t>(sim_release_build) ? "release" : "debug"; }

double wallNow()
{
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

uint64_t mix(uint64_t a, uint64_t b)
{
	uint64_t z = a * 0x9E3779B97F4A7C15ULL + b * 0xD1B54A32D192ED03ULL + 0x632BE59BD9B4E019ULL;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}

struct Input
{
	bool seeded = true;
	uint64_t seed = 0;
	std::vector<uint32_t> stream[3];
	size_t size() const { return stream[0].size() + stream[1].size() + stream[2].size(); }
};

struct Result
{
	uint64_t hash = 0, shape = 0, steps = 0;
	Time simTime = 0;
	std::vector<Violation> violations;
	Stats st;
	std::set<uint64_t> edges;
	std::string outcome, endReason, describe, error;
	std::vector<std::string> trace;
	std::vector<uint32_t> stream[3];
	std::vector<std::string> procs;
	int serverCount = 0, sessionCount = 0, served = 0;
};

Choices *const g_streams[3] = { &chScn, &chSched, &chFault };

Result runOnce(const std::string &prop, const Input &in, bool trace, bool verbose = false)
{
	Result r;
	W = new World;
	ctxReset();
	for (int i = 0; i < 3; i++)
	{
		g_streams[i]->seed(mix(in.seed, uint64_t(i) + 1));
		if (!in.seeded)
		{
			g_streams[i]->replay = true;
			g_streams[i]->in = in.stream[i];
		}
	}
	W->traceOn = trace;
	W->verbose = verbose;
	{
		Director d;
		d.prop = prop;
		W->obs = &d;
		buildScenario(&d, prop);
		if (verbose) fprintf(stderr, "%s\n", d.describe.c_str());
		runWorld();
		r.violations = d.violations;
		r.outcome = d.outcome;
		r.error = d.spawnError;
		r.describe = d.describe;
		r.serverCount = int(d.servers.size());
		r.sessionCount = int(d.sessions.size());
		for (auto &s : d.sessions) r.served += !s->execs.empty();
		r.hash = W->hash;
		r.shape = W->shape;
		r.steps = W->step;
		r.simTime = W->now;
		r.st = W->st;
		r.edges.swap(W->edges);
		r.endReason = W->endReason;
		r.trace.swap(W->trace);
		for (auto &p : W->procs)
		{
			char b[256];
			snprintf(b, sizeof b, "pid %d %s state %d wait %d status %x", p->pid, p->name.c_str(), int(p->state), int(p->wait.kind), p->status);
			r.procs.push_back(b);
		}
	}
	for (int i = 0; i < 3; i++) r.stream[i] = g_streams[i]->out;
	delete W;
	W = nullptr;
	return r;
}

// Makes the C++ library initialise whatever it initialises lazily before the first run, so that every run starts from the same state.
void warmUp()
{
	std::ostringstream o;
	o << 1 << ' ' << 2.5 << ' ' << 3L << ' ' << true << std::hex << 255u << std::setfill('0') << std::setw(4) << 7 << std::endl;
	o << std::put_time(std::gmtime(new time_t(0)), "%Y");
	std::istringstream i("12 0x1f x");
	int a; std::string b;
	i >> a >> b;
	std::string line;
	std::getline(i, line);
	try { (void)std::stoll("zz"); } catch (const std::exception &) { }
	try { throw std::runtime_error("x"); } catch (const std::exception &) { }
	o << std::hash<std::thread::id>()(std::this_thread::get_id());
	std::stringstream s, s2("abc");
	s << s2.rdbuf();
	(void)std::to_string(1.5);
}

std::string jsonEscape(const std::string &s)
{
	std::string o;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += char(c);
	}
	return o;
}

const Violation *match(const Result &r, const std::string &prop, const std::string *sig = nullptr)
{
	for (auto &v : r.violations)
		if (v.prop == prop && (!sig || v.sig == *sig)) return &v;
	return nullptr;
}

// ---------------------------------------------------------------- minimising
struct Minimiser
{
	std::string prop, sig;
	Input best;
	double until;
	int tries = 0, wins = 0;

	static bool simpler(const Result &a, const Input &b)
	{
		size_t as = a.stream[0].size() + a.stream[1].size() + a.stream[2].size();
		auto nz = [](const std::vector<uint32_t> &v) { size_t n = 0; for (uint32_t x : v) n += x != 0; return n; };
		size_t an = nz(a.stream[0]) + nz(a.stream[1]) + nz(a.stream[2]), bn = nz(b.stream[0]) + nz(b.stream[1]) + nz(b.stream[2]);
		if (an != bn) return an < bn;
		if (as != b.size()) return as < b.size();
		uint64_t sa = 0, sb = 0;
		for (int i = 0; i < 3; i++)
		{
			for (uint32_t x : a.stream[i]) sa += x;
			for (uint32_t x : b.stream[i]) sb += x;
		}
		return sa < sb;
	}
	bool attempt(Input c)
	{
		if (wallNow() > until) return false;
		tries++;
		c.seeded = false;
		Result r = runOnce(prop, c, false);
		if (!match(r, prop, &sig)) return false;
		// the recorded decisions are the ones that were really taken
		for (int i = 0; i < 3; i++)
			while (!r.stream[i].empty() && r.stream[i].back() == 0) r.stream[i].pop_back();
		if (!simpler(r, best)) return false;
		for (int i = 0; i < 3; i++) best.stream[i] = r.stream[i];
		wins++;
		return true;
	}
	bool pass(int k)
	{
		bool any = false;
		// whole tail
		for (size_t n = best.stream[k].size(); n > 0 && wallNow() < until;)
		{
			size_t cut = n / 2;
			Input c = best;
			c.stream[k].resize(cut);
			if (attempt(c)) { any = true; n = best.stream[k].size(); }
			else break;
		}
		for (size_t block = std::max<size_t>(1, best.stream[k].size() / 2); block && wallNow() < until; block /= 2)
		{
			for (size_t p = 0; p < best.stream[k].size() && wallNow() < until;)
			{
				size_t e = std::min(best.stream[k].size(), p + block);
				bool allZero = std::all_of(best.stream[k].begin() + ptrdiff_t(p), best.stream[k].begin() + ptrdiff_t(e), [](uint32_t x) { return x == 0; });
				if (!allZero)
				{
					Input c = best;
					std::fill(c.stream[k].begin() + ptrdiff_t(p), c.stream[k].begin() + ptrdiff_t(e), 0u);
					if (attempt(c)) any = true;
				}
				if (k != 0 || block <= 8)
				{
					if (e <= best.stream[k].size())
					{
						Input c = best;
						c.stream[k].erase(c.stream[k].begin() + ptrdiff_t(p), c.stream[k].begin() + ptrdiff_t(e));
						if (attempt(c)) { any = true; continue; }
					}
				}
				p += block;
			}
			if (best.stream[k].size() > 4000 && block < 8) break;
		}
		return any;
	}
	void values(int k)
	{
		for (size_t p = 0; p < best.stream[k].size() && wallNow() < until; p++)
			for (uint32_t v = best.stream[k][p]; v > 1 && wallNow() < until;)
			{
				Input c = best;
				v /= 2;
				c.stream[k][p] = v;
				if (!attempt(c) || p >= best.stream[k].size()) break;
				v = best.stream[k][p];
			}
	}
	void run()
	{
		for (int round = 0; round < 6 && wallNow() < until; round++)
		{
			bool any = false;
			any |= pass(2);
			any |= pass(1);
			any |= pass(0);
			if (!any) break;
		}
		values(0);
		values(2);
	}
};

void writeReplay(const std::string &path, const std::string &prop, const Input &in, uint64_t origSeed)
{
	Input c = in;
	Result r = runOnce(prop, c, true);
	std::ostringstream f;
	f << "k8sim-replay 1\n";
	f << "property " << prop << "\n";
	f << "build " << buildName() << "\n";
	f << "found-with-seed " << origSeed << "\n";
	if (in.seeded) f << "seed " << in.seed << "\n";
	else
	{
		static const char *names[3] = { "scenario", "schedule", "faults" };
		for (int i = 0; i < 3; i++)
		{
			f << names[i];
			for (uint32_t x : in.stream[i]) f << ' ' << x;
			f << "\n";
		}
	}
	for (auto &v : r.violations)
		if (v.prop == prop) { f << "violation " << v.sig << "\n"; break; }
	f << "hash " << hex64(r.hash) << "\n";
	f << "# ---- what follows is for reading only\n";
	std::istringstream ds(r.describe);
	for (std::string l; std::getline(ds, l);) f << "# " << l << "\n";
	for (auto &v : r.violations) f << "# VIOLATED " << v.prop << " at " << double(v.at) / 1e9 << " s, step " << v.step << ": " << v.text << "\n";
	f << "# faults injected:";
	for (auto &x : r.st.faults) f << ' ' << x.first << "=" << x.second;
	f << "\n# trace (" << r.steps << " steps, simulated " << double(r.simTime) / 1e9 << " s)\n";
	size_t n = r.trace.size(), from = n > 3000 ? n - 3000 : 0;
	for (size_t i = from; i < n; i++) f << "# " << r.trace[i] << "\n";
	// (file streams of the C++ library are reserved for the code under test)
	FILE *o = fopen(path.c_str(), "w");
	std::string t = f.str();
	if (!o || fwrite(t.data(), 1, t.size(), o) != t.size() || fclose(o)) { fprintf(stderr, "cannot write %s\n", path.c_str()); exit(2); }
}

bool readReplay(const std::string &path, std::string &prop, Input &in, std::string &sig, std::string &hash)
{
	FILE *in_ = fopen(path.c_str(), "r");
	if (!in_) return false;
	std::string text, l;
	char buf[65536];
	for (size_t n; (n = fread(buf, 1, sizeof buf, in_)) > 0;) text.append(buf, n);
	fclose(in_);
	std::istringstream f(text);
	if (!std::getline(f, l) || l != "k8sim-replay 1") return false;
	in.seeded = false;
	while (std::getline(f, l))
	{
		if (l.empty() || l[0] == '#') break;
		std::istringstream s(l);
		std::string k;
		s >> k;
		if (k == "property") s >> prop;
		else if (k == "seed") { in.seeded = true; s >> in.seed; }
		else if (k == "violation") s >> sig;
		else if (k == "hash") s >> hash;
		else if (k == "build") { std::string b; s >> b; if (b != buildName()) { fprintf(stderr, "recorded with the %s build\n", b.c_str()); return false; } }
		else
			for (int i = 0; i < 3; i++)
				if (k == (i == 0 ? "scenario" : i == 1 ? "schedule" : "faults"))
					for (uint32_t x; s >> x;) in.stream[i].push_back(x);
	}
	return !prop.empty();
}

void showResult(const Result &r)
{
	if (!r.error.empty()) printf("ERROR %s\n", r.error.c_str());
	printf("hash %s shape %s steps %llu sim %.6f s outcome '%s' end '%s' servers %d sessions %d served %d choices %zu/%zu/%zu\n", hex64(r.hash).c_str(), hex64(r.shape).c_str(), (unsigned long long)r.steps, double(r.simTime) / 1e9,
		r.outcome.c_str(), r.endReason.c_str(), r.serverCount, r.sessionCount, r.served, r.stream[0].size(), r.stream[1].size(), r.stream[2].size());
	for (auto &v : r.violations) printf("violated %s [%s] at %.6f s step %llu: %s\n", v.prop.c_str(), v.sig.c_str(), double(v.at) / 1e9, (unsigned long long)v.step, v.text.c_str());
}

struct Tally
{
	uint64_t runs = 0, nontrivial = 0, steps = 0, switches = 0, syscalls = 0, bytes = 0, forks = 0, execs = 0, conns = 0, sessions = 0, served = 0, servers = 0;
	double simTime = 0, maxRun = 0, deepTime = 0;
	std::map<std::string, uint64_t> faults, probes, outcomes, other;
	std::map<std::string, uint64_t> faultRuns;
	std::set<uint64_t> shapes, edges;
	std::map<std::string, std::vector<std::string>> otherSample;
	std::vector<std::string> samples;

	void add(const Result &r, uint64_t seed, double wall, const std::string &prop)
	{
		runs++;
		if (r.served || r.serverCount) { if (shapes.insert(r.shape).second && r.st.syscalls > 40) nontrivial++; }
		else if (shapes.insert(r.shape).second && r.st.syscalls > 4) nontrivial++;
		steps += r.steps; switches += r.st.switches; syscalls += r.st.syscalls; bytes += r.st.bytes; forks += r.st.forks; execs += r.st.execs; conns += r.st.conns;
		sessions += uint64_t(r.sessionCount); served += uint64_t(r.served); servers += uint64_t(r.serverCount);
		(r.simTime > 3600 * SEC ? deepTime : simTime) += double(r.simTime) / 1e9;
		maxRun = std::max(maxRun, wall);
		for (auto &x : r.st.faults) { faults[x.first] += x.second; faultRuns[x.first]++; }
		for (auto &x : r.st.probes) probes[x.first] += x.second;
		outcomes[r.endReason + "/" + r.outcome]++;
		edges.insert(r.edges.begin(), r.edges.end());
		for (auto &v : r.violations)
			if (v.prop != prop)
			{
				std::string k = v.prop + ":" + v.sig;
				other[k]++;
				auto &s = otherSample[k];
				if (s.size() < 3) s.push_back("seed " + std::to_string(seed) + ": " + v.text);
			}
		if (samples.size() < 2 && runs % 7 == 3)
		{
			std::string d = r.describe.substr(0, 1800);
			samples.push_back("seed " + std::to_string(seed) + " hash " + hex64(r.hash) + " steps " + std::to_string(r.steps) + "\n" + d);
		}
	}
	void map(FILE *f, const char *name, const std::map<std::string, uint64_t> &m, bool last = false)
	{
		fprintf(f, "\"%s\":{", name);
		bool first = true;
		for (auto &x : m) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jsonEscape(x.first).c_str(), (unsigned long long)x.second); first = false; }
		fprintf(f, "}%s", last ? "" : ",");
	}
};

volatile sig_atomic_t g_stopRun = 0;

} // namespace

int main(int argc, char **argv)
{
	if (argc < 2) { fprintf(stderr, "usage: k8sim run|replay|trace|one ...\n"); return 2; }
	std::string mode = argv[1], prop = "C01", out, file;
	uint64_t base = 1, count = 1, seed = 1;
	double budget = 1e9, minBudget = 20;
	int recheck = 16, stopAfter = 1;
	bool all = false;
	for (int i = 2; i < argc; i++)
	{
		std::string a = argv[i];
		auto next = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
		if (a == "--prop") prop = next();
		else if (a == "--seed-base") base = strtoull(next().c_str(), nullptr, 10);
		else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
		else if (a == "--count") count = strtoull(next().c_str(), nullptr, 10);
		else if (a == "--time") budget = atof(next().c_str());
		else if (a == "--min-time") minBudget = atof(next().c_str());
		else if (a == "--out") out = next();
		else if (a == "--recheck") recheck = atoi(next().c_str());
		else if (a == "--stop-after") stopAfter = atoi(next().c_str());
		else if (a == "--all") all = true;
		else file = a;
	}
	warmUp();
	ctxInit();

	if (mode == "trace" || mode == "one")
	{
		Input in;
		in.seed = seed;
		Result r = runOnce(prop, in, mode == "trace", mode == "trace");
		showResult(r);
		if (mode == "trace")
		{
			for (auto &p : r.procs) printf("%s\n", p.c_str());
			for (auto &x : r.st.faults) printf("fault %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
			for (auto &x : r.st.probes) printf("probe %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
		}
		return match(r, prop) ? 1 : 0;
	}
	if (mode == "replay")
	{
		Input in;
		std::string sig, hash;
		if (!readReplay(file, prop, in, sig, hash)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
		Result r = runOnce(prop, in, all, all);
		showResult(r);
		if (!match(r, prop, &sig)) { printf("NOT REPRODUCED (%s)\n", sig.c_str()); return 3; }
		if (hex64(r.hash) != hash) { printf("DIFFERENT EXECUTION (hash %s, recorded %s)\n", hex64(r.hash).c_str(), hash.c_str()); return 4; }
		printf("REPRODUCED %s\n", sig.c_str());
		return 1;
	}
	if (mode == "minimise") // --prop P --seed N --out FILE
	{
		Input in;
		in.seed = seed;
		Result r = runOnce(prop, in, false);
		const Violation *v = match(r, prop);
		if (!v) { printf("no violation\n"); return 0; }
		Minimiser m;
		m.prop = prop;
		m.sig = v->sig;
		m.until = wallNow() + minBudget;
		m.best.seeded = false;
		for (int i = 0; i < 3; i++) m.best.stream[i] = r.stream[i];
		m.run();
		writeReplay(out, prop, m.best, seed);
		printf("minimised %s: %d attempts, %d successes, %zu -> %zu choices\n", m.sig.c_str(), m.tries, m.wins, r.stream[0].size() + r.stream[1].size() + r.stream[2].size(), m.best.size());
		return 1;
	}
	if (mode != "run") return 2;

	// explore: seeds base, base+1, ... until count, time or the first violation of the property
	Tally t;
	double start = wallNow(), deadline = start + budget;
	struct Found { uint64_t seed; std::string sig, text; };
	std::vector<Found> found;
	std::set<std::string> sigs;
	uint64_t rechecked = 0, s = base;
	std::string error;
	signal(SIGTERM, [](int) { g_stopRun = 1; });
	for (; s < base + count && wallNow() < deadline && !g_stopRun; s++)
	{
		Input in;
		in.seed = s;
		double w0 = wallNow();
		Result r = runOnce(prop, in, false);
		double w1 = wallNow();
		if (!r.error.empty()) { error = "seed " + std::to_string(s) + ": " + r.error; break; }
		t.add(r, s, w1 - w0, prop);
		const Violation *v = match(r, prop);
		if (v || (recheck && (s - base) % uint64_t(recheck) == 0))
		{
			Result q = runOnce(prop, in, false);
			rechecked++;
			if (q.hash != r.hash || q.steps != r.steps || q.violations.size() != r.violations.size()) { error = "seed " + std::to_string(s) + " did not repeat: " + hex64(r.hash) + " / " + hex64(q.hash); break; }
		}
		if (v && sigs.insert(v->sig).second)
		{
			found.push_back({ s, v->sig, v->text });
			if (int(found.size()) >= stopAfter) { s++; break; }
		}
	}
	double wall = wallNow() - start;
	FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
	if (!f) return 2;
	fprintf(f, "{\"prop\":\"%s\",\"seed_base\":%llu,\"runs\":%llu,\"wall\":%.3f,\"rechecked\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"syscalls\":%llu,\"bytes\":%llu,\"forks\":%llu,\"execs\":%llu,\"conns\":%llu,\"sessions\":%llu,\"served\":%llu,\"servers\":%llu,\"sim_s\":%.3f,\"deep_s\":%.3f,\"max_run_s\":%.3f,",
		prop.c_str(), (unsigned long long)base, (unsigned long long)t.runs, wall, (unsigned long long)rechecked, (unsigned long long)t.nontrivial, (unsigned long long)t.steps, (unsigned long long)t.switches, (unsigned long long)t.syscalls,
		(unsigned long long)t.bytes, (unsigned long long)t.forks, (unsigned long long)t.execs, (unsigned long long)t.conns, (unsigned long long)t.sessions, (unsigned long long)t.served, (unsigned long long)t.servers, t.simTime, t.deepTime, t.maxRun);
	fprintf(f, "\"error\":\"%s\",", jsonEscape(error).c_str());
	t.map(f, "faults", t.faults);
	t.map(f, "fault_runs", t.faultRuns);
	t.map(f, "probes", t.probes);
	t.map(f, "outcomes", t.outcomes);
	t.map(f, "other", t.other);
	fprintf(f, "\"other_samples\":[");
	bool first = true;
	for (auto &x : t.otherSample)
		for (auto &y : x.second) { fprintf(f, "%s\"%s %s\"", first ? "" : ",", jsonEscape(x.first).c_str(), jsonEscape(y).c_str()); first = false; }
	fprintf(f, "],\"samples\":[");
	for (size_t i = 0; i < t.samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEscape(t.samples[i]).c_str());
	fprintf(f, "],\"shapes\":[");
	first = true;
	for (uint64_t x : t.shapes) { fprintf(f, "%s\"%s\"", first ? "" : ",", hex64(x).c_str()); first = false; }
	fprintf(f, "],\"edges\":[");
	first = true;
	for (uint64_t x : t.edges) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)x); first = false; }
	fprintf(f, "],\"violations\":[");
	for (size_t i = 0; i < found.size(); i++) fprintf(f, "%s{\"seed\":%llu,\"sig\":\"%s\",\"text\":\"%s\"}", i ? "," : "", (unsigned long long)found[i].seed, jsonEscape(found[i].sig).c_str(), jsonEscape(found[i].text).c_str());
	fprintf(f, "]}\n");
	if (f != stdout) fclose(f);
	return error.empty() ? (found.empty() ? 0 : 1) : 2;
}
