// Shared parts of the bounded harnesses: worker processes, reporting of the failing input, random numbers.
// A harness defines  void Run(Ctx &)  and calls ctx.Case(text) before every evaluation, ctx.Fail(why) if the result is wrong.
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <ctime>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <unordered_set>

struct Shared
{
	volatile uint64_t cases[64];
	volatile uint64_t ok_values[64];
	volatile int mayLoop[64];	// the current case may legitimately not terminate (random programs)
	char text[64][1 << 16];
	char why[64][1 << 12];
	char sample[64][4][256];	// some of the cases, for the report
};

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { Next(); Next(); }
	uint64_t Next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
	uint64_t Below(uint64_t n) { return n ? (Next() >> 11) % n : 0; }
	bool Chance(int pct) { return (int)Below(100) < pct; }
	template <class T> const T & Pick(const std::vector<T> & v) { return v[Below(v.size())]; }
};

struct Ctx
{
	Shared * sh; int id; int workers; uint64_t seed; double seconds; time_t start; bool thorough; int round = 0;
	Rng rng;
	Ctx(Shared * s, int i, int n, uint64_t sd, double secs, bool th) : sh(s), id(i), workers(n), seed(sd), seconds(secs), start(time(0)), thorough(th), rng(sd * 1000 + i + 1) {}
	bool Time() const { return difftime(time(0), start) < seconds; }
	// is the n-th case for this worker?
	bool Mine(uint64_t n) const { return (int)(n % workers) == id; }
	void Case(const std::string & text)
	{
		sh->cases[id]++;
		size_t n = text.size() < sizeof(sh->text[0]) - 1 ? text.size() : sizeof(sh->text[0]) - 1;
		memcpy(sh->text[id], text.data(), n); sh->text[id][n] = 0; hash = std::hash<std::string>()(text);
		uint64_t k = sh->cases[id]; int slot = k == 3 ? 0 : k == 50 ? 1 : k == 700 ? 2 : k == 5000 ? 3 : -1;
		if (slot >= 0) { size_t m = n < 255 ? n : 255; memcpy(sh->sample[id][slot], text.data(), m); sh->sample[id][slot][m] = 0; }
	}
	void Random() { sh->mayLoop[id] = 1; }
	std::unordered_set<uint64_t> seen; uint64_t hash = 0;
	// the case gave a value: counted once per distinct case
	void Value() { if (seen.size() < 4000000 && seen.insert(hash).second) sh->ok_values[id]++; }
	[[noreturn]] void Fail(const std::string & why)
	{
		strncpy(sh->why[id], why.c_str(), sizeof(sh->why[0]) - 1);
		_exit(77);
	}
	void Check(bool ok, const std::string & why) { if (!ok) Fail(why); }
	void CheckEq(const std::string & is, const std::string & should, const std::string & what)
	{
		if (is != should) Fail(what + ": is " + is + " should be " + should);
	}
};

void Run(Ctx & ctx);

// harness SEED SECONDS WORKERS [thorough] : result as text, exit 0 no violation, 1 violation (input between markers), 2 broken
int main(int argc, char ** argv)
{
	uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
	double seconds = argc > 2 ? atof(argv[2]) : 30;
	int workers = argc > 3 ? atoi(argv[3]) : 8;
	bool thorough = argc > 4 && std::string(argv[4]) == "thorough";
	if (workers < 1) workers = 1;
	if (workers > 64) workers = 64;
	Shared * sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sh == MAP_FAILED) return 2;
	time_t begin = time(0);
	std::vector<pid_t> pids(workers, 0);
	std::vector<std::string> errs(workers);
	std::vector<int> round(workers, 0);
	auto spawn = [&](int i)
	{
		char name[64]; snprintf(name, sizeof(name), "worker%d.err", i); errs[i] = name;
		fflush(stdout);
		sh->mayLoop[i] = 0;
		pid_t p = fork();
		if (p == 0)
		{
			int fd = open("/dev/null", O_WRONLY); dup2(fd, 1);
			int fe = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fe, 2);
			int fi = open("/dev/null", O_RDONLY); dup2(fi, 0);
			struct rlimit rl = { 256u << 20, 256u << 20 }; setrlimit(RLIMIT_FSIZE, &rl);
			Ctx ctx(sh, i, workers, seed + 7919 * round[i], seconds, thorough);
			ctx.round = round[i]; ctx.start = begin;
			Run(ctx);
			_exit(0);
		}
		pids[i] = p;
	};
	for (int i = 0; i < workers; i++) spawn(i);
	int bad = -1; std::string reason; int done = 0; double limit = seconds + 240; time_t t0 = time(0);
	std::vector<uint64_t> last(workers, 0); std::vector<time_t> lastChange(workers, time(0));
	while (done < workers)
	{
		bool any = false;
		for (int i = 0; i < workers; i++)
		{
			if (pids[i] <= 0) continue;
			int st; pid_t r = waitpid(pids[i], &st, WNOHANG);
			if (r == pids[i])
			{
				any = true; pids[i] = 0;
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { done++; continue; }
				if (sh->mayLoop[i] && !(WIFEXITED(st) && WEXITSTATUS(st) == 77))
				{
					// a random program may recurse without end
					std::string err; FILE * f = fopen(errs[i].c_str(), "r");
					if (f) { char buf[4096]; size_t k = fread(buf, 1, sizeof(buf), f); err.assign(buf, k); fclose(f); }
					if (err.find("stack-overflow") != std::string::npos || err.find("out-of-memory") != std::string::npos || err.find("out of memory") != std::string::npos)
					{
						round[i]++; lastChange[i] = time(0);
						if (difftime(time(0), t0) < seconds) spawn(i); else done++;
						continue;
					}
				}
				done++;
				if (bad < 0)
				{
					bad = i;
					if (WIFEXITED(st) && WEXITSTATUS(st) == 77) reason = sh->why[i];
					else if (WIFSIGNALED(st)) { std::ostringstream o; o << "the process died by signal " << WTERMSIG(st); reason = o.str(); }
					else { std::ostringstream o; o << "the process ended with code " << WEXITSTATUS(st) << " (sanitizer report or exit)"; reason = o.str(); }
				}
			}
			else
			{
				if (sh->cases[i] != last[i]) { last[i] = sh->cases[i]; lastChange[i] = time(0); }
				else if (sh->mayLoop[i] && difftime(time(0), lastChange[i]) > 5)
				{
					kill(pids[i], SIGKILL); waitpid(pids[i], 0, 0); pids[i] = 0; round[i]++; lastChange[i] = time(0);
					if (difftime(time(0), t0) < seconds) spawn(i); else done++;
				}
				else if (difftime(time(0), lastChange[i]) > 60 && bad < 0) { bad = i; reason = "no answer within 60 seconds"; }
			}
		}
		if (bad >= 0 || difftime(time(0), t0) > limit)
		{
			for (int i = 0; i < workers; i++) if (pids[i] > 0) { kill(pids[i], SIGKILL); waitpid(pids[i], 0, 0); }
			break;
		}
		if (!any) usleep(20000);
	}
	uint64_t n = 0, v = 0; for (int i = 0; i < workers; i++) { n += sh->cases[i]; v += sh->ok_values[i]; }
	printf("cases=%llu values=%llu seed=%llu\n", (unsigned long long)n, (unsigned long long)v, (unsigned long long)seed);
	for (int i = 0; i < workers; i++) for (int k = 0; k < 4; k++) if (sh->sample[i][k][0])
	{
		std::string t = sh->sample[i][k]; for (char & ch : t) if (ch == '\n' || ch == '\r') ch = ' ';
		printf("SAMPLE %s\n", t.c_str());
	}
	if (bad >= 0)
	{
		printf("FAIL worker=%d reason: %s\n<<<INPUT\n%s\nINPUT>>>\n", bad, reason.c_str(), sh->text[bad]);
		FILE * f = fopen(errs[bad].c_str(), "r");
		if (f) { char buf[4096]; size_t k; size_t tot = 0; printf("<<<STDERR\n"); while ((k = fread(buf, 1, sizeof(buf), f)) > 0 && tot < 20000) { fwrite(buf, 1, k, stdout); tot += k; } printf("\nSTDERR>>>\n"); fclose(f); }
		return 1;
	}
	return 0;
}
