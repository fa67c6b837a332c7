// Generates scenarios: deployment, configuration, command behaviour, users, hostile peers, faults and their timing.
#include "director.h"

#include <algorithm>
#include <cerrno>
#include <csignal>

namespace sim {

// Probabilities in percent, unless noted otherwise.
struct Prof
{
	int sessMin = 1, sessMax = 4;
	int hosts2 = 40, hosts3 = 10, sameCt = 30;
	int overlap = 60;
	// servers
	int daemon = 15, init = 10, noWait = 8, keep = 10, disable = 5, overwrite = 8, genLocal = 25, hostOpts = 20, relPaths = 25;
	int maxConn = 6, timeout = 6, stubOnly = 25, failStart = 4, restart = 6, stopMid = 8, killServer = 3, hup = 4, lateStart = 10, never = 2, startSig = 1, startErr = 1, connectErr = 1, group = 4, loseStub = 3;
	int srvFdClosed = 2, clientFdClosed = 3, bystander = 20;
	// sessions
	int raw = 10, hostile = 5, big = 15, closeOps = 12, forkHold = 6, leaveDaemon = 4, neighbour = 8, die = 8, unread = 20, idleStdin = 25, interactive = 12, longRun = 8, cat = 25;
	int slow = 8, paused = 4, outBad = 4, stdinOdd = 15, badCmd = 6, outFile = 6, dualFlow = 5, flood = 0;
	int envComplex = 30, argsComplex = 30;
	// faults
	int clientKill = 6, clientSig = 3, reset = 4, handlerKill = 2, cmdKill = 3, stall = 8, eintr = 8, errServer = 3, errHandler = 3, alloc = 2, jump = 4, shortIo = 8;
	// machine
	int tinyCaps = 25, net = 45, tinyPipe = 35;
	int install = 0;
	int debug = 2, badConfig = 1, cfgOdd = 15, outside = 1, pathOdd = 8;
	int longTimeout = 30;
	int deep = 1; // weeks pass
	int storm = 1;
	int many = 2; // commands, and a long configuration
	int ephemeral = 3; // ports the system may also choose as source ports
	int exhaust = 1;
	int huge = 0; // amounts of data beyond any buffer
};

static Prof profileFor(const std::string &prop)
{
	Prof p;
	auto calm = [&] { p.clientKill = p.clientSig = p.reset = p.handlerKill = p.cmdKill = p.errServer = p.errHandler = p.alloc = 1; };
	if (prop == "C01") { p.die = 20; p.unread = 35; p.badCmd = 12; p.cmdKill = 8; p.handlerKill = 6; p.reset = 8; p.closeOps = 20; p.outBad = 6; p.errHandler = 6; p.alloc = 6; p.idleStdin = 40; }
	else if (prop == "C02") { p.huge = 4; p.big = 40; p.outBad = 15; p.outFile = 15; p.slow = 15; p.paused = 10; p.die = 15; p.unread = 25; p.reset = 6; p.clientFdClosed = 8; p.forkHold = 10; p.tinyCaps = 40; }
	else if (prop == "C03") { calm(); p.huge = 4; p.flood = 3; p.cat = 45; p.unread = 40; p.closeOps = 25; p.stdinOdd = 30; p.big = 35; p.dualFlow = 15; p.clientFdClosed = 8; p.tinyPipe = 60; p.srvFdClosed = 6; }
	else if (prop == "C04") { calm(); p.huge = 2; p.clientKill = p.reset = 0; p.big = 35; p.interactive = 35; p.idleStdin = 45; p.dualFlow = 20; p.tinyCaps = 60; p.tinyPipe = 60; p.closeOps = 20; p.outBad = 0; p.slow = 3; p.sessMax = 3; p.forkHold = 12; p.flood = 5; }
	else if (prop == "C05") { calm(); p.envComplex = 85; p.argsComplex = 80; p.hosts2 = 60; p.raw = 15; p.badCmd = 12; p.sessMax = 5; p.big = 5; p.relPaths = 50; p.daemon = 25; p.cfgOdd = 30; p.outside = 8; p.pathOdd = 25; p.many = 4; }
	else if (prop == "C06") { p.sessMin = 2; p.sessMax = 6; p.overlap = 95; p.clientKill = 15; p.reset = 10; p.slow = 12; p.raw = 20; p.hostile = 10; p.envComplex = 50; p.argsComplex = 50; p.handlerKill = 6; p.cmdKill = 6; p.stall = 15; p.srvFdClosed = 8; }
	else if (prop == "C07") { p.clientKill = 45; p.clientSig = 20; p.reset = 30; p.longRun = 60; p.raw = 25; p.hostile = 4; p.closeOps = 30; p.cmdKill = 8; p.stall = 10; p.unread = 35; p.sessMax = 3; p.big = 20; p.slow = 12; p.dualFlow = 10; p.tinyCaps = 35; }
	else if (prop == "C08") { p.startErr = 6; p.raw = 55; p.hostile = 45; p.badCmd = 20; p.errServer = 40; p.errHandler = 20; p.alloc = 12; p.clientKill = 20; p.reset = 20; p.restart = 15; p.killServer = 10; p.sessMin = 2; p.sessMax = 6; p.handlerKill = 8; p.big = 8; p.storm = 3; p.exhaust = 4; }
	else if (prop == "C09") { p.raw = 80; p.hostile = 75; p.sessMin = 2; p.sessMax = 6; p.errHandler = 8; p.hosts2 = 70; p.big = 4; p.badCmd = 15; p.stall = 3; p.shortIo = 20; }
	else if (prop == "C10") { p.group = 25; p.startSig = 8; p.startErr = 5; p.maxConn = 35; p.timeout = 35; p.stopMid = 55; p.noWait = 30; p.longRun = 30; p.sessMin = 1; p.sessMax = 6; p.hup = 25; p.errServer = 8; p.init = 20; p.daemon = 25; p.stall = 12; p.restart = 10; p.jump = 10; p.deep = 5; p.storm = 8; p.debug = 8; p.exhaust = 3; }
	else if (prop == "C11") { p.loseStub = 12; p.startSig = 20; p.startErr = 20; p.failStart = 30; p.stopMid = 30; p.keep = 25; p.disable = 15; p.overwrite = 25; p.genLocal = 40; p.hosts2 = 70; p.daemon = 45; p.relPaths = 60; p.bystander = 70; p.badCmd = 25; p.hostile = 20; p.raw = 20; p.errHandler = 12; p.alloc = 5; p.restart = 20; p.killServer = 8; p.stubOnly = 40; p.sessMin = 0; p.sessMax = 3; p.hup = 10; p.maxConn = 12; p.timeout = 12; p.badConfig = 5; p.pathOdd = 25; p.debug = 5; }
	else if (prop == "C12") { p.connectErr = 20; p.lateStart = 80; p.never = 25; p.restart = 25; p.killServer = 15; p.longTimeout = 60; p.sessMax = 3; p.big = 2; p.failStart = 12; p.jump = 25; p.stall = 12; p.net = 30; p.errServer = 6; p.raw = 4; p.stopMid = 4; p.deep = 3; p.ephemeral = 20; }
	else if (prop == "C13") { p.install = 100; p.sessMax = 1; p.sessMin = 0; }
	else if (prop == "C14") { calm(); p.closeOps = 50; p.idleStdin = 60; p.longRun = 50; p.slow = 15; p.paused = 15; p.unread = 30; p.stdinOdd = 35; p.interactive = 20; p.sessMax = 3; p.clientKill = 8; p.lateStart = 20; p.dualFlow = 10; p.clientFdClosed = 12; p.big = 15; p.forkHold = 15; p.raw = 12; p.hostile = 4; p.exhaust = 6; }
	else if (prop == "C15") { p.startSig = 8; p.startErr = 20; p.daemon = 100; p.relPaths = 50; p.failStart = 12; p.hup = 40; p.stopMid = 20; p.srvFdClosed = 5; p.sessMax = 3; p.restart = 15; p.genLocal = 40; p.init = 0; p.deep = 3; }
	else if (prop == "C18") { calm(); p.pathOdd = 90; p.outside = 25; p.cfgOdd = 30; p.relPaths = 60; p.hosts2 = 60; p.raw = 15; p.hostile = 3; p.sessMin = 2; p.sessMax = 6; p.big = 2; p.bystander = 40; p.daemon = 30; p.stubOnly = 40; p.keep = 15; p.genLocal = 40; p.badCmd = 3; p.restart = 10; p.overwrite = 15; }
	else if (prop == "C17") { calm(); p.clientKill = p.reset = p.handlerKill = p.cmdKill = p.clientSig = p.stopMid = p.killServer = 0; p.badConfig = 30; p.cfgOdd = 85; p.outside = 8; p.envComplex = 80; p.argsComplex = 80; p.hosts2 = 65; p.hosts3 = 35; p.relPaths = 50; p.sessMin = 2; p.sessMax = 5; p.hostOpts = 60; p.genLocal = 35; p.keep = 20; p.daemon = 25; p.big = 3; p.lateStart = 20; p.never = 6; p.bystander = 40; p.overwrite = 20; p.longTimeout = 45; p.many = 6; }
	else if (prop == "C16") { p.clientKill = 25; p.reset = 20; p.badCmd = 20; p.hostile = 30; p.raw = 40; p.errServer = 15; p.errHandler = 20; p.alloc = 10; p.init = 35; p.daemon = 25; p.forkHold = 20; p.handlerKill = 12; p.sessMin = 2; p.sessMax = 7; p.longRun = 20; p.closeOps = 20; p.storm = 3; p.exhaust = 3; }
	return p;
}

static bool P(int pc) { return chScn.chance(uint32_t(pc), 100); }
static uint32_t D(uint32_t n) { return chScn.draw(n); }

static std::string norm(const std::string &p)
{
	std::vector<std::string> v;
	for (size_t i = 0; i < p.size();)
	{
		while (i < p.size() && p[i] == '/') i++;
		size_t j = i;
		while (j < p.size() && p[j] != '/') j++;
		if (j == i) break;
		std::string c = p.substr(i, j - i);
		if (c == "..") { if (!v.empty()) v.pop_back(); }
		else if (c != ".") v.push_back(c);
		i = j;
	}
	std::string r;
	for (auto &c : v) r += "/" + c;
	return r.empty() ? "/" : r;
}

static std::string join(const std::string &a, const std::string &b)
{
	if (b.empty()) return a;
	return b[0] == '/' ? b : a + "/" + b;
}

// ---------------------------------------------------------------- configuration text
static bool plainChar(char c)
{
	return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c & 0x80) || (c > 0 && c < 8) || (c > 13 && c < 32) || strchr("_-./:+,@%^~}!$&()*;<>?`{|", c);
}

static std::string dq(const std::string &s)
{
	std::string r = "\"";
	for (char c : s)
	{
		if (c == '"') r += D(2) ? "\"\"" : "\\\"";
		else if (c == '\\') r += "\\\\";
		else if (c == '\n') r += D(2) ? "\n" : "\\n";
		else if (c == '\t') r += D(2) ? "\t" : "\\t";
		else if (c == '\'') r += D(2) ? "'" : "\\'";
		else if (c == '\b') r += "\\b";
		else if (c == '\f') r += "\\f";
		else if (c == '\r') r += "\\r";
		else if ((c == 'z' || c == 'o' || c == '1' || (c & 0x80) ? D(3) == 2 : isalnum(uint8_t(c)) && D(20) == 19))
		{
			static const char *digits[] = { "0123456789abcdef", "0123456789ABCDEF" };
			r += "\\x" + std::string(1, digits[D(2)][uint8_t(c) >> 4]) + std::string(1, digits[D(2)][c & 15]);
		}
		else r += c;
	}
	return r + "\"";
}

static std::string sq(const std::string &s)
{
	std::string r = "'";
	for (char c : s) { r += c; if (c == '\'') r += '\''; }
	return r + "'";
}

// Whether the text contains a reference to a variable, which would be replaced unless it is in single quotes.
static bool refers(const std::string &s)
{
	for (size_t i = s.find("${"); i != std::string::npos; i = s.find("${", i + 1))
	{
		size_t j = i + 2;
		while (j < s.size() && (isalnum(uint8_t(s[j])) || strchr("_.-() ", s[j]))) j++;
		if (j < s.size() && (s[j] == '}' || (s[j] == ':' && j + 1 < s.size() && s[j + 1] == '-' && s.find('}', j) != std::string::npos))) return true;
	}
	return false;
}

// Text that looks like a reference, but is none.
static std::string brokenReference()
{
	static const char *text[] = { "${", "${HOME", "${HOME:-x", "$${", "${HOME:x}", "${HOME:", "${HOME$", "$(HOME)", "${HOME:=x}", "{HOME}", "$ {HOME}", "${HOME:+x}" };
	if (D(2)) return text[D(12)];
	static const char odd[] = "!\"#$%&'*+,/;<=>?@[\\]^`{|~\x7f\x80";
	char c;
	do c = D(2) ? odd[D(sizeof(odd) - 1)] : char(1 + D(255)); while (isalnum(uint8_t(c)) || strchr("_.-() :}", c));
	return std::string(D(2) ? "${HO" : "${") + c + "ME" + (D(2) ? ":-x}" : "}");
}

static std::string renderLit(const std::string &s, bool bareOk)
{
	bool plain = bareOk && !s.empty();
	for (char c : s) plain = plain && plainChar(c);
	if (refers(s)) return sq(s);
	switch (plain ? chScn.weighted({ 6, 1, 1 }) : 1 + D(2))
	{
	case 0: return s;
	case 1: return dq(s);
	default: return sq(s);
	}
}

static bool nulEnds;

static std::string renderTemplate(const Template &t, bool arg = false)
{
	std::string r;
	bool lastQuoted = false;
	if (arg && nulEnds && t.size() == 1 && t[0].k == Piece::LIT && !t[0].s.empty() && t[0].s.find("${") == std::string::npos && D(12) == 11)
	{
		r = dq(t[0].s);
		return r.insert(r.size() - 1, "\\0"); // what follows a NUL character is no part of the argument
	}
	for (auto &p : t)
	{
		if (p.k == Piece::LIT)
		{
			std::string x = renderLit(p.s, true);
			// two adjacent quoted sections of the same kind would read as an escaped quote
			if (!r.empty() && !x.empty() && lastQuoted && (x[0] == '\'' || x[0] == '"') && r.back() == x[0]) x = x[0] == '\'' ? dq(p.s) : sq(p.s);
			lastQuoted = !x.empty() && (x[0] == '\'' || x[0] == '"');
			r += x;
			continue;
		}
		std::string x = "${" + p.s + (p.hasDef ? ":-" + p.def : "") + "}";
		if (p.k == Piece::LATEREF) { if (!r.empty() && r.back() == '\'') r.pop_back(), r += x + "'"; else r += "'" + x + "'"; lastQuoted = true; }
		else { bool q = D(3) == 2 && (r.empty() || r.back() != '"'); r += q ? "\"" + x + "\"" : x; lastQuoted = q; }
	}
	if (r.empty()) return "\"\"";
	return r;
}

// Other ways to write a path.
static std::string spell(const std::string &path, bool odd, bool dir = false)
{
	if (!odd) return path;
	bool abs = path[0] == '/';
	std::string r;
	for (size_t i = 0; i < path.size();)
	{
		while (i < path.size() && path[i] == '/') i++;
		size_t j = i;
		while (j < path.size() && path[j] != '/') j++;
		if (j == i) break;
		std::string c = path.substr(i, j - i);
		i = j;
		std::string sep = !r.empty() || abs ? "/" : "";
		bool plain = c == ".." || c == "." || c == LINK || (i >= path.size() && !dir); // (what is not a directory has no parent entry)
		switch (D(8))
		{
		case 4: r += (sep.empty() ? "./" : "//") + c; break;
		case 5: r += sep + "./" + c; break;
		case 6: r += sep + (plain ? c : c + "/../" + c); break;
		case 7: r += (abs && r.empty() ? D(2) ? "/../" : "/.././" : sep + ".//") + c; break;
		default: r += sep + c; break;
		}
	}
	if (r.empty()) return abs ? chScn.pick<const char *>({ "/", "//", "/.", "/..", "/./", "/../." }) : chScn.pick<const char *>({ ".", "./", "./." });
	return r;
}

// ... of a directory
static std::string spellDir(const std::string &path, bool odd)
{
	std::string r = spell(path, odd, true);
	if (odd) switch (D(5)) { case 3: r += "/"; break; case 4: r += D(2) ? "/." : "//"; break; default: break; }
	return r;
}

static std::string ws() { return D(4) == 3 ? D(2) ? "  " : "\t" : " "; }
static bool dosText; // lines end with a carriage return and a line feed
static std::string nl() { return dosText ? "\r\n" : "\n"; }
static std::string comment() { return chScn.pick<const char *>({ "# a comment with [ 'quotes\" and = signs", "#", "##", "# '", "#=", "#\\", "#[ x ]", "# ${NOT_SET" }); }
static std::string eol() { return (D(6) == 5 ? (dosText ? "\t" : " ") + comment() : D(8) == 7 ? " \r" : "") + nl(); }

static std::string renderEnvRule(const EnvRule &r)
{
	std::string n = (r.kind == ' ' ? "" : std::string(1, r.kind)) + r.name + "=";
	if (r.value.empty()) return n;
	return n + renderTemplate(r.value);
}

static const long long FOREVER_MS = 1000000000000LL;

static void renderConfig(Cfg &c, const std::string &emptySection)
{
	dosText = c.odd && D(4) == 3;
	nulEnds = c.odd;
	std::string t;
	if (D(3) == 2) t += "# configuration" + nl() + nl();
	std::vector<std::string> common;
	auto equals = [&] { return std::string(D(3) == 2 ? "=" : c.odd && D(3) == 2 ? "\t =  " : " = "); };
	if (!c.baseSetting.empty()) common.push_back("baseDirectory" + equals() + c.baseSetting);
	if (c.hasTimeout)
	{
		bool twice = c.odd && D(4) == 3;
		if (twice) common.push_back("connectTimeoutMs" + equals() + "12345"); // the last one counts
		std::string v = c.timeoutText.empty() ? std::to_string(c.connectTimeoutMs) : c.timeoutText;
		if (c.timeoutText.empty() && c.odd && c.connectTimeoutMs > 0 && D(5) == 4) v = "0" + v;
		if (c.timeoutText.empty() && c.odd && D(4) == 3) v = D(2) ? "'" + v + "'" : "\"" + v + "\"";
		std::string l = "connectTimeoutMs" + equals() + v;
		common.push_back(l);
		if (!twice && D(2)) std::reverse(common.begin(), common.end());
	}
	if (c.connectTimeoutMs > FOREVER_MS) c.connectTimeoutMs = FOREVER_MS;
	for (auto &l : common) t += (c.odd && D(4) == 3 ? "\t" : "") + l + eol();
	if (c.padding)
	{
		size_t line = chScn.pick<size_t>({ 60, 100000, 200, 1 });
		for (size_t n = 0; n < c.padding; n += line) t += (line > 1 ? "#" + std::string(std::min(line, c.padding - n), D(2) ? 'x' : ' ') : "") + nl();
	}
	for (size_t h = 0; h < c.hosts.size(); h++)
	{
		CfgHost &x = c.hosts[h];
		for (auto &e : x.before)
			t += "[" + std::string(D(2) ? " " : "") + e.first + (e.second ? ":" + std::to_string(e.second) : "") + " ]" + (D(3) == 2 ? " LEAK=1 ?X=wrong =PATH=/nowhere --nonsense" : "") + eol();
		if (D(2)) t += nl();
		t += (c.odd && D(4) == 3 ? " [" : "[") + std::string(D(2) ? " " : "");
		if (x.portText.empty()) t += renderLit(x.name + (x.explicitPort ? ":" + std::to_string(x.explicitPort) : ""), true);
		else t += renderLit(x.name, true) + ":" + x.portText;
		t += (D(2) ? " " : "") + std::string("]");
		for (auto &e : x.env) t += ws() + renderEnvRule(e);
		for (auto &o : x.options) t += ws() + renderLit(o, true);
		t += eol();
		for (auto &k : c.cmds)
		{
			if (k.host != int(h)) continue;
			if (D(5) == 4) t += (D(4) == 3 ? "\t" : "") + comment() + nl();
			if (c.odd && D(4) == 3) t += D(2) ? "\t" : "   ";
			t += renderLit(k.name, true);
			for (auto &e : k.env) t += ws() + renderEnvRule(e);
			for (auto &a : k.exec) t += ws() + renderTemplate(a, true);
			t += eol();
		}
	}
	if (!emptySection.empty()) t += "[ " + emptySection + " ] --this-argument-is-not-processed" + nl();
	if (c.odd && D(3) == 2)
	{
		t.pop_back(); // the last line is not terminated
		if (D(2) && t.back() == '\r') t.pop_back();
	}
	c.text = t;
}

// What is wrong with the text (chosen before the servers are) and the text made wrong that way.
static const char *const wrong[] = { "an unknown key", "a word too many", "a setting without a value", "an unterminated string", "an unknown escape sequence", "an unusable port", "a section that is not closed", "a section without a name", "an unusable timeout", "a port beyond the last one", "no such file", "an unreadable file" };

static void spoil(Cfg &c)
{
	std::string &t = c.text;
	std::string e = nl();
	auto front = [&](const std::string &l) { t = l + e + t; };
	auto back = [&](const std::string &l) { if (t.empty() || t.back() != '\n') t += e; t += l + e; };
	const std::string &w = c.invalid;
	static const char *escapes[] = { "\\q", "\\x0g", "\\xg0", "\\xz1", "\\a", "\\N", "\\ ", "\\x4", "\\$", "\\xG1", "\\x2Z", "\\x:0", "\\x/0", "\\x0@", "\\x`0", "\\1", "\\X41" };
	if (w == wrong[0]) front(std::string(chScn.pick<const char *>({ "basedirectory", "connectTimeout", "timeout", "x", "gcc", "connectTimeoutms" })) + chScn.pick<const char *>({ " = 1", "=x", "", " =" }));
	else if (w == wrong[1]) front(chScn.pick<const char *>({ "baseDirectory = a b", "connectTimeoutMs = 100 ms", "connectTimeoutMs = 1 000", "baseDirectory = . 'x'", "connectTimeoutMs = 5 = 6", "connectTimeoutMs = 5 =", "connectTimeoutMs = = 100", "connectTimeoutMs == 100", "baseDirectory = = .", "baseDirectory = . = .", "connectTimeoutMs = 30000 baseDirectory = .", "baseDirectory = . connectTimeoutMs = 100" }));
	else if (w == wrong[2]) front(chScn.pick<const char *>({ "baseDirectory .", "baseDirectory: x", "connectTimeoutMs 7", "connectTimeoutMs" }));
	else if (w == wrong[3]) back(std::string(chScn.pick<const char *>({ "late ", "late X=", "[ late ] ", "late a b " })) + chScn.pick<const char *>({ "'never closed", "\"never closed", "\"it''s \\\"", "'", "\"", "'a''" }));
	else if (w == wrong[4]) back(std::string(chScn.pick<const char *>({ "late ", "late X=", "late a b " })) + "\"" + (D(2) ? "text " : "") + escapes[D(17)] + (D(2) ? " text" : "") + "\"");
	else if (w == wrong[5])
	{
		std::string n = chScn.pick<const char *>({ "65536", "12a", "-1", "99999999999999999999", "4294967376", "65616", "x", "0x50", "+80", "", "131152", "18446744073709552736", "0", "00", "1:2", ":1200", "1200:", " 1200", "12 00" });
		bool zero = n == "0" || n == "00"; // (not wrong as long as there are no commands)
		if (n.find(' ') != std::string::npos) n = "'" + n + "'";
		back("[ late:" + n + "]" + (D(2) || zero ? e + "late" : ""));
	}
	else if (w == wrong[6]) back(chScn.pick<const char *>({ "[ late", "[late\n]", "[ late # ]", "[ a b ]", "[ late } ]" }) + (D(2) ? e + "late" : ""));
	else if (w == wrong[7]) back(chScn.pick<const char *>({ "[]", "[ ]", "[ # ]", "[\t]" }) + (D(2) ? e + "late" : ""));
	else if (w == wrong[8]) front("connectTimeoutMs = " + std::string(chScn.pick<const char *>({ "abc", "''", "99999999999999999999", "-99999999999999999999", "--1", "-", "x5", "ms" })));
	else if (w == wrong[9]) back("[ late:65535 ]" + e + "late1" + e + "[ later ]" + e + "late2");
}

// ---------------------------------------------------------------- builder
struct Builder
{
	Director *d;
	Prof p;
	size_t nHosts = 1;
	std::vector<std::string> relDirs;
	std::vector<Env> hostEnv; // environment of the servers, per host
	Env clientEnv;
	size_t maxBytes = 300000;
	int hugeLeft = 0;
	std::vector<std::string> hostDir; // server working directories
	struct StubSource { Server *srv; std::string dirAtClient; };
	std::vector<StubSource> stubs;
	std::string emptySection;
	std::string link; // a symbolic link to the mount point
	Time firstServe = 0;

	Cfg &cfg() { return d->cfg; }
	std::string conf(size_t i) { return d->confPath(i); } // the configuration as host i or (the last one) the client names it

	void machine();
	void deployment();
	void configuration();
	void program(CfgCmd &c, int idx);
	Server *server(int host, int gen, const std::vector<std::string> &tokens, Server *prev);
	void servers();
	void script(Session *s, bool loss);
	void streams(Session *s);
	void lengthen(std::string &a);
	void arguments(Session *s);
	void session();
	void rawSession(Session *s);
	void faults();
	void installCase();
	int64_t size(bool allowBig);
	Time shortTime() { return Time(chScn.draw(8)) * Time(chScn.draw(60)) * MS; }
	void interpret(Server *v, const std::vector<std::string> &tok, std::string &dir, bool &dirGiven);
	int chunkFor(int64_t n);
	FaultItem *addFault(FaultItem f);
};

void Builder::machine()
{
	Knobs &k = W->k;
	d->deep = P(p.deep);
	if (d->deep) d->timeCap = 120 * 86400 * SEC;
	if (P(p.tinyPipe)) k.pipeCap = chScn.pick<size_t>({ 65536, 4096, 8192, 16384 });
	if (P(p.tinyCaps))
	{
		k.sndCap = chScn.pick<size_t>({ 262144, 16384, 4608, 2304 });
		k.rcvCap = chScn.pick<size_t>({ 131072, 16384, 4096, 2048 });
	}
	if (P(p.net))
	{
		k.latencyMode = int(D(3));
		k.segMode = int(D(4));
	}
	k.selfConnect = D(2) ? 0 : 4;
	k.stickiness = chScn.pick<int>({ 3, 0, 1, 2, 4, 5 });
	k.stepCost = chScn.pick<Time>({ 2 * US, 20 * US, 200 * US });
	k.pidStart = chScn.pick<int>({ 100, 32000, 4190000 });
	if (k.pidStart > 32768) k.pidMax = 4194304;
	W->nextPid = k.pidStart;
	k.spinThreshold = 30;
	maxBytes = 300000;
	if (k.segMode == 2) maxBytes = 6000;
	else if (k.segMode == 3) maxBytes = 60000;
	if (k.sndCap < 8000 || k.rcvCap < 8000) maxBytes = std::min<size_t>(maxBytes, 120000);
	if (maxBytes == 300000 && P(p.huge)) { hugeLeft = 1 + int(D(2)); p.big = 100; }
}

void Builder::deployment()
{
	nHosts = P(p.hosts2) ? P(p.hosts3) ? 3 : 2 : 1;
	static const char *names[] = { "gcc", "java", "build-tools" };
	Cfg &c = cfg();
	d->workspace = mkNode(Inode::DIR, 0755);
	std::string bin = std::string("#!k8psh!\n") + '\0';
	size_t extra = D(4) == 3 ? 8192 * (1 + D(4)) - bin.size() + D(3) - 1 : D(30000);
	appendPattern(bin, 99, 9, 0, extra);
	d->binary = mkNode(Inode::REG, 0755);
	d->binary->data = bin;
	d->watched[d->binary] = "the k8psh program";
	auto equip = [&](Container *ct) {
		Inode *b = mkdirp(ct, "/bin");
		b->ents["k8psh"] = d->binary;
		b->ents["k8pshd"] = d->binary;
		d->binary->nlink += 2;
	};
	static const char *mnt[] = { "/workspace", "/ws", "/mnt/shared work", "/home/user/project", "/mnt/.h/..ws/x." };
	bool sameMount = D(2) == 0;
	std::string common = mnt[D(5)];
	bool oneCt = P(p.sameCt);
	for (size_t h = 0; h < nHosts; h++)
	{
		CfgHost x;
		x.name = names[h];
		c.hosts.push_back(x);
		if (h == 0 || !oneCt)
		{
			Container *ct = addContainer(names[h]);
			equip(ct);
			std::string m = sameMount ? common : mnt[D(5)];
			mountDir(ct, m, d->workspace);
			d->hostCt.push_back(ct);
			d->mounts.push_back(m);
		}
		else { d->hostCt.push_back(d->hostCt[0]); d->mounts.push_back(d->mounts[0]); }
	}
	if (oneCt) { d->clientCt = d->hostCt[0]; d->mounts.push_back(d->mounts[0]); }
	else
	{
		d->clientCt = addContainer("client");
		equip(d->clientCt);
		std::string m = sameMount ? common : mnt[D(5)];
		mountDir(d->clientCt, m, d->workspace);
		d->mounts.push_back(m);
	}
	// base directory and configuration file
	std::string cfgDir = D(3) == 2 ? D(3) == 2 ? ".k/..c" : D(4) == 3 ? "a=b/c d" : "test/config" : "";
	std::string file = D(8) == 7 ? chScn.pick<const char *>({ "k8=psh.conf", "-", "k8 psh", "=" }) : "k8psh.conf";
	c.path = (cfgDir.empty() ? "" : cfgDir + "/") + file;
	bool allSame = true;
	for (auto &m : d->mounts) allSame &= m == d->mounts[0];
	c.baseSub = cfgDir;
	bool wsEnv = false;
	c.oddPaths = P(p.pathOdd);
	if (c.oddPaths && D(4) != 3)
	{
		if (allSame && D(6) == 5)
		{
			c.atRoot = true;
			cfgDir.clear();
			c.path = file;
		}
		c.baseSub = cfgDir;
		int target = int(D(allSame ? 6 : 4));
		bool linked = D(3) == 2;
		if (linked)
		{
			std::set<Container *> cts(d->hostCt.begin(), d->hostCt.end());
			cts.insert(d->clientCt);
			for (Container *ct : cts)
			{
				size_t at = 0;
				while (at < nHosts && d->hostCt[at] != ct) at++;
				Inode *l = mkNode(Inode::LNK, 0777);
				l->data = d->mounts[at];
				ct->root->ents[LINK] = l;
			}
			c.confLinked = !c.atRoot && D(2);
			link = "/" + std::string(LINK);
			probe("linked-directory");
		}
		std::string sub = target == 1 ? chScn.pick<const char *>({ "sub/dir", "sub/.d", "s./..d", ".../x", "..s/d..", ".s" }) : target == 2 ? "base dir" : target == 3 ? cfgDir : "";
		c.baseSub = sub;
		c.baseRoot = target >= 4;
		std::string text;
		bool inner = target == 1 && D(4) == 3;
		if (inner)
		{
			Inode *l = mkNode(Inode::LNK, 0777);
			l->data = sub;
			d->workspace->ents[LINK] = l;
			probe("linked-base");
		}
		std::string shownSub = inner ? LINK : sub;
		if (c.baseRoot) { text = spellDir("/", true); c.baseSub = ""; }
		else if (linked && D(2)) text = spellDir(link + (sub.empty() ? "" : "/" + shownSub), true);
		else if (allSame && (c.atRoot || D(2))) text = spellDir(c.atRoot && D(2) ? (common.substr(0, 1) == "/" ? d->mounts[0].substr(1) : "") + (sub.empty() ? "" : "/" + shownSub) : d->mounts[0] + (sub.empty() ? "" : "/" + shownSub), true);
		else text = spellDir((cfgDir.empty() ? "" : sub.empty() ? "../.." : "../../") + shownSub, true);
		if (c.baseRoot && c.atRoot && D(2)) text = "";
		if (target == 3 && !c.atRoot && D(2)) text = "";
		if (!text.empty()) c.baseSetting = D(2) ? dq(text) : sq(text);
	}
	else switch (D(7))
	{
	case 0: break;
	case 1: c.baseSetting = "."; break;
	case 2: if (!cfgDir.empty()) { c.baseSetting = "'../..'"; c.baseSub = ""; } else { c.baseSetting = "./sub/../sub//dir/"; c.baseSub = "sub/dir"; } break;
	case 3: c.baseSetting = "\"base dir\""; c.baseSub = (cfgDir.empty() ? "" : cfgDir + "/") + "base dir"; break;
	case 4: c.baseSetting = "${WORKSPACE:-.}"; c.baseSub = ""; wsEnv = true; break;
	case 5: c.baseSetting = "${K8WS:-.}"; break;
	case 6: if (allSame) { c.baseSetting = dq(d->mounts[0]); c.baseSub = ""; } break;
	}
	relDirs = { "" };
	static const char *rel[] = { "src", "a b/c", "deep/er/and deeper", "d\xc3\xa9j\xc3\xa0", "..x/.hidden" };
	static const char *oddRel[] = { "...", "a.b/..c", "x./y.", " lead/trail ", "back\\slash", "-n", "new\nline", "~", "$HOME", "a/a/a" };
	for (uint32_t i = 0, n = D(3); i < n; i++) relDirs.push_back(rel[D(5)]);
	if (c.oddPaths)
	{
		for (uint32_t i = 0, n = D(3); i < n; i++) relDirs.push_back(oddRel[D(10)]);
		if (D(4) == 3) relDirs.push_back(std::string(250, 'l') + "/" + std::string(D(255) + 1, 'm'));
		if (D(8) == 7) { std::string deep; for (size_t i = 0, n = 5 + D(8); i < n; i++) deep += (i ? "/" : "") + std::string(200 + D(56), char('a' + i)); relDirs.push_back(deep); }
		std::string b = c.baseSub.empty() ? d->mounts.back() : c.baseSub;
		if (D(4) == 3) relDirs.push_back(b.substr(b.rfind('/') + 1)); // named like the base directory itself
	}
	for (auto &r : relDirs) mkdirp(d->clientCt, d->mounts.back() + "/" + c.baseSub + "/" + r);
	// environments
	for (size_t h = 0; h < nHosts; h++)
	{
		Env e;
		e["PATH"] = D(3) == 2 ? "/opt/tools:/usr/bin:/bin" : "/usr/local/bin:/opt/tools:/bin";
		e["HOME"] = "/root";
		e["SRV_A"] = "server value A" + std::to_string(h);
		e["SRV_B"] = D(2) ? "" : "b=b";
		e["SRV_D"] = "${HOME} ${NOT_SET:-x} $5}"; // (values are not expanded again)
		e["LD_LIBRARY_PATH"] = "/usr/lib:/lib";
		e["K8PSH_CONFIG"] = spell(conf(h), c.oddPaths);
		if (wsEnv) e["WORKSPACE"] = spellDir(d->mounts[h], c.oddPaths);
		hostEnv.push_back(e);
	}
	clientEnv["PATH"] = "/k8psh:/bin:/usr/bin";
	clientEnv["HOME"] = "/home/client";
	clientEnv["K8PSH_CONFIG"] = spell(conf(nHosts), c.oddPaths);
	if (wsEnv) clientEnv["WORKSPACE"] = spellDir(d->mounts.back(), c.oddPaths);
}

static std::string names[] = { "CC_OPT", "SRV_A", "SRV_B", "LD_LIBRARY_PATH", "GRADLE_OPTS", "X", "CLIENT_ONLY", "HOME", "PATH2" }; // of variables; X may have another name

// Text of any characters but NUL.
static std::string randomText()
{
	static const char special[] = "\"'\\#=$[]{}<>~ \t\n:;*?!&|()`";
	std::string r;
	for (uint32_t i = 0, n = 1 + D(12); i < n; i++)
	{
		char c = ' ';
		switch (D(4))
		{
		case 0: case 1: c = char(33 + D(94)); break;
		case 2: c = special[D(sizeof(special) - 1)]; break;
		default: c = char(1 + D(255)); break;
		}
		if (c == '{' && !r.empty() && r.back() == '$') c = '(';
		r += c;
	}
	return r;
}

static EnvRule randomRule(bool complex, int idx)
{
	EnvRule r;
	r.name = names[D(8)];
	r.kind = chScn.pick<char>({ ' ', '?', '=' });
	auto lit = [&](const std::string &s) { Piece q; q.s = s; return q; };
	switch (complex ? D(8) : D(2))
	{
	case 0: break; // empty
	case 1: r.value.push_back(lit("default" + std::to_string(idx))); break;
	case 2: r.value.push_back(lit("it's \"quoted\" # not a comment = \\ \t.")); break;
	case 3: { Piece q; q.k = Piece::LATEREF; q.s = names[D(8)]; r.value.push_back(q); r.value.push_back(lit(":.")); break; }
	case 4: { Piece q; q.k = Piece::LOADREF; q.s = D(2) ? D(3) == 2 ? names[5] : "SRV_A" : "NOT_SET"; q.hasDef = D(2); q.def = D(3) == 2 ? "" : "dflt"; r.value.push_back(lit("pre-")); r.value.push_back(q); break; }
	case 5: { Piece q; q.k = Piece::LATEREF; q.s = D(2) ? D(3) == 2 ? names[5] : "CC_OPT" : "NOT_SET"; q.hasDef = D(2); q.def = D(3) == 2 ? "" : D(3) == 2 ? ":- \"a\" # \\ = ($x" : "late default"; r.value.push_back(q); if (D(3) == 2) r.value.push_back(lit("}")); break; }
	case 6: { Piece q; q.k = Piece::LOADREF; q.s = "NOT_SET"; r.value.push_back(q); break; } // expands to nothing
	default: r.value.push_back(lit(D(3) == 2 ? D(3) == 2 ? brokenReference() : randomText() : r.kind == '=' ? "fixed=value" : "a=b=c")); break;
	}
	return r;
}

void Builder::program(CfgCmd &c, int idx)
{
	Container *ct = d->hostCt[size_t(c.host)];
	std::string file = "prog" + std::to_string(idx);
	c.program = "model-" + std::to_string(c.host) + "-" + std::to_string(idx);
	std::string data = "#!model:" + c.program + "\n", decoy = "#!model:decoy-" + std::to_string(idx) + "\n";
	auto lit = [&](const std::string &s) { Template t; Piece q; q.s = s; t.push_back(q); return t; };
	bool hasPath = false;
	for (auto &r : cfg().hosts[size_t(c.host)].env) hasPath |= r.name == "PATH";
	for (auto &r : c.env) hasPath |= r.name == "PATH";
	bool bad = P(p.badCmd);
	int how = int(D(5));
	if (bad) { c.startable = false; how = 5 + int(D(3)); }
	std::string bareName = how == 2 || how == 1 ? c.name : file;
	switch (how)
	{
	case 0: // absolute path
		putFile(ct, "/opt/x/" + file, data, 0755);
		c.exec.push_back(lit("/opt/x/" + file));
		break;
	case 1: // the command's own name, found on the search path
		putFile(ct, hasPath ? "/opt/tools/" + c.name : "/bin/" + c.name, data, 0755);
		if (hasPath && D(2)) putFile(ct, "/bin/" + c.name, decoy, 0755);
		if (D(2)) { if (hasPath) putFile(ct, "/usr/local/bin/" + c.name, decoy, 0644); }
		break;
	case 2: // another name, found on the search path
		putFile(ct, hasPath ? "/opt/tools/" + file : "/usr/bin/" + file, data, 0755);
		c.exec.push_back(lit(file));
		break;
	case 3: // relative to the working directory
	case 4:
		for (auto &r : relDirs)
		{
			std::string dir = d->mounts[size_t(c.host)] + "/" + cfg().baseSub + "/" + r;
			putFile(ct, dir + (how == 3 ? "/" : "/tools/") + file, data, 0755);
		}
		c.exec.push_back(lit(how == 3 ? (D(2) ? "./" : "") + file : "./tools/" + file));
		putFile(ct, "/bin/" + file, decoy, 0755);
		break;
	case 5: c.exec.push_back(lit("/opt/x/missing-" + file)); break;
	case 6: putFile(ct, "/opt/x/" + file, data, 0644); c.exec.push_back(lit("/opt/x/" + file)); break;
	default: c.exec.push_back(lit("no-such-program-" + file)); break;
	}
	(void)bareName;
	if (!c.exec.empty())
	{
		static const char *extra[] = { "--flag", "-o=x", "two words", "", "it''s", "-", "${NOT_EXPANDED}", "a#b", "tab\there", "\b\f\r", "$HOME", "$", "a]", "[b", "X=y" };
		for (uint32_t i = 0, n = P(p.argsComplex) ? D(4) : D(2); i < n; i++)
		{
			if (D(5) == 4)
			{
				Template t;
				Piece q;
				q.s = "-I";
				t.push_back(q);
				Piece r;
				r.k = Piece::LOADREF;
				r.s = chScn.pick<const char *>({ "SRV_A", "NOT_SET", "SRV_D" });
				r.hasDef = D(2);
				r.def = D(3) == 2 ? "" : D(3) == 2 ? chScn.pick<const char *>({ "a:-b", "$x", "{", "${", "a/b=c", ":", "-" }) : "d";
				t.push_back(r);
				switch (D(6))
				{
				case 3: q.s = brokenReference(); t.push_back(q); break;
				case 4: r.s = D(2) ? "SRV_D" : "NOT_SET"; r.def = "n"; t.push_back(r); break;
				case 5: q.s = "}-{"; t.push_back(q); break;
				default: break;
				}
				c.exec.push_back(t);
			}
			else if (cfg().odd && D(3) == 2) c.exec.push_back(lit(D(3) == 2 ? brokenReference() : randomText()));
			else c.exec.push_back(lit(extra[D(15)]));
		}
	}
}

void Builder::configuration()
{
	Cfg &c = cfg();
	c.odd = P(p.cfgOdd);
	names[5] = "X";
	if (c.odd && D(2))
	{
		static const char letters[] = "_0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
		names[5].clear();
		for (uint32_t i = 0, n = 1 + D(8); i < n; i++) names[5] += i && D(8) == 7 ? ".-()"[D(4)] : letters[D(sizeof(letters) - 1)];
		if (D(2)) for (auto &e : hostEnv) e[names[5]] = randomText();
	}
	if (P(p.badConfig)) c.invalid = wrong[D(12)];
	int port = 1120;
	std::set<int> ports;
	auto fresh = [&] { int q; do q = chScn.pick<int>({ 65535, 80, 1, 1119, 1120, 1121, 8080, 65534, 256, 5000 + int(D(1000)) }); while (ports.count(q) || ports.count(q + 1)); return q; };
	bool allExplicit = false;
	for (auto &h : c.hosts)
	{
		if (c.odd && h.name.size() < 6 && D(4) == 3) { static const char *odd[] = { "my host", "a]b", "gcc#1", "h\xc3\xb6st", "[x", "it's", "say \"hi\"" }; std::string n = odd[D(7)]; bool dup = false; for (auto &o : c.hosts) dup |= o.name == n; if (!dup) h.name = n; }
		else if (c.odd && D(6) == 5) { h.name += "-"; h.name.append(chScn.pick<size_t>({ 60, 30, 14, 126, 253 }) + D(4), 'h'); h.name.resize(std::min<size_t>(h.name.size(), 255)); }
		Container *ct = d->hostCt[size_t(&h - &c.hosts[0])];
		if (h.name.size() <= 64 && (&h == &c.hosts[0] || ct != d->hostCt[0])) ct->hostname = h.name; // (Linux allows no longer name)
		if (c.odd)
			for (uint32_t i = 0, n = D(3) == 2 ? 1 + D(2) : 0; i < n; i++)
			{
				int e = allExplicit || D(3) == 2 ? fresh() : 0;
				if (e) port = e;
				h.before.emplace_back("unused" + std::to_string(port), e);
				ports.insert(port);
				allExplicit = port++ == 65535;
				if (ports.count(port)) allExplicit = true;
			}
		if (c.odd && (allExplicit || D(3) == 2))
		{
			h.explicitPort = port = fresh();
			if (D(2))
			{
				std::string n = "K8PORT" + std::to_string(&h - &c.hosts[0]), v = std::to_string(h.explicitPort);
				switch (D(3))
				{
				case 0: h.portText = "${" + n + ":-" + v + "}"; break;
				case 1: c.env[n] = v; h.portText = "${" + n + ":-7}"; break;
				default: c.env[n] = v.substr(1); h.portText = v.substr(0, 1) + "${" + n + "}"; break;
				}
			}
			else if (D(4) == 3) h.portText = "0" + std::to_string(h.explicitPort);
		}
		else if (P(p.ephemeral))
		{
			port = 32768 + 2 * int(D(14000));
			while (ports.count(port) || ports.count(port + 1)) port += 2;
			h.explicitPort = port;
		}
		else if (D(3) == 2)
		{
			if (port > 60000) port = 2000;
			port += int(D(4)) + (D(2) ? 900 : 0);
			while (ports.count(port)) port++;
			h.explicitPort = port;
		}
		ports.insert(port);
		h.port = port++;
		allExplicit = h.port == 65535 || ports.count(port);
		if (P(p.envComplex))
		{
			if (D(2)) { EnvRule r; r.kind = '='; r.name = "PATH"; h.env.push_back(r); }
			if (D(2)) h.env.push_back(randomRule(true, 0));
		}
	}
	static const char *tools[] = { "gcc", "g++", "java", "make", "gradle", "ar.1", "my tool", "ld" };
	int nc = 1 + int(D(3));
	int idx = 0, manyAt = P(p.many) ? int(D(uint32_t(c.hosts.size()))) : -1;
	uint32_t many = manyAt >= 0 ? D(4) == 3 ? D(300) : D(40) : 0;
	std::string longName; // of commands
	if (c.odd && D(3) == 2) longName.assign(chScn.pick<size_t>({ 13, 29, 61, 125, 245 }) + D(4), 'n');
	if (manyAt >= 0 || P(p.many)) c.padding = chScn.pick<size_t>({ 4000, 8100, 1000, 16300, 32700, 65400 }) + D(160);
	std::vector<int> used;
	for (int h = 0; h < int(c.hosts.size()); h++)
	{
		for (int i = 0; i < (h == manyAt ? 20 + int(many) : h == 0 ? nc : 1 + int(D(2))) && idx < (manyAt >= 0 ? 330 : 8); i++, idx++)
		{
			CfgCmd k;
			k.name = idx < 8 ? tools[idx] : "tool-" + std::to_string(idx);
			if (!longName.empty() && D(2)) k.name = longName + "-" + std::to_string(idx);
			k.host = h;
			if (P(p.envComplex))
				for (uint32_t j = 0, n = D(4); j < n; j++) k.env.push_back(randomRule(true, idx));
			else if (D(2)) { EnvRule r; r.kind = '='; r.name = "PATH"; k.env.push_back(r); }
			program(k, idx);
			c.cmds.push_back(k);
		}
	}
	if (P(p.longTimeout)) { c.hasTimeout = true; c.connectTimeoutMs = chScn.pick<long long>({ 30000, -1, 10000, 3000, 1000, 100, 0, 1000000000000LL, -5, 4294967296LL, 2147483648LL, 4294968000LL, 9223372036854775807LL }); }
	if (c.odd && c.hasTimeout && D(3) == 2)
	{
		std::string v = std::to_string(c.connectTimeoutMs);
		if (D(2)) c.timeoutText = "${K8TIMEOUT:-" + v + "}";
		else { c.env["K8TIMEOUT"] = v; c.timeoutText = D(2) ? "${K8TIMEOUT}" : "\"${K8TIMEOUT:-7}\""; }
	}
	for (auto &e : c.env) { for (auto &h : hostEnv) h[e.first] = e.second; clientEnv[e.first] = e.second; }
	emptySection = D(3) == 2 ? "DontDoThis" : "";
}

// Reference interpretation of server options.
void Builder::interpret(Server *v, const std::vector<std::string> &tok, std::string &dir, bool &dirGiven)
{
	for (size_t i = 0; i < tok.size(); i++)
	{
		std::string a = tok[i], val;
		auto opt = [&](const char *s, const char *l) {
			if (a == s || a == l) { val = i + 1 < tok.size() ? tok[++i] : ""; return true; }
			std::string e = std::string(l) + "=";
			if (a.compare(0, e.size(), e) == 0) { val = a.substr(e.size()); return true; }
			return false;
		};
		if (a == "-b" || a == "--background") v->daemon = true;
		else if (a == "-d" || a == "--disable-client-executables") v->disable = true;
		else if (a == "-k" || a == "--keep-client-executables") v->keep = true;
		else if (a == "-l" || a == "--generate-local-executables") v->genLocal = true;
		else if (a == "-o" || a == "--overwrite-client-executables") v->overwrite = true;
		else if (a == "-w" || a == "--no-wait") v->noWait = true;
		else if (opt("-e", "--executable-directory")) { dir = val; dirGiven = true; }
		else if (opt("-m", "--max-connections")) v->maxConn = atoll(val.c_str());
		else if (opt("-t", "--timeout")) v->timeoutMs = std::min(atoll(val.c_str()), FOREVER_MS);
		else if (opt("-p", "--pidfile")) v->pidPath = val;
	}
}

Server *Builder::server(int host, int gen, const std::vector<std::string> &tokens, Server *prev)
{
	(void)prev;
	d->servers.emplace_back(new Server);
	Server *v = d->servers.back().get();
	v->index = int(d->servers.size()) - 1;
	v->host = host;
	v->generation = gen;
	size_t hi = host >= 0 ? size_t(host) : d->mounts.size() - 1;
	v->ct = host >= 0 ? d->hostCt[size_t(host)] : d->clientCt;
	v->env = host >= 0 ? hostEnv[size_t(host)] : clientEnv;
	v->nameGiven = host >= 0 ? cfg().hosts[size_t(host)].name : emptySection.empty() || D(2) ? "client" : emptySection;
	std::string mount = d->mounts[hi];
	v->relativePaths = P(p.relPaths);
	v->cwd = v->relativePaths ? mount : D(2) ? "/srv" + std::to_string(v->index) : "/";
	if (v->cwd != "/") mkdirp(v->ct, v->cwd);
	v->pidPath = "/run/k8pshd.pid";
	std::string dir;
	bool dirGiven = false;
	std::vector<std::string> all = host >= 0 ? cfg().hosts[size_t(host)].options : std::vector<std::string>();
	all.insert(all.end(), tokens.begin(), tokens.end());
	interpret(v, all, dir, dirGiven);
	auto physical = [&](const std::string &path) { std::string n = norm(join(v->cwd, path)), l = "/" + std::string(LINK) + "/"; return n.compare(0, l.size(), l) ? n : mount + n.substr(l.size() - 1); };
	v->stubDir = physical(dirGiven ? dir : "");
	v->pidPath = v->daemon && !v->pidPath.empty() ? physical(v->pidPath) : "";
	for (auto &c : cfg().cmds)
	{
		std::string f = norm(v->stubDir + "/" + c.name);
		v->ownNames.insert(f);
		if (v->disable || (!v->genLocal && c.host == host && host >= 0)) continue;
		v->expectStubs.insert(f);
	}
	// command line
	v->argv = { D(4) == 3 ? "/bin/k8pshd" : "k8pshd" };
	bool byOption = D(6) == 5, late = byOption && D(2); // the client program becomes a server by an option
	std::string serverOption = D(2) ? "-s" : "--server";
	if (byOption) { v->argv[0] = v->argv[0] == "k8pshd" ? "k8psh" : "/bin/k8psh"; probe("server-by-option"); }
	if ((byOption && !late) || D(12) == 11) v->argv.push_back(serverOption);
	std::string file = conf(hi), shown = v->relativePaths && !cfg().atRoot ? cfg().path : file;
	bool o = cfg().oddPaths, here = cfg().odd && shown == "k8psh.conf" && D(2);
	if (here) v->env.erase("K8PSH_CONFIG"); // the default file in the working directory
	else if (cfg().odd && D(4) == 3) { v->env["K8PSH_CONFIG"] = "/no/such/file"; v->argv.push_back("--config=" + spell(file, o)); } // the option overrides the variable
	else switch (D(4))
	{
	case 0: v->argv.push_back("--config=" + spell(shown, o)); break;
	case 1: v->argv.push_back("-c"); v->argv.push_back(spell(file, o)); break;
	case 2: v->argv.push_back("--config"); v->argv.push_back(spell(shown == file ? file : "./" + shown, o)); break;
	default: break; // K8PSH_CONFIG
	}
	if (late) v->argv.push_back(serverOption);
	if (P(p.debug)) v->env["K8PSH_DEBUG"] = chScn.pick<const char *>({ "all", "ALL", "main, Process", "socket;utilities", " all ,x" });
	if (D(4) == 3) v->env["K8PSH_NAME"] = cfg().hosts[D(uint32_t(nHosts))].name; // (the option overrides it)
	switch (D(4))
	{
	case 0: v->argv.push_back("--name=" + v->nameGiven); break;
	case 1: v->argv.push_back("-n"); v->argv.push_back(v->nameGiven); break;
	case 2: v->env["K8PSH_NAME"] = v->nameGiven; break;
	default: // host name
		v->env.erase("K8PSH_NAME");
		if (v->ct->hostname != v->nameGiven) v->env["K8PSH_NAME"] = v->nameGiven;
		break;
	}
	bool ignore = D(6) == 5, first = D(2);
	auto nonsense = [&] { v->argv.push_back(D(2) ? "-i" : "--ignore-invalid-arguments"); v->argv.push_back(chScn.pick<const char *>({ "--nonsense", "stray", "", "-", "--", "--timeoutms=5", "-bw" })); };
	if (ignore && first) nonsense(); // what comes after it counts
	v->argv.insert(v->argv.end(), tokens.begin(), tokens.end());
	if (ignore && !first) nonsense();
	if (host >= 0 && cfg().hosts[size_t(host)].wrongOption && (cfg().hosts[size_t(host)].wrongOption == 2 || (!ignore && !cfg().hosts[size_t(host)].ignoring)))
	{
		v->mustFail = true;
		v->failWhy = "the options in the configuration are invalid";
		probe("invalid-host-options");
	}
	if (P(p.srvFdClosed)) v->generation |= 1 << (8 + D(3));
	return v;
}

static std::vector<std::string> val(const char *s, const char *l, const std::string &v)
{
	switch (D(3))
	{
	case 0: return { std::string(l) + "=" + v };
	case 1: return { s, v };
	default: return { l, v };
	}
}

static void add(std::vector<std::string> &to, const std::vector<std::string> &x) { to.insert(to.end(), x.begin(), x.end()); }

void Builder::servers()
{
	Cfg &c = cfg();
	// options in the configuration apply to every instance of the host's server
	for (auto &h : c.hosts)
		if (P(p.hostOpts))
		{
			if (P(p.genLocal)) h.options.push_back("--generate-local-executables");
			if (P(p.noWait)) h.options.push_back("--no-wait");
			if (D(3) == 2) add(h.options, val("-t", "--timeout", "-1"));
			if (D(3) == 2) add(h.options, val("-m", "--max-connections", "-1"));
			if (D(3) == 2) add(h.options, val("-e", "--executable-directory", "/decoy")); // the command line overrides it
			if (D(4) == 3) add(h.options, val("-p", "--pidfile", "/run/k8-conf" + std::to_string(&h - &c.hosts[0]) + ".pid"));
			if (D(4) == 3) h.overridden = D(2) ? "-t" : "-m", add(h.options, h.overridden[1] == 't' ? val("-t", "--timeout", "400") : val("-m", "--max-connections", "0"));
			if (P(p.keep)) h.options.push_back("-k");
			if (P(p.badConfig + p.failStart / 4)) h.wrongOption = 1 + int(D(2));
			if (D(8) == 7) { h.options.push_back(D(2) ? "-i" : "--ignore-invalid-arguments"); h.ignoring = true; }
			if (h.wrongOption == 1) h.options.push_back(chScn.pick<const char *>({ "--bogus", "stray", "-z", "--name=other", "-c", "--help", "-v", "--server", "-bk", "--no-wait=1", "-t5" }));
			if (h.wrongOption == 2) h.options.push_back(chScn.pick<const char *>({ "-m", "--timeout", "-e", "--pidfile" }));
		}
	if (P(p.stubOnly))
	{
		std::vector<std::string> t;
		mkdirp(d->clientCt, "/k8psh");
		add(t, val("-e", "--executable-directory", spellDir("/k8psh", c.oddPaths)));
		Server *v = server(-1, 0, t, nullptr);
		d->at(0, [this_ = d, v] { this_->startServer(v); });
		stubs.push_back({ v, "/k8psh" });
	}
	std::set<int> initUsed;
	for (size_t h = 0; h < nHosts; h++)
	{
		Container *ct = d->hostCt[h];
		std::string mount = d->mounts[h];
		bool late = P(p.lateStart), never = P(p.never);
		Time t0 = late ? Time(1 + D(40)) * 150 * MS : 0;
		if (never && h > 0) continue;
		if (never && p.never < 20) never = false;
		std::string tag = std::to_string(h) + (c.odd && D(3) == 2 ? chScn.pick<const char *>({ "=x", "-a=b", " y", "--", ";" }) : "");
		auto common = [&](int gen, bool ow, bool &wsStub) {
			std::vector<std::string> t;
			wsStub = false;
			if (c.hosts[h].overridden) add(t, val(c.hosts[h].overridden, c.hosts[h].overridden[1] == 't' ? "--timeout" : "--max-connections", "-1"));
			// directory of the client executables
			switch (D(4))
			{
			case 0: mkdirp(ct, "/stubs" + tag); add(t, val("-e", "--executable-directory", spellDir("/stubs" + tag, c.oddPaths))); break;
			case 1: mkdirp(ct, mount + "/bin" + tag); add(t, val("-e", "--executable-directory", spellDir((link.empty() || D(2) ? mount : link) + "/bin" + tag, c.oddPaths))); wsStub = true; break;
			default: mkdirp(ct, mount + "/rel" + tag); mkdirp(ct, "/rel" + tag); for (int i = 0; i < 12; i++) mkdirp(ct, "/srv" + std::to_string(i) + "/rel" + tag); add(t, val("-e", "--executable-directory", c.oddPaths ? spellDir("rel" + tag, true) : D(2) ? "rel" + tag : "./rel" + tag + "/")); break;
			}
			if (P(p.daemon)) { t.push_back(D(2) ? "-b" : "--background"); }
			if (gen || nHosts > 1 || D(2)) add(t, val("-p", "--pidfile", spell((D(3) == 2 ? "k8" : link.empty() || D(3) != 2 ? "/run/k8" : link + "/k8") + tag + "-" + std::to_string(gen) + ".pid", c.oddPaths)));
			else if (D(8) == 7) t.push_back("--pidfile=");
			if (P(p.genLocal)) t.push_back(D(2) ? "-l" : "--generate-local-executables");
			if (P(p.keep)) t.push_back(D(2) ? "-k" : "--keep-client-executables");
			if (P(p.disable)) t.push_back(D(2) ? "-d" : "--disable-client-executables");
			if (ow || P(p.overwrite)) t.push_back(D(2) ? "-o" : "--overwrite-client-executables");
			if (P(p.noWait)) t.push_back(D(2) ? "-w" : "--no-wait");
			return t;
		};
		int gen = 0;
		bool ow = false;
		bool wsStub;
		auto populate = [&](Server *v, bool conflictOk) {
			// files of other people around the client executables
			Inode *dir = lookup(v->ct, "/", v->stubDir, true);
			if (!dir) return;
			if (P(p.bystander))
			{
				std::string n = chScn.pick<const char *>({ "README", "gcc.bak", "zz", "k8psh.conf2" });
				if (!dir->ents.count(n))
				{
					Inode *f = putFile(v->ct, v->stubDir + "/" + n, "precious", 0755);
					d->watched[f] = "file " + v->stubDir + "/" + n;
					d->bystanders.emplace_back(dir, n);
				}
			}
			if (!cfg().invalid.empty())
				for (auto &f : v->ownNames)
				{
					std::string n = f.substr(f.rfind('/') + 1);
					if (dir->ents.count(n) || D(3) != 2) continue;
					Inode *i = putFile(v->ct, f, "an older tool", 0755);
					d->watched[i] = "file " + f;
					d->bystanders.emplace_back(dir, n);
				}
			else if (conflictOk && (v->overwrite || v->disable) && !v->ownNames.empty() && D(2))
			{
				auto it = v->ownNames.begin();
				std::advance(it, D(uint32_t(v->ownNames.size())));
				std::string n = it->substr(it->rfind('/') + 1);
				if (!dir->ents.count(n))
				{
					if (D(2)) putFile(v->ct, *it, "old", 0755);
					else
					{
						Inode *old = putFile(v->ct, "/opt/old-tool" + tag, "an older tool", 0755);
						Inode *l = mkNode(Inode::LNK, 0777);
						l->data = "/opt/old-tool" + tag;
						dir->ents[n] = l;
						d->watched[old] = "the file an old client executable points to";
					}
				}
			}
		};
		if (P(p.failStart))
		{
			std::vector<std::string> t = common(gen, false, wsStub);
			int kind = int(D(6));
			if (kind == 0) { add(t, val("-m", "--max-connections", chScn.pick<const char *>({ "abc", "", "99999999999999999999" }))); }
			if (kind == 1) { add(t, val("-t", "--timeout", chScn.pick<const char *>({ "x1", "-", "9999999999999999999999" }))); }
			if (kind == 2) { add(t, { "-e", "/does/not/exist" }); }
			if (kind == 3 && std::find(t.begin(), t.end(), "-b") == t.end()) { t.push_back("-b"); }
			if (kind == 5) t.push_back(chScn.pick<const char *>({ "--bogus", "stray", "-z", "", "--", "--no-wait=1", "-t5", "--timeout5", "-ok", "-t", "--max-connections", "-e", "--pidfile", "-n", "--config" }));
			if (kind == 4) t.erase(std::remove_if(t.begin(), t.end(), [](const std::string &s) { return s == "-o" || s == "-d" || s == "--overwrite-client-executables" || s == "--disable-client-executables"; }), t.end());
			Server *v = server(int(h), gen++, t, nullptr);
			bool ok = true;
			switch (kind)
			{
			case 0: v->failWhy = "unusable --max-connections"; v->maxConn = -1; break;
			case 1: v->failWhy = "unusable --timeout"; v->timeoutMs = -1; break;
			case 2: v->failWhy = "missing directory for the client executables"; ok = !v->expectStubs.empty(); break;
			case 3:
				v->failWhy = "stale PID file";
				if (v->pidPath.empty()) ok = false;
				else
				{
					Inode *dir = lookup(v->ct, "/", v->pidPath.substr(0, v->pidPath.rfind('/')).empty() ? "/" : v->pidPath.substr(0, v->pidPath.rfind('/')), true);
					if (!dir) { ok = false; break; }
					Inode *f = putFile(v->ct, v->pidPath, "4711\n", 0644);
					d->watched[f] = "a PID file of another daemon";
					d->bystanders.emplace_back(dir, v->pidPath.substr(v->pidPath.rfind('/') + 1));
				}
				break;
			case 4:
				{
					v->failWhy = "a file is in the way of a client executable";
					if (v->expectStubs.empty() || v->overwrite || v->disable) { ok = false; break; }
					auto it = v->expectStubs.begin();
					std::advance(it, D(uint32_t(v->expectStubs.size())));
					Inode *dir = lookup(v->ct, "/", v->stubDir, true);
					std::string n = it->substr(it->rfind('/') + 1);
					if (!dir || dir->ents.count(n)) { ok = false; break; }
					Inode *f = putFile(v->ct, *it, "#!/bin/sh\n", 0755);
					d->watched[f] = "file " + *it;
					d->bystanders.emplace_back(dir, n);
					break;
				}
			default:
				v->failWhy = "unrecognised argument";
				for (auto &a : v->argv) if (a == "-i" || a == "--ignore-invalid-arguments") ok = false;
				break;
			}
			v->mustFail = ok;
			if (!ok) { d->servers.pop_back(); gen--; }
			else
			{
				populate(v, false);
				// what is in the way stays there, so later instances use their own places
				d->at(t0, [d = d, v] { d->startServer(v); });
				tag += "n";
				t0 += 700 * MS + Time(D(10)) * 100 * MS + (c.cmds.size() > 20 ? Time(c.cmds.size()) * 10 * MS : 0); // (the port must be free again)
				probe("failing-start");
			}
		}
		if (never) continue;
		std::vector<std::string> t = common(gen, ow, wsStub);
		bool limited = false;
		int marathon = 0; // connections until the limit is reached, if that takes many
		if (P(p.maxConn))
		{
			if (P(p.storm * 2)) marathon = 20 + int(D(300));
			std::string m = std::to_string(marathon ? marathon : int(D(5)));
			if (!marathon && P(15)) m = chScn.pick<const char *>({ "32768", "65536", "65537", "2147483647", "2147483648", "4294967296", "4294967297", "9223372036854775807" }); // (as good as no limit)
			add(t, val("-m", "--max-connections", m));
			limited = true;
		}
		if (d->deep ? P(75) : P(p.timeout))
		{
			// values at which a counter of milliseconds may wrap around, and values beyond any clock
			if (d->deep) add(t, val("-t", "--timeout", chScn.pick<const char *>({ "3000000000", "2147483647", "2147483648", "2147483700", "4294967296", "4294967295", "4294968500", "6442450944", "8600000000", "1000000000000", "9223372036854", "9223372036855", "9223372036854775807" })));
			else add(t, val("-t", "--timeout", chScn.pick<const char *>({ "5000", "1", "100", "800", "2500", "12000", "0", "4294967297", "9223372036854775807" })));
			limited = true;
		}
		Server *v = server(int(h), gen++, t, nullptr);
		if (P(p.init) && !v->daemon && !initUsed.count(ct->id) && ct != d->clientCt) { initUsed.insert(ct->id); v->init = true; }
		populate(v, true);
		d->at(t0, [d = d, v] { d->startServer(v); });
		if (v->mustFail && c.invalid.empty()) continue;
		if (wsStub && v->stubDir == norm(mount + "/bin" + tag)) stubs.push_back({ v, d->mounts.back() + "/bin" + tag });
		else if (ct == d->clientCt) stubs.push_back({ v, v->stubDir });
		firstServe = std::max(firstServe, t0);
		Server *prev = v;
		if (P(p.hup)) { Time th = t0 + Time(D(40)) * 100 * MS; d->at(th, [d = d, v] { d->stopServer(v, SIGHUP); }); if (!v->daemon) limited = true; }
		if (v->daemon && P(p.hup)) v->hupAtReturn = Time(D(6)) * 200 * US;
		if (P(p.group)) v->groupSignal = true;
		if (P(p.loseStub)) v->loseStub = int(D(400));
		if (P(10)) v->ignored = chScn.pick<std::vector<int>>({ { SIGPIPE }, { SIGPIPE, SIGXFSZ }, { SIGINT, SIGQUIT }, { SIGHUP }, { SIGCHLD } });
		if (P(v->init ? 50 : p.neighbour)) v->neighbour = D(2) ? 600 * SEC : Time(1 + D(40)) * 200 * MS;
		bool startSig = !v->mustFail && !v->init && P(p.startSig);
		if (startSig)
		{
			FaultItem f;
			f.a = FaultItem::SIGNAL;
			f.srv = v;
			f.role = R_SERVER;
			f.kind = SYS_ANY;
			f.nth = 1 + int(D(2) ? D(60) : D(25));
			f.arg = chScn.pick<int>({ SIGTERM, SIGINT, SIGHUP });
			addFault(f);
			limited = true;
		}
		else if (!v->mustFail && !v->init && v->env.count("K8PSH_DEBUG") && D(3) == 2)
		{
			// in the middle of writing a line of the debug log
			FaultItem f;
			f.a = FaultItem::SIGNAL;
			f.srv = v;
			f.role = R_SERVER;
			f.kind = SYS_gmtime_;
			f.nth = 1 + int(D(8));
			f.arg = chScn.pick<int>({ SIGTERM, SIGINT });
			addFault(f);
			startSig = limited = true;
		}
		bool startErr = !v->mustFail && !v->init && !startSig && P(p.startErr);
		if (startErr)
		{
			static const struct { Sys kind; int errs[4]; int max; } calls[] = {
				{ SYS_open_, { EMFILE, ENOSPC, EACCES, ENOMEM }, 7 }, { SYS_write_, { ENOSPC, EIO, EDQUOT, EFBIG }, 3 }, { SYS_symlink_, { ENOSPC, EACCES, EROFS, EEXIST }, 8 }, { SYS_pipe_, { EMFILE, ENFILE, EMFILE, ENFILE }, 3 },
				{ SYS_fork_, { EAGAIN, ENOMEM, EAGAIN, ENOMEM }, 1 }, { SYS_socket_, { EMFILE, ENFILE, ENOBUFS, ENOMEM }, 1 }, { SYS_bind_, { EADDRINUSE, EACCES, ENOMEM, EADDRINUSE }, 1 }, { SYS_listen_, { EADDRINUSE, EADDRINUSE, EADDRINUSE, EADDRINUSE }, 1 },
				{ SYS_read_, { EIO, EIO, ENOMEM, EIO }, 1 }, { SYS_readlink_, { ENOMEM, EACCES, EIO, ENOMEM }, 2 }, { SYS_getcwd_, { ENOMEM, ENOENT, ENOMEM, ENOENT }, 4 }, { SYS_fcntl_, { ENOMEM, ENOMEM, ENOMEM, ENOMEM }, 2 } };
			FaultItem f;
			f.srv = v;
			f.role = R_SERVER;
			f.start = true;
			if (!v->env.count("K8PSH_DEBUG") && v->maxConn != 0 && (v->timeoutMs < 0 || v->timeoutMs > 500) && D(3) == 2)
			{
				f.a = FaultItem::ALLOC;
				f.kind = SYS_ANY;
				f.nth = 1 + int(D(40));
				f.arg = int(D(D(2) ? 4 : 40));
			}
			else
			{
				auto &c = calls[v->generation >> 8 ? 1 + D(11) : D(12)]; // (descriptors of closed streams cannot be reserved without the null device)
				f.a = FaultItem::ERRNO;
				f.kind = c.kind;
				f.arg = c.errs[D(4)];
				f.nth = 1 + int(D(uint32_t(c.max)));
			}
			addFault(f);
			limited = true;
		}
		int stopSig = 0;
		Time ts = t0 + Time(D(60)) * 60 * MS;
		if (P(p.stopMid)) stopSig = chScn.pick<int>({ SIGTERM, SIGINT, SIGTERM });
		if (P(p.killServer)) stopSig = SIGKILL;
		bool again = P(p.restart) || (startErr && D(3));
		if (again && !stopSig && !limited) stopSig = D(2) ? SIGKILL : SIGTERM;
		if (d->deep && D(2)) ts = chScn.pick<Time>({ 2200000 * SEC, 100 * SEC, 4400000 * SEC });
		if (stopSig) d->at(ts, [d = d, v, stopSig] { d->stopServer(v, stopSig); });
		if (stopSig == SIGTERM && D(4) == 3) d->at(ts + Time(D(20)) * 50 * MS, [d = d, v] { d->stopServer(v, SIGTERM); });
		if (again || (P(p.restart) && limited))
		{
			bool killed = stopSig == SIGKILL;
			std::vector<std::string> t2 = common(gen, killed || prev->keep, wsStub);
			Server *n = server(int(h), gen++, t2, prev);
			n->mayFail |= startSig || (startErr && (prev->overwrite || prev->disable)); // the predecessor may not have got as far as removing old client executables
			// where the names may still be in use, be sure to be allowed to replace them
			bool clash = false;
			for (auto &f : n->expectStubs) clash |= prev->expectStubs.count(f) && (killed || prev->keep);
			if (clash && !n->overwrite && !n->disable) { n->overwrite = true; n->argv.push_back("-o"); }
			Time gap = Time(D(6)) * 100 * MS;
			struct Again { static void run(Director *d, Server *o, Server *n, Time gap, int tries)
				{
					if (o->ended) d->at(W->now + gap, [d, n] { d->startServer(n); probe("server-restarted"); });
					else if (tries > 0) d->at(W->now + 100 * MS, [d, o, n, gap, tries] { run(d, o, n, gap, tries - 1); });
				} };
			d->at(ts + 1, [d = d, v, n, gap] { Again::run(d, v, n, gap, 300); });
		}
		if ((marathon || P(p.storm)) && v->timeoutMs < FOREVER_MS)
		{
			v->lag = marathon ? 0 : chScn.pick<Time>({ 0, 2 * MS, 5 * MS });
			v->stormPeriod = v->lag ? (1 + D(4)) * v->lag : (1 + D(10)) * MS;
			v->stormFor = std::min<Time>(Time(marathon ? marathon + 20 : 30 + int(D(120))) * v->stormPeriod, 5 * SEC);
			v->stormMode = int(D(3));
		}
		if (d->deep)
		{
			// now and then a session in the weeks that pass
			for (Time tp : { 2147483 * SEC + 647 * MS - 5 * SEC, 2147483 * SEC + 648 * MS + 3 * SEC, 4294967 * SEC + 300 * MS + 4 * SEC, 8 * 86400 * SEC, 90 * 86400 * SEC })
				if (D(3) == 2)
					d->at(tp, [d = d, h] {
						Server *s = d->currentServer(int(h));
						if (s && d->probeable(s)) { d->addProbe(int(h)); sim::probe("session-after-days"); }
					});
			if (v->timeoutMs >= 0 && v->timeoutMs < FOREVER_MS) d->at(t0 + v->timeoutMs * MS + 4 * SEC, [] { sim::probe("timeout-after-days"); });
			else if (v->timeoutMs >= 0) d->at(100 * 86400 * SEC, [] { sim::probe("days-without-timeout"); });
		}
		// a second instance must not get in the way of the first
		if (P(p.failStart) && !limited && !stopSig && D(2))
		{
			std::vector<std::string> t2;
			mkdirp(ct, "/second" + tag);
			add(t2, val("-e", "--executable-directory", "/second" + tag));
			add(t2, val("-p", "--pidfile", "/run/second" + tag));
			Server *n = server(int(h), gen++, t2, nullptr);
			n->mustFail = true;
			n->failWhy = "the port is in use";
			d->at(t0 + 900 * MS, [d = d, n, v] { if (v->servingAt >= 0 && !v->ended && v->stopAt < 0) d->startServer(n); });
		}
	}
}

// ---------------------------------------------------------------- sessions
int64_t Builder::size(bool allowBig)
{
	int64_t n;
	if (allowBig && hugeLeft > 0 && D(2)) { hugeLeft--; return chScn.pick<int64_t>({ 1048576, 2097152, 4194304, 1000000 }) + int64_t(D(200000)) - 1; }
	switch (chScn.weighted({ 3, 4, 4, 3, uint32_t(allowBig ? 6 : 0) }))
	{
	case 0: n = int64_t(D(3)); break;
	case 1: n = 1 + int64_t(D(200)); break;
	case 2: n = 1 + int64_t(D(5000)); break;
	case 3: n = chScn.pick<int64_t>({ 4096, 4095, 4097, 8192, 1024, 1460, 16384 }); break;
	default: n = chScn.pick<int64_t>({ 65536, 65535, 65537, 131072, 20000, 70000, 200000, 300000 }) + int64_t(D(3)) - 1; break;
	}
	return std::min<int64_t>(n, int64_t(maxBytes));
}

int Builder::chunkFor(int64_t n)
{
	int c = chScn.pick<int>({ 65536, 4096, 1000, 100, 1, 5000, 8192, 17 });
	if (n / c > 60) c = int(n / 60) + 1;
	return c;
}

void Builder::streams(Session *s)
{
	if (P(8)) s->ignored = chScn.pick<std::vector<int>>({ { SIGPIPE }, { SIGPIPE, SIGXFSZ }, { SIGINT, SIGQUIT }, { SIGHUP } });
	if (P(p.stdinOdd)) { s->inMode = 1 + int(D(3)); if (s->inMode == 3 && D(4) == 3) s->inMode = 4; }
	for (int i = 0; i < 2; i++)
	{
		Consumer &c = i ? s->err.c : s->out.c;
		if (P(p.outFile)) c.m = D(2) ? Consumer::FILE_ : Consumer::NULL_;
		else if (P(p.slow)) { c.m = Consumer::SLOW; c.period = Time(1 + D(10)) * 10 * MS; c.chunk = int64_t(maxBytes / 400) + chScn.pick<int>({ 4096, 512, 65536 }); }
		else if (P(p.paused)) { c.m = Consumer::PAUSED; c.until = Time(1 + D(20)) * 500 * MS; }
		else if (P(p.outBad))
		{
			switch (D(4))
			{
			case 0: c.m = Consumer::CLOSE_AFTER; c.after = size(true); break;
			case 1: c.m = Consumer::FULL; break;
			case 2: c.m = Consumer::BROKENFILE; c.after = size(true); break;
			default: c.m = Consumer::CLOSED; break;
			}
			s->taint |= T_OUT;
		}
		else if (P(p.clientFdClosed)) { c.m = Consumer::CLOSED; s->taint |= T_OUT; }
	}
	if (P(p.clientFdClosed)) s->inMode = 2;
}

void Builder::script(Session *s, bool loss)
{
	Script &c = s->script;
	bool big = P(p.big);
	auto op = [&](Op::K k, int64_t n = 0, int chunk = 0, int64_t m = 0) { Op o; o.k = k; o.n = n; o.chunk = chunk; o.m = m; c.ops.push_back(o); };
	auto out = [&](bool err, bool bg) { int64_t n = size(bg); op(err ? Op::ERR : Op::OUT, n, chunkFor(n)); };
	auto feed = [&](int64_t n, Time delay = 0, int64_t seen = 0) { ProdItem i; i.n = n; i.delay = delay; i.waitSeen = seen; i.chunk = chunkFor(n); s->prod.push_back(i); s->inPlanned += n; };
	bool pipeIn = s->inMode == 0;
	bool interactiveOk = pipeIn && (s->out.c.m == Consumer::FAST);
	int kind;
	if (pipeIn && !loss && maxBytes >= 100000 && P(p.flood)) kind = 9;
	else if (loss && P(p.longRun)) kind = 6;
	else if (interactiveOk && P(p.interactive)) kind = 4;
	else if (P(p.cat)) kind = 2;
	else if (P(p.closeOps)) kind = 8;
	else if (P(p.dualFlow)) kind = 7;
	else if (P(p.longRun)) kind = 6;
	else kind = int(chScn.weighted({ 2, 5, 0, 3, 0, 4 }));
	s->prodEof = !P(p.idleStdin);
	bool needIn = false;
	switch (kind)
	{
	case 0: break;
	case 1:
		for (uint32_t i = 0, n = 1 + D(4); i < n; i++) { out(D(3) == 2, big); if (D(3) == 2) op(Op::SLEEP, shortTime() + 1); }
		break;
	case 2:
		for (uint32_t i = 0, n = D(4); i < n; i++) feed(size(big), shortTime());
		op(Op::CAT, 0, D(2) ? int(1 + D(5000)) : 0);
		for (auto &o : c.ops) if (o.chunk && s->inPlanned / o.chunk > 100) o.chunk = int(s->inPlanned / 100) + 1;
		needIn = true;
		if (D(2)) out(true, false);
		break;
	case 3: // reads a part and leaves the rest
		{
			feed(1 + size(big), shortTime());
			int64_t n = 1 + int64_t(D(uint32_t(s->inPlanned)));
			op(Op::IN, n, 0);
			out(D(2), big);
			if (D(2)) feed(size(big), shortTime());
			break;
		}
	case 4: // dialogue
		{
			int64_t seen = 0;
			for (uint32_t i = 0, n = 1 + D(5); i < n; i++)
			{
				int64_t o = 1 + int64_t(D(40)), in = 1 + int64_t(D(60));
				if (big && i == 0) { o = std::min<int64_t>(70000, int64_t(maxBytes)); in = std::min<int64_t>(70000, int64_t(maxBytes)); }
				op(Op::OUT, o, chunkFor(o));
				seen += o;
				feed(in, D(3) == 2 ? shortTime() : 0, seen);
				op(Op::IN, in, 0);
			}
			break;
		}
	case 5:
		for (uint32_t i = 0, n = 2 + D(6); i < n; i++)
			switch (D(5))
			{
			case 0: out(false, big); break;
			case 1: out(true, big); break;
			case 2: op(Op::SLEEP, 1 + shortTime()); break;
			case 3: { int64_t k = 1 + size(big); feed(k, shortTime()); op(Op::IN, k, 0); break; }
			default: op(Op::WAITSEEN); break;
			}
		break;
	case 6: // runs for a while
		if (loss && P(8))
		{
			// there is always more output to take than the handler gets round to
			bool err = D(2);
			s->lagHandler = 10 * MS;
			for (uint32_t i = 0; i < 1100; i++) { op(err ? Op::ERR : Op::OUT, 20, 20); op(Op::SLEEP, 10 * MS); }
			break;
		}
		for (uint32_t i = 0, n = 1 + D(5); i < n; i++)
		{
			if (D(3)) out(D(3) == 2, big);
			if (D(4) == 3) { int64_t k = 1 + size(false); feed(k, shortTime()); op(Op::IN, k, 0); }
			op(Op::SLEEP, Time(1 + D(12)) * 500 * MS);
		}
		if (P(p.closeOps)) { op(Op::CLOSE, int64_t(D(3))); if (!D(3)) op(Op::SLEEP, 11 * SEC); }
		if (D(3) == 2) feed(size(true), shortTime());
		break;
	case 7: // both directions at once, nobody waits for the other
		feed(std::min<int64_t>(int64_t(maxBytes), 200000), 0);
		op(Op::OUT, std::min<int64_t>(int64_t(maxBytes), 200000), 4096);
		if (D(2)) { op(Op::INEOF); c.ops.back().chunk = 0; int64_t k = s->inPlanned; c.ops.back().k = Op::IN; c.ops.back().n = k; }
		else if (D(2)) out(true, true);
		break;
	case 9: // data without end in one direction must not keep the other from flowing
		s->flood = 1 + int(D(3));
		if (s->flood == 3)
		{
			// one output stream without end must not hold up the other one
			bool err = D(2);
			s->out.c = s->err.c = Consumer();
			s->lagHandler = 10 * MS;
			uint32_t at = D(100);
			for (uint32_t i = 0; i < 1100; i++)
			{
				if (i % 400 == at) op(err ? Op::OUT : Op::ERR, 1 + int64_t(D(50)), 100);
				op(err ? Op::ERR : Op::OUT, 20, 20);
				op(Op::SLEEP, 10 * MS);
			}
			s->taint &= ~unsigned(T_OUT);
			break;
		}
		W->k.rcvCap = std::min<size_t>(W->k.rcvCap, 4096);
		W->k.sndCap = std::min<size_t>(W->k.sndCap, 4608);
		if (s->flood == 1)
		{
			feed(1 + int64_t(D(50)), Time(1 + D(10)) * 100 * MS);
			op(Op::FLOOD, s->inPlanned, 4096, 2500000);
			if (D(2)) { s->out.c = Consumer(); s->lagClient = 5 * MS; }
			else { s->out.c.m = Consumer::SLOW; s->out.c.period = 20 * MS; s->out.c.chunk = 4096; }
		}
		else
		{
			s->out.c = s->err.c = Consumer();
			s->lagHandler = 10 * MS;
			feed(1300000, 0);
			for (int i = 0; i < 12; i++) { op(D(2) ? Op::ERR : Op::OUT, 1 + int64_t(D(50)), 100); op(Op::SLEEP, SEC); }
		}
		s->err.c = Consumer();
		s->taint &= ~unsigned(T_OUT);
		break;
	case 8: // closes some of its streams
		for (uint32_t i = 0, n = 2 + D(5); i < n; i++)
			switch (D(5))
			{
			case 0: out(false, big); break;
			case 1: out(true, false); break;
			case 2: op(Op::CLOSE, int64_t(D(3))); break;
			case 3: op(Op::SLEEP, Time(1 + D(8)) * 400 * MS); break;
			default: feed(size(big), shortTime()); break;
			}
		op(Op::CLOSE, int64_t(D(3)));
		op(Op::SLEEP, D(4) == 3 ? 11 * SEC : Time(D(8)) * 500 * MS);
		break;
	}
	if (!s->flood && P(p.unread)) feed(size(true), shortTime());
	if (P(p.forkHold)) { int64_t n = D(2) ? int64_t(D(2000)) : 0; op(Op::FORKHOLD, Time(1 + D(20)) * 300 * MS, 0, n); }
	if (P(p.leaveDaemon)) op(Op::DAEMON, D(3) ? 600 * SEC : Time(1 + D(20)) * 300 * MS);
	if (P(p.die)) op(Op::DIE, chScn.pick<int>({ SIGKILL, SIGTERM, SIGSEGV, SIGABRT, SIGPIPE, SIGHUP }));
	else op(Op::EXIT, D(5) == 4 ? int(D(256)) : chScn.pick<int>({ 0, 1, 3, 255, 127, 128, 137, 42 }));
	// everything a script waits for must come
	int64_t wants = 0;
	for (auto &o : c.ops) { if (o.k == Op::IN) wants += o.n; if (o.k == Op::CAT || o.k == Op::INEOF) needIn = true; }
	if (needIn || wants > s->inPlanned) s->prodEof = true;
	if (P(30)) s->prodEofDelay = shortTime();
	c.onTerm = int(chScn.weighted({ 4, 2, 2 }));
	c.termCode = chScn.pick<int>({ 143, 0, 1 });
	if (c.onTerm && D(3) == 2) c.termDelay = Time(D(20)) * 100 * MS;
}

// Makes a text long; around the sizes of the buffers every length matters.
void Builder::lengthen(std::string &a)
{
	size_t n = chScn.pick<size_t>({ 100, 8192, 5000, 70000, 65536, 131071 }); // (Linux allows no argument to be longer)
	if (n == 8192 || n == 65536) n = n - 14 + D(18);
	if (a.size() < n) a.resize(n, 'x');
}

void Builder::arguments(Session *s)
{
	static const char *odd[] = { "", "-", "--help", "-c", "a b", "quo\"te", "it's", "back\\slash", "*", "$HOME", "${HOME}", "new\nline", "\xc3\xbc\xe2\x82\xac", "=x", "--config=/x", "\x01\xff", "-s" };
	std::string m = "S" + std::to_string(s->id) + ":";
	uint32_t n = P(p.argsComplex) ? D(6) : D(2);
	if (P(p.argsComplex) && D(25) == 24) n = D(8) == 7 ? 1000 + D(3000) : 10 + D(400);
	for (uint32_t i = 0; i < n; i++)
	{
		std::string a = D(3) == 2 ? std::string(odd[D(17)]) : m + odd[D(17)] + std::to_string(i);
		if (D(12) == 11 && i < 8) lengthen(a);
		s->args.push_back(a);
	}
	for (auto &x : names)
		if (P(p.envComplex) ? D(2) : D(5) == 4) s->env[x] = D(5) == 4 ? "" : m + (D(3) == 2 ? D(3) == 2 ? randomText() : D(2) ? "v=1 \"q\" $x" : "${SRV_A}${HOME:-y}${" : "value");
	if (P(p.envComplex) && D(6) == 5) { auto it = s->env.find(names[D(9)]); if (it != s->env.end()) lengthen(it->second); }
	s->env["UNRELATED"] = m + "secret";
	if (P(p.debug)) s->env["K8PSH_DEBUG"] = chScn.pick<const char *>({ "", "mainx", "xmain", "foo, bar", "mai n", "al", "all.", "processall,alll", ",", "pro cess;sockets main" }); // none of this is a part of the program
}

void Builder::rawSession(Session *s)
{
	s->raw = true;
	s->kind = "raw";
	RawPlan &r = s->rawPlan;
	const CfgCmd &c = cfg().cmds[size_t(s->cmd)];
	std::string rel = s->relDir;
	if (cfg().baseRoot) rel = d->mounts.back().substr(1) + (rel.empty() ? "" : "/" + rel);
	std::string name = c.name;
	auto startFrames = [&](const std::string &n) {
		std::string b;
		b += frame(0, rel);
		for (auto &a : s->args) b += frame(2, a);
		for (auto &e : s->env) if (e.first != "K8PSH_CONFIG" && e.first != "PATH" && e.first != "WORKSPACE") b += frame(1, e.first + "=" + e.second);
		return b + frame(3, n);
	};
	auto garbage = [&](size_t n) { std::string b; for (size_t i = 0; i < n; i++) b += char(D(2) ? D(256) : D(10)); return b; };
	if (!P(p.hostile))
	{
		r.bytes = startFrames(name);
		r.wellFormed = c.startable;
		int64_t n = D(2) ? size(false) : 0;
		std::string data;
		appendPattern(data, s->id, 0, 0, size_t(n));
		for (size_t i = 0; i < data.size();) { size_t k = std::min(data.size() - i, size_t(1 + D(4000))); r.bytes += frame(4, data.substr(i, k)); i += k; }
		r.bytes += frame(4, "");
		s->produced = data;
		s->inputEnded = true;
		r.endMode = 0;
		if (P(p.clientKill + p.reset)) { r.endMode = chScn.pick<int>({ 1, 3, 5, 2 }); r.readLimit = r.endMode == 5 ? 1 + int64_t(D(5000)) : -1; r.wellFormed = false; r.pauses.emplace_back(r.bytes.size(), shortTime()); }
	}
	else
	{
		d->hostile = true;
		switch (D(12))
		{
		case 0: r.bytes = garbage(1 + D(40)); break;
		case 1: { r.bytes = startFrames(name); r.bytes.resize(D(uint32_t(r.bytes.size()))); break; } // truncated
		case 2: r.bytes = startFrames("no-such-command"); break;
		case 3: // a command of another server, or a name that only looks similar
			{
				std::string other = name + " ";
				for (auto &x : cfg().cmds) if (x.host != s->host) other = x.name;
				if (D(3) == 2) other = std::string(name) + '\0' + "x";
				r.bytes = startFrames(other);
				break;
			}
		case 4: // two requests on one connection
			r.bytes = startFrames(name) + (D(2) ? frame(4, "abc") : "") + startFrames(D(2) ? name : cfg().cmds[0].name);
			break;
		case 5: // more settings after the start
			r.bytes = startFrames(name) + (D(2) ? frame(2, "late argument") : D(2) ? frame(1, "X=late") : frame(0, "elsewhere"));
			break;
		case 6: r.bytes = startFrames(name).substr(0, D(20)) + frame(4 + int(D(5)), "data") + startFrames(name); break; // out of order
		case 7: { std::string b = frame(int(D(4)), "x"); for (int i = 1; i < 5; i++) b[size_t(i)] = char(i == 4 ? chScn.pick<int>({ 0x7f, 0xff, 0x10 }) : D(256)); r.bytes = b + garbage(D(100)); break; } // absurd length
		case 8: r.bytes = ""; break;
		case 9: // settings only, later replaced, without directory
			r.bytes = (D(2) ? frame(0, "no/such/directory") : "") + frame(2, "a") + frame(3, name);
			break;
		case 10: r.bytes = startFrames(name) + frame(4, std::string(size_t(1 + D(3000)), 'y')) + frame(5 + int(D(4)), "zz"); break;
		default: { r.bytes = startFrames(name); for (uint32_t i = 0, n = 1 + D(4); i < n; i++) r.bytes[D(uint32_t(r.bytes.size()))] = char(D(256)); break; } // corrupted
		}
		r.endMode = chScn.pick<int>({ 1, 2, 3, 4, 5 });
		r.hold = Time(D(10)) * 300 * MS;
		if (r.endMode == 5) { r.endMode = 4; r.readLimit = int64_t(D(100)); }
	}
	decodeRaw(r);
	if (P(p.net)) { r.chunk = chScn.pick<int>({ 65536, 1, 5, 4, 100, 1460 }); if (r.bytes.size() / size_t(r.chunk) > 300) r.chunk = int(r.bytes.size() / 300) + 1; }
	for (uint32_t i = 0, n = D(3); i < n && !r.bytes.empty(); i++) r.pauses.emplace_back(D(uint32_t(r.bytes.size())), shortTime());
	std::sort(r.pauses.begin(), r.pauses.end());
}

static void launchSession(Director *d, Session *s, int tries)
{
	if (!s->raw && !s->install && !strcmp(s->kind, "stub"))
	{
		Inode *n = lookup(s->ct, s->cwd, s->exePath, true);
		if (!n || !(n->mode & 0111) || n->type != Inode::REG)
		{
			if (tries > 0) { d->at(W->now + 100 * MS, [d, s, tries] { launchSession(d, s, tries - 1); }); return; }
			// no client executable: call the program directly
			s->kind = "k8psh";
			s->exePath = "/bin/k8psh";
			s->argv = { "k8psh", "--config", d->confPath(d->mounts.size() - 1), d->cfg.cmds[size_t(s->cmd)].name };
			s->argv.insert(s->argv.end(), s->args.begin(), s->args.end());
		}
	}
	d->startSession(s);
}

void Builder::session()
{
	d->sessions.emplace_back(new Session);
	Session *s = d->sessions.back().get();
	s->id = int(d->sessions.size());
	s->cmd = int(D(uint32_t(cfg().cmds.size())));
	const CfgCmd &c = cfg().cmds[size_t(s->cmd)];
	s->host = c.host;
	s->ct = d->clientCt;
	s->relDir = relDirs[D(uint32_t(relDirs.size()))];
	s->cwd = norm(d->mounts.back() + "/" + cfg().baseSub + "/" + s->relDir);
	s->env = clientEnv;
	arguments(s);
	bool raw = P(p.raw);
	if (!cfg().invalid.empty()) { raw = false; s->mustFail = "the configuration is invalid"; }
	else if (P(p.outside) && (!cfg().baseRoot || D(2)))
	{
		bool gone = cfg().baseRoot || D(10) == 9;
		std::string base = norm(d->mounts.back() + "/" + cfg().baseSub), dir;
		std::string twin = relDirs[D(uint32_t(relDirs.size()))];
		switch (D(9))
		{
		case 0: dir = "/"; break;
		case 7: dir = base; dir.back()++; break;
		case 5: case 6: dir = base + (twin.empty() ? "x" : twin); break; // (what is left of it when the base directory is taken away does exist)
		case 1: dir = base + "x"; break;
		case 2: dir = base.substr(0, base.rfind('/')); break;
		case 3: dir = base.substr(0, base.size() - 1); break;
		case 4: dir = base + " 2/src"; break;
		default: dir = "/tmp" + base; break;
		}
		if (dir.empty()) dir = "/";
		if (gone) dir = base + "/removed";
		else mkdirp(s->ct, dir), mkdirp(s->ct, base + dir); // (and what it would be below the base directory)
		s->cwd = dir;
		raw = false;
		s->mustFail = gone ? "its working directory does not exist any more" : "its working directory is outside the base directory";
		s->mustFailProps = "C05 C18";
		probe(gone ? "client-directory-removed" : "client-outside-base");
	}
	bool loss = P(p.clientKill + p.clientSig + p.reset);
	streams(s);
	if (raw) { s->out.c = Consumer(); s->err.c = Consumer(); s->taint = 0; s->inMode = 0; }
	script(s, loss);
	if (raw)
	{
		s->prod.clear();
		rawSession(s);
		if (s->rawPlan.endMode != 0 && P(60))
		{
			s->script.ops.clear();
			Op o;
			o.k = Op::SLEEP;
			o.n = Time(1 + D(20)) * SEC;
			s->script.ops.push_back(o);
		}
		else
			for (auto &o : s->script.ops) if (o.k == Op::OUT && o.n > 60000) o.n = 60000;
	}
	else
	{
		std::vector<std::string> cands;
		for (auto &x : stubs)
			for (auto &f : x.srv->expectStubs)
				if (f == norm(x.srv->stubDir + "/" + c.name)) cands.push_back(x.dirAtClient + "/" + c.name);
		if (!cands.empty() && D(4) != 3)
		{
			s->kind = "stub";
			s->exePath = cands[D(uint32_t(cands.size()))];
			s->argv = { D(3) == 2 ? c.name : s->exePath };
		}
		else
		{
			s->kind = "k8psh";
			s->exePath = "/bin/k8psh";
			s->argv = { D(2) ? "/bin/k8psh" : "k8psh" };
			if (cfg().odd && D(4) == 3) { s->argv.push_back("--config=" + spell(conf(nHosts), cfg().oddPaths)); s->env["K8PSH_CONFIG"] = "/no/such/file"; }
			else switch (D(4))
			{
			case 0: s->argv.push_back("--config=" + s->env["K8PSH_CONFIG"]); break;
			case 1: s->argv.push_back("-c"); s->argv.push_back(s->env["K8PSH_CONFIG"]); break;
			case 2: s->argv.push_back("--config"); s->argv.push_back(s->env["K8PSH_CONFIG"]); break;
			default: break;
			}
			s->argv.push_back(c.name);
		}
		s->argv.insert(s->argv.end(), s->args.begin(), s->args.end());
		bool given = false;
		for (auto &a : s->argv) given |= a.compare(0, 8, "--config") == 0 || a == "-c";
		if (!given && cfg().odd && s->cwd == d->mounts.back() && cfg().path == "k8psh.conf" && !cfg().atRoot && D(2)) s->env.erase("K8PSH_CONFIG"); // the default file in the working directory
	}
	Time at = P(p.overlap) ? Time(D(10)) * Time(D(30)) * MS : Time(D(60)) * 100 * MS;
	if (P(15)) at += firstServe;
	d->at(at, [d = d, s] { launchSession(d, s, 12); });
	s->startAt = at;

	// faults of this session
	auto byTime = [&](FaultItem f, Time spread) {
		f.s = s;
		f.byTime = true;
		f.at = at + Time(D(uint32_t(spread / MS) + 1)) * MS;
		addFault(f);
	};
	auto byCall = [&](FaultItem f, Role role, Sys kind, int max) {
		f.s = s;
		f.role = role;
		f.kind = kind;
		f.nth = 1 + int(D(uint32_t(max)));
		addFault(f);
	};
	FaultItem f;
	if (!raw && P(p.clientKill))
	{
		f = FaultItem();
		f.a = FaultItem::KILL;
		f.target = R_CLIENT;
		switch (D(4))
		{
		case 0: byTime(f, 6 * SEC); break;
		case 1: byCall(f, R_CLIENT, SYS_ANY, 120); break;
		case 2: byCall(f, R_HANDLER, SYS_ANY, 80); break;
		default: byCall(f, R_CHILD, SYS_ANY, 14); break;
		}
	}
	if (!raw && P(p.clientSig))
	{
		f = FaultItem();
		f.a = FaultItem::SIGNAL;
		f.target = R_CLIENT;
		f.arg = chScn.pick<int>({ SIGTERM, SIGINT, SIGHUP });
		if (D(2)) byTime(f, 6 * SEC); else byCall(f, R_CLIENT, SYS_ANY, 80);
	}
	if (P(p.reset))
	{
		f = FaultItem();
		f.a = FaultItem::RESET;
		switch (D(3))
		{
		case 0: byTime(f, 6 * SEC); break;
		case 1: byCall(f, R_HANDLER, chScn.pick<Sys>({ SYS_ANY, SYS_poll_, SYS_send_, SYS_recv_, SYS_waitpid_, SYS_fork_ }), 20); break;
		default: byCall(f, R_CLIENT, chScn.pick<Sys>({ SYS_poll_, SYS_send_, SYS_recv_ }), 10); break;
		}
	}
	if (P(p.handlerKill))
	{
		f = FaultItem();
		f.a = FaultItem::KILL;
		f.target = R_HANDLER;
		if (D(2)) byTime(f, 5 * SEC); else byCall(f, R_HANDLER, SYS_ANY, 60);
	}
	if (P(p.cmdKill))
	{
		f = FaultItem();
		f.a = FaultItem::SIGNAL;
		f.target = R_CMD;
		f.arg = chScn.pick<int>({ SIGKILL, SIGTERM, SIGSEGV });
		if (D(2)) byTime(f, 5 * SEC); else byCall(f, R_HANDLER, SYS_poll_, 12);
	}
	if (P(p.stall))
	{
		f = FaultItem();
		f.a = FaultItem::STALL;
		f.target = chScn.pick<Role>({ R_HANDLER, R_CLIENT, R_CMD });
		f.dur = Time(1 + D(10)) * 500 * MS;
		if (raw) f.target = R_HANDLER;
		if (D(2)) byTime(f, 4 * SEC); else byCall(f, f.target == R_CMD ? R_HANDLER : f.target, SYS_ANY, 60);
	}
	if (!raw && s->mustFail == nullptr && (cfg().connectTimeoutMs < 0 || cfg().connectTimeoutMs >= 10000) && P(p.connectErr))
	{
		f = FaultItem();
		f.a = FaultItem::ERRNO;
		f.arg = chScn.pick<int>({ ETIMEDOUT, EADDRNOTAVAIL, EAGAIN, ECONNRESET, ECONNREFUSED, EINTR });
		byCall(f, R_CLIENT, SYS_connect_, 4);
		d->faults.back()->repeat = 1 + int(D(2));
	}
	if (P(p.eintr))
		for (uint32_t i = 0, n = 1 + D(3); i < n; i++)
		{
			f = FaultItem();
			f.a = FaultItem::ERRNO;
			f.arg = EINTR;
			switch (D(6))
			{
			case 0: byCall(f, R_CLIENT, SYS_poll_, 10); break;
			case 1: byCall(f, R_HANDLER, SYS_poll_, 10); break;
			case 2: byCall(f, R_HANDLER, SYS_waitpid_, 2); break;
			case 3: byCall(f, R_CLIENT, SYS_sleep_, 4); break;
			case 4: byCall(f, R_HANDLER, SYS_read_, 10); break;
			default: byCall(f, R_HANDLER, SYS_write_, 10); break;
			}
			if (D(3) == 2) d->faults.back()->repeat = 2 + int(D(6));
		}
	if (P(p.shortIo))
		for (uint32_t i = 0, n = 1 + D(4); i < n; i++)
		{
			f = FaultItem();
			f.a = FaultItem::SHORT;
			byCall(f, D(2) ? R_HANDLER : R_CLIENT, chScn.pick<Sys>({ SYS_recv_, SYS_read_, SYS_send_, SYS_write_ }), 12);
		}
	if (P(p.errHandler))
	{
		f = FaultItem();
		f.a = FaultItem::ERRNO;
		switch (D(6))
		{
		case 0: f.arg = EMFILE; byCall(f, R_HANDLER, SYS_pipe_, 3); break;
		case 1: f.arg = D(2) ? EAGAIN : ENOMEM; byCall(f, R_HANDLER, SYS_fork_, 1); break;
		case 2: f.arg = EACCES; byCall(f, R_CHILD, SYS_chdir_, 1); break;
		case 3: f.arg = D(2) ? ENOMEM : E2BIG; byCall(f, R_CHILD, SYS_exec_, 1); break;
		case 4: f.arg = EMFILE; byCall(f, R_CHILD, SYS_dup_, 3); break;
		default: f.arg = ENOMEM; byCall(f, R_HANDLER, SYS_poll_, 6); break;
		}
	}
	if (P(p.alloc))
	{
		f = FaultItem();
		f.a = FaultItem::ALLOC;
		f.arg = 1 + int(D(30));
		f.target = R_OTHER;
		if (D(3) && !raw) byCall(f, R_CLIENT, SYS_ANY, 60); else byCall(f, R_HANDLER, SYS_ANY, 60);
	}
}

FaultItem *Builder::addFault(FaultItem f)
{
	d->faults.emplace_back(new FaultItem(f));
	FaultItem *q = d->faults.back().get();
	if (q->byTime) d->at(q->at, [d = d, q] { if (!q->fired) d->fire(q, nullptr); });
	return q;
}

void Builder::faults()
{
	for (auto &vp : d->servers)
	{
		Server *v = vp.get();
		if (v->host < 0 || v->mustFail) continue;
		if (P(p.errServer))
			for (uint32_t i = 0, n = 1 + D(3); i < n; i++)
			{
				FaultItem f;
				f.a = FaultItem::ERRNO;
				f.srv = v;
				f.role = R_SERVER;
				if (D(3)) { f.kind = SYS_accept_; f.arg = chScn.pick<int>({ ECONNABORTED, EMFILE, ENFILE, ENOMEM, ENOBUFS, EINTR, EAGAIN }); f.nth = 1 + int(D(5)); }
				else { f.kind = SYS_fork_; f.arg = D(2) ? EAGAIN : ENOMEM; f.nth = 1 + int(D(4)) + (v->daemon ? 1 : 0); }
				addFault(f);
			}
		if (P(p.eintr))
		{
			FaultItem f;
			f.a = FaultItem::ERRNO;
			f.arg = EINTR;
			f.srv = v;
			f.role = R_SERVER;
			f.kind = D(2) ? SYS_poll_ : SYS_accept_;
			f.nth = 1 + int(D(4));
			f.repeat = 1 + int(D(3));
			addFault(f);
		}
		if (P(p.exhaust))
		{
			FaultItem f;
			f.a = FaultItem::EXHAUST;
			f.srv = v;
			f.arg = chScn.pick<int>({ EMFILE, ENFILE, ENOMEM, ENOBUFS });
			f.dur = Time(1 + D(10)) * 500 * MS;
			f.byTime = true;
			f.at = Time(D(50)) * 100 * MS;
			addFault(f);
		}
		if (P(p.stall / 2))
		{
			FaultItem f;
			f.a = FaultItem::STALL;
			f.srv = v;
			f.target = R_SERVER;
			f.dur = Time(1 + D(8)) * 500 * MS;
			f.byTime = true;
			f.at = Time(D(50)) * 100 * MS;
			addFault(f);
		}
	}
	if (P(p.jump))
	{
		FaultItem f;
		f.a = FaultItem::JUMP;
		f.byTime = true;
		f.at = Time(D(50)) * 100 * MS;
		f.dur = chScn.pick<Time>({ 3600 * SEC, -3600 * SEC, 5 * SEC, -5 * SEC, 86400 * SEC });
		addFault(f);
	}
}

// ---------------------------------------------------------------- --install
void Builder::installCase()
{
	d->inst.reset(new InstallCase);
	InstallCase *i = d->inst.get();
	d->sessions.emplace_back(new Session);
	Session *s = d->sessions.back().get();
	s->id = int(d->sessions.size());
	s->install = true;
	s->kind = "install";
	s->ct = d->clientCt;
	s->cwd = D(2) ? "/tmp" : "/";
	s->env = clientEnv;
	i->s = s;
	i->binary = d->binary;
	i->binaryData = d->binary->data;
	i->binaryMode = d->binary->mode;
	i->kind = int(D(14));
	std::string dir = "/shared";
	mkdirp(s->ct, dir);
	mkdirp(s->ct, "/tmp/rel");
	mkdirp(s->ct, "/rel");
	std::string target = dir + "/k8pshd";
	if (D(3) == 2) { target = "rel/tool"; dir = join(s->cwd == "/" ? "" : s->cwd, "rel"); }
	if (i->kind == 13) { target = D(2) ? "/bin/k8psh" : "/bin/../bin/k8psh"; dir = "/bin"; }
	i->target = target;
	i->canonTarget = norm(join(s->cwd, target));
	std::string longer, shorter;
	appendPattern(longer, 77, 7, 0, i->binaryData.size() + 1 + D(10000));
	shorter = longer.substr(0, i->binaryData.size() / (2 + D(3)));
	bool copy = false; // link() is impossible because of another file system
	bool simple = true;
	switch (i->kind)
	{
	case 0: break;
	case 1: copy = true; break;
	case 2: putFile(s->ct, i->canonTarget, longer, 0755); break;
	case 3: putFile(s->ct, i->canonTarget, shorter, 0755); break;
	case 4: putFile(s->ct, i->canonTarget, D(2) ? longer : shorter, 0644); break;
	case 5: { Inode *n = mkdirp(s->ct, dir); n->ents[i->canonTarget.substr(i->canonTarget.rfind('/') + 1)] = d->binary; d->binary->nlink++; simple = false; break; }
	case 6: { Inode *n = mkNode(Inode::LNK, 0777); n->data = "/bin/k8psh"; mkdirp(s->ct, dir)->ents[i->canonTarget.substr(i->canonTarget.rfind('/') + 1)] = n; simple = false; break; }
	case 7: { Inode *n = mkNode(Inode::LNK, 0777); n->data = "real-file"; mkdirp(s->ct, dir)->ents[i->canonTarget.substr(i->canonTarget.rfind('/') + 1)] = n; break; }
	case 8: mkdirp(s->ct, i->canonTarget); simple = false; break;
	case 9: i->target = "/no/such/dir/k8psh"; simple = false; break;
	case 10: { Inode *f = putFile(s->ct, i->canonTarget, longer, 0755); mkdirp(s->ct, "/opt")->ents["other-name"] = f; f->nlink++; break; }
	case 11: { Inode *f = putFile(s->ct, i->canonTarget, shorter, 0755); f->running++; simple = false; break; }
	case 13: simple = false; break; // the target is the program itself
	default: { Inode *f = putFile(s->ct, i->canonTarget, longer, 0444); f->denyWrite = true; simple = false; break; }
	}
	i->mustSucceed = simple;
	s->exePath = D(2) ? "/bin/k8psh" : "/bin/k8psh";
	s->argv = { "k8psh" };
	if (D(2)) s->argv.push_back("--install=" + i->target);
	else { s->argv.push_back("--install"); s->argv.push_back(i->target); }
	if (D(4) == 3) s->argv.push_back("ignored");
	auto fault_ = [&](FaultItem::A a, Sys k, int arg, int nth) { FaultItem f; f.a = a; f.s = s; f.role = R_INSTALL; f.kind = k; f.arg = arg; f.nth = nth; if (D(3) == 2) f.repeat = k == SYS_link_ || k == SYS_open_ || k == SYS_close_ ? 1 : arg == EINTR ? 2 + int(D(40)) : 1 << 30; addFault(f); };
	if (copy || D(3) == 2) fault_(FaultItem::ERRNO, SYS_link_, chScn.pick<int>({ EXDEV, EPERM, EMLINK }), 1);
	// (an injected link failure is not a resource failure of the installation as such)
	if (D(2))
	{
		uint32_t n = 1 + D(3);
		for (uint32_t k = 0; k < n; k++)
		{
			int blocks = int(i->binaryData.size() / 8192) + 2;
			switch (D(9))
			{
			case 0: fault_(FaultItem::ERRNO, SYS_read_, EINTR, 1 + int(D(uint32_t(blocks)))); break;
			case 1: fault_(FaultItem::ERRNO, SYS_write_, EINTR, 1 + int(D(uint32_t(blocks)))); break;
			case 2: fault_(FaultItem::SHORT, SYS_read_, 0, 1 + int(D(uint32_t(blocks)))); break;
			case 3: fault_(FaultItem::SHORT, SYS_write_, 0, 1 + int(D(uint32_t(blocks)))); i->mustSucceed = false; break;
			case 4: fault_(FaultItem::ERRNO, SYS_write_, D(2) ? ENOSPC : EIO, 1 + int(D(uint32_t(blocks)))); i->mustSucceed = false; break;
			case 5: fault_(FaultItem::ERRNO, SYS_read_, EIO, 1 + int(D(uint32_t(blocks)))); i->mustSucceed = false; break;
			case 6: fault_(FaultItem::ERRNO, SYS_close_, D(2) ? EIO : ENOSPC, 1 + int(D(2))); i->mustSucceed = false; break;
			case 7: fault_(FaultItem::ERRNO, SYS_open_, chScn.pick<int>({ EACCES, EMFILE, ENOSPC, EROFS }), 1 + int(D(2))); i->mustSucceed = false; break;
			default: { FaultItem f; f.a = FaultItem::KILL; f.s = s; f.role = R_INSTALL; f.kind = SYS_ANY; f.nth = 1 + int(D(30)); f.target = R_CLIENT; addFault(f); i->mustSucceed = false; break; }
			}
		}
	}
	if (D(6) == 5) { Inode *n = lookup(s->ct, "/", i->canonTarget, true); if (n && n->type == Inode::REG && n != d->binary) { n->spaceLeft = int64_t(D(uint32_t(i->binaryData.size()))); i->mustSucceed = false; } }
	s->prodEof = true;
	d->at(0, [d = d, s] { d->startSession(s); });
}

// ---------------------------------------------------------------- entry points
void makeProbe(Director *d, Session *s, int cmd)
{
	const CfgCmd &c = d->cfg.cmds[size_t(cmd)];
	s->probe = true;
	s->cmd = cmd;
	s->host = c.host;
	s->ct = d->clientCt;
	s->cwd = norm(d->mounts.back() + "/" + d->cfg.baseSub);
	s->env["K8PSH_CONFIG"] = d->confPath(d->mounts.size() - 1);
	s->env["PATH"] = "/bin";
	for (auto &e : d->cfg.env) s->env[e.first] = e.second;
	if (d->cfg.baseFromEnv) s->env["WORKSPACE"] = d->mounts.back();
	s->kind = "k8psh";
	s->exePath = "/bin/k8psh";
	s->args = { "S" + std::to_string(s->id) + ":probe" };
	s->argv = { "k8psh", "--config", s->env["K8PSH_CONFIG"], c.name, s->args[0] };
	ProdItem i;
	i.n = 700;
	i.chunk = 700;
	s->prod.push_back(i);
	s->inPlanned = 700;
	Op o;
	o.k = Op::CAT;
	s->script.ops.push_back(o);
	o.k = Op::ERR;
	o.n = 33;
	o.chunk = 33;
	s->script.ops.push_back(o);
	o.k = Op::EXIT;
	o.n = 7;
	s->script.ops.push_back(o);
}

void buildScenario(Director *d, const std::string &prop)
{
	Builder b;
	b.d = d;
	b.p = profileFor(prop);
	b.machine();
	b.deployment();
	b.cfg().baseFromEnv = b.clientEnv.count("WORKSPACE") != 0;
	b.configuration();
	b.servers();
	renderConfig(b.cfg(), b.emptySection);
	spoil(b.cfg());
	if (b.cfg().invalid != wrong[10])
	{
		int64_t errAt = -1;
		size_t most = 0;
		if (b.cfg().invalid == wrong[11]) errAt = int64_t(D(uint32_t(b.cfg().text.size())));
		else if (b.cfg().odd && D(4) == 3) most = 1 + D(uint32_t(D(2) ? 40 : b.cfg().text.size()));
		std::set<Container *> cts = { d->clientCt };
		if (b.cfg().atRoot) cts.insert(d->hostCt.begin(), d->hostCt.end());
		for (Container *ct : cts)
		{
			Inode *f = putFile(ct, d->confPath(d->mounts.size() - 1, false), b.cfg().text, 0644);
			d->watched[f] = "the configuration";
			f->readErrAt = errAt;
			f->readMax = most ? std::max(most, (f->data.size() + 199) / 400) : 0; // (not in so many pieces that reading it is all that goes on)
		}
	}
	if (!b.cfg().invalid.empty())
	{
		fault("invalid-configuration");
		b.stubs.clear();
		for (auto &v : d->servers) { v->mustFail = true; v->failWhy = "the configuration is invalid"; }
	}
	if (b.p.install) b.installCase();
	int n = b.p.sessMin + int(D(uint32_t(b.p.sessMax - b.p.sessMin + 1)));
	for (int i = 0; i < n; i++) b.session();
	b.faults();
	d->describe = "hosts " + std::to_string(b.nHosts) + ", servers " + std::to_string(d->servers.size()) + ", sessions " + std::to_string(d->sessions.size()) + ", pipe capacity " + std::to_string(W->k.pipeCap) + ", socket buffers " + std::to_string(W->k.sndCap) + "/" + std::to_string(W->k.rcvCap) + ", latency mode " + std::to_string(W->k.latencyMode) + ", segmentation mode " + std::to_string(W->k.segMode) + (b.cfg().invalid.empty() ? "" : ", invalid configuration: " + b.cfg().invalid) + "\nconfiguration " + b.cfg().path + ":\n" + b.cfg().text;
}

} // namespace sim
