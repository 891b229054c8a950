// R12: sections, bitmaps and masks on the real code.
#include "hvreplay.hpp"
#include <regex>
#include "hogl/detail/area.hpp"
#include "hogl/detail/mask.hpp"
using namespace hogl;
typedef std::vector<bool> bits;
static void bitmaps(Rng &g, unsigned n)
{
	bitmap b(n); bits m(n, false);
	CHECK(b.size() == n, "size");
	for (int s = 0; s < 200; s++) {
		unsigned i = g.below(n);
		switch (g.below(20)) {
		case 0: b.set(); m.assign(n, true); break;
		case 1: b.reset(); m.assign(n, false); break;
		case 2: { bitmap c(b); for (unsigned k = 0; k < n; k++) CHECK(c.test(k) == m[k], "copy differs at bit %u of %u", k, n); if (n) { c.set(i, !m[i]); CHECK(b.test(i) == m[i], "copy shares storage"); } break; }
		case 3: case 4: case 5: if (n) { b.reset(i); m[i] = false; } break;
		default: if (n) { bool v = g.chance(60); b.set(i, v); m[i] = v; }
		}
		for (unsigned k = 0; k < n; k++) CHECK(b.test(k) == m[k], "bitmap of %u: bit %u is %d after an operation on bit %u", n, k, (int) b.test(k), i);
	}
	b.resize(n + 70); b.reset(); for (unsigned k = 0; k < n + 70; k++) { CHECK(!b.test(k), "bit %u set after resize and reset", k); b.set(k); }
}
struct Sects {
	std::vector<std::string> s; std::vector<const char *> p;
	Sects(unsigned n, Rng &g) { for (unsigned i = 0; i < n; i++) s.push_back((g.chance(30) ? "S" : g.chance(50) ? "DEBUG" : "X-") + std::to_string(i)); for (auto &x : s) p.push_back(x.c_str()); p.push_back(0); }
};
static void areas(Rng &g, unsigned n)
{
	Sects s(n, g); char nm[8] = "AREA1";
	area a(nm, s.p.data());
	nm[0] = 'z';
	CHECK(!strcmp(a.name(), "AREA1"), "name is not a private copy");
	CHECK(a.size() == n && a.count() == n, "%u sections for a list of %u", a.size(), n);
	for (unsigned i = 0; i < n; i++) { CHECK(!a.test(i), "section %u of a new area is enabled", i); CHECK(s.s[i] == a.section_name(i) && a.section_name(i) != s.p[i], "section name %u", i); }
	CHECK(!strcmp(a.section_name(n), "INVALID") && !strcmp(a.section_name(n + 100), "INVALID"), "name of an invalid section");
	bits m(n, false);
	for (int k = 0; k < 60 && n; k++) {
		unsigned i = g.below(n); bool v = g.chance(50);
		switch (g.below(12)) {
		case 0: a.set(); m.assign(n, true); break; case 1: a.reset(); m.assign(n, false); break;
		case 2: a.enable(); m.assign(n, true); break; case 3: a.disable(); m.assign(n, false); break;
		case 4: a.reset(i); m[i] = false; break; case 5: a.disable(i); m[i] = false; break;
		case 6: a.set(i, v); m[i] = v; break; case 7: a.enable(i, v); m[i] = v; break;
		case 8: a.set(i); m[i] = true; break; default: a.enable(i); m[i] = true;
		}
		for (unsigned j = 0; j < n; j++) CHECK(a.test(j) == m[j], "section %u is %d after an operation on section %u of %u", j, (int) a.test(j), i, n);
	}
	Sects t = s; for (unsigned i = 0; i < n; i++) t.p[i] = t.s[i].c_str(); t.p[n] = 0;
	area b("AREA1", t.p.data()), c("AREA2", t.p.data());
	CHECK(a == b && !(a != b) && !(a == c), "equality by content");
	if (n) {
		unsigned i = g.below(n); t.s[i] += "?"; t.p[i] = t.s[i].c_str(); area d("AREA1", t.p.data()); CHECK(!(a == d) && a != d, "areas differing in section %u of %u are equal", i, n);
		t.p[n - 1] = 0; area e("AREA1", t.p.data()); CHECK(!(a == e), "areas of different size are equal");
	}
}
struct Rule { std::string a, s; bool on; };
static bool rematch(const std::string &x, const std::string &re) { return std::regex_match(x, std::regex(re, std::regex::extended)); }
static void parse(const std::string &r, std::vector<Rule> &out)
{
	std::string t = r; bool on = true;
	if (!t.empty() && t[0] == '!') { on = false; t = t.substr(1); }
	size_t c = t.find(':');
	std::string a = c == t.npos ? "" : t.substr(0, c), s = c == t.npos ? t : t.substr(c + 1);
	out.push_back({ a.empty() ? ".*" : a, s.empty() ? ".*" : s, on });
}
static void rules(Rng &g)
{
	static const std::vector<std::string> A = { "", "A", "AB", "A.*", ".*", "B|A", "TEST-[0-9]+", "(A|AB)", "" };
	static const std::vector<std::string> S = { "", "INFO", "DEBUG", "INFO|WARN", ".*", "D.*", "[^D].*", "X:Y", "TRACE", "WAR.", "!INFO" };
	mask m; std::vector<Rule> ref; std::vector<std::string> txt;
	unsigned n = g.below(7);
	for (unsigned i = 0; i < n; i++) {
		std::string r = g.chance(40) ? "!" : "";
		if (g.chance(70)) r += g.pick(A) + ":";
		r += g.pick(S);
		parse(r, ref); txt.push_back(r);
		if (g.chance(50)) m << r; else m.add(r);
	}
	mask cp(m), as; as << "INFO"; as = m;
	const mask *ms[] = { &m, &cp, &as };
	static const char *secs[] = { "INFO", "WARN", "ERROR", "DEBUG", "DEBUG1", "X:Y", "TRACE", "S7", "Y", "!INFO", 0 };
	for (const char *nm : { "A", "AB", "TEST-12", "C" })
	for (auto *mm : ms) {
		bool longa = g.chance(30); std::vector<std::string> ls; std::vector<const char *> lp;
		for (unsigned i = 0; i < 130; i++) ls.push_back(secs[i % 10] + (i >= 10 ? std::to_string(i) : std::string()));
		for (auto &x : ls) lp.push_back(x.c_str()); lp.push_back(0);
		area a(nm, longa ? lp.data() : g.chance(80) ? secs : 0);
		bits st(a.size());
		for (unsigned i = 0; i < a.size(); i++) { st[i] = g.chance(50); a.set(i, st[i]); }
		mm->apply(a);
		for (unsigned i = 0; i < a.size(); i++) {
			bool want = st[i];
			for (auto &r : ref) if (rematch(nm, r.a) && rematch(a.section_name(i), r.s)) want = r.on;
			std::string all; for (auto &t : txt) all += t + " ";
			CHECK(a.test(i) == want, "rules [%s] applied to %s: section %u (%s) is %d, was %d", all.c_str(), nm, i, a.section_name(i), (int) a.test(i), (int) st[i]);
		}
	}
	std::ostringstream os; os << m; std::string want; for (auto &t : txt) want += t + "\n";
	CHECK(os.str() == want, "rules printed as [%s] instead of [%s]", os.str().c_str(), want.c_str());
	// reading rules from a stream, one per line
	std::string in; std::vector<std::string> lines; for (auto &t : txt) if (!t.empty()) { in += t + "\n"; lines.push_back(t); if (g.chance(20)) in += "\n"; }
	if (g.chance(40) && !in.empty() && !lines.empty()) while (in.back() == '\n') in.pop_back();
	std::istringstream is(in); mask rd; is >> rd;
	std::ostringstream o2; o2 << rd; want.clear(); for (auto &t : lines) want += t + "\n";
	CHECK(o2.str() == want, "reading [%s] gives the rules [%s]", in.c_str(), o2.str().c_str());
	// self assignment, clear, legacy constructor
	m = m; std::ostringstream o3; o3 << m; CHECK(o3.str() == os.str(), "self assignment changes the rules");
	mask lg("INFO", "!A:DEBUG", "X:.*", "B", "C", "D", "E", "F", (const char *) 0); std::ostringstream o4; o4 << lg;
	CHECK(o4.str() == "INFO\n!A:DEBUG\nX:.*\nB\nC\nD\nE\nF\n", "legacy constructor gives [%s]", o4.str().c_str());
	m.clear(); std::ostringstream o5; o5 << m; CHECK(o5.str().empty(), "clear leaves rules");
}
void witness(const Witness &w)
{
	Rng g(7); uint64_t n = w.get("size", w.get("sections", 0));
	if (n && n < 5000) { bitmaps(g, n); areas(g, n); }
}
void search(uint64_t seed)
{
	Rng g(seed);
	for (unsigned n = 0; n < 200; n++) { bitmaps(g, n); if (n % 3 == 0 || n > 60) areas(g, n); }
	area d("D"); static const char *def[] = { "INFO", "WARN", "ERROR", "FATAL", "DEBUG", "TRACE" };
	CHECK(d.size() == 6, "default sections"); for (unsigned i = 0; i < 6; i++) CHECK(!strcmp(d.section_name(i), def[i]) && !d.test(i), "default section %u", i);
	for (int i = 0; i < 400; i++) rules(g);
}
