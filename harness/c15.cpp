// C15: state files: save/load round trip, table and Zeno grammars, unit systems, box size
#include "stream_util.h"

struct row
{
	double	x[7];
	double	radius;
};

static std::string number_text(pbt::source& s, double& value, bool extreme)
{
	char b[400];
	double v = extreme ? s.any_finite() : s.number(s.chance(1, 2) ? 10 : 1e6);
	if(v != 0 && std::fabs(v) < 1e-290) { v = 0.25; }
	switch(s.draw(7))
	{
	case 0: snprintf(b, sizeof b, "%.17g", v); break;
	case 1: snprintf(b, sizeof b, "%.16e", v); break;
	case 2: snprintf(b, sizeof b, "%+.6g", v); break;
	case 3: snprintf(b, sizeof b, "%.3f", std::fabs(v) < 1e15 ? v : 1.5); break;
	case 4: snprintf(b, sizeof b, "%d", static_cast<int>(std::fabs(v) < 1e9 ? v : 7)); break;
	case 5: snprintf(b, sizeof b, "%.3E", v); break;
	case 6: snprintf(b, sizeof b, "%.25g", v); break;
	default: snprintf(b, sizeof b, "%.40f", std::fabs(v) < 1e15 ? v : -0.1);
	}
	value = strtod(b, nullptr);
	if(!std::isfinite(value) || (value != 0 && std::fabs(value) < 1e-290))
	{
		value = 1;
		return "1";
	}
	return b;
}

static std::string blanks(pbt::source& s, size_t lo) { return std::string(lo + (s.chance(1, 4) ? s.draw(4) : 0), ' '); }

static void write_file(const std::string& p, const std::string& t)
{
	std::ofstream f(p, std::ios::binary);
	f << t;
}

static bool same(double a, double b) { return a == b; }	// all values are finite; the sign of zero is not kept by Qt's text output

static double radius_of(const nbody_data& d, size_t i, const std::string& tmp)
{
	// the radius has no accessor; it is visible in a saved file
	static std::string last;
	QString fn = QString::fromStdString(tmp + "/radius.txt");
	PBT_CHECK(d.save(fn), "save");
	std::ifstream f(tmp + "/radius.txt");
	std::string line;
	for(size_t k = 0; k <= i; ++k) { std::getline(f, line); }
	std::istringstream is(line);
	std::string tok;
	for(int k = 0; k != 8; ++k) { is >> tok; }
	return strtod(tok.c_str(), nullptr);
}

static void check_rows(const nbody_data& d, const std::vector<row>& w, double mass_factor, const std::string& id, const std::string& tmp)
{
	PBT_CHECK(d.get_count() == w.size(), id << ": " << d.get_count() << " bodies, the file holds " << w.size());
	for(size_t i = 0; i != w.size(); ++i)
	{
		const nbvertex_t& r = d.get_vertites()[i];
		const nbvertex_t& v = d.get_velosites()[i];
		double got[6] = {r.x, r.y, r.z, v.x, v.y, v.z};
		for(int k = 0; k != 6; ++k) { PBT_CHECK(same(got[k], w[i].x[k]), id << ": body " << i << " column " << k << " is " << got[k] << ", the file says " << w[i].x[k]); }
		const nbcolor_t& q = d.get_color()[i];
		PBT_CHECK(q.x == 1 && q.y == 1 && q.z == 1 && q.w == 1, id << ": body " << i << " has the colour " << q.x << " " << q.y << " " << q.z << " " << q.w);
		double m = w[i].x[6] * mass_factor;
		PBT_CHECK(d.get_mass()[i] == m || std::fabs(d.get_mass()[i] - m) <= 4e-16 * std::fabs(m) + (mass_factor == 1 ? 0 : 1e-320), id << ": body " << i << " mass is " << d.get_mass()[i] << ", expected " << m);
		if(mass_factor == 1) { PBT_CHECK(same(d.get_mass()[i], w[i].x[6]), id << ": body " << i << " mass is " << d.get_mass()[i] << ", the file says " << w[i].x[6]); }
	}
	if(!w.empty())
	{
		size_t i = w.size() - 1;
		double g = radius_of(d, i, tmp);
		PBT_CHECK(g == w[i].radius, id << ": body " << i << " radius is " << g << ", the file says " << w[i].radius);
		g = radius_of(d, 0, tmp);
		PBT_CHECK(g == w[0].radius, id << ": body 0 radius is " << g << ", the file says " << w[0].radius);
	}
}

static void check_box(const nbody_data& d, const std::vector<row>& w, const std::string& id)
{
	double m = 1;
	for(auto& q : w) { m = std::max(m, std::max(q.x[0], std::max(q.x[1], q.x[2]))); }
	if(m >= 9e18) { return; }
	PBT_CHECK(d.get_box_size() == static_cast<size_t>(std::floor(m)), id << ": box " << d.get_box_size() << " for a largest coordinate of " << m);
}

static void dirty(pbt::source& s, nbody_data& d)
{
	if(!s.chance(1, 2)) { return; }
	for(size_t k = s.draw(4); k; --k) { d.add_body(nbvertex_t(9, 9, 9), nbvertex_t(8, 8, 8), 7, nbcolor_t(), 6); }
	d.set_box_size(12345);
}

static const struct { const char* name; int unit; } types[] = {{"G1", 0}, {"g1", 0}, {"SI", 1}, {"Si", 1}, {"si", 1}, {"ADK", 2}, {"adk", 2}, {"AdK", 2}};

static void p_roundtrip(pbt::source& s, pbt::ctx& c)
{
	clean_dir(c.workdir);
	size_t n = s.chance(1, 200) ? 300 + s.draw(5000) : s.chance(1, 10) ? s.draw(300) : s.size(0, 20);
	std::vector<row> w(n);
	nbody_data d;
	bool wild = s.chance(2, 3);
	for(auto& r : w)
	{
		for(auto& x : r.x) { x = wild ? s.any_finite() : s.number(100); }
		r.radius = wild ? s.any_finite() : std::fabs(s.number(3));
		d.add_body(nbvertex_t(r.x[0], r.x[1], r.x[2]), nbvertex_t(r.x[3], r.x[4], r.x[5]), r.x[6], nbcolor_t(), r.radius);
	}
	QString fn = QString::fromStdString(c.workdir + "/a.txt");
	PBT_CHECK(d.save(fn), "saving " << n << " bodies failed");
	nbody_data l;
	dirty(s, l);
	PBT_CHECK(l.load(fn), "loading the saved " << n << " bodies failed; first " << (n ? num(w[0].x[0]) : ""));
	check_rows(l, w, 1, "round trip of " + std::to_string(n) + " bodies", c.workdir);
	// saving the loaded state gives the same file
	QString fn2 = QString::fromStdString(c.workdir + "/b.txt");
	PBT_CHECK(l.save(fn2), "save");
	QFile a(fn), b(fn2);
	PBT_CHECK(a.open(QFile::ReadOnly) && b.open(QFile::ReadOnly), "files");
	PBT_CHECK(a.readAll() == b.readAll(), "the file saved after loading differs");
	if(c.verbose) { c.text << n << " bodies" << (n ? ", first x " + num(w[0].x[0]) : ""); }
	if(n) { c.nontrivial(); }
	c.label(wild ? "wild values" : "plain values");
}

static void p_table(pbt::source& s, pbt::ctx& c)
{
	clean_dir(c.workdir);
	size_t n = s.chance(1, 200) ? 100 + s.draw(1500) : s.size(0, 15);
	std::vector<row> w;
	std::string text;
	const char* eol = s.chance(1, 4) ? "\r\n" : "\n";
	static const char* const comments[] = {"// comment", "//", "//1 2 3 4 5 6 7", "// a // b", "//\tx = 5 \xc3\xa9", "///"};
	auto noise = [&]()
	{
		while(s.chance(1, 4))
		{
			switch(s.draw(3))
			{
			case 0: text += eol; break;
			case 1: text += std::string("   \t ") + eol; break;
			case 2: text += std::string(comments[s.draw(5)]) + eol; break;
			default: text += "  " + std::string(comments[s.draw(5)]) + eol;
			}
			c.label("comments or blank lines");
		}
	};
	bool extreme = s.chance(1, 2);
	for(size_t i = 0; i != n; ++i)
	{
		noise();
		row r;
		if(s.chance(1, 4)) { text += s.chance(1, 2) ? "  " : "\t"; }
		for(int k = 0; k != 7; ++k)
		{
			if(k) { text += blanks(s, 1); }
			text += number_text(s, r.x[k], extreme);
		}
		r.radius = 0;
		if(s.chance(1, 2))
		{
			text += blanks(s, 1) + number_text(s, r.radius, extreme);
			if(s.chance(1, 2))
			{
				static const char* const extra[] = {"Mars", "abc 1 2", "/ slash", "#5 x=3", "0x1f \"q\"", "-"};
				if(s.chance(1, 2)) { text += blanks(s, 1) + extra[s.draw(5)]; }
				for(size_t q = s.draw(3); q; --q)	// numbers, with or without a sign
				{
					double ignored;
					text += blanks(s, 1) + (s.chance(1, 3) ? "+7" : number_text(s, ignored, extreme));
				}
				c.label("trailing columns");
			}
			c.label("radius");
		}
		if(s.chance(1, 5)) { text += blanks(s, 1) + (s.chance(1, 2) ? "\t" : ""); }
		if(s.chance(1, 4)) { text += comments[s.draw(5)]; }
		if(i + 1 != n || !s.chance(1, 4)) { text += eol; }
		else { c.label("no final newline"); n = i + 1; w.push_back(r); break; }
		w.push_back(r);
	}
	if(text.empty() || text.back() == '\n') { noise(); }
	std::string fn = c.workdir + "/table.txt";
	write_file(fn, text);
	const auto& ty = types[s.draw(7)];
	nbody_data d;
	dirty(s, d);
	std::string id = std::string("table of ") + std::to_string(w.size()) + " bodies as " + ty.name;
	PBT_CHECK(d.load_initial(QString::fromStdString(fn), ty.name), id << ": loading failed\n" << text);
	// the factor of a unit system: what a mass of one becomes
	write_file(c.workdir + "/one.txt", "0 0 0 0 0 0 1\n");
	nbody_data one;
	PBT_CHECK(one.load_initial(QString::fromStdString(c.workdir + "/one.txt"), ty.name), "one");
	double f = one.get_mass()[0];
	if(ty.unit == 0) { PBT_CHECK(f == 1, id << ": mass factor " << f); }
	if(ty.unit == 1) { PBT_CHECK(std::fabs(f / 6.6743e-11 - 1) < 5e-4, id << ": mass factor " << f); }
	if(ty.unit == 2)
	{
		nbody_data si;
		PBT_CHECK(si.load_initial(QString::fromStdString(c.workdir + "/one.txt"), "SI"), "one");
		double want = si.get_mass()[0] * 86400.0 * 86400.0 / 149597870700.0 / 149597870700.0 / 149597870700.0;
		PBT_CHECK(std::fabs(f / want - 1) < 1e-13, id << ": mass factor " << f << ", expected " << want);
	}
	check_rows(d, w, f, id, c.workdir);
	check_box(d, w, id);
	if(c.verbose) { c.text << ty.name << ": " << text.substr(0, 300); }
	c.label(std::string("type ") + ty.name);
	if(!w.empty()) { c.nontrivial(); }
}

static void p_zeno(pbt::source& s, pbt::ctx& c)
{
	clean_dir(c.workdir);
	size_t n = s.chance(1, 200) ? 100 + s.draw(1500) : s.size(1, 20);
	std::vector<row> w(n);
	const char* eol = s.chance(1, 4) ? "\r\n" : "\n";
	bool extreme = s.chance(1, 2);
	std::string text = std::to_string(n) + eol + "3" + eol;
	double t;
	text += number_text(s, t, false) + eol;
	for(auto& r : w)
	{
		text += blanks(s, 0) + number_text(s, r.x[6], extreme) + eol;
		r.radius = 0;
	}
	for(int half = 0; half != 2; ++half)
	{
		for(auto& r : w)
		{
			text += blanks(s, 0);
			for(int k = 0; k != 3; ++k) { text += (k ? blanks(s, 1) : "") + number_text(s, r.x[3 * half + k], extreme); }
			text += eol;
		}
	}
	if(s.chance(1, 4)) { text.resize(text.size() - strlen(eol)); c.label("no final newline"); }
	else if(s.chance(1, 3)) { text += std::string("0.5") + eol + "some more" + eol; c.label("further data"); }
	std::string fn = c.workdir + "/zeno.txt";
	write_file(fn, text);
	static const char* const names[] = {"Zeno", "zeno", "ZENO", "zEnO"};
	const char* ty = names[s.draw(3)];
	nbody_data d;
	dirty(s, d);
	std::string id = std::string("Zeno file of ") + std::to_string(n) + " bodies";
	PBT_CHECK(d.load_initial(QString::fromStdString(fn), ty), id << ": loading failed\n" << text);
	check_rows(d, w, 1, id, c.workdir);
	check_box(d, w, id);
	if(c.verbose) { c.text << text.substr(0, 300); }
	c.nontrivial();
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"roundtrip", p_roundtrip, 12000, 300000, 0, 60, false}, {"table", p_table, 20000, 600000, 0, 60, false}, {"zeno", p_zeno, 10000, 300000, 0, 60, false}}).main(argc, argv);
}
