// C16: malformed state files, Zeno files and streams (built with address and undefined behaviour sanitizers)
#include "stream_util.h"

enum verdict { v_reject, v_accept, v_unknown };

static bool plain_ascii(const std::string& t)
{
	for(size_t i = 0; i != t.size(); ++i)
	{
		unsigned char ch = static_cast<unsigned char>(t[i]);
		if(ch >= 0x7f || (ch < 0x20 && ch != '\n' && ch != '\t' && !(ch == '\r' && i + 1 < t.size() && t[i + 1] == '\n'))) { return false; }
	}
	return true;
}

static bool digits(const std::string& t, size_t& i)
{
	size_t b = i;
	while(i < t.size() && t[i] >= '0' && t[i] <= '9') { ++i; }
	return i > b;
}

// is the token a number everybody agrees about
static verdict classify(const std::string& t, double& v)
{
	v = 0;
	if(t.empty()) { return v_reject; }
	for(char ch : t) { if(!strchr("0123456789+-.eE,infatyINFATYxXpP\t ", ch)) { return v_reject; } }
	size_t i = 0;
	if(t[i] == '+' || t[i] == '-') { ++i; }
	if(!digits(t, i)) { return v_unknown; }
	if(i < t.size() && t[i] == '.')
	{
		++i;
		if(!digits(t, i)) { return v_unknown; }
	}
	if(i < t.size() && (t[i] == 'e' || t[i] == 'E'))
	{
		++i;
		if(i < t.size() && (t[i] == '+' || t[i] == '-')) { ++i; }
		if(!digits(t, i)) { return v_unknown; }
	}
	if(i != t.size()) { return v_unknown; }
	v = strtod(t.c_str(), nullptr);
	if(!std::isfinite(v) || std::fabs(v) < 1e-290)
	{
		bool zero = t.find_first_of("123456789") == std::string::npos;
		return zero ? v_accept : v_unknown;
	}
	return v_accept;
}

static verdict classify_uint(const std::string& t, uint64_t& v)
{
	v = 0;
	if(t.empty()) { return v_reject; }
	for(char ch : t) { if(!strchr("0123456789+-, \t", ch)) { return v_reject; } }
	if(t.find_first_not_of("0123456789") != std::string::npos || t.size() > 19) { return v_unknown; }
	v = strtoull(t.c_str(), nullptr, 10);
	return v_accept;
}

static verdict classify_int(const std::string& t, int64_t& v)
{
	uint64_t u = 0;
	if(!t.empty() && t[0] == '-')
	{
		verdict r = classify_uint(t.substr(1), u);
		if(r == v_reject || u > 1000000000000000000ull) { r = v_unknown; }
		v = r == v_accept ? -static_cast<int64_t>(u) : 0;
		return r;
	}
	verdict r = classify_uint(t, u);
	if(u > 1000000000000000000ull) { r = v_unknown; }
	v = static_cast<int64_t>(u);
	return r;
}

static std::vector<std::string> lines_of(const std::string& t, bool& terminated)
{
	std::vector<std::string> o;
	std::string cur;
	for(char ch : t)
	{
		if(ch == '\n')
		{
			if(!cur.empty() && cur.back() == '\r') { cur.pop_back(); }
			o.push_back(cur);
			cur.clear();
		}
		else { cur += ch; }
	}
	terminated = cur.empty();
	if(!cur.empty()) { o.push_back(cur); }
	return o;
}

static std::vector<std::string> split(const std::string& t, char sep, bool skip_empty)
{
	std::vector<std::string> o;
	std::string cur;
	for(char ch : t)
	{
		if(ch == sep) { if(!cur.empty() || !skip_empty) { o.push_back(cur); } cur.clear(); }
		else { cur += ch; }
	}
	if(!cur.empty() || !skip_empty) { o.push_back(cur); }
	return o;
}

static std::string trim(const std::string& t)
{
	size_t a = t.find_first_not_of(" \t"), b = t.find_last_not_of(" \t");
	return a == std::string::npos ? std::string() : t.substr(a, b - a + 1);
}

static const char* const hostile[] = {"abc", "1.2.3", "--1", "1e", "0x10", "nan", "inf", "1e999", "-1", "18446744073709551615", "18446744073709551616",
	"99999999999", "1e-999", "", "1,5", "#", "//", "*", "3", "0", "4", "1e400", "\t", "+", "9223372036854775807", "-9223372036854775808", "100000000", "%s%n", "1;2", "2147483648"};

static std::string mutate(pbt::source& s, std::string t, size_t count)
{
	for(size_t k = 0; k != count; ++k)
	{
		size_t len = t.size();
		size_t p = len ? s.draw(len - 1) : 0;
		switch(s.draw(10))
		{
		case 0: if(len) { t[p] = static_cast<char>(s.draw(255)); } break;
		case 1: if(len) { static const char cs[] = "0123456789 \t\n+-.eE/#x"; t[p] = cs[s.draw(sizeof(cs) - 2)]; } break;
		case 2: if(len) { t.erase(p, 1 + s.draw(20)); } break;
		case 3: t.resize(p); break;
		case 4: t.insert(p, hostile[s.draw(sizeof(hostile) / sizeof(hostile[0]) - 1)]); break;
		case 5:	// replace a token
		case 6:
		case 7:
		{
			if(!len) { break; }
			size_t a = t.find_last_of(" \n\t", p), b = t.find_first_of(" \n\t", p);
			a = a == std::string::npos ? 0 : a + 1;
			b = b == std::string::npos ? len : b;
			if(b >= a) { t.replace(a, b - a, hostile[s.draw(sizeof(hostile) / sizeof(hostile[0]) - 1)]); }
			break;
		}
		case 8:	// drop a line
		{
			size_t a = t.find('\n', p);
			if(a == std::string::npos) { break; }
			size_t b = t.find('\n', a + 1);
			t.erase(a, b == std::string::npos ? std::string::npos : b - a);
			break;
		}
		case 9: if(len) { t.insert(p, t.substr(s.draw(len - 1), 1 + s.draw(200))); } break;
		default: t.insert(p, s.chance(1, 2) ? "\n" : " ");
		}
	}
	return t;
}

static void write_file(const std::string& p, const std::string& t)
{
	std::ofstream f(p, std::ios::binary);
	f << t;
}
static bool read_file(const std::string& p, std::string& t)
{
	std::ifstream f(p, std::ios::binary);
	if(!f) { return false; }
	std::ostringstream o;
	o << f.rdbuf();
	t = o.str();
	return true;
}

static std::string some_number(pbt::source& s)
{
	char b[64];
	snprintf(b, sizeof b, s.chance(1, 2) ? "%.6g" : "%.3e", s.number(100));
	return b;
}

static void use_data(const nbody_data& d)	// touch everything that was loaded
{
	volatile double sum = 0;
	for(size_t i = 0; i != d.get_count(); ++i) { sum = sum + d.get_vertites()[i].x + d.get_velosites()[i].z + d.get_mass()[i] + d.get_color()[i].w; }
}

static void p_table(pbt::source& s, pbt::ctx& c)
{
	std::string t;
	if(s.chance(1, 20)) { for(size_t k = s.draw(300); k; --k) { t += static_cast<char>(s.draw(255)); } }
	for(size_t k = s.size(0, 8); k; --k)
	{
		size_t cols = s.chance(1, 8) ? s.draw(9) : 7 + s.draw(2);
		if(s.chance(1, 25)) { static const char* const lead[] = {"/ ", "# ", "/", "; ", "* ", "x "}; t += lead[s.draw(5)]; }	// not a comment
		for(size_t q = 0; q != cols; ++q) { t += (q ? " " : "") + some_number(s); }
		t += s.chance(1, 6) ? " // c\n" : "\n";
	}
	t = mutate(s, t, s.draw(4));
	clean_dir(c.workdir);
	std::string fn = c.workdir + "/t.txt";
	write_file(fn, t);
	nbody_data d;
	if(s.chance(1, 3)) { for(size_t k = 1 + s.draw(9); k; --k) { d.add_body(nbvertex_t(5, 6, 7), nbvertex_t(8, 9, 1), 3, nbcolor_t(0, 0, 0, 0), 2); } }	// what was there before goes
	static const char* const ty[] = {"G1", "SI", "ADK"};
	bool ok = d.load_initial(QString::fromStdString(fn), ty[s.draw(2)]);
	use_data(d);
	if(c.verbose) { c.text << "table " << (ok ? "accepted" : "rejected") << ": " << t.substr(0, 200); }
	verdict want = v_unknown;
	size_t rows = 0;
	std::vector<double> x;
	if(plain_ascii(t))
	{
		want = v_accept;
		bool term;
		for(auto& l0 : lines_of(t, term))
		{
			std::string l = l0;
			size_t cm = l.find("//");
			if(cm != std::string::npos) { l.resize(cm); }
			l = trim(l);
			if(l.empty()) { continue; }
			auto tok = split(l, ' ', true);
			if(tok.size() < 7) { want = v_reject; break; }
			for(size_t k = 0; k != std::min<size_t>(8, tok.size()); ++k)
			{
				double v;
				verdict q = classify(tok[k], v);
				if(q == v_reject) { want = v_reject; break; }
				if(q == v_unknown && want == v_accept) { want = v_unknown; }
				if(k < 6) { x.push_back(v); }
			}
			if(want == v_reject) { break; }
			++rows;
		}
	}
	// an earlier unclear token does not make a later broken line acceptable
	if(want == v_reject) { PBT_CHECK(!ok, "a table with a missing or non-numeric column was accepted:\n" << t); c.label("must be rejected"); }
	if(want == v_accept)
	{
		PBT_CHECK(ok, "a well-formed table was rejected:\n" << t);
		PBT_CHECK(d.get_count() == rows, "table with " << rows << " rows gave " << d.get_count() << " bodies:\n" << t);
		for(size_t i = 0; i != rows; ++i)
		{
			const nbvertex_t& r = d.get_vertites()[i];
			const nbvertex_t& v = d.get_velosites()[i];
			double g[6] = {r.x, r.y, r.z, v.x, v.y, v.z};
			for(int k = 0; k != 6; ++k) { PBT_CHECK(g[k] == x[6 * i + k], "row " << i << " column " << k << " is " << g[k] << ", the file says " << x[6 * i + k] << "\n" << t); }
		}
		c.label("must be accepted");
	}
	if(want != v_unknown) { c.nontrivial(); }
	c.label(ok ? "accepted" : "rejected");
}

static void p_zeno(pbt::source& s, pbt::ctx& c)
{
	size_t n = s.size(1, 8);
	std::string t = std::to_string(n) + "\n3\n0.5\n";
	for(size_t k = 0; k != n; ++k) { t += some_number(s) + "\n"; }
	for(size_t k = 0; k != 2 * n; ++k) { t += some_number(s) + " " + some_number(s) + " " + some_number(s) + "\n"; }
	t = mutate(s, t, s.draw(4));
	clean_dir(c.workdir);
	std::string fn = c.workdir + "/t.txt";
	write_file(fn, t);
	nbody_data d;
	if(s.chance(1, 3)) { for(size_t k = 1 + s.draw(9); k; --k) { d.add_body(nbvertex_t(5, 6, 7), nbvertex_t(8, 9, 1), 3, nbcolor_t(0, 0, 0, 0), 2); } }	// what was there before goes
	bool ok = d.load_initial(QString::fromStdString(fn), "Zeno");
	use_data(d);
	if(c.verbose) { c.text << "zeno " << (ok ? "accepted" : "rejected") << ": " << t.substr(0, 200); }
	verdict want = v_unknown;
	std::vector<double> x;
	uint64_t cnt = 0;
	if(plain_ascii(t))
	{
		bool term;
		auto l = lines_of(t, term);
		uint64_t dim = 0;
		verdict a = l.empty() ? v_reject : classify_uint(l[0], cnt), b = l.size() < 2 ? v_reject : classify_uint(l[1], dim);
		if(b == v_accept && dim != 3) { b = v_reject; }
		if(l.size() < 3) { b = v_reject; }
		if(a == v_reject || b == v_reject) { want = v_reject; }
		else if(a == v_accept)
		{
			want = b == v_accept && !l[2].empty() ? v_accept : v_unknown;
			if(cnt > 1000 || l.size() < 3 + 3 * cnt) { want = v_reject; }
			else
			{
				for(size_t k = 0; k != 3 * cnt && want != v_reject; ++k)
				{
					const std::string& q = l[3 + k];
					auto tok = split(q, ' ', true);
					if(tok.size() != (k < cnt ? 1u : 3u)) { want = v_reject; break; }
					for(auto& w : tok)
					{
						double v;
						verdict r = classify(w, v);
						if(r == v_reject) { want = v_reject; }
						if(r == v_unknown && want == v_accept) { want = v_unknown; }
						x.push_back(v);
					}
				}
			}
		}
	}
	if(want == v_reject) { PBT_CHECK(!ok, "a broken Zeno file was accepted:\n" << t); c.label("must be rejected"); }
	if(want == v_accept)
	{
		PBT_CHECK(ok, "a well-formed Zeno file was rejected:\n" << t);
		PBT_CHECK(d.get_count() == cnt, "Zeno file with " << cnt << " bodies gave " << d.get_count());
		for(size_t i = 0; i != cnt; ++i)
		{
			const nbvertex_t& r = d.get_vertites()[i];
			const nbvertex_t& v = d.get_velosites()[i];
			double g[7] = {d.get_mass()[i], r.x, r.y, r.z, v.x, v.y, v.z};
			for(int k = 0; k != 7; ++k)
			{
				double e = k == 0 ? x[i] : k < 4 ? x[cnt + 3 * i + (k - 1)] : x[cnt * 4 + 3 * i + (k - 4)];
				PBT_CHECK(g[k] == e, "body " << i << " value " << k << " is " << g[k] << ", the file says " << e << "\n" << t);
			}
		}
		c.label("must be accepted");
	}
	if(want != v_unknown) { c.nontrivial(); }
	c.label(ok ? "accepted" : "rejected");
}

static void p_stream(pbt::source& s, pbt::ctx& c)
{
	std::string dir = c.workdir + "/f";
	clean_dir(dir);
	std::string base = dir + "/st";
	QString name = QString::fromStdString(base);
	size_t n = s.size(1, 6), nf = 1 + s.draw(5);
	std::string log;
	{
		nbody_data_stream w;
		PBT_CHECK(0 == w.open(name, s.chance(1, 2) ? (1 << 30) : static_cast<qint64>(48 * n * (1 + s.draw(1)))), "open");
		std::vector<double> mass(n, 2.5);
		std::vector<float> color(4 * n, 0.5f);
		for(size_t k = 0; k != nf; ++k)
		{
			mframe f;
			f.t = 0.25 * static_cast<double>(k);
			f.step = k;
			for(size_t i = 0; i != 3 * n; ++i) { f.r.push_back(static_cast<double>(100 * k + i)); f.v.push_back(-static_cast<double>(100 * k + i) - 0.5); }
			nbody_data d;
			fill_data(d, n, 7, mass, color, f);
			PBT_CHECK(0 == w.write(&d), "write");
		}
	}
	// the reader may have read the stream before it was damaged
	nbody_data_stream_reader r;
	bool used = s.chance(1, 3);
	if(used)
	{
		PBT_CHECK(0 == r.load(name), "the stream as written was rejected");
		nbody_data d;
		d.resize(n);
		for(size_t k = s.draw(nf); k; --k) { PBT_CHECK(0 == r.read(&d), "a frame as written cannot be read"); }
		if(s.chance(1, 3)) { r.close(); }
		log += "read before; ";
	}
	// damage
	size_t hits = s.draw(3);
	for(size_t h = 0; h != hits; ++h)
	{
		std::string fn = base;
		switch(s.draw(7))
		{
		case 0: case 1: case 2: case 3: fn += ".idx"; break;
		case 4: fn += ".mass"; break;
		case 5: fn += ".col"; break;
		default: fn += std::to_string(s.draw(2)) + ".dat";
		}
		std::string t;
		bool idx = fn.find(".idx") != std::string::npos;
		if(s.chance(1, 10)) { unlink(fn.c_str()); log += "delete " + fn.substr(dir.size()) + "; "; continue; }
		if(!read_file(fn, t)) { continue; }
		if(idx)
		{
			if(s.chance(1, 4))
			{
				static const char* const keys[] = {"#coord_size ", "#body_count ", "#box_size "};
				std::string key = keys[s.draw(2)];
				size_t p = t.find(key);
				if(p != std::string::npos)
				{
					size_t e = t.find('\n', p);
					t.replace(p + key.size(), e - p - key.size(), s.chance(1, 2) ? std::to_string(s.draw(9)) : hostile[s.draw(sizeof(hostile) / sizeof(hostile[0]) - 1)]);
				}
			}
			else { t = mutate(s, t, 1 + s.draw(2)); }
		}
		else
		{
			switch(s.draw(3))
			{
			case 0: t.resize(s.draw(t.size())); break;
			case 1: t += std::string(s.draw(60), 'x'); break;
			case 2: t.clear(); break;
			default: if(!t.empty()) { t[s.draw(t.size() - 1)] = static_cast<char>(s.draw(255)); }
			}
		}
		write_file(fn, t);
		log += "change " + fn.substr(dir.size()) + "; ";
	}
	std::string idx;
	bool have = read_file(base + ".idx", idx);
	// reference reading of the index
	struct item { uint64_t step, part; int64_t pos; double t; };
	std::vector<item> it;
	verdict want = have ? (plain_ascii(idx) ? v_accept : v_unknown) : v_reject;
	uint64_t hb = 0, hc = 0, hx = 0;
	std::string dat, mass, col;
	bool has_mass = read_file(base + ".mass", mass), has_col = read_file(base + ".col", col);
	if(have && want == v_accept)
	{
		bool term;
		auto l = lines_of(idx, term);
		if(!idx.empty() && idx.back() != '\n') { l.pop_back(); }
		for(auto& q : l)
		{
			if(!q.empty() && q[0] == '#')
			{
				auto tok = split(q, ' ', false);
				uint64_t v = 0;
				bool known = !tok.empty() && (tok[0] == "#coord_size" || tok[0] == "#body_count" || tok[0] == "#box_size");
				if(tok.size() == 2 && known)
				{
					verdict r = classify_uint(tok[1], v);
					if(r == v_unknown && want == v_accept) { want = v_unknown; }
					if(r == v_accept) { (tok[0] == "#coord_size" ? hc : tok[0] == "#body_count" ? hb : hx) = v; }
				}
				continue;
			}
			auto tok = split(q, '\t', false);
			if(tok.size() != 4) { want = v_reject; break; }
			item e;
			verdict r[4] = {classify_uint(tok[0], e.step), classify(tok[1], e.t), classify_uint(tok[2], e.part), classify_int(tok[3], e.pos)};
			for(verdict k : r)
			{
				if(k == v_reject) { want = v_reject; }
				if(k == v_unknown && want == v_accept) { want = v_unknown; }
			}
			if(want == v_reject) { break; }
			it.push_back(e);
		}
		if(want == v_accept && (hb == 0 || hc != 8 || hx == 0 || it.empty())) { want = v_reject; }
	}
	auto in_file = [&](const item & e, std::string & data)
	{
		std::string q;
		if(!read_file(base + std::to_string(e.part) + ".dat", q)) { return false; }
		if(e.pos < 0 || hb > 1000000 || static_cast<uint64_t>(e.pos) + hb * 48 > q.size()) { return false; }
		data = q.substr(static_cast<size_t>(e.pos), hb * 48);
		return true;
	};
	if(want == v_accept && !in_file(it[0], dat)) { want = v_reject; }
	int rc = r.load(name);
	if(c.verbose) { c.text << "n=" << n << " frames " << nf << ": " << log << (rc == 0 ? "loaded" : "rejected"); }
	if(want == v_reject) { PBT_CHECK(rc != 0, log << "a broken stream was loaded; index:\n" << idx); c.label("must be rejected"); }
	if(want == v_accept) { PBT_CHECK(rc == 0, log << "a sound stream was rejected; index:\n" << idx); c.label("must be accepted"); }
	if(rc == 0)
	{
		size_t cnt = r.get_body_count();
		PBT_CHECK(cnt * 48 <= 1000000, log << "a stream of less than 1000000 bytes claims " << cnt << " bodies");
		nbody_data d, other;
		d.resize(cnt);
		other.resize(cnt + 1);
		PBT_CHECK(0 != r.read(&other), log << "read into a destination of another size");
		size_t frames = r.get_frame_count();
		if(want == v_accept) { PBT_CHECK(frames == it.size(), log << frames << " frames, the index holds " << it.size()); }
		size_t reads = 2 + s.draw(2 * frames);
		for(size_t k = 0; k != reads; ++k)
		{
			size_t f = k < frames ? k : s.draw(frames);
			int sk = r.seek(f);
			int rr = sk == 0 ? r.read(&d) : -1;
			use_data(d);
			if(want != v_accept) { continue; }
			bool can = f < it.size() && in_file(it[f], dat) && has_mass && has_col && mass.size() >= 8 * hb && col.size() >= 16 * hb;
			PBT_CHECK((rr == 0) == can, log << "frame " << f << (can ? " is there but cannot be read" : " is not completely there but was read") << "; index:\n" << idx);
			if(rr == 0)
			{
				PBT_CHECK(0 == memcmp(d.get_vertites(), dat.data(), 24 * hb) && 0 == memcmp(d.get_velosites(), dat.data() + 24 * hb, 24 * hb), log << "frame " << f << " gave values the file does not contain");
				PBT_CHECK(0 == memcmp(d.get_mass(), mass.data(), 8 * hb) && 0 == memcmp(d.get_color(), col.data(), 16 * hb), log << "masses or colours the file does not contain");
				PBT_CHECK(d.get_step() == it[f].step && d.get_time() == it[f].t, log << "frame " << f << " has step " << d.get_step() << " time " << d.get_time() << ", index " << it[f].step << " " << it[f].t);
			}
			if(!can) { c.label("incomplete frame"); }
		}
	}
	else
	{
		nbody_data d;
		d.resize(n);
		PBT_CHECK(0 != r.read(&d), log << "read after a failed load succeeded");
	}
	c.label(rc == 0 ? "loaded" : "rejected");
	if(used) { c.label("reader used before"); }
	if(want != v_unknown && hits) { c.nontrivial(); }
	clean_dir(dir);
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"table", p_table, 90000, 1500000, 0, 20, false}, {"zeno", p_zeno, 90000, 1500000, 0, 20, false}, {"stream", p_stream, 80000, 1000000, 0, 20, false}}).main(argc, argv);
}
