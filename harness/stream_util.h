// Frames and stream helpers shared by the stream harnesses
#ifndef VERIF_STREAM_UTIL_H
#define VERIF_STREAM_UTIL_H
#include "common.h"
#include <QDir>
#include <QFileInfo>
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"

struct mframe
{
	double				t;
	size_t				step;
	std::vector<double>	r, v;	// 3 per body
};

inline void clean_dir(const std::string& p)
{
	if(p.size() < 6) { abort(); }
	QDir d(QString::fromStdString(p));
	d.removeRecursively();
	QDir().mkpath(QString::fromStdString(p));
}

inline double any_bits(pbt::source& s)
{
	if(s.chance(1, 40))
	{
		static const double odd[] = {NAN, INFINITY, -INFINITY, -0.0};
		return odd[s.draw(3)];
	}
	return s.any_finite();
}

inline double any_time(pbt::source& s)
{
	double t;
	switch(s.draw(4))
	{
	case 0: t = static_cast<double>(s.draw(1000)); break;
	case 1: t = static_cast<double>(s.draw(100000)) * 0.01; break;
	case 2: t = s.positive(1e-9, 1e9); break;
	case 3: t = s.number(100); break;
	default: t = s.any_finite();
	}
	if(t != 0 && !(std::fabs(t) > 1e-300 && std::fabs(t) < 1e300)) { t = 1e-3; }
	return t;
}

inline bool same_time(double a, double b)
{
	return std::fabs(a - b) <= 1e-15 * std::fabs(b);
}

inline mframe gen_frame(pbt::source& s, size_t n)
{
	mframe f;
	f.t = any_time(s);
	f.step = s.chance(1, 8) ? static_cast<size_t>(s.draw(UINT64_MAX)) : static_cast<size_t>(s.draw(1000));
	uint64_t kind = s.draw(2);
	f.r.resize(3 * n);
	f.v.resize(3 * n);
	if(n > 200)
	{
		// many bodies: values from one drawn base
		double base = s.number(100), inc = s.unit();
		for(size_t i = 0; i != 3 * n; ++i) { f.r[i] = base + inc * static_cast<double>(i); f.v[i] = inc - base * static_cast<double>(i) / 7; }
		return f;
	}
	for(auto& x : f.r) { x = kind ? any_bits(s) : s.number(100); }
	for(auto& x : f.v) { x = kind ? any_bits(s) : s.number(1); }
	return f;
}

inline void fill_data(nbody_data& d, size_t n, size_t box, const std::vector<double>& mass, const std::vector<float>& color, const mframe& f)
{
	d.clear();
	for(size_t i = 0; i != n; ++i)
	{
		d.add_body(nbvertex_t(f.r[3 * i], f.r[3 * i + 1], f.r[3 * i + 2]), nbvertex_t(f.v[3 * i], f.v[3 * i + 1], f.v[3 * i + 2]), mass[i],
				   nbcolor_t(color[4 * i], color[4 * i + 1], color[4 * i + 2], color[4 * i + 3]));
	}
	d.set_time(f.t);
	d.set_step(f.step);
	d.set_box_size(box);
}

// empty when equal
inline std::string diff_frame(const nbody_data& d, size_t n, size_t box, const std::vector<double>& mass, const std::vector<float>& color, const mframe& f)
{
	std::ostringstream o;
	o.precision(17);
	if(d.get_count() != n) { o << "body count " << d.get_count(); return o.str(); }
	auto differs = [](double a, double b) { return memcmp(&a, &b, sizeof a) != 0; };
	for(size_t i = 0; i != n; ++i)
	{
		const nbvertex_t& r = d.get_vertites()[i];
		const nbvertex_t& v = d.get_velosites()[i];
		const nbcolor_t& c = d.get_color()[i];
		if(differs(r.x, f.r[3 * i]) || differs(r.y, f.r[3 * i + 1]) || differs(r.z, f.r[3 * i + 2]))
		{
			o << "position of body " << i << " is " << r.x << "," << r.y << "," << r.z << ", written " << f.r[3 * i] << "," << f.r[3 * i + 1] << "," << f.r[3 * i + 2];
			return o.str();
		}
		if(differs(v.x, f.v[3 * i]) || differs(v.y, f.v[3 * i + 1]) || differs(v.z, f.v[3 * i + 2]))
		{
			o << "velocity of body " << i << " is " << v.x << "," << v.y << "," << v.z << ", written " << f.v[3 * i] << "," << f.v[3 * i + 1] << "," << f.v[3 * i + 2];
			return o.str();
		}
		if(differs(d.get_mass()[i], mass[i])) { o << "mass of body " << i << " is " << d.get_mass()[i] << ", written " << mass[i]; return o.str(); }
		if(!color.empty() && (c.x != color[4 * i] || c.y != color[4 * i + 1] || c.z != color[4 * i + 2] || c.w != color[4 * i + 3]))
		{
			o << "colour of body " << i << " is " << c.x << "," << c.y << "," << c.z << "," << c.w;
			return o.str();
		}
	}
	if(d.get_step() != f.step) { o << "step " << d.get_step() << ", written " << f.step; return o.str(); }
	if(!same_time(d.get_time(), f.t)) { o << "time " << d.get_time() << ", written " << f.t; return o.str(); }
	if(d.get_box_size() != box) { o << "box " << d.get_box_size() << ", written " << box; return o.str(); }
	return std::string();
}
#endif
