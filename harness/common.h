// Helpers shared by the harnesses of the simulation library.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H

#include "pbt.h"
#include <QtCore/QtCore>
#include <QVariantMap>
#include <omp.h>
#include <memory>
#include "nbody_engines.h"
#include "nbody_solvers.h"
#ifdef HAVE_CUDA
#include "cuda_runtime.h"
#endif

typedef long double ld;

inline void quiet_qt()
{
	qInstallMessageHandler([](QtMsgType, const QMessageLogContext&, const QString&) {});
}

// running under the OpenCL simulator
inline bool ocl()
{
	return getenv("VERIF_OCL") != nullptr;
}

// running with the CUDA engines in the execution model of harness/cuda
inline bool cuda()
{
	return getenv("VERIF_CUDA") != nullptr;
}

struct v3
{
	double x, y, z;
};

struct bodies
{
	std::vector<v3>		r, v;
	std::vector<double>	m;
	size_t n() const
	{
		return m.size();
	}
	// engine layout: rx ry rz vx vy vz
	std::vector<double> y() const
	{
		size_t c = n();
		std::vector<double> o(6 * c);
		for(size_t i = 0; i != c; ++i)
		{
			o[i] = r[i].x;
			o[c + i] = r[i].y;
			o[2 * c + i] = r[i].z;
			o[3 * c + i] = v[i].x;
			o[4 * c + i] = v[i].y;
			o[5 * c + i] = v[i].z;
		}
		return o;
	}
	void fill(nbody_data& d) const
	{
		for(size_t i = 0; i != n(); ++i)
		{
			d.add_body(nbvertex_t(r[i].x, r[i].y, r[i].z), nbvertex_t(v[i].x, v[i].y, v[i].z), m[i], nbcolor_t(1, 1, 1, 1));
		}
	}
	std::string str(size_t lim = 5) const
	{
		std::ostringstream o;
		o.precision(9);
		o << "n=" << n() << " {";
		for(size_t i = 0; i != std::min(n(), lim); ++i)
		{
			o << "[r " << r[i].x << "," << r[i].y << "," << r[i].z << " v " << v[i].x << "," << v[i].y << "," << v[i].z << " m " << m[i] << "]";
		}
		if(n() > lim) { o << "..."; }
		o << "}";
		return o.str();
	}
};

// Positions of many kinds: uniform, clustered, collinear, planar, lattice, coincident.
// min_sep: distances are either exactly zero or not below about min_sep when coincide is set;
inline bodies gen_bodies(pbt::source& s, pbt::ctx& c, size_t n, double scale = 10, bool coincide = true, double mass_lo = 1e-2, double mass_hi = 1e2)
{
	bodies b;
	b.r.resize(n);
	b.v.resize(n);
	b.m.resize(n);
	static const char* const names[] = {"uniform", "clusters", "collinear", "planar", "lattice", "shells", "far-offset", "two-groups"};
	uint64_t kind = s.draw(7);
	c.label(std::string("geometry ") + names[kind]);
	v3 dir{s.number(1), s.number(1), s.number(1)};
	if(dir.x == 0 && dir.y == 0 && dir.z == 0) { dir.x = 1; }
	double off = kind == 6 ? scale * 100 : 0;
	uint64_t dense = n > 64 ? 1 : 0;	// many bodies: cheaper draws
	auto coord = [&](double sc) { return dense ? sc * (2 * s.unit() - 1) : s.number(sc); };
	v3 centers[4];
	for(auto& q : centers) { q = v3{s.number(scale), s.number(scale), s.number(scale)}; }
	for(size_t i = 0; i != n; ++i)
	{
		v3 p;
		switch(kind)
		{
		case 1:
		{
			const v3& q = centers[s.draw(3)];
			double w = scale * 0.02;
			p = v3{q.x + coord(w), q.y + coord(w), q.z + coord(w)};
			break;
		}
		case 2:
		{
			double t = coord(scale);
			p = v3{dir.x * t, dir.y * t, dir.z * t};
			break;
		}
		case 3:
			p = v3{coord(scale), dir.y, coord(scale)};
			break;
		case 4:
			p = v3{static_cast<double>(s.range(-4, 4)), static_cast<double>(s.range(-4, 4)), static_cast<double>(s.range(-2, 2))};
			break;
		case 5:
		{
			double a = 6.283185307179586 * s.unit(), h = 2 * s.unit() - 1, rr = scale * static_cast<double>(1 + s.draw(2)), q = std::sqrt(1 - h * h);
			p = v3{rr * q * std::cos(a), rr * q * std::sin(a), rr * h};
			break;
		}
		case 7:
		{
			double w = scale * 0.3;
			double sg = (i & 1) ? scale * 2 : -scale * 2;
			p = v3{sg * dir.x + coord(w), sg * dir.y + coord(w), sg * dir.z + coord(w)};
			break;
		}
		default:
			p = v3{coord(scale) + off, coord(scale) - off, coord(scale) + off};
		}
		b.r[i] = p;
	}
	bool vel = !s.chance(1, 4);
	for(size_t i = 0; i != n; ++i)
	{
		b.v[i] = vel ? v3{coord(1), coord(1), coord(1)} : v3{0, 0, 0};
	}
	uint64_t mk = s.draw(5);
	for(size_t i = 0; i != n; ++i)
	{
		switch(mk)
		{
		case 0: b.m[i] = 1; break;
		case 1: b.m[i] = s.positive(mass_lo, mass_hi); break;
		case 2: b.m[i] = (i == 0) ? mass_hi : mass_lo * (1 + s.unit()); break;
		case 3: b.m[i] = static_cast<double>(1 + s.draw(4)); break;
		case 4: b.m[i] = s.positive(mass_hi * 1e-12, mass_hi); break;	// many decades
		default: b.m[i] = (i % 4 == 0) ? mass_hi * 0.25 * (1 + s.unit()) : mass_hi * 1e-9 * (1 + s.unit()); break;	// test particles
		}
	}
	if(coincide && n > 1 && s.chance(1, 3))
	{
		size_t k = s.size(1, std::min<size_t>(n, 8));
		size_t src = s.draw(n - 1);
		c.label("coincident");
		for(size_t i = 0; i != k; ++i) { b.r[s.draw(n - 1)] = b.r[src]; }
	}
	return b;
}

inline double min_dist(const bodies& b)	// smallest non-zero distance
{
	double best = 1e300;
	for(size_t i = 0; i != b.n(); ++i)
	{
		for(size_t j = 0; j != i; ++j)
		{
			double dx = b.r[i].x - b.r[j].x, dy = b.r[i].y - b.r[j].y, dz = b.r[i].z - b.r[j].z;
			double d = std::sqrt(dx * dx + dy * dy + dz * dz);
			if(d > 0) { best = std::min(best, d); }
		}
	}
	return best;
}

struct accel
{
	std::vector<ld>	ax, ay, az;	// exact acceleration
	std::vector<ld>	cond;		// sum_j |contribution|
	std::vector<ld> s2;			// sum_j m_j/max(d,1e-4)^2
	std::vector<ld> rnd;		// rounding-sensitivity of the contributions
};

// bodies the reference is computed for: all, or every eighth and both ends of a large set
inline bool judged(size_t i, size_t n)
{
	return n <= 1500 || i < 48 || i + 48 >= n || i % 8 == n % 8;
}

// Independent reference: a_i = sum_j m_j (r_j-r_i)/max(d^2,1e-8)^1.5
inline accel reference_accel(const std::vector<double>& y, const std::vector<double>& m)
{
	size_t n = m.size();
	accel a;
	a.ax.assign(n, 0);
	a.ay.assign(n, 0);
	a.az.assign(n, 0);
	a.cond.assign(n, 0);
	a.s2.assign(n, 0);
	a.rnd.assign(n, 0);
	for(size_t i = 0; i != n; ++i)
	{
		if(!judged(i, n)) { continue; }
		for(size_t j = 0; j != n; ++j)
		{
			if(i == j) { continue; }
			ld dx = static_cast<ld>(y[j]) - y[i], dy = static_cast<ld>(y[n + j]) - y[n + i], dz = static_cast<ld>(y[2 * n + j]) - y[2 * n + i];
			ld d2 = dx * dx + dy * dy + dz * dz;
			ld q = d2 < 1e-8L ? 1e-8L : d2;
			ld k = m[j] / (q * sqrtl(q));
			a.ax[i] += k * dx;
			a.ay[i] += k * dy;
			a.az[i] += k * dz;
			a.cond[i] += k * sqrtl(d2);
			a.s2[i] += m[j] / q;
		}
	}
	return a;
}

inline QVariantMap params(const std::map<std::string, std::string>& p)
{
	QVariantMap m;
	for(auto& k : p) { m[QString::fromStdString(k.first)] = QString::fromStdString(k.second); }
	return m;
}

inline std::string num(double v)
{
	char b[64];
	snprintf(b, sizeof b, "%.17g", v);
	return b;
}

inline std::vector<double> read_y(nbody_engine* e, const nbody_engine::memory* mem, size_t count)
{
	std::vector<double> o(std::max(count, mem->size() / sizeof(double)));
	e->read_buffer(o.data(), mem);
	o.resize(count);
	return o;
}

// OpenCL: several (equal) devices, in one or several contexts, that share n bodies in blocks of bs
inline std::string gen_devices(pbt::source& s, pbt::ctx& c, size_t n, size_t bs)
{
	std::vector<size_t> counts{1};
	while(counts.back() < 16 && n % (2 * counts.back() * bs) == 0) { counts.push_back(2 * counts.back()); }
	size_t k = counts.size() - 1;
	k = s.chance(1, 3) ? k : s.draw(k);
	size_t dev = counts[k];
	// contexts of 1, 2, ... devices each
	size_t per = static_cast<size_t>(1) << (s.chance(1, 2) ? k : s.draw(k));
	std::string d;
	for(size_t q = 0; q != dev; ++q) { d += q == 0 ? "0:0" : q % per == 0 ? ";0:0" : ",0"; }
	c.label("devices " + d);
	return d;
}

// CUDA: devices, block size and body count that fit together; a fresh model of the devices
inline size_t gen_cuda(pbt::source& s, pbt::ctx& c, std::map<std::string, std::string>& p)
{
	size_t dev = static_cast<size_t>(1) << (s.chance(1, 2) ? 0 : s.chance(1, 6) ? 3 : 1 + s.draw(1));
	size_t n = 64 * dev * (dev >= 4 ? 1 : 1 + s.draw(dev == 1 ? 3 : 1));
	std::vector<size_t> bs;
	for(size_t k = 1; k <= 512; k *= 2) { if(n / dev % k == 0) { bs.push_back(k); } }
	if(n / dev % 3 == 0) { bs.push_back(96); bs.push_back(24); }
	std::vector<int> ids{0, 1, 2, 3, 4, 5, 6, 7};
	bool shuffle = s.chance(1, 2), same = false;
	std::string list;
	for(size_t k = 0; k != dev; ++k)
	{
		if(shuffle) { std::swap(ids[k], ids[k + s.draw(7 - k)]); }
		list += (k ? "," : "") + std::to_string(ids[k]);
	}
	if(dev > 1 && s.chance(1, 8)) { list = dev == 2 ? "1,1" : dev == 4 ? "0,0,3,3" : list; same = true; }
	if(list != "0" || s.chance(1, 2)) { p["device"] = list; }
	if(s.chance(3, 4)) { p["block_size"] = std::to_string(bs[s.draw(bs.size() - 1)]); }
	if(!same && s.chance(1, 3)) { p["use_nccl"] = "1"; c.label("nccl"); }
	c.label("cuda devices " + std::to_string(dev));
	uint64_t seed = s.draw(1000);
	int lazy = static_cast<int>(s.draw(2));
#ifdef HAVE_CUDA
	cuemu::reset(seed, lazy);
#endif
	return n;
}

// put a state in a buffer: by writing it, or as the result of a vector operation (each device then holds its own part only)
inline void load_state(nbody_engine* e, nbody_engine::memory* mem, std::vector<double>& y, bool computed)
{
	if(!computed)
	{
		e->write_buffer(mem, y.data());
		return;
	}
	nbody_engine::memory* tmp = e->create_buffer(mem->size());
	std::vector<double> half(y);
	for(auto& v : half) { v /= 2; }
	e->write_buffer(tmp, half.data());
	e->fmadd(mem, tmp, tmp, 1);
	e->free_buffer(tmp);
	y = read_y(e, mem, y.size());
}

inline bool same_bits(const std::vector<double>& a, const std::vector<double>& b)
{
	return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}

#endif
