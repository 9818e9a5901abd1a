// C29: the player's view: pictures of a state, drawn by the real OpenGL code on a software renderer
#include "common.h"
#include <dlfcn.h>
#include "gl.h"
#include <QImage>
#include <QMouseEvent>
#include <QPropertyAnimation>
#include <QAction>
#include <QBuffer>
#include <QDoubleSpinBox>
#include <QFileDialog>
#include <QLayout>
#include <QPainter>
#include <QSlider>
#include <QTimer>
#include <QSpinBox>
#include <opencv2/core.hpp>
#include <opencv2/videoio.hpp>
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"
#include "nbody_frame_compressor_opencv.h"
#include "wgt_nbody_player.h"
#include "wgt_nbody_player_control.h"
#include "wgt_nbody_view.h"

struct cam
{
	v3	eye, up;
	int	x, y, w, h;	// viewport, origin at the lower left
};

struct spot
{
	double	x = -1e9, y = -1e9;	// picture coordinates, origin at the upper left
	double	c[3];
	int		view;
	int		id;
};

static v3 sub(const v3& a, const v3& b) { return v3{a.x - b.x, a.y - b.y, a.z - b.z}; }
static v3 cross(const v3& a, const v3& b) { return v3{a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double dot(const v3& a, const v3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static double len(const v3& a) { return std::sqrt(dot(a, a)); }
static v3 mul(const v3& a, double k) { return v3{a.x * k, a.y * k, a.z * k}; }

struct box_t
{
	v3 lo, hi;
};

static box_t box_of(const std::vector<v3>& p)
{
	box_t b{p[0], p[0]};
	for(auto& q : p)
	{
		b.lo = v3{std::min(b.lo.x, q.x), std::min(b.lo.y, q.y), std::min(b.lo.z, q.z)};
		b.hi = v3{std::max(b.hi.x, q.x), std::max(b.hi.y, q.y), std::max(b.hi.z, q.z)};
	}
	return b;
}

struct scene
{
	std::vector<v3>	r, v;
	std::vector<std::array<double, 3>> col;
	box_t	box;		// of the first frame shown, with margins
	double	vspread;
	QPointF	split;
	double	scale, size;
	int		stereo, intensity;
	bool	from_speed, show_box;
	int		W, H;
};

// speed relative to the spread: blue, green, yellow, red at equal distances
static std::array<double, 3> speed_color(double x)
{
	static const double lut[4][3] = {{0.3, 0.3, 1}, {0, 1, 0}, {1, 1, 0}, {1, 0, 0}};
	if(!(x > 0)) { x = 0; }
	if(x > 1) { x = 1; }
	int i = std::min(2, static_cast<int>(x * 3));
	double w = x * 3 - i;
	std::array<double, 3> o;
	for(int k = 0; k != 3; ++k) { o[static_cast<size_t>(k)] = lut[i][k] * (1 - w) + lut[i + 1][k] * w; }
	return o;
}

static std::vector<cam> cameras(const scene& q)
{
	v3 c = mul(v3{q.box.lo.x + q.box.hi.x, q.box.lo.y + q.box.hi.y, q.box.lo.z + q.box.hi.z}, 0.5);
	double d = len(sub(q.box.hi, q.box.lo)) * q.scale;
	int x = static_cast<int>(q.W * q.split.x()), y = static_cast<int>(q.H * q.split.y());
	return
	{
		{sub(c, v3{0, d, d}), v3{0, 0, 1}, x, y, q.W - x, q.H - y},
		{sub(c, v3{0, 0, d}), v3{0, 1, 0}, 0, 0, x, y},
		{v3{c.x + d, c.y, c.z}, v3{0, 1, 0}, x, 0, q.W - x, y},
		{sub(c, v3{0, d, 0}), v3{0, 0, -1}, 0, y, x, q.H - y},
	};
}

// 0: not visible, 1: visible, 2: too close to a clipping plane to tell
static int project(const scene& q, const cam& k, const v3& eye, const v3& p, double& px, double& py)
{
	v3 c = mul(v3{q.box.lo.x + q.box.hi.x, q.box.lo.y + q.box.hi.y, q.box.lo.z + q.box.hi.z}, 0.5);
	v3 f = sub(c, eye);
	double fl = len(f);
	if(!(fl > 0)) { return 2; }
	f = mul(f, 1 / fl);
	v3 s = cross(f, k.up);
	s = mul(s, 1 / len(s));
	v3 u = cross(s, f);
	v3 r = sub(p, eye);
	double z = dot(f, r);
	if(z < 1 - 0.01 || z > 1000 + 1) { return 0; }
	double t = std::tan(3.14159265358979323846 / 6);
	double nx = dot(s, r) / (z * t) * k.h / k.w, ny = dot(u, r) / (z * t);
	px = k.x + (nx + 1) * 0.5 * k.w;
	py = q.H - (k.y + (ny + 1) * 0.5 * k.h);
	double ex = 2.0 / k.w, ey = 2.0 / k.h;
	if(std::fabs(nx) > 1 + ex || std::fabs(ny) > 1 + ey) { return 0; }
	if(std::fabs(nx) > 1 - ex || std::fabs(ny) > 1 - ey) { return 2; }
	if(z < 1 + 0.01 || z > 1000 - 1) { return 2; }
	return 1;
}

struct picture
{
	int W, H;
	std::vector<uint32_t> px;
	explicit picture(const QImage& i) : W(i.width()), H(i.height()), px(static_cast<size_t>(i.width()) * static_cast<size_t>(i.height()))
	{
		PBT_CHECK(i.depth() == 32, "a picture of depth " << i.depth());
		for(int y = 0; y != H; ++y) { memcpy(&px[static_cast<size_t>(y) * static_cast<size_t>(W)], i.constScanLine(y), static_cast<size_t>(W) * 4); }
	}
	uint32_t at(int x, int y) const
	{
		return px[static_cast<size_t>(y) * static_cast<size_t>(W) + static_cast<size_t>(x)];
	}
};

static double chan(uint32_t p, int k)
{
	return ((p >> (16 - 8 * k)) & 255) / 255.0;
}

static void judge(const scene& q, const picture& img, pbt::ctx& c, size_t& checked, const std::string& what = "")
{
	PBT_CHECK(img.W == q.W && img.H == q.H, "the picture is " << img.W << "x" << img.H << " instead of " << q.W << "x" << q.H);
	auto cams = cameras(q);
	double factor = q.intensity / 255.0, rad = q.size / 2;
	std::vector<spot> spots, unsure;
	std::vector<spot> edge;
	std::vector<uint16_t> owner(static_cast<size_t>(q.W) * static_cast<size_t>(q.H), 0);	// the edges that may touch a pixel
	auto edges_near = [&](double x, double y, double r)
	{
		unsigned o = 0;
		for(int j = std::max(0, static_cast<int>(std::floor(y - r))); j <= std::min(q.H - 1, static_cast<int>(std::floor(y + r))); ++j)
		{
			for(int i = std::max(0, static_cast<int>(std::floor(x - r))); i <= std::min(q.W - 1, static_cast<int>(std::floor(x + r))); ++i)
			{
				o |= owner[static_cast<size_t>(j) * static_cast<size_t>(q.W) + static_cast<size_t>(i)];
			}
		}
		return o;
	};
	for(size_t k = 0; k != cams.size(); ++k)
	{
		const cam& m = cams[k];
		if(m.w == 0 || m.h == 0) { continue; }
		v3 ctr = mul(v3{q.box.lo.x + q.box.hi.x, q.box.lo.y + q.box.hi.y, q.box.lo.z + q.box.hi.z}, 0.5);
		std::vector<std::pair<v3, int>> eyes;
		if(q.stereo == 0) { eyes.push_back({m.eye, 0}); }
		else
		{
			v3 ray = sub(ctr, m.eye), base = cross(ray, m.up);
			base = mul(base, len(ray) / len(base) * q.stereo / 1000.0);
			eyes.push_back({v3{m.eye.x + base.x, m.eye.y + base.y, m.eye.z + base.z}, 1});
			eyes.push_back({sub(m.eye, base), 2});
		}
		for(auto& e : eyes)
		{
			for(size_t i = 0; i != q.r.size(); ++i)
			{
				spot s;
				int vis = project(q, m, e.first, q.r[i], s.x, s.y);
				std::array<double, 3> col = q.from_speed ? speed_color(len(q.v[i]) / q.vspread) : q.col[i];
				if(e.second == 1) { col = {1, 0, 0}; }
				if(e.second == 2) { col = {0, 1, 1}; }
				for(size_t j = 0; j != 3; ++j) { s.c[j] = std::min(1.0, std::max(0.0, col[j])) * factor; }
				s.view = static_cast<int>(k);
				s.id = static_cast<int>(i);
				if(vis == 1) { spots.push_back(s); }
				if(vis == 2) { unsure.push_back(s); }
			}
		}
		if(q.show_box && q.stereo == 0)
		{
			const int e12[12][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}};
			auto corner = [&](int n, v3& p, std::array<double, 3>& cc)
			{
				bool bx = n == 1 || n == 2 || n == 5 || n == 6, by = n == 2 || n == 3 || n == 6 || n == 7, bz = n >= 4;
				p = v3{bx ? q.box.hi.x : q.box.lo.x, by ? q.box.hi.y : q.box.lo.y, bz ? q.box.hi.z : q.box.lo.z};
				cc = {bx ? 1.0 : 0.0, by ? 1.0 : 0.0, bz ? 1.0 : 0.0};
			};
			for(int id = 0; id != 12; ++id)
			{
				auto& e = e12[id];
				v3 a, b;
				std::array<double, 3> ca, cb;
				corner(e[0], a, ca);
				corner(e[1], b, cb);
				const int N = 150;
				auto at = [&](double w, spot& s)
				{
					v3 p{a.x + (b.x - a.x) * w, a.y + (b.y - a.y) * w, a.z + (b.z - a.z) * w};
					return project(q, m, m.eye, p, s.x, s.y);
				};
				// every pixel the edge may touch: bisect until neighbouring points are close on the screen
				std::function<void(double, int, const spot&, double, int, const spot&, int)> fill = [&](double w0, int v0, const spot& s0, double w1, int v1, const spot& s1, int depth)
				{
					for(auto& e : {std::make_pair(v0, s0), std::make_pair(v1, s1)})
					{
						if(e.first == 0) { continue; }
						for(int y = static_cast<int>(std::floor(e.second.y)) - 1; y <= static_cast<int>(std::floor(e.second.y)) + 1; ++y)
						{
							for(int x = static_cast<int>(std::floor(e.second.x)) - 1; x <= static_cast<int>(std::floor(e.second.x)) + 1; ++x)
							{
								if(x >= 0 && y >= 0 && x < q.W && y < q.H) { owner[static_cast<size_t>(y) * static_cast<size_t>(q.W) + static_cast<size_t>(x)] |= static_cast<uint16_t>(1u << id); }
							}
						}
					}
					if(depth == 0 || (v0 == 0 && v1 == 0 && depth < 10)) { return; }
					if(v0 != 0 && v1 != 0 && std::fabs(s0.x - s1.x) < 2 && std::fabs(s0.y - s1.y) < 2) { return; }
					double w = (w0 + w1) / 2;
					spot s;
					int v = at(w, s);
					fill(w0, v0, s0, w, v, s, depth - 1);
					fill(w, v, s, w1, v1, s1, depth - 1);
				};
				spot prev;
				int pv = at(0, prev);
				for(int t = 0; t <= N; ++t)
				{
					double w = static_cast<double>(t) / N;
					spot s;
					int vis = at(w, s);
					if(t) { fill(static_cast<double>(t - 1) / N, pv, prev, w, vis, s, 14); }
					prev = s;
					pv = vis;
					for(size_t j = 0; j != 3; ++j) { s.c[j] = ca[j] * (1 - w) + cb[j] * w; }
					s.view = static_cast<int>(k);
					s.id = id;
					if(vis == 1) { edge.push_back(s); }
				}
			}
		}
	}
	if(getenv("C29_DUMP")) { for(auto& t : spots) { fprintf(stderr, "spot view %d %.2f %.2f\n", t.view, t.x, t.y); } }
	// places where something else is drawn: the text, the lines between the views and points that reach over them
	int sx = static_cast<int>(q.W * q.split.x()), sy = q.H - static_cast<int>(q.H * q.split.y());
	double band = rad + 3;
	auto skip = [&](double x, double y)
	{
		return (x < 400 && y < 135) || std::fabs(x - sx) < band || std::fabs(y - sy) < band || x < band || y < band || x > q.W - band || y > q.H - band;
	};
	// maps of what may be lit
	std::vector<uint8_t> may(img.px.size(), 0);
	auto stamp = [&](double x, double y, double r)
	{
		if(!(std::fabs(x) < 1e5 && std::fabs(y) < 1e5)) { return; }
		for(int j = std::max(0, static_cast<int>(std::floor(y - r))); j <= std::min(q.H - 1, static_cast<int>(std::ceil(y + r))); ++j)
		{
			for(int i = std::max(0, static_cast<int>(std::floor(x - r))); i <= std::min(q.W - 1, static_cast<int>(std::ceil(x + r))); ++i)
			{
				may[static_cast<size_t>(j) * static_cast<size_t>(q.W) + static_cast<size_t>(i)] = 1;
			}
		}
	};
	for(auto& s : spots) { stamp(s.x, s.y, rad + 1); }
	for(auto& s : unsure) { stamp(s.x, s.y, rad + 1); }
	for(auto& s : edge) { stamp(s.x, s.y, 3); }
	if(!q.show_box || q.stereo != 0 || true)
	{
		for(int y = 0; y != q.H; ++y)
		{
			for(int x = 0; x != q.W; ++x)
			{
				uint32_t p = img.at(x, y);
				if((p & 0xffffff) == 0 || may[static_cast<size_t>(y) * static_cast<size_t>(q.W) + static_cast<size_t>(x)] || skip(x + 0.5, y + 0.5)) { continue; }
				if(q.show_box && q.stereo == 0) { continue; }	// long edges: sampled sparsely
				PBT_CHECK(false, what << "pixel " << x << "," << y << " has colour " << std::hex << p << std::dec << " where no body is");
			}
		}
	}
	for(size_t i = 0; i != spots.size(); ++i)
	{
		const spot& s = spots[i];
		if(skip(s.x, s.y)) { continue; }
		// brightest value of each channel around the centre
		double best[3] = {0, 0, 0}, sum[3] = {s.c[0], s.c[1], s.c[2]};
		bool alone = true;
		for(size_t j = 0; j != spots.size() && alone; ++j)
		{
			if(j == i || spots[j].view != s.view) { continue; }
			if(std::fabs(spots[j].x - s.x) < q.size + 4 && std::fabs(spots[j].y - s.y) < q.size + 4)
			{
				if(spots[j].x == s.x && spots[j].y == s.y) { for(size_t k = 0; k != 3; ++k) { sum[k] += spots[j].c[k]; } }
				else { alone = false; }
			}
		}
		if(edges_near(s.x, s.y, q.size + 6) != 0) { alone = false; }
		for(auto& e : unsure) { if(std::fabs(e.x - s.x) < q.size + 6 && std::fabs(e.y - s.y) < q.size + 6) { alone = false; break; } }
		int cx = static_cast<int>(std::floor(s.x)), cy = static_cast<int>(std::floor(s.y));
		for(int y = std::max(0, cy - 1); y <= std::min(q.H - 1, cy + 1); ++y)
		{
			for(int x = std::max(0, cx - 1); x <= std::min(q.W - 1, cx + 1); ++x)
			{
				for(int k = 0; k != 3; ++k) { best[k] = std::max(best[k], chan(img.at(x, y), k)); }
			}
		}
		for(int k = 0; k != 3; ++k)
		{
			double want = std::min(1.0, sum[k]);
			double lo = q.size >= 3 ? want - 0.02 : want * 0.2 - 0.02;	// a small point covers its pixels partly
			PBT_CHECK(best[k] >= lo, what << "view " << s.view << ": the body at " << s.x << "," << s.y << " has " << best[k] << " of channel " << k << " instead of " << want);
			if(alone) { PBT_CHECK(best[k] <= want + 0.02, what << "view " << s.view << ": the body at " << s.x << "," << s.y << " has " << best[k] << " of channel " << k << " instead of " << want); }
		}
		++checked;
	}
	size_t lit = 0;
	for(auto& s : edge)
	{
		if(skip(s.x, s.y) || std::max(s.c[0], std::max(s.c[1], s.c[2])) < 0.3) { continue; }
		if((edges_near(s.x, s.y, 16) & ~(1u << s.id)) != 0) { continue; }	// the nearer edge hides the other one
		double best[3] = {0, 0, 0};
		int cx = static_cast<int>(std::floor(s.x)), cy = static_cast<int>(std::floor(s.y));
		for(int y = std::max(0, cy - 2); y <= std::min(q.H - 1, cy + 2); ++y)
		{
			for(int x = std::max(0, cx - 2); x <= std::min(q.W - 1, cx + 2); ++x)
			{
				for(int k = 0; k != 3; ++k) { best[k] = std::max(best[k], chan(img.at(x, y), k)); }
			}
		}
		for(int k = 0; k != 3; ++k) { PBT_CHECK(best[k] >= s.c[k] * 0.3 - 0.05, what << "view " << s.view << ": the box edge at " << s.x << "," << s.y << " has " << best[k] << " of channel " << k << " instead of " << s.c[k]); }
		++lit;
	}
	(void)c;
}

// what the view writes, by the word before the equals sign
static std::map<std::string, std::vector<std::string>> g_text;
static void note(const QString& t)
{
	QStringList p = t.simplified().split('=');
	if(p.size() == 2) { g_text[p[0].trimmed().toStdString()].push_back(p[1].remove('%').trimmed().toStdString()); }
}
template<class F> static F real_call(const char* mangled)
{
	static_assert(sizeof(F) == sizeof(void*), "");
	void* p = dlsym(RTLD_NEXT, mangled);
	return reinterpret_cast<F>(p);
}
void QPainter::drawText(const QPointF& p, const QString& t)
{
	note(t);
	static auto f = real_call<void (*)(QPainter*, const QPointF&, const QString&)>("_ZN8QPainter8drawTextERK7QPointFRK7QString");
	f(this, p, t);
}
void QPainter::drawText(const QRectF& r, int flags, const QString& t, QRectF* b)
{
	note(t);
	static auto f = real_call<void (*)(QPainter*, const QRectF&, int, const QString&, QRectF*)>("_ZN8QPainter8drawTextERK6QRectFiRK7QStringPS0_");
	f(this, r, flags, t, b);
}
void QPainter::drawText(const QRect& r, int flags, const QString& t, QRect* b)
{
	note(t);
	static auto f = real_call<void (*)(QPainter*, const QRect&, int, const QString&, QRect*)>("_ZN8QPainter8drawTextERK5QRectiRK7QStringPS0_");
	f(this, r, flags, t, b);
}
void QPainter::drawText(const QRectF& r, const QString& t, const QTextOption& o)
{
	note(t);
	static auto f = real_call<void (*)(QPainter*, const QRectF&, const QString&, const QTextOption&)>("_ZN8QPainter8drawTextERK6QRectFRK7QStringRK11QTextOption");
	f(this, r, t, o);
}

// the last text of a kind names this number (to the digits shown), or there is none
static void judge_text(const std::string& word, bool present, double value, double rel, const std::string& what)
{
	auto& t = g_text[word];
	if(!present)
	{
		PBT_CHECK(t.empty(), what << "\"" << word << " = " << t.back() << "\" is written without such a value");
		return;
	}
	PBT_CHECK(!t.empty(), what << word << " = " << value << " is not written");
	bool ok = false;
	double got = QString::fromStdString(t.back()).toDouble(&ok);
	PBT_CHECK(ok && std::fabs(got - value) <= rel * std::fabs(value), what << "\"" << word << " = " << t.back() << "\" is written instead of " << value);
}

static void judge_texts(const nbody_data& d, const std::string& what)
{
	if(g_text.empty()) { return; }	// written in another way
	judge_text("Step", true, static_cast<double>(d.get_step()), 0, what);
	judge_text("T", true, d.get_time(), 1e-5, what);
	judge_text("Stars", true, static_cast<double>(d.get_count()), 0, what);
	judge_text("dP", std::isfinite(d.get_impulce_err()), d.get_impulce_err(), 0.006, what);
	judge_text("dL", std::isfinite(d.get_impulce_moment_err()), d.get_impulce_moment_err(), 0.006, what);
	judge_text("dE", std::isfinite(d.get_energy_err()), d.get_energy_err(), 0.006, what);
}

// the first frame shown fixes the box and the scale of the speeds
static void frame_first(scene& q)
{
	box_t b = box_of(q.r), vb = box_of(q.v);
	v3 margin = mul(sub(b.hi, b.lo), 0.5);
	q.box = box_t{sub(b.lo, margin), v3{b.hi.x + margin.x, b.hi.y + margin.y, b.hi.z + margin.z}};
	q.vspread = len(sub(vb.hi, vb.lo));
	if(len(sub(b.hi, b.lo)) < 1) { throw pbt::discard(); }
}

// the widgets live in one window that stays and is larger than they are
static QWidget* room()
{
	static QWidget* w = nullptr;
	if(!w)
	{
		w = new QWidget;
		w->resize(1600, 1200);
	}
	return w;
}

static void view(pbt::source& s, pbt::ctx& c)
{
	gl_app(c.workdir);
	nbody_data d;
	size_t n = s.size(2, 40);
	double ext = s.positive(2, 60), off = s.chance(1, 3) ? s.number(50) : 0;
	scene q;
	auto place = [&](bool first)
	{
		q.r.resize(n);
		q.v.resize(n);
		bool still = s.chance(1, 8), same = s.chance(1, 8);
		v3 v0{s.number(2), s.number(2), s.number(2)};
		for(size_t i = 0; i != n; ++i)
		{
			q.r[i] = v3{off + ext * (2 * s.unit() - 1), ext * (2 * s.unit() - 1), -off + ext * (2 * s.unit() - 1)};
			q.v[i] = still ? v3{0, 0, 0} : same ? v0 : v3{s.number(2), s.number(2), s.number(2)};
			if(i && s.chance(1, 12)) { q.r[i] = q.r[i - 1]; }
		}
		(void)first;
	};
	place(true);
	q.col.resize(n);
	for(size_t i = 0; i != n; ++i)
	{
		q.col[i] = {s.unit(), s.unit(), s.unit()};
		d.add_body(nbvertex_t(q.r[i].x, q.r[i].y, q.r[i].z), nbvertex_t(q.v[i].x, q.v[i].y, q.v[i].z), 1, nbcolor_t(static_cast<float>(q.col[i][0]), static_cast<float>(q.col[i][1]), static_cast<float>(q.col[i][2]), 1));
	}
	frame_first(q);
	std::unique_ptr<wgt_nbody_view> hold(new wgt_nbody_view(&d));
	wgt_nbody_view& w = *hold;
	w.setParent(room());
	int W = static_cast<int>(s.range(450, 900)), H = static_cast<int>(s.range(300, 700));
	w.resize(W, H);
	(void)w.grabFramebuffer();	// the first frame shown fixes the box
	size_t pictures = static_cast<size_t>(s.range(1, 4)), checked = 0;
	q.split = w.get_split_point();
	bool full = false;
	for(size_t k = 0; k != pictures; ++k)
	{
		if(k && s.chance(2, 3))
		{
			place(false);
			for(size_t i = 0; i != n; ++i)
			{
				d.get_vertites()[i] = nbvertex_t(q.r[i].x, q.r[i].y, q.r[i].z);
				d.get_velosites()[i] = nbvertex_t(q.v[i].x, q.v[i].y, q.v[i].z);
			}
		}
		q.size = s.chance(1, 4) ? s.positive(1, 3) : static_cast<double>(s.range(3, 12));
		q.intensity = static_cast<int>(s.range(30, 255));
		q.scale = s.chance(1, 2) ? 1 : s.positive(0.3, 3);
		q.from_speed = s.chance(1, 2);
		q.stereo = s.chance(1, 3) ? static_cast<int>(s.range(1, 100)) : 0;
		q.show_box = s.chance(1, 4);
		w.set_star_size(q.size);
		w.set_star_intensity(q.intensity);
		w.set_scale(q.scale);
		w.set_color_from_velosity(q.from_speed);
		w.set_stereo_base(q.stereo);
		w.set_show_box(q.show_box);
		if(s.chance(1, 4))
		{
			if(s.chance(1, 2))
			{
				q.split = QPointF(s.unit(), s.unit());
				w.setProperty("m_split_point", q.split);
				full = q.split != QPointF(0.5, 0.5);
			}
			else
			{
				int px = static_cast<int>(s.draw(static_cast<uint64_t>(W - 1))), py = static_cast<int>(s.draw(static_cast<uint64_t>(H - 1)));
				if(std::abs(px - W / 2) > 2 && std::abs(py - H / 2) > 2)
				{
					QMouseEvent e(QEvent::MouseButtonDblClick, QPointF(px, py), Qt::LeftButton, Qt::LeftButton, Qt::NoModifier);
					QCoreApplication::sendEvent(&w, &e);
					if(full) { q.split = QPointF(0.5, 0.5); full = false; }
					else
					{
						q.split = QPointF(px > W / 2 ? 0 : 1, py > H / 2 ? 1 : 0);	// the view under the mouse takes the whole picture
						full = true;
					}
					// the change is animated
					auto t0 = std::chrono::steady_clock::now();
					while(w.get_split_point() != q.split && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(20)) { QCoreApplication::processEvents(QEventLoop::AllEvents, 20); usleep(2000); }
					PBT_CHECK(w.get_split_point() == q.split, "after a double click at " << px << "," << py << " of " << W << "x" << H << " the views are split at " << w.get_split_point().x() << "," << w.get_split_point().y());
					c.label("double click");
				}
			}
		}
		if(k == 0 && s.chance(2, 3))
		{
			QString laws;
			for(const char* l : {"P", "L", "E", "V"}) { if(s.chance(1, 2)) { laws += l; } }
			d.set_check_list(laws);
			c.text << "check " << laws.toStdString() << "; ";
		}
		if(s.chance(1, 2))
		{
			d.set_step(s.chance(1, 4) ? s.draw(1ull << 40) : s.draw(1000));
			d.set_time(s.chance(1, 4) ? s.number(1e6) : s.unit());
		}
		if(s.chance(1, 2))
		{
			d.print_statistics(nullptr);
			c.label(std::isfinite(d.get_impulce_err()) != std::isfinite(d.get_energy_err()) || std::isfinite(d.get_impulce_err()) != std::isfinite(d.get_impulce_moment_err()) ? "some laws checked" : "all or no laws checked");
		}
		bool recorded = s.chance(1, 6);
		q.W = recorded ? 1920 : W;
		q.H = recorded ? 1080 : H;
		g_text.clear();
		QImage img = recorded ? w.render_to_image() : w.grabFramebuffer();
		c.text << (recorded ? "record " : "show ") << q.W << "x" << q.H << " size " << q.size << " intensity " << q.intensity << " scale " << q.scale << (q.from_speed ? " speed" : " own") << " stereo " << q.stereo << (q.show_box ? " box" : "") << " split " << q.split.x() << "," << q.split.y() << "; ";
		if(getenv("C29_SAVE")) { img.convertToFormat(QImage::Format_RGB32).save(QString("/tmp/gl/%1.png").arg(k)); }
		judge(q, picture(img), c, checked);
		judge_texts(d, "");
		if(q.stereo) { c.label("stereo"); }
		if(recorded) { c.label("recorded size"); }
		if(q.show_box) { c.label("box"); }
	}
	if(checked >= 4) { c.nontrivial(); }
	c.label(checked >= 50 ? "50 or more bodies compared" : "fewer bodies compared");
}

// the user's answer to the question for a file name
static QString g_answer, g_filter;
static size_t g_asked = 0;
QString QFileDialog::getSaveFileName(QWidget*, const QString&, const QString&, const QString& filters, QString* selected, Options)
{
	++g_asked;
	if(g_answer.isEmpty()) { return QString(); }
	for(const QString& f : filters.split(QRegExp("\n|;;"))) { if(f.contains(g_filter) && selected) { *selected = f; } }
	return g_answer;
}

static void player(pbt::source& s, pbt::ctx& c)
{
	gl_app(c.workdir, 900, 600);
	std::string root = c.workdir + "/play";
	QDir(QString::fromStdString(root)).removeRecursively();
	QDir().mkpath(QString::fromStdString(root));
	QString name = QString::fromStdString(root + "/s");
	size_t frames = static_cast<size_t>(s.range(1, 6)), n = s.size(2, 12);
	double ext = s.positive(2, 60);
	std::vector<nbody_data> st(frames);
	{
		nbody_data_stream out;
		PBT_CHECK(out.open(name, s.chance(1, 2) ? 200 : 1 << 20) == 0, "stream not opened");
		std::vector<nbcolor_t> col(n);
		for(auto& k : col) { k = nbcolor_t(static_cast<float>(0.2 + 0.8 * s.unit()), static_cast<float>(s.unit()), static_cast<float>(s.unit()), 1); }
		for(size_t k = 0; k != frames; ++k)
		{
			for(size_t i = 0; i != n; ++i)
			{
				st[k].add_body(nbvertex_t(ext * (2 * s.unit() - 1), ext * (2 * s.unit() - 1), ext * (2 * s.unit() - 1)), nbvertex_t(s.number(2), s.number(2), s.number(2)), 1, col[i]);
			}
			st[k].set_step(k * 10);
			st[k].set_time(static_cast<double>(k) * 0.25);
			st[k].set_box_size(ext);
			PBT_CHECK(out.write(&st[k]) == 0, "write failed");
		}
		out.close();
	}
	nbody_data_stream_reader rd;
	PBT_CHECK(rd.load(name) == 0 && rd.get_frame_count() == frames, "stream not loaded");
	c.text << frames << " frames, " << n << " bodies:";
	{
		QString laws("V");
		for(const char* l : {"P", "L", "E"}) { if(s.chance(1, 2)) { laws += l; } }
		c.text << " check " << laws.toStdString();
		std::unique_ptr<wgt_nbody_player> play(new wgt_nbody_player(&rd, laws));
		play->show();
		QCoreApplication::processEvents();
		wgt_nbody_view* v = play->findChild<wgt_nbody_view*>();
		wgt_nbody_player_control* ctl = play->findChild<wgt_nbody_player_control*>();
		PBT_CHECK(v && ctl, "no view or no control");
		size_t cur = 0, checked = 0;
		scene q;
		q.split = QPointF(0.5, 0.5);
		auto load = [&](size_t k)
		{
			q.r.resize(n);
			q.v.resize(n);
			q.col.resize(n);
			for(size_t i = 0; i != n; ++i)
			{
				nbvertex_t r = st[k].get_vertites()[i], u = st[k].get_velosites()[i];
				nbcolor_t l = st[k].get_color()[i];
				q.r[i] = v3{r.x, r.y, r.z};
				q.v[i] = v3{u.x, u.y, u.z};
				q.col[i] = {l.x, l.y, l.z};
			}
		};
		load(0);	// shown first
		frame_first(q);
		QSlider* line = nullptr;
		QSlider* stereo = nullptr;
		QSpinBox* inten = nullptr;
		QDoubleSpinBox* size = nullptr;
		QDoubleSpinBox* scale = nullptr;
		for(QSlider* q : ctl->findChildren<QSlider*>()) { (q->toolTip() == "Timeline" ? line : stereo) = q; }
		for(QSpinBox* q : ctl->findChildren<QSpinBox*>()) { inten = q; }
		for(QDoubleSpinBox* q : ctl->findChildren<QDoubleSpinBox*>()) { (q->toolTip() == "Stars size" ? size : scale) = q; }
		std::map<std::string, QAction*> act;
		for(QAction* a : ctl->findChildren<QAction*>()) { act[a->text().toStdString()] = a; }
		PBT_CHECK(line && stereo && inten && size && scale && act.count("Record*") && act.count("Show box") && act.count("Color from velosity"), "a control is missing");
		double m_scale = 1, m_size = 1;
		int m_int = 255, m_stereo = 0;
		bool m_speed = true, m_box = true;
		auto settings = [&]()
		{
			q.scale = m_scale;
			q.size = m_size;
			q.intensity = m_int;
			q.stereo = m_stereo;
			q.from_speed = m_speed;
			q.show_box = m_box;
		};
		(void)v->grabFramebuffer();	// opens the device; the range of star sizes is announced
		m_size = size->value();
		size_t ops = static_cast<size_t>(s.range(1, 9)), shown = 0, recorded = 0;
		for(size_t k = 0; k <= ops; ++k)
		{
			uint64_t op = k == 0 ? 99 : s.draw(9);
			switch(op)
			{
			case 0: case 1: case 2:
				cur = static_cast<size_t>(s.draw(frames - 1));
				c.text << " frame " << cur;
				line->setValue(static_cast<int>(cur));
				break;
			case 3:
				m_int = static_cast<int>(s.range(60, 255));
				c.text << " intensity " << m_int;
				inten->setValue(m_int);
				break;
			case 4:
				m_size = std::floor(std::min(size->maximum(), s.positive(2, 30)));
				c.text << " size " << m_size;
				size->setValue(m_size);
				break;
			case 5:
			{
				double pc = std::floor(s.positive(40, 200));
				c.text << " scale " << pc;
				scale->setValue(pc);
				m_scale = 100.0 / pc;
				break;
			}
			case 6:
				m_stereo = s.chance(1, 2) ? static_cast<int>(s.range(1, 100)) : 0;
				c.text << " stereo " << m_stereo;
				stereo->setValue(m_stereo);
				break;
			case 7:
				c.text << " colours";
				act["Color from velosity"]->trigger();
				m_speed = !m_speed;
				break;
			case 8:
				c.text << " box";
				act["Show box"]->trigger();
				m_box = !m_box;
				break;
			case 9:
			{
				uint64_t how = s.draw(3);
				std::string dst = root + "/rec" + std::to_string(k);
				g_asked = 0;
				g_answer = how == 0 ? QString() : QString::fromStdString(dst);
				g_filter = how == 1 ? "avi" : "png";
				c.text << (how == 0 ? " no recording" : how == 1 ? " video" : " pictures");
				bool suffix = how == 1 && s.chance(1, 2);
				if(suffix) { g_answer += ".avi"; }
				g_text.clear();
				act["Record*"]->trigger();
				PBT_CHECK(g_asked == 1, "the file name was asked " << g_asked << " times");
				if(how == 0) { break; }
				if(!g_text.empty())
				{
					// the steps of all frames, and the deviations of the laws checked: none at the first frame, the only one checked
					for(size_t f = 0; f != frames; ++f)
					{
						auto& t = g_text["Step"];
						PBT_CHECK(std::count(t.begin(), t.end(), std::to_string(f * 10)) > 0, "step " << f * 10 << " is not written while recording");
					}
					nbody_data ref(st[0]);
					ref.set_check_list(laws);
					ref.print_statistics(nullptr);
					judge_text("dP", std::isfinite(ref.get_impulce_err()), 0, 0, "while recording, ");
					judge_text("dL", std::isfinite(ref.get_impulce_moment_err()), 0, 0, "while recording, ");
					judge_text("dE", std::isfinite(ref.get_energy_err()), 0, 0, "while recording, ");
				}
				++recorded;
				settings();
				if(how == 1)
				{
					cv::VideoCapture cap(dst + ".avi");
					PBT_CHECK(cap.isOpened(), "the video " << dst.substr(root.size()) << ".avi cannot be opened");
					cv::Mat m;
					size_t got = 0;
					while(cap.read(m))
					{
						PBT_CHECK(m.cols == 1920 && m.rows == 1080, "the video is " << m.cols << "x" << m.rows);
						++got;
					}
					PBT_CHECK(got == frames, "the video has " << got << " pictures of " << frames << " frames");
				}
				else
				{
					QDir dir(QString::fromStdString(dst));
					QStringList files = dir.entryList(QDir::Files | QDir::Hidden, QDir::Name);
					PBT_CHECK(static_cast<size_t>(files.size()) == frames, files.size() << " pictures of " << frames << " frames");
					for(size_t f = 0; f != frames; ++f)
					{
						QImage got;
						PBT_CHECK(got.load(dir.filePath(files[static_cast<int>(f)])), "picture " << f << " cannot be read");
						PBT_CHECK(!got.hasAlphaChannel() || qAlpha(got.pixel(1000, 300)) == 255, "picture " << f << " is transparent");
						load(f);
						q.W = 1920;
						q.H = 1080;
						judge(q, picture(got.convertToFormat(QImage::Format_ARGB32)), c, checked, "recorded picture " + std::to_string(f) + ", ");
					}
				}
				break;
			}
			default:
				c.text << " open";
				break;
			}
			load(cur);
			settings();
			QCoreApplication::processEvents();
			q.W = v->width();
			q.H = v->height();
			g_text.clear();
			QImage now = v->grabFramebuffer();
			judge(q, picture(now), c, checked, "shown, ");
			if(!g_text.empty())
			{
				judge_text("Step", true, static_cast<double>(st[cur].get_step()), 0, "shown, ");
				judge_text("T", true, st[cur].get_time(), 1e-5, "shown, ");
				judge_text("Stars", true, static_cast<double>(n), 0, "shown, ");
			}
			++shown;
		}
		if(shown >= 3 || recorded) { c.nontrivial(); }
		if(recorded) { c.label("recorded"); }
	}
	rd.close();
	QDir(QString::fromStdString(root)).removeRecursively();
}

// a video gives the pictures back, in their order
static void video(pbt::source& s, pbt::ctx& c)
{
	std::string fn = c.workdir + "/video.avi";
	remove(fn.c_str());
	int w = static_cast<int>(s.range(4, 20)) * 16, h = static_cast<int>(s.range(4, 12)) * 16;
	size_t frames = s.size(1, 20);
	static const QImage::Format fmts[] = {QImage::Format_ARGB32, QImage::Format_RGB32, QImage::Format_RGB888, QImage::Format_ARGB32_Premultiplied};
	QImage::Format fmt = fmts[s.draw(3)];
	std::vector<std::array<QColor, 4>> want;
	{
		nbody_frame_compressor_opencv rec;
		PBT_CHECK(rec.set_destination(QString::fromStdString(fn)), "destination refused");
		for(size_t k = 0; k != frames; ++k)
		{
			std::array<QColor, 4> q;
			QImage img(w, h, fmt);
			for(size_t j = 0; j != 4; ++j)
			{
				q[j] = QColor(static_cast<int>(s.draw(255)), static_cast<int>(s.draw(255)), static_cast<int>(s.draw(255)));
				for(int y = 0; y != h / 2; ++y)
				{
					for(int x = 0; x != w / 2; ++x) { img.setPixel(x + ((j & 1) ? w / 2 : 0), y + ((j & 2) ? h / 2 : 0), q[j].rgb()); }
				}
			}
			want.push_back(q);
			rec.push_frame(img, k);
		}
	}
	c.text << frames << " pictures of " << w << "x" << h;
	cv::VideoCapture cap(fn);
	PBT_CHECK(cap.isOpened(), "the video cannot be opened");
	cv::Mat m;
	size_t got = 0;
	double worst = 0;
	while(cap.read(m))
	{
		PBT_CHECK(m.cols == w && m.rows == h, "the video is " << m.cols << "x" << m.rows << " instead of " << w << "x" << h);
		PBT_CHECK(got < frames, "the video has more than " << frames << " pictures");
		for(size_t j = 0; j != 4; ++j)
		{
			const uchar* p = m.ptr<uchar>(h / 4 + ((j & 2) ? h / 2 : 0)) + 3 * (w / 4 + ((j & 1) ? w / 2 : 0));
			const QColor& q = want[got][j];
			worst = std::max(worst, static_cast<double>(std::max(std::abs(p[2] - q.red()), std::max(std::abs(p[1] - q.green()), std::abs(p[0] - q.blue())))));
		}
		PBT_CHECK(worst < 48, "picture " << got << " of the video is off by " << worst);
		++got;
	}
	PBT_CHECK(got == frames, "the video has " << got << " pictures instead of " << frames);
	remove(fn.c_str());
	c.label(worst < 8 ? "within 8" : worst < 16 ? "within 16" : worst < 24 ? "within 24" : "within 48");
	if(frames >= 2) { c.nontrivial(); }
}

// the program itself, from its arguments to its end
int nbody_player_main(int, char**);
static std::function<void()> g_started;
static void started()
{
	if(g_started) { QTimer::singleShot(0, qApp, []() { g_started(); }); }
}
Q_COREAPP_STARTUP_FUNCTION(started)

static void program(pbt::source& s, pbt::ctx& c)
{
	gl_env(c.workdir, 900, 600);
	std::string root = c.workdir + "/program";
	QDir(QString::fromStdString(root)).removeRecursively();
	QDir().mkpath(QString::fromStdString(root));
	static const char* names[] = {"s", "a stream", "x-y", "st.r"};
	std::string stem = names[s.draw(3)];
	QString name = QString::fromStdString(root + "/" + stem);
	size_t frames = static_cast<size_t>(s.range(1, 5)), n = s.size(2, 8);
	double ext = s.positive(2, 60);
	std::vector<nbody_data> st(frames);
	{
		nbody_data_stream out;
		PBT_CHECK(out.open(name, s.chance(1, 2) ? 200 : 1 << 20) == 0, "stream not opened");
		for(size_t k = 0; k != frames; ++k)
		{
			for(size_t i = 0; i != n; ++i)
			{
				st[k].add_body(nbvertex_t(ext * (2 * s.unit() - 1), ext * (2 * s.unit() - 1), ext * (2 * s.unit() - 1)), nbvertex_t(s.number(2), s.number(2), s.number(2)), 1, nbcolor_t(1, 1, 0, 1));
			}
			st[k].set_step(k * 7 + 3);
			st[k].set_time(static_cast<double>(k) * 0.5);
			st[k].set_box_size(ext);
			PBT_CHECK(out.write(&st[k]) == 0, "write failed");
		}
		out.close();
	}
	QString asked_for = name;
	uint64_t damage = s.draw(7);
	QString idx = name + ".idx", dat = name + "0.dat";
	PBT_CHECK(QFile::exists(idx) && QFile::exists(dat), "the files of the stream have other names");
	switch(damage)
	{
	case 0: asked_for += "-none"; break;
	case 1: QFile::remove(idx); break;
	case 2: QFile::remove(dat); break;
	case 3: QFile::resize(dat, static_cast<qint64>(s.draw(static_cast<uint64_t>(QFileInfo(dat).size())))); break;
	case 4: QFile::resize(idx, static_cast<qint64>(s.draw(static_cast<uint64_t>(QFileInfo(idx).size())))); break;
	default: break;
	}
	bool usable;
	size_t count = 0;
	{
		nbody_data_stream_reader rd;
		usable = rd.load(asked_for) == 0;
		if(usable) { count = rd.get_frame_count(); }
	}
	if(damage < 3) { PBT_CHECK(!usable, "a stream without its files is loaded"); }
	if(damage > 4) { PBT_CHECK(usable && count == frames, "an intact stream is not loaded"); }
	if(usable && damage <= 4) { throw pbt::discard(); }	// nothing was cut off, or the index ends earlier: the subject of C16
	QString laws("PLV");
	std::vector<std::string> args;
	args.push_back("--input=" + asked_for.toStdString());
	if(s.chance(2, 3))
	{
		laws.clear();
		for(const char* l : {"P", "L", "E", "V"}) { if(s.chance(1, 2)) { laws += l; } }
		if(laws.isEmpty()) { laws = "V"; }
		args.push_back("--check_list=" + laws.toStdString());
	}
	if(s.chance(1, 3)) { args.push_back("--inputs=" + root + "/other"); }
	if(s.chance(1, 3)) { args.push_back("--verbose=1"); }
	for(size_t i = args.size(); i > 1; --i) { std::swap(args[i - 1], args[s.draw(i - 1)]); }
	for(auto& a : args) { c.text << a.substr(a.compare(0, 8, "--input=") == 0 ? 8 + root.size() : 0) << " "; }
	c.text << (usable ? "" : "(unusable) ") << frames << " frames";

	std::string failed;
	size_t windows = 0;
	bool ran = false;
	g_started = [&]()
	{
		ran = true;
		try
		{
			wgt_nbody_player* play = nullptr;
			for(QWidget* w : qApp->topLevelWidgets()) { if(wgt_nbody_player* p = qobject_cast<wgt_nbody_player*>(w)) { if(p->isVisible()) { ++windows; play = p; } } }
			PBT_CHECK(windows == 1, windows << " players are shown");
			wgt_nbody_view* v = play->findChild<wgt_nbody_view*>();
			QSlider* line = nullptr;
			QAction* record = nullptr;
			for(QSlider* q : play->findChildren<QSlider*>()) { if(q->toolTip() == "Timeline") { line = q; } }
			for(QAction* a : play->findChildren<QAction*>()) { if(a->text() == "Record*") { record = a; } }
			PBT_CHECK(v && line && record, "a control is missing");
			PBT_CHECK(line->minimum() == 0 && line->maximum() == static_cast<int>(frames) - 1, "the timeline of " << frames << " frames goes from " << line->minimum() << " to " << line->maximum());
			std::vector<size_t> visits{0};
			for(size_t k = static_cast<size_t>(s.draw(3)); k; --k) { visits.push_back(static_cast<size_t>(s.draw(frames - 1))); }
			for(size_t k = 0; k != visits.size(); ++k)
			{
				if(k) { line->setValue(static_cast<int>(visits[k])); }
				g_text.clear();
				(void)v->grabFramebuffer();
				if(g_text.empty()) { continue; }
				judge_text("Step", true, static_cast<double>(st[visits[k]].get_step()), 0, "shown, ");
				judge_text("T", true, st[visits[k]].get_time(), 1e-5, "shown, ");
				judge_text("Stars", true, static_cast<double>(n), 0, "shown, ");
			}
			g_answer = QString::fromStdString(root + "/rec");
			g_filter = "png";
			g_text.clear();
			record->trigger();
			PBT_CHECK(QDir(g_answer).entryList(QDir::Files).size() == static_cast<int>(frames), "not every frame was recorded");
			if(!g_text.empty())
			{
				nbody_data ref(st[0]);
				ref.set_check_list(laws);
				ref.print_statistics(nullptr);
				judge_text("dP", std::isfinite(ref.get_impulce_err()), 0, 0, "while recording, ");
				judge_text("dL", std::isfinite(ref.get_impulce_moment_err()), 0, 0, "while recording, ");
				judge_text("dE", std::isfinite(ref.get_energy_err()), 0, 0, "while recording, ");
			}
		}
		catch(pbt::failure& f) { failed = f.msg; }
		for(QWidget* w : qApp->topLevelWidgets()) { w->close(); }
		QTimer::singleShot(10000, qApp, []() { qApp->exit(77); });
	};
	std::vector<std::string> all{"player"};
	all.insert(all.end(), args.begin(), args.end());
	std::vector<char*> argv;
	for(auto& a : all) { argv.push_back(&a[0]); }
	argv.push_back(nullptr);
	int rc = nbody_player_main(static_cast<int>(all.size()), argv.data());
	g_started = nullptr;
	if(!failed.empty()) { throw pbt::failure{failed}; }
	if(usable)
	{
		PBT_CHECK(ran, "the program ended with " << rc << " and showed nothing");
		PBT_CHECK(rc == 0, "the program ended with " << rc << " when its window was closed");
	}
	else
	{
		PBT_CHECK(!ran && rc != 0, "the program ended with " << rc << (ran ? " and showed something" : "") << " without a usable stream");
	}
	c.label(usable ? "usable" : "unusable");
	c.nontrivial();
	QDir(QString::fromStdString(root)).removeRecursively();
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"view", isolated<view>, 400, 10000, 0, 120, false}, {"player", isolated<player>, 200, 5000, 0, 120, false}, {"program", isolated<program>, 60, 2000, 0, 60, false}, {"video", video, 300, 5000, 0, 60, false}}).main(argc, argv);
}
