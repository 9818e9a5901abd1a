// C14: a simulation interrupted (ended or crashed) at any point and resumed equals the uninterrupted one
#include "fault_io.h"
#include "stream_util.h"
#include <sys/wait.h>

typedef std::map<std::string, std::string> pmap;

static std::vector<pmap> solvers()
{
	std::vector<pmap> o;
	for(const char* n : {"euler", "midpoint", "rk4", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "trapeze"})
	{
		o.push_back({{"solver", n}, {"error_threshold", "1e-4"}, {"max_recursion", "2"}});
	}
	o.push_back({{"solver", "bs"}, {"max_level", "4"}});
	return o;
}

static std::vector<pmap> engines()
{
	return {{{"engine", "simple"}}, {{"engine", "openmp"}}, {{"engine", "block"}},
		{{"engine", "simple_bh"}, {"tree_layout", "tree"}, {"tree_build_rate", "0"}, {"distance_to_node_radius_ratio", "3"}},
		{{"engine", "simple_bh"}, {"tree_layout", "heap"}, {"tree_build_rate", "0"}, {"traverse_type", "nested_tree"}},
		{{"engine", "simple_bh"}, {"tree_layout", "heap_stackless"}, {"tree_build_rate", "0"}}};
}

struct job
{
	pmap		ep, sp;
	bodies		b;
	double		dt, t0, dd;
	size_t		box;
	bool		clamp;
	std::vector<float>	color;
};

static void initial(const job& j, nbody_data& d)
{
	for(size_t i = 0; i != j.b.n(); ++i)
	{
		d.add_body(nbvertex_t(j.b.r[i].x, j.b.r[i].y, j.b.r[i].z), nbvertex_t(j.b.v[i].x, j.b.v[i].y, j.b.v[i].z), j.b.m[i],
				   nbcolor_t(j.color[4 * i], j.color[4 * i + 1], j.color[4 * i + 2], j.color[4 * i + 3]));
	}
	d.set_time(j.t0);
	d.set_box_size(j.box);
}

// one session: starts or resumes, runs until 'end'; returns 0, or what failed
static std::string session(const job& j, const QString& name, qint64 limit, double end, bool& resumed)
{
	nbody_data					d;
	nbody_data_stream			w;
	nbody_data_stream_reader	r;
	resumed = 0 == r.load(name);
	if(resumed)
	{
		if(0 != r.seek(r.get_frame_count() - 1)) { return "cannot seek to the last frame"; }
		d.resize(r.get_body_count());
		if(0 != r.read(&d)) { return "cannot read the last frame"; }
	}
	else { initial(j, d); }
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params(j.ep)));
	std::unique_ptr<nbody_solver> s(nbody_create_solver(params(j.sp)));
	if(!e || !s || !e->init(&d)) { return "setup"; }
	s->set_engine(e.get());
	s->set_time_step(j.dt * 1e-3, j.dt);
	s->set_clamp_to_box(j.clamp);
	if(0 != w.open(name, limit, resumed ? &r : nullptr)) { return "cannot open the stream"; }
	r.close();
	if(0 != s->run(&d, &w, end, j.dd, 0)) { return "the run failed"; }
	return std::string();
}

static std::vector<mframe> all_frames(const job& j, const QString& name, const std::string& id)
{
	nbody_data_stream_reader r;
	std::vector<mframe> o;
	if(0 != r.load(name)) { return o; }
	nbody_data d;
	d.resize(j.b.n());
	for(size_t k = 0; k != r.get_frame_count(); ++k)
	{
		PBT_CHECK(0 == r.read(&d), id << ": frame " << k << " cannot be read");
		mframe f;
		f.t = d.get_time();
		f.step = d.get_step();
		for(size_t i = 0; i != j.b.n(); ++i)
		{
			const nbvertex_t& p = d.get_vertites()[i];
			const nbvertex_t& v = d.get_velosites()[i];
			f.r.insert(f.r.end(), {p.x, p.y, p.z});
			f.v.insert(f.v.end(), {v.x, v.y, v.z});
		}
		std::string diff = diff_frame(d, j.b.n(), j.box, j.b.m, j.color, f);
		PBT_CHECK(diff.empty(), id << ": frame " << k << ": " << diff);
		o.push_back(f);
	}
	return o;
}

static void p_resume(pbt::source& s, pbt::ctx& c)
{
	static const std::vector<pmap> sv = solvers(), en = engines();
	job j;
	j.sp = sv[s.strat(sv.size())];
	j.ep = en[s.draw(en.size() - 1)];
	size_t n = s.size(1, 12);
	j.b = gen_bodies(s, c, n, 3, false);
	static const double dts[] = {0.125, 0.1, 0.01, 1.0 / 3};
	j.dt = s.chance(1, 3) ? s.positive(1e-3, 0.5) : dts[s.draw(3)];
	j.t0 = s.chance(2, 3) ? 0 : s.chance(1, 2) ? -j.dt * static_cast<double>(s.draw(4)) - j.dt / 3 : s.positive(1e-3, 10);
	size_t every = 1 + s.draw(3);
	j.dd = j.dt * (static_cast<double>(every) + (s.chance(1, 2) ? 0 : 0.4 * s.unit()));
	j.box = 1 + s.draw(5);
	j.clamp = s.chance(1, 2);
	for(size_t i = 0; i != 4 * n; ++i) { j.color.push_back(0.0625f * static_cast<float>(i % 13)); }
	size_t steps = n <= 4 && s.chance(1, 60) ? 100 + s.draw(300) : 1 + s.draw(25);
	double end = j.t0 + j.dt * (static_cast<double>(steps) - 0.5);
	qint64 fs = static_cast<qint64>(48 * n);
	auto limit = [&]() -> qint64 { static const int k[] = {0, 1, 2, 5}; uint64_t q = s.draw(3); return q == 0 ? (1 << 30) : fs * k[q]; };

	std::string dir = c.workdir + "/f";
	clean_dir(dir);
	QString name = QString::fromStdString(dir + "/st"), full = QString::fromStdString(dir + "/full");
	std::ostringstream id;
	id.precision(9);
	id << j.sp.at("solver") << "/" << j.ep.at("engine") << " n=" << n << " dt=" << j.dt << " from " << j.t0 << " to " << end << " dump " << j.dd << (j.clamp ? " clamped" : "");
	bool resumed = false;
	std::string err = session(j, full, 1 << 30, end, resumed);
	PBT_CHECK(err.empty(), id.str() << ": uninterrupted: " << err);
	std::vector<mframe> want = all_frames(j, full, id.str());
	size_t interrupts = s.draw(4), crashes = 0, resumes = 0;
	for(size_t k = 0; k != interrupts; ++k)
	{
		double until = j.t0 + j.dt * (static_cast<double>(s.draw(steps)) - 0.5);
		qint64 lim = limit();
		if(s.chance(1, 2))
		{
			long at = static_cast<long>(s.draw(steps * 3 + 8));
			int mode = static_cast<int>(s.draw(2));
			long part = static_cast<long>(s.draw(120));
			id << ", crash at file operation " << at << " mode " << mode;
			fflush(nullptr);
			pid_t pid = fork();
			if(pid == 0)
			{
				omp_set_num_threads(1);
				fio::g.reset();
				fio::g.prefix = dir;
				fio::g.crash_at = at;
				fio::g.crash_mode = mode;
				fio::g.part = part;
				fio::g.armed = true;
				bool rs;
				std::string e = session(j, name, lim, end, rs);
				_exit(e.empty() ? 0 : 3);
			}
			int st = 0;
			while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
			PBT_CHECK(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 9), id.str() << ": the session failed with status " << st);
			if(WEXITSTATUS(st) == 9) { ++crashes; }
		}
		else
		{
			id << ", stopped at " << until;
			err = session(j, name, lim, until, resumed);
			PBT_CHECK(err.empty(), id.str() << ": " << err);
			resumes += resumed;
		}
	}
	err = session(j, name, limit(), end, resumed);
	PBT_CHECK(err.empty(), id.str() << ": " << err);
	resumes += resumed;
	std::vector<mframe> got = all_frames(j, name, id.str());
	for(size_t k = 0; k != std::min(got.size(), want.size()); ++k)
	{
		PBT_CHECK(got[k].step == want[k].step, id.str() << ": frame " << k << " has step " << got[k].step << ", uninterrupted " << want[k].step);
		PBT_CHECK(std::fabs(got[k].t - want[k].t) <= 1e-13 * (std::fabs(want[k].t) + j.dt * static_cast<double>(steps)), id.str() << ": frame " << k << " has time " << got[k].t << ", uninterrupted " << want[k].t);
		PBT_CHECK(same_bits(got[k].r, want[k].r) && same_bits(got[k].v, want[k].v), id.str() << ": frame " << k << " (step " << want[k].step << ") differs from the uninterrupted run");
	}
	PBT_CHECK(got.size() == want.size(), id.str() << ": " << got.size() << " frames, uninterrupted " << want.size());
	if(c.verbose) { c.text << id.str() << " -> " << got.size() << " frames"; }
	c.label(j.sp.at("solver"));
	if(crashes) { c.label("crashed session"); }
	if(resumes && want.size() > 1) { c.nontrivial(); }
	clean_dir(dir);
}

int main(int argc, char** argv)
{
	quiet_qt();
	omp_set_num_threads(1);
	return pbt::runner({{"resume", p_resume, 10000, 300000, 0, 60, false}}).main(argc, argv);
}
