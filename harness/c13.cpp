// C13: crash points and I/O faults of the stream writer and of saving a state
#include "fault_io.h"
#include "stream_util.h"
#include <sys/wait.h>

struct script
{
	size_t				n, box;
	std::vector<double>	mass;
	std::vector<float>	color;
	std::vector<mframe>	before;		// frames stored (healthy disk) before, then appended to
	std::vector<mframe>	frames;
	qint64				limit;
	bool				go_on;		// continue after a failed write
};

struct shared
{
	volatile long	ops;
	volatile long	done;			// script ran to its end
	volatile long	ok[64];			// per frame: 0 not tried, 1 reported success, 2 reported failure
	volatile long	open_rc;
};

static void dataof(nbody_data& d, const script& q, const mframe& f) { fill_data(d, q.n, q.box, q.mass, q.color, f); }

static void prepare(const script& q, const std::string& dir, const QString& name)
{
	clean_dir(dir);
	if(q.before.empty()) { return; }
	nbody_data_stream w;
	PBT_CHECK(0 == w.open(name, q.limit), "prepare: open");
	nbody_data d;
	for(auto& f : q.before)
	{
		dataof(d, q, f);
		PBT_CHECK(0 == w.write(&d), "prepare: write");
	}
}

// runs with faults armed
static void run_script(const script& q, const QString& name, shared* sh)
{
	nbody_data_stream w;
	std::unique_ptr<nbody_data_stream_reader> r;
	if(!q.before.empty())
	{
		r.reset(new nbody_data_stream_reader);
		if(0 != r->load(name)) { sh->open_rc = -2; return; }
	}
	fio::g.armed = true;
	int rc = w.open(name, q.limit, r.get());
	sh->open_rc = rc;
	if(rc == 0)
	{
		nbody_data d;
		for(size_t i = 0; i != q.frames.size(); ++i)
		{
			dataof(d, q, q.frames[i]);
			bool was = fio::g.armed;
			int k = w.write(&d);
			(void)was;
			sh->ok[i] = k == 0 ? 1 : 2;
			if(k != 0 && !q.go_on) { break; }
		}
	}
	sh->done = 1;
	// a crash may also hit the end of the process: no close here, the destructor may still write
}

static script gen_script(pbt::source& s, pbt::ctx& c)
{
	script q;
	q.n = s.chance(1, 12) ? s.draw(2500) + 1 : s.size(1, 30);
	q.box = 1 + s.draw(100);
	for(size_t i = 0; i != q.n; ++i) { q.mass.push_back(1 + static_cast<double>(i) * 0.37); }
	for(size_t i = 0; i != 4 * q.n; ++i) { q.color.push_back(0.125f * static_cast<float>(i % 9)); }
	size_t step = 0;
	double base = s.number(50);
	auto frame = [&]()
	{
		mframe f;
		f.t = static_cast<double>(step) / 3;
		f.step = step++;
		f.r.resize(3 * q.n);
		f.v.resize(3 * q.n);
		for(size_t i = 0; i != 3 * q.n; ++i)
		{
			f.r[i] = base + static_cast<double>(f.step) + 0.01 * static_cast<double>(i);
			f.v[i] = -base - 3 * static_cast<double>(f.step) + 0.1 * static_cast<double>(i) / 7;
		}
		return f;
	};
	for(size_t k = s.chance(1, 2) ? s.draw(3) : 0; k; --k) { q.before.push_back(frame()); }
	for(size_t k = 1 + s.draw(5); k; --k) { q.frames.push_back(frame()); }
	qint64 fs = static_cast<qint64>(q.n * 48);
	static const qint64 mul[] = {1 << 20, 1, 2, 3};
	uint64_t lk = s.draw(3);
	q.limit = lk == 0 ? (1 << 30) : fs * mul[lk];
	q.go_on = s.chance(1, 2);
	if(!q.before.empty()) { c.label("appended stream"); }
	return q;
}

// frames of the stream must be a subsequence of the attempts holding every reported one
static void verify(const script& q, const QString& name, const shared* sh, const std::string& id, bool inflight_only)
{
	std::vector<const mframe*> all;
	std::vector<int> st;
	for(auto& f : q.before) { all.push_back(&f); st.push_back(1); }
	size_t tried = 0;
	for(size_t i = 0; i != q.frames.size(); ++i)
	{
		all.push_back(&q.frames[i]);
		st.push_back(static_cast<int>(sh->ok[i]));
		if(sh->ok[i]) { tried = i + 1; }
	}
	size_t reported = 0;
	for(int x : st) { reported += x == 1; }
	size_t last = q.before.size() + tried + (inflight_only ? 1 : 0);	// frames which may be there
	nbody_data_stream_reader r;
	int rc = r.load(name);
	if(reported > 0) { PBT_CHECK(rc == 0, id << ": " << reported << " frames reported as stored, but the stream does not load"); }
	if(rc != 0) { return; }
	nbody_data d;
	d.resize(q.n);
	size_t pos = 0;
	PBT_CHECK(r.get_body_count() == q.n, id << ": body count " << r.get_body_count());
	for(size_t k = 0; k != r.get_frame_count(); ++k)
	{
		size_t found = all.size();
		int rr = r.seek(k);
		if(rr == 0) { rr = r.read(&d); }
		// which attempt is it
		bool readable = rr == 0;
		if(readable)
		{
			for(size_t a = pos; a < std::min(last, all.size()); ++a) { if(all[a]->step == d.get_step()) { found = a; break; } }
			PBT_CHECK(found != all.size(), id << ": frame " << k << " (step " << d.get_step() << ") of the stream was not written at this place");
			for(size_t a = pos; a != found; ++a) { PBT_CHECK(st[a] != 1, id << ": reported frame with step " << all[a]->step << " is missing"); }
			std::string diff = diff_frame(d, q.n, q.box, q.mass, q.color, *all[found]);
			PBT_CHECK(diff.empty(), id << ": frame with step " << all[found]->step << (st[found] == 1 ? " (reported)" : " (not reported)") << ": " << diff);
			pos = found + 1;
		}
		else
		{
			// an unreadable frame must not be one that was reported
			PBT_CHECK(pos < std::min(last, all.size()) && st[pos] != 1, id << ": frame " << k << " cannot be read");
			++pos;
		}
	}
	for(size_t a = pos; a < all.size(); ++a) { PBT_CHECK(st[a] != 1, id << ": reported frame with step " << all[a]->step << " is missing (" << r.get_frame_count() << " frames there)"); }
}

static shared* new_shared()
{
	static shared* sh = static_cast<shared*>(mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	memset(sh, 0, sizeof *sh);
	return sh;
}

static std::string describe(const script& q)
{
	std::ostringstream o;
	o << "n=" << q.n << " frames " << q.before.size() << "+" << q.frames.size() << " part limit " << q.limit << (q.go_on ? " goes on" : "");
	return o.str();
}

static void resume_after(const script& q, const QString& name, shared* sh, const std::string& id, bool inflight, pbt::source& s)
{
	if(!s.chance(1, 2)) { return; }
	// the disk works again: append to what is there
	nbody_data_stream_reader r;
	if(0 != r.load(name)) { return; }
	std::vector<mframe> had;
	nbody_data d;
	d.resize(q.n);
	size_t cnt = r.get_frame_count();
	std::vector<size_t> steps;
	for(size_t k = 0; k != cnt; ++k)
	{
		if(0 != r.seek(k) || 0 != r.read(&d)) { return; }	// an unreported frame at the end; nothing is promised
		steps.push_back(d.get_step());
	}
	mframe f = q.frames.back();
	{
		nbody_data_stream w;
		PBT_CHECK(0 == w.open(name, q.limit, &r), id << ": cannot append after the fault");
		f.step = 1000;
		dataof(d, q, f);
		PBT_CHECK(0 == w.write(&d), id << ": cannot write after the fault");
		f.step = 1001;
		dataof(d, q, f);
		PBT_CHECK(0 == w.write(&d), id << ": cannot write after the fault");
	}
	nbody_data_stream_reader v;
	PBT_CHECK(0 == v.load(name), id << ": the continued stream does not load");
	PBT_CHECK(v.get_frame_count() == cnt + 2, id << ": the continued stream holds " << v.get_frame_count() << " frames instead of " << cnt + 2);
	for(size_t k = 0; k != cnt + 2; ++k)
	{
		PBT_CHECK(0 == v.read(&d), id << ": frame " << k << " of the continued stream cannot be read");
		size_t want = k < cnt ? steps[k] : 1000 + (k - cnt);
		PBT_CHECK(d.get_step() == want, id << ": frame " << k << " of the continued stream has step " << d.get_step() << " instead of " << want);
		const mframe* src = &f;
		for(auto& x : q.before) { if(k < cnt && x.step == want) { src = &x; } }
		for(auto& x : q.frames) { if(k < cnt && x.step == want) { src = &x; } }
		mframe cp = *src;
		cp.step = want;
		std::string diff = diff_frame(d, q.n, q.box, q.mass, q.color, cp);
		PBT_CHECK(diff.empty(), id << ": frame " << k << " of the continued stream: " << diff);
	}
	(void)sh;
	(void)inflight;
}

static long dry_ops(const script& q, const std::string& dir, const QString& name)
{
	prepare(q, dir, name);
	shared* sh = new_shared();
	fio::g.reset();
	fio::g.prefix = dir;
	run_script(q, name, sh);
	fio::g.armed = false;
	long k = fio::g.count;
	PBT_CHECK(sh->open_rc == 0, describe(q) << ": open failed on a healthy disk");
	for(size_t i = 0; i != q.frames.size(); ++i) { PBT_CHECK(sh->ok[i] == 1, describe(q) << ": write failed on a healthy disk"); }
	verify(q, name, sh, describe(q) + " on a healthy disk", false);
	return k;
}

static void p_crash(pbt::source& s, pbt::ctx& c)
{
	script q = gen_script(s, c);
	std::string dir = c.workdir + "/f";
	QString name = QString::fromStdString(dir + "/st");
	long ops = dry_ops(q, dir, name);
	if(ops == 0) { c.label("no operation seen"); return; }
	long at = static_cast<long>(s.draw(static_cast<uint64_t>(ops - 1)));
	int mode = static_cast<int>(s.draw(2));
	long part = static_cast<long>(s.draw(200));
	prepare(q, dir, name);
	shared* sh = new_shared();
	fflush(nullptr);
	pid_t pid = fork();
	if(pid == 0)
	{
		fio::g.reset();
		fio::g.prefix = dir;
		fio::g.crash_at = at;
		fio::g.crash_mode = mode;
		fio::g.part = part;
		run_script(q, name, sh);
		_exit(0);
	}
	int status = 0;
	while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	static const char* const mn[] = {"before", "after", "in the middle of"};
	std::ostringstream id;
	id << describe(q) << ", crash " << mn[mode] << " file operation " << at << " of " << ops;
	PBT_CHECK(WIFEXITED(status), id.str() << ": the writer died otherwise");
	verify(q, name, sh, id.str(), true);
	resume_after(q, name, sh, id.str(), true, s);
	if(c.verbose) { c.text << id.str(); }
	c.label(std::string("crash ") + mn[mode]);
	if(WEXITSTATUS(status) == 9) { c.nontrivial(); }
	clean_dir(dir);
}

static void p_fault(pbt::source& s, pbt::ctx& c)
{
	script q = gen_script(s, c);
	std::string dir = c.workdir + "/f";
	QString name = QString::fromStdString(dir + "/st");
	long ops = dry_ops(q, dir, name);
	if(ops == 0) { c.label("no operation seen"); return; }
	prepare(q, dir, name);
	shared* sh = new_shared();
	fio::g.reset();
	fio::g.prefix = dir;
	std::ostringstream id;
	id << describe(q);
	if(s.chance(1, 3))
	{
		long total = static_cast<long>(q.frames.size() * (q.n * 48 + 24) + 60);
		fio::g.budget = s.chance(1, 3) ? static_cast<long>(s.draw(200)) : static_cast<long>(s.draw(static_cast<uint64_t>(total)));
		id << ", " << fio::g.budget << " bytes free";
		c.label("disk full");
	}
	else
	{
		static const int errs[] = {EIO, ENOSPC, EDQUOT, EFBIG};
		fio::g.fault_at = static_cast<long>(s.draw(static_cast<uint64_t>(ops - 1)));
		fio::g.fault_len = s.chance(1, 2) ? 1 : 1000000;
		fio::g.err = errs[s.draw(3)];
		fio::g.part = s.chance(1, 2) ? 0 : static_cast<long>(s.draw(100));
		fio::g.writes_only = s.chance(1, 2);
		if(s.chance(1, 3))
		{
			// a short write, an error for the rest, then all is well again
			fio::g.fault_len = 2 + static_cast<long>(s.draw(1));
			fio::g.part = 1 + static_cast<long>(s.draw(s.chance(1, 2) ? 100 : q.n * 24));
			fio::g.short_first = true;
		}
		id << ", error " << fio::g.err << " at file operation " << fio::g.fault_at << " of " << ops << (fio::g.fault_len > 3 ? " and later" : "") << " part " << fio::g.part << (fio::g.short_first ? " then errors" : "");
		c.label(fio::g.short_first ? "short write" : fio::g.fault_len > 1 ? "lasting error" : "single error");
	}
	run_script(q, name, sh);
	fio::g.armed = false;
	bool hit = fio::g.faults > 0;
	verify(q, name, sh, id.str(), false);
	size_t rep = 0, failed = 0;
	for(size_t i = 0; i != q.frames.size(); ++i) { rep += sh->ok[i] == 1; failed += sh->ok[i] == 2; }
	resume_after(q, name, sh, id.str(), false, s);
	if(c.verbose) { c.text << id.str() << " -> " << rep << " stored, " << failed << " failed"; }
	if(failed || sh->open_rc != 0) { c.label("failure reported"); }
	if(hit) { c.nontrivial(); }
	clean_dir(dir);
}

static void p_save(pbt::source& s, pbt::ctx& c)
{
	std::string dir = c.workdir + "/f";
	clean_dir(dir);
	size_t n = s.chance(1, 5) ? s.draw(400) + 1 : s.size(1, 20);
	nbody_data d;
	for(size_t i = 0; i != n; ++i)
	{
		double x = static_cast<double>(i) / 3;
		d.add_body(nbvertex_t(x, x + 1, x + 2), nbvertex_t(x + 3, x + 4, x + 5), x + 6, nbcolor_t(), x + 7);
	}
	QString name = QString::fromStdString(dir + "/state.txt");
	if(s.chance(1, 2)) { nbody_data old; old.resize(s.draw(30)); old.save(name); }
	fio::g.reset();
	fio::g.prefix = dir;
	std::ostringstream id;
	id << "saving " << n << " bodies";
	if(s.chance(1, 2))
	{
		fio::g.budget = static_cast<long>(s.draw(n * 210));
		id << ", " << fio::g.budget << " bytes free";
	}
	else
	{
		fio::g.fault_at = static_cast<long>(s.draw(n * 200 / 16384 + 3));
		fio::g.fault_len = s.chance(1, 2) ? 1 : 1000000;
		fio::g.err = s.chance(1, 2) ? EIO : ENOSPC;
		fio::g.part = s.chance(1, 2) ? 0 : static_cast<long>(s.draw(20000));
		id << ", error at file operation " << fio::g.fault_at << (fio::g.fault_len > 1 ? " and later" : "") << " part " << fio::g.part;
	}
	fio::g.armed = true;
	bool ok = d.save(name);
	fio::g.armed = false;
	bool hit = fio::g.faults > 0;
	if(ok)
	{
		nbody_data l;
		PBT_CHECK(l.load(name), id.str() << ": saving reported success, loading fails");
		PBT_CHECK(l.get_count() == n, id.str() << ": saving reported success, the file holds " << l.get_count() << " of " << n << " bodies");
		PBT_CHECK(l.is_equal(d), id.str() << ": saving reported success, the file holds another state");
	}
	else { PBT_CHECK(hit, id.str() << ": failure reported without a fault"); c.label("failure reported"); }
	if(c.verbose) { c.text << id.str() << " -> " << (ok ? "success" : "failure"); }
	if(hit) { c.nontrivial(); }
	clean_dir(dir);
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"crash", p_crash, 20000, 500000, 0, 60, false}, {"fault", p_fault, 50000, 1500000, 0, 60, false}, {"save", p_save, 12000, 400000, 0, 60, false}}).main(argc, argv);
}
