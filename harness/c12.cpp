// C12: streams give back every frame; stateful model of writers, readers and stream files
#include "common.h"
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"
#include "stream_util.h"
#include <unistd.h>

struct mstream
{
	bool				exists, fresh;	// index file there; nothing written since opening
	size_t				n, box;
	std::vector<double>	mass;
	std::vector<float>	color;
	std::vector<mframe>	frames;
	std::vector<qint64>	parts;			// expected sizes
	int					gen;			// changes whenever the stream is started anew
	mstream() : exists(false), fresh(true), n(0), box(0), gen(0) {}
};

struct mwriter
{
	std::unique_ptr<nbody_data_stream>	w;
	int		stream;		// -1 closed
	qint64	limit;
	size_t	part;
	mwriter() : w(new nbody_data_stream), stream(-1), limit(0), part(0) {}
};

struct mreader
{
	std::unique_ptr<nbody_data_stream_reader>	r;
	int						stream;		// -1: nothing loaded
	int						gen;
	std::vector<mframe>		frames;		// as loaded
	size_t					pos;		// == frames.size(): behind the last frame
	size_t					n, box;
	mreader() : r(new nbody_data_stream_reader), stream(-1), gen(0), pos(0), n(0), box(0) {}
};

static void p_history(pbt::source& s, pbt::ctx& c)
{
	clean_dir(c.workdir);
	const char* const names[] = {"x", "deep/er/y", "with space-\xc3\xa9.z"};
	const size_t NS = 3;
	mstream st[NS];
	mwriter wr[2];
	mreader rd[2];
	std::ostringstream log;
	size_t frames_total = 0, reads = 0, seeks = 0, appends = 0, reuse = 0, splits = 0;
	auto path = [&](int k) { return c.workdir + "/" + names[k]; };
	auto qpath = [&](int k) { return QString::fromUtf8(path(k).c_str()); };
	int last_stream_of_writer[2] = {-1, -1}, last_stream_of_reader[2] = {-1, -1};

	auto new_header = [&](mstream & m)
	{
		m.n = s.chance(1, 60) ? 300 + s.draw(1500) : s.size(1, c.thorough() ? 60 : 20);	// rarely frames larger than any buffer
		m.box = s.chance(1, 4) ? static_cast<size_t>(s.draw(1ull << 62)) + 1 : 1 + s.draw(999);
		m.mass.clear();
		m.color.clear();
		double mb = s.any_finite(), cb = s.unit();
		for(size_t i = 0; i != m.n; ++i) { m.mass.push_back(m.n > 200 ? mb / static_cast<double>(i + 1) : s.any_finite()); }
		for(size_t i = 0; i != 4 * m.n; ++i) { m.color.push_back(static_cast<float>(m.n > 200 ? cb / static_cast<double>(i + 1) : s.unit())); }
	};
	auto limit = [&](size_t n) -> qint64
	{
		qint64 fs = static_cast<qint64>(n * 48);
		switch(s.draw(5))
		{
		case 0: return s.chance(1, 2) ? 1 << 30 : (s.chance(1, 2) ? 1ll << 32 : 1ll << 31) + static_cast<qint64>(s.draw(2)) * fs;
		case 1: return 1;
		case 2: return fs * static_cast<qint64>(1 + s.draw(3));
		case 3: return fs * static_cast<qint64>(1 + s.draw(3)) + static_cast<qint64>(s.range(-1, 1));
		case 4: return s.chance(1, 2) ? 0 : -5;
		default: return static_cast<qint64>(1 + s.draw(5000));
		}
	};
	auto busy = [&](int k, int but) { for(int q = 0; q != 2; ++q) { if(q != but && wr[q].stream == k) { return true; } } return false; };

	// mostly something that can do something
	auto pick_writer = [&]() { int w = static_cast<int>(s.draw(1)); return wr[w].stream < 0 && wr[1 - w].stream >= 0 && !s.chance(1, 6) ? 1 - w : w; };
	auto pick_reader = [&]() { int r = static_cast<int>(s.draw(1)); return rd[r].stream < 0 && rd[1 - r].stream >= 0 && !s.chance(1, 6) ? 1 - r : r; };
	auto pick_stream = [&]()
	{
		int k = static_cast<int>(s.draw(NS - 1));
		for(int q = 0; q != 2 && st[k].frames.empty() && !s.chance(1, 8); ++q) { k = (k + 1) % static_cast<int>(NS); }
		return k;
	};
	size_t ops = 3 + s.draw(c.thorough() ? 120 : 45);
	for(size_t op = 0; op != ops; ++op)
	{
		switch(op == 0 ? 0 : op == 1 ? 1 : s.draw(13))
		{
		case 0:	// open
		{
			int w = static_cast<int>(s.draw(1)), k = static_cast<int>(s.draw(NS - 1));
			if(busy(k, w)) { break; }
			mstream& m = st[k];
			new_header(m);
			m.exists = true;
			m.fresh = true;
			m.frames.clear();
			m.parts.assign(1, 0);
			++m.gen;
			wr[w].limit = limit(m.n);
			wr[w].part = 0;
			if(last_stream_of_writer[w] != -1) { ++reuse; }
			last_stream_of_writer[w] = k;
			log << "open w" << w << " s" << k << " limit " << wr[w].limit << " n " << m.n << "; ";
			PBT_CHECK(0 == wr[w].w->open(qpath(k), wr[w].limit), log.str() << "open failed");
			wr[w].stream = k;
			break;
		}
		case 1: case 2: case 3: case 4: case 5:	// write
		{
			int w = pick_writer();
			if(wr[w].stream < 0)
			{
				nbody_data d;
				d.resize(1);
				PBT_CHECK(0 != wr[w].w->write(&d), log.str() << "w" << w << " wrote without an open stream");
				break;
			}
			mstream& m = st[wr[w].stream];
			size_t many = s.chance(1, 6) ? 1 + s.draw(11) : 1;
			if(m.n <= 4 && s.chance(1, 300)) { many = 60 + s.draw(1000); c.label("hundreds of frames"); }
			for(size_t q = 0; q != many; ++q)
			{
				mframe f = gen_frame(s, m.n);
				if(!m.frames.empty() && s.chance(1, 8))	// the same moment once more
				{
					f.t = m.frames.back().t;
					f.step = m.frames.back().step;
				}
				nbody_data d;
				fill_data(d, m.n, m.box, m.mass, m.color, f);
				if(wr[w].limit > 0 && m.parts[wr[w].part] >= wr[w].limit)
				{
					++wr[w].part;
					if(m.parts.size() <= wr[w].part) { m.parts.resize(wr[w].part + 1); }
					m.parts[wr[w].part] = 0;
					++splits;
				}
				m.parts[wr[w].part] += static_cast<qint64>(m.n * 48);
				log << "write w" << w << " t " << num(f.t) << " step " << f.step << "; ";
				PBT_CHECK(0 == wr[w].w->write(&d), log.str() << "write failed");
				m.frames.push_back(f);
				m.fresh = false;
				++frames_total;
			}
			break;
		}
		case 6:	// close or replace the writer
		{
			int w = static_cast<int>(s.draw(1));
			bool drop = s.chance(1, 3);
			log << (drop ? "drop w" : "close w") << w << "; ";
			if(drop) { wr[w].w.reset(new nbody_data_stream); last_stream_of_writer[w] = -1; }
			else { wr[w].w->close(); }
			wr[w].stream = -1;
			break;
		}
		case 7:	// append
		{
			int w = static_cast<int>(s.draw(1)), k = pick_stream();
			if(busy(k, w) || st[k].frames.empty()) { break; }
			if(wr[w].stream == k && s.chance(1, 2)) { wr[w].w->close(); }
			nbody_data_stream_reader	own;
			wr[w].limit = limit(st[k].n);
			log << "append w" << w << " s" << k << " limit " << wr[w].limit << "; ";
			PBT_CHECK(0 == own.load(qpath(k)), log.str() << "load for append failed");
			PBT_CHECK(0 == wr[w].w->open(qpath(k), wr[w].limit, &own), log.str() << "append failed");
			wr[w].stream = k;
			wr[w].part = st[k].parts.size() - 1;
			last_stream_of_writer[w] = k;
			++appends;
			break;
		}
		case 8: case 9:	// load
		{
			int r = static_cast<int>(s.draw(1)), k = pick_stream();
			mstream& m = st[k];
			log << "load r" << r << " s" << k << "; ";
			int rc = rd[r].r->load(qpath(k));
			if(last_stream_of_reader[r] != -1) { ++reuse; }
			last_stream_of_reader[r] = k;
			bool want = !m.frames.empty();
			PBT_CHECK((rc == 0) == want, log.str() << "load returned " << rc << (want ? "" : " for a stream without frames"));
			rd[r].stream = want ? k : -1;
			rd[r].gen = m.gen;
			rd[r].frames = want ? m.frames : std::vector<mframe>();
			rd[r].pos = 0;
			rd[r].n = m.n;
			rd[r].box = m.box;
			if(!want) { break; }
			nbody_data_stream_reader& q = *rd[r].r;
			PBT_CHECK(q.get_frame_count() == m.frames.size(), log.str() << "frame count " << q.get_frame_count() << ", written " << m.frames.size());
			PBT_CHECK(q.get_body_count() == m.n && q.get_coord_size() == sizeof(nbcoord_t), log.str() << "header body count " << q.get_body_count() << " coord size " << q.get_coord_size() << ", written " << m.n);
			PBT_CHECK(q.get_box_size() == static_cast<nbcoord_t>(m.box), log.str() << "header box " << q.get_box_size() << ", written " << m.box);
			PBT_CHECK(q.get_steps_count() == m.frames.back().step, log.str() << "steps count " << q.get_steps_count());
			PBT_CHECK(same_time(q.get_max_time(), m.frames.back().t), log.str() << "max time " << q.get_max_time() << ", written " << m.frames.back().t);
			PBT_CHECK(q.get_current_frame() == 0, log.str() << "current frame after load " << q.get_current_frame());
			PBT_CHECK(q.get_last_file_n() == m.parts.size() - 1, log.str() << "last part " << q.get_last_file_n() << ", expected " << m.parts.size() - 1);
			for(size_t p = 0; p != m.parts.size(); ++p)
			{
				QFileInfo fi(QString::fromUtf8((path(k) + std::to_string(p) + ".dat").c_str()));
				PBT_CHECK(fi.size() == m.parts[p], log.str() << "part " << p << " holds " << fi.size() << " bytes, expected " << m.parts[p]);
			}
			break;
		}
		case 10:	// seek
		{
			int r = pick_reader();
			if(rd[r].stream >= 0 && rd[r].gen != st[rd[r].stream].gen) { break; }
			size_t cnt = rd[r].frames.size();
			size_t f;
			switch(s.draw(4))
			{
			case 0: f = s.draw(cnt + 2); break;
			case 1: f = rd[r].pos; break;
			case 2: f = cnt - 1; break;
			default: f = cnt ? s.draw(cnt - 1) : 0;
			}
			log << "seek r" << r << " " << f << "; ";
			int rc = rd[r].r->seek(f);
			PBT_CHECK((rc == 0) == (f < cnt), log.str() << "seek to frame " << f << " of " << cnt << " returned " << rc);
			if(rc == 0)
			{
				rd[r].pos = f;
				++seeks;
				PBT_CHECK(rd[r].r->get_current_frame() == f, log.str() << "current frame " << rd[r].r->get_current_frame());
			}
			break;
		}
		case 11: case 12:	// read
		{
			int r = pick_reader();
			if(rd[r].stream >= 0 && rd[r].gen != st[rd[r].stream].gen) { break; }
			size_t times = s.chance(1, 3) ? rd[r].frames.size() + 1 : 1;
			for(size_t q = 0; q != times; ++q)
			{
				bool wrong = s.chance(1, 10);
				nbody_data d;
				d.resize(rd[r].n + (wrong ? 1 : 0));
				if(s.chance(1, 2))	// into a state that held something else before
				{
					d.set_time(-3);
					d.set_step(77);
					d.set_box_size(1 + static_cast<nbcoord_t>(s.draw(2)));
					for(size_t i = 0; i != d.get_count(); ++i) { d.get_mass()[i] = 3; d.get_vertites()[i] = nbvertex_t(1, 2, 3); d.get_color()[i] = nbcolor_t(1, 0, 1, 0); }
				}
				log << "read r" << r << (wrong ? " other size; " : "; ");
				int rc = rd[r].r->read(&d);
				bool want = !wrong && rd[r].pos < rd[r].frames.size();
				PBT_CHECK((rc == 0) == want, log.str() << "read at frame " << rd[r].pos << " of " << rd[r].frames.size() << " returned " << rc);
				if(want)
				{
					const mstream& m = st[rd[r].stream];
					std::string diff = diff_frame(d, m.n, m.box, m.mass, m.color, rd[r].frames[rd[r].pos]);
					PBT_CHECK(diff.empty(), log.str() << "frame " << rd[r].pos << " of stream " << rd[r].stream << ": " << diff);
					++rd[r].pos;
					if(rd[r].pos < rd[r].frames.size())
					{
						PBT_CHECK(rd[r].r->get_current_frame() == rd[r].pos, log.str() << "current frame " << rd[r].r->get_current_frame());
					}
					++reads;
				}
			}
			break;
		}
		case 13:
		{
			int r = static_cast<int>(s.draw(1));
			log << "close r" << r << "; ";
			rd[r].r->close();
			rd[r].stream = -1;
			rd[r].frames.clear();
			rd[r].pos = 0;
			PBT_CHECK(rd[r].r->get_frame_count() == 0 && 0 != rd[r].r->seek(0), log.str() << "a closed reader still has frames");
			break;
		}
		}
	}
	// everything stored must be there in the end, with a fresh reader
	for(int k = 0; k != static_cast<int>(NS); ++k)
	{
		mstream& m = st[k];
		if(m.frames.empty()) { continue; }
		nbody_data_stream_reader r;
		PBT_CHECK(0 == r.load(qpath(k)) && r.get_frame_count() == m.frames.size(), log.str() << "stream " << k << " at the end: frame count " << r.get_frame_count() << ", written " << m.frames.size());
		nbody_data d;
		d.resize(m.n);
		bool backward = s.chance(1, 2);
		for(size_t q = 0; q != m.frames.size(); ++q)
		{
			size_t f = backward ? m.frames.size() - 1 - q : q;
			if(backward) { PBT_CHECK(0 == r.seek(f), log.str() << "seek " << f); }
			PBT_CHECK(0 == r.read(&d), log.str() << "read of frame " << f << " at the end");
			std::string diff = diff_frame(d, m.n, m.box, m.mass, m.color, m.frames[f]);
			PBT_CHECK(diff.empty(), log.str() << "frame " << f << " of stream " << k << " at the end: " << diff);
		}
	}
	if(c.verbose) { c.text << log.str(); }
	if(splits) { c.label("part splits"); }
	if(appends) { c.label("append"); }
	if(reuse) { c.label("object used for several streams"); }
	if(seeks > 1) { c.label("several seeks"); }
	if(frames_total > 1 && reads > 1) { c.nontrivial(); }
	clean_dir(c.workdir);
}

// parts of several gigabytes (sparse files: the unused bytes in the middle are what a crash between data and index leaves)
static void p_large(pbt::source& s, pbt::ctx& c)
{
	clean_dir(c.workdir);
	std::string base = c.workdir + "/big";
	QString qbase = QString::fromStdString(base);
	size_t n = s.size(1, 6), box = 1 + s.draw(99);
	std::vector<double> mass;
	std::vector<float> color;
	for(size_t i = 0; i != n; ++i) { mass.push_back(s.number(10)); }
	for(size_t i = 0; i != 4 * n; ++i) { color.push_back(static_cast<float>(s.unit())); }
	std::vector<mframe> frames;
	size_t part = 0;
	qint64 size = 0;
	auto put = [&](nbody_data_stream& w, qint64 limit)
	{
		frames.push_back(gen_frame(s, n));
		nbody_data d;
		fill_data(d, n, box, mass, color, frames.back());
		PBT_CHECK(w.write(&d) == 0, "frame " << frames.size() - 1 << " refused");
		if(limit > 0 && size >= limit) { ++part; size = 0; }
		size += static_cast<qint64>(48 * n);
	};
	{
		nbody_data_stream w;
		PBT_CHECK(w.open(qbase, 0) == 0, "open failed");
		for(size_t k = 1 + s.draw(2); k; --k) { put(w, 0); }
		w.close();
	}
	size_t rounds = 1 + s.draw(1);
	for(size_t r = 0; r != rounds; ++r)
	{
		static const qint64 steps[] = {1ll << 31, 1ll << 32, (1ll << 32) + (1ll << 31), 1ll << 33};
		qint64 to = steps[s.draw(3)] + s.range(-200, 200);
		std::string fn = nbody_data_stream::make_dat_name(qbase, part).toStdString();
		if(to > size)
		{
			if(truncate(fn.c_str(), to) != 0) { throw pbt::discard(); }	// no large files here
			size = to;
		}
		qint64 limit = 0;
		switch(s.draw(2))
		{
		case 0: limit = to - static_cast<qint64>(s.draw(100)); break;
		case 1: limit = to + static_cast<qint64>(1 + s.draw(300)); break;
		default: break;
		}
		c.text << "part " << part << " of " << size << " bytes, limit " << limit << "; ";
		nbody_data_stream_reader rd;
		PBT_CHECK(rd.load(qbase) == 0, c.text.str() << "load failed");
		nbody_data_stream w;
		PBT_CHECK(w.open(qbase, limit, &rd) == 0, c.text.str() << "append failed");
		rd.close();
		for(size_t k = 1 + s.draw(4); k; --k)
		{
			put(w, limit);
			PBT_CHECK(QFileInfo(nbody_data_stream::make_dat_name(qbase, part)).size() == size && !QFileInfo(nbody_data_stream::make_dat_name(qbase, part + 1)).exists(),
					  c.text.str() << "after frame " << frames.size() - 1 << " part " << part << " has " << QFileInfo(nbody_data_stream::make_dat_name(qbase, part)).size() << " bytes instead of " << size);
		}
		w.close();
	}
	nbody_data_stream_reader rd;
	PBT_CHECK(rd.load(qbase) == 0 && rd.get_frame_count() == frames.size(), c.text.str() << "load found " << rd.get_frame_count() << " of " << frames.size() << " frames");
	nbody_data d;
	d.resize(n);
	for(size_t k = 0; k != 2 * frames.size(); ++k)
	{
		size_t f = k < frames.size() ? k : static_cast<size_t>(s.draw(frames.size() - 1));
		if(k >= frames.size()) { PBT_CHECK(rd.seek(f) == 0, c.text.str() << "seek to frame " << f << " failed"); }
		PBT_CHECK(rd.read(&d) == 0, c.text.str() << "frame " << f << " cannot be read");
		std::string e = diff_frame(d, n, box, mass, color, frames[f]);
		PBT_CHECK(e.empty(), c.text.str() << "frame " << f << ": " << e);
	}
	rd.close();
	clean_dir(c.workdir);
	c.nontrivial();
	c.label(part ? "several parts" : "one part");
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"history", p_history, 60000, 2000000, 0, 60, false}, {"large", p_large, 300, 5000, 0, 60, false}}).main(argc, argv);
}
