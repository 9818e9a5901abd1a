// C23: image recorder and playback control
#include "common.h"
#include <QApplication>
#include <QSlider>
#include <QLabel>
#include <QAction>
#include <QDir>
#include <QImage>
#include <QPropertyAnimation>
#include <QSpinBox>
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"
#include "nbody_frame_compressor_image.h"
#include "wgt_nbody_player_control.h"

static QApplication* app()
{
	static int argc = 1;
	static char name[] = "c23";
	static char* argv[] = {name, nullptr};
	static QApplication* a = new QApplication(argc, argv);	// one per process, made after the fork
	return a;
}

static void wipe(const std::string& d)
{
	QDir(QString::fromStdString(d)).removeRecursively();
}

static QImage gen_image(pbt::source& s)
{
	static const QImage::Format fmts[] = {QImage::Format_ARGB32, QImage::Format_RGB32, QImage::Format_RGB888, QImage::Format_ARGB32_Premultiplied};
	int w = static_cast<int>(s.range(1, 40)), h = static_cast<int>(s.range(1, 40));
	if(s.chance(1, 20)) { w = 320; h = 240; }
	QImage img(w, h, fmts[s.draw(3)]);
	uint64_t seed = s.draw(UINT64_MAX);
	bool noise = s.chance(1, 2);
	for(int y = 0; y != h; ++y)
	{
		for(int x = 0; x != w; ++x)
		{
			uint64_t v = noise ? pbt::mix(seed + static_cast<uint64_t>(y * w + x)) : seed;
			img.setPixel(x, y, static_cast<QRgb>(v) | 0xff000000u);	// opaque: no rounding by premultiplication
		}
	}
	return img;
}

static void recorder(pbt::source& s, pbt::ctx& c)
{
	app();
	std::string root = c.workdir + "/rec";
	wipe(root);
	QDir().mkpath(QString::fromStdString(root));
	static const std::vector<std::string> names{"video", "a/b/c", "with space", "\xd0\xba\xd0\xb0\xd0\xb4\xd1\x80", "100%", "take%1", "%2", "x.png", "%08d"};
	size_t dests = static_cast<size_t>(s.range(1, 2));
	std::vector<std::map<size_t, QImage>> want(dests);
	std::vector<std::string> dirs;
	size_t total = 0;
	{
		std::unique_ptr<nbody_frame_compressor> rec(new nbody_frame_compressor_image);
		if(s.chance(1, 8))
		{
			// a destination that cannot be a folder
			std::string f = root + "/file";
			std::ofstream(f) << "x";
			PBT_CHECK(!rec->set_destination(QString::fromStdString(f + "/sub")), "a folder below a file was accepted as destination");
			c.label("destination refused");
		}
		for(size_t k = 0; k != dests; ++k)
		{
			std::string d = root + "/" + std::to_string(k) + "-" + s.pick(names);
			dirs.push_back(d);
			PBT_CHECK(rec->set_destination(QString::fromUtf8(d.c_str())), "destination " << d << " refused");
			size_t frames = s.size(0, 60);
			uint64_t order = s.draw(3);
			QImage canvas(8, 8, QImage::Format_ARGB32);
			c.text << d.substr(root.size()) << ": " << frames << " frames, order " << order << "; ";
			for(size_t i = 0; i != frames; ++i)
			{
				size_t n = order == 0 ? i : order == 1 ? frames - i : order == 2 ? (i * 7919) % 100003 : static_cast<size_t>(s.draw(4000000000ull));
				if(want[k].count(n)) { continue; }
				if(s.chance(1, 6))
				{
					// the caller draws the next picture in the same image
					canvas.fill(static_cast<QRgb>(s.draw(0xffffff)) | 0xff000000u);
					want[k][n] = canvas.copy();
					rec->push_frame(canvas, n);
					canvas.setPixel(0, 0, 0xff123456u);
					continue;
				}
				QImage img = gen_image(s);
				want[k][n] = img.copy();
				rec->push_frame(img, n);
			}
			total += want[k].size();
		}
	}
	for(size_t k = 0; k != dests; ++k)
	{
		QDir dir(QString::fromUtf8(dirs[k].c_str()));
		QStringList files = dir.entryList(QDir::Files | QDir::Hidden);
		PBT_CHECK(static_cast<size_t>(files.size()) == want[k].size(), "folder " << dirs[k].substr(root.size()) << " holds " << files.size() << " files after " << want[k].size() << " frames");
		for(auto& w : want[k])
		{
			QString fn = QString("%1.png").arg(w.first, 8, 10, QChar('0'));
			PBT_CHECK(files.contains(fn), "frame " << w.first << " is missing");
			QImage got;
			PBT_CHECK(got.load(dir.filePath(fn), "PNG"), "frame " << w.first << " cannot be decoded");
			PBT_CHECK(got.size() == w.second.size(), "frame " << w.first << " has another size");
			PBT_CHECK(got.convertToFormat(QImage::Format_ARGB32) == w.second.convertToFormat(QImage::Format_ARGB32), "frame " << w.first << " has other pixels");
		}
	}
	wipe(root);
	if(total >= 3) { c.nontrivial(); }
	c.label(total > 16 ? "many frames" : "few frames");
}

static void control(pbt::source& s, pbt::ctx& c)
{
	app();
	std::string root = c.workdir + "/ctl";
	wipe(root);
	QDir().mkpath(QString::fromStdString(root));
	QString name = QString::fromStdString(root + "/s");
	size_t frames = s.size(1, 60);
	{
		nbody_data d;
		bodies b = gen_bodies(s, c, 1, 10, false);
		b.fill(d);
		d.set_box_size(10);
		nbody_data_stream st;
		PBT_CHECK(st.open(name, s.chance(1, 2) ? 100 : 1 << 20) == 0, "stream not opened");
		for(size_t k = 0; k != frames; ++k)
		{
			d.set_step(k);
			d.set_time(static_cast<double>(k));
			PBT_CHECK(st.write(&d) == 0, "write failed");
		}
		st.close();
	}
	nbody_data_stream_reader rd;
	PBT_CHECK(rd.load(name) == 0 && rd.get_frame_count() == frames, "stream not loaded");
	wgt_nbody_player_control w(nullptr, &rd);
	QSlider* line = nullptr;
	for(QSlider* q : w.findChildren<QSlider*>()) { if(q->toolTip() == "Timeline") { line = q; } }
	PBT_CHECK(line != nullptr, "no timeline");
	QPropertyAnimation* anim = w.findChild<QPropertyAnimation*>();
	PBT_CHECK(anim != nullptr, "no animation");
	std::map<std::string, QAction*> act;
	for(QAction* a : w.findChildren<QAction*>()) { act[a->text().toStdString()] = a; }
	const int last = static_cast<int>(frames) - 1;
	PBT_CHECK(line->minimum() == 0 && line->maximum() == last, "the timeline covers " << line->minimum() << ".." << line->maximum() << " for " << frames << " frames");
	size_t seen = w.get_current_frame(), announced = 0, recorded = 0;
	bool stale = false;
	QObject::connect(&w, &wgt_nbody_player_control::frame_number_updated, [&]()
	{
		++announced;
		size_t f = w.get_current_frame();
		if(f >= frames) { stale = true; }
		else
		{
			// what the player does on this signal
			nbody_data d;
			d.resize(rd.get_body_count());
			if(rd.seek(f) != 0 || rd.read(&d) != 0 || d.get_step() != f) { stale = true; }
		}
		seen = f;
	});
	QObject::connect(&w, &wgt_nbody_player_control::start_record, [&]() { ++recorded; });
	PBT_CHECK(w.get_current_frame() == 0, "the first frame shown is " << w.get_current_frame());
	size_t ops = s.size(1, 25), moved = 0;
	c.text << frames << " frames:";
	// model of the animation: position in milliseconds
	bool running = false, paused = false;
	for(size_t k = 0; k != ops; ++k)
	{
		size_t before = w.get_current_frame();
		announced = 0;
		long expect = -1;
		switch(s.draw(8))
		{
		case 0:
			c.text << " start";
			if(act.count("Start") && act["Start"]->isEnabled() && s.chance(1, 2)) { act["Start"]->trigger(); }
			else { w.on_start(); }
			running = true;
			if(!paused) { expect = -2; }	// plays from the beginning
			paused = false;
			break;
		case 1:
			c.text << " pause";
			if(running) { w.on_pause(); paused = true; running = false; expect = static_cast<long>(before); }
			break;
		case 2:
			c.text << " backward";
			w.on_backward();
			expect = 0;
			break;
		case 3:
			c.text << " stop";
			w.on_stop();
			running = paused = false;
			expect = 0;
			break;
		case 4:
			c.text << " forward";
			w.on_forward();
			expect = last;
			if(running || paused) { running = anim->state() == QAbstractAnimation::Running; paused = anim->state() == QAbstractAnimation::Paused; }
			break;
		case 5:
		{
			int v = static_cast<int>(s.range(0, last));
			c.text << " move " << v;
			line->setSliderDown(true);
			line->setSliderPosition(v);
			line->setSliderDown(false);
			expect = v;
			break;
		}
		case 6:
		{
			int v = static_cast<int>(s.range(-100, last + 100));
			c.text << " value " << v;
			line->setValue(v);
			expect = std::max(0, std::min(last, v));
			break;
		}
		case 7:
		{
			// time passes
			if(running)
			{
				int t = static_cast<int>(s.range(0, anim->duration()));
				c.text << " time " << t;
				anim->setCurrentTime(t);
				if(t < anim->duration()) { expect = -3 - t; }
				else { expect = last; running = anim->state() == QAbstractAnimation::Running; }
			}
			break;
		}
		default:
			c.text << " events";
			QCoreApplication::processEvents();
			break;
		}
		size_t now = w.get_current_frame();
		PBT_CHECK(now < frames, "frame " << now << " does not exist");
		PBT_CHECK(!stale, "a change was announced with a frame that cannot be read");
		if(now != before)
		{
			++moved;
			PBT_CHECK(announced > 0 && seen == now, "frame " << now << " was not announced after " << before);
			PBT_CHECK(w.findChildren<QLabel*>().isEmpty() || [&]() { for(QLabel* l : w.findChildren<QLabel*>()) { if(l->text() == QString("F%1").arg(now, 8, 10, QChar('0'))) { return true; } } return false; }(), "the frame number shown is not " << now);
		}
		if(expect >= 0) { PBT_CHECK(now == static_cast<size_t>(expect), "frame " << now << " instead of " << expect); }
		if(expect <= -3)
		{
			double at = static_cast<double>(-3 - expect) / anim->duration() * last;
			PBT_CHECK(std::fabs(static_cast<double>(now) - at) <= 1.0, "playing: frame " << now << " at the position of frame " << at);
		}
		if(anim->state() == QAbstractAnimation::Running)
		{
			PBT_CHECK(act["Stop"]->isEnabled() && act["Pause"]->isEnabled() && !act["Start"]->isEnabled(), "actions offered while playing");
		}
		else { PBT_CHECK(act["Start"]->isEnabled(), "playing cannot be started"); }
	}
	// playing through reaches the last frame
	if(s.chance(1, 3))
	{
		w.on_stop();
		w.on_start();
		std::set<size_t> visited{w.get_current_frame()};
		int steps = static_cast<int>(std::max<size_t>(frames * 3, 10));
		for(int k = 1; k <= steps; ++k)
		{
			anim->setCurrentTime(static_cast<int>(static_cast<long>(anim->duration()) * k / steps));
			visited.insert(w.get_current_frame());
		}
		PBT_CHECK(visited.size() == frames, "playing through showed " << visited.size() << " of " << frames << " frames");
		PBT_CHECK(w.get_current_frame() == static_cast<size_t>(last) && act["Start"]->isEnabled(), "playing through ended on frame " << w.get_current_frame());
		c.label("played through");
	}
	act["Record*"]->trigger();
	PBT_CHECK(recorded == 1, "recording was announced " << recorded << " times");
	rd.close();
	wipe(root);
	if(moved >= 2) { c.nontrivial(); }
}

int main(int argc, char** argv)
{
	qputenv("QT_QPA_PLATFORM", "offscreen");
	quiet_qt();
	return pbt::runner({{"recorder", recorder, 1500, 40000, 0, 60, false}, {"control", control, 2000, 60000, 0, 60, false}}).main(argc, argv);
}
