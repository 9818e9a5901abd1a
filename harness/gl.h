// a software OpenGL (Mesa llvmpipe through EGL) for the player's view; no window system is needed
#ifndef VERIF_GL_H
#define VERIF_GL_H
#include <QApplication>
#include <QDir>
#include <EGL/egl.h>
#include <dlfcn.h>
#include <vector>
#include <signal.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "pbt.h"

extern "C" EGLSurface eglCreateWindowSurface(EGLDisplay d, EGLConfig c, EGLNativeWindowType, const EGLint*)
{
	EGLint a[] = {EGL_WIDTH, 320, EGL_HEIGHT, 240, EGL_NONE};
	return eglCreatePbufferSurface(d, c, a);
}

extern "C" EGLBoolean eglChooseConfig(EGLDisplay d, const EGLint* a, EGLConfig* c, EGLint n, EGLint* r)
{
	static auto g = reinterpret_cast<EGLBoolean(*)(EGLDisplay, const EGLint*, EGLConfig*, EGLint, EGLint*)>(dlsym(RTLD_NEXT, "eglChooseConfig"));
	std::vector<EGLint> b;
	for(; a && *a != EGL_NONE; a += 2)
	{
		b.push_back(a[0]);
		b.push_back(a[0] == EGL_SURFACE_TYPE ? EGL_PBUFFER_BIT : a[1]);
	}
	b.push_back(EGL_NONE);
	return g(d, b.data(), c, n, r);
}

// Each case in a process of its own: the platform plugin keeps state that a destroyed window leaves dangling.
template<pbt::prop_fn F> void isolated(pbt::source& s, pbt::ctx& c)
{
	int fd[2];
	if(pipe(fd) != 0) { throw std::runtime_error("pipe"); }
	pid_t pid = fork();
	if(pid < 0) { throw std::runtime_error("fork"); }
	if(pid == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		close(fd[0]);
		std::string msg;
		char st = 'o';
		try { F(s, c); }
		catch(const pbt::failure& f) { st = 'f'; msg = f.msg; }
		catch(const pbt::discard&) { st = 'd'; }
		catch(const std::exception& e) { st = 'f'; msg = std::string("uncaught exception: ") + e.what(); }
		std::string o;
		auto num = [&](uint64_t v) { o.append(reinterpret_cast<const char*>(&v), 8); };
		auto str = [&](const std::string& v) { num(v.size()); o += v; };
		o += st;
		o += c.nontriv ? 'n' : 't';
		str(msg);
		str(c.text.str());
		num(c.labels.size());
		for(auto& l : c.labels) { str(l.first); num(l.second); }
		num(s.pos);
		num(s.ch.size());
		for(uint64_t v : s.ch) { num(v); }
		o += 'E';
		for(size_t k = 0; k < o.size();)
		{
			ssize_t w = write(fd[1], o.data() + k, o.size() - k);
			if(w <= 0) { _exit(1); }
			k += static_cast<size_t>(w);
		}
		_exit(0);
	}
	close(fd[1]);
	std::string in;
	char buf[65536];
	for(;;)
	{
		ssize_t r = read(fd[0], buf, sizeof(buf));
		if(r < 0 && errno == EINTR) { continue; }
		if(r <= 0) { break; }
		in.append(buf, static_cast<size_t>(r));
	}
	close(fd[0]);
	int rc = 0;
	while(waitpid(pid, &rc, 0) < 0 && errno == EINTR) {}
	if(in.empty() || in.back() != 'E')
	{
		if(s.sl)
		{
			s.ch.assign(s.sl->choices, s.sl->choices + s.sl->n);
			s.pos = s.ch.size();
		}
		std::ostringstream o;
		if(WIFSIGNALED(rc)) { o << "killed by signal " << WTERMSIG(rc) << " (" << strsignal(WTERMSIG(rc)) << ")"; }
		else { o << "the process ended with status " << WEXITSTATUS(rc); }
		throw pbt::failure{o.str()};
	}
	size_t at = 2;
	auto num = [&]() { uint64_t v; memcpy(&v, in.data() + at, 8); at += 8; return v; };
	auto str = [&]() { uint64_t n = num(); std::string v = in.substr(at, n); at += n; return v; };
	std::string msg = str();
	c.text << str();
	for(uint64_t k = num(); k; --k) { std::string l = str(); c.labels[l] += num(); }
	s.pos = num();
	s.ch.resize(num());
	for(auto& v : s.ch) { v = num(); }
	if(in[1] == 'n') { c.nontrivial(); }
	if(in[0] == 'f') { throw pbt::failure{msg}; }
	if(in[0] == 'd') { throw pbt::discard(); }
}

inline void gl_env(const std::string& workdir, int width, int height)
{
	qputenv("EGL_PLATFORM", "surfaceless");
	qputenv("LIBGL_ALWAYS_SOFTWARE", "1");
	qputenv("LP_NUM_THREADS", "0");
	qputenv("QT_QPA_PLATFORM", "eglfs");
	qputenv("QT_QPA_EGLFS_INTEGRATION", "none");
	qputenv("QT_QPA_EGLFS_FB", "/dev/null");
	qputenv("QT_QPA_EGLFS_WIDTH", QByteArray::number(width));
	qputenv("QT_QPA_EGLFS_HEIGHT", QByteArray::number(height));
	qputenv("QT_QPA_EGLFS_PHYSICAL_WIDTH", "400");
	qputenv("QT_QPA_EGLFS_PHYSICAL_HEIGHT", "300");
	qputenv("QT_QPA_EGLFS_DISABLE_INPUT", "1");
	qputenv("QT_QPA_EGLFS_HIDECURSOR", "1");
	qputenv("QT_QPA_ENABLE_TERMINAL_KEYBOARD", "1");
	qputenv("XDG_RUNTIME_DIR", QByteArray::fromStdString(workdir));
	qputenv("MESA_SHADER_CACHE_DISABLE", "true");
	qputenv("HOME", QByteArray::fromStdString(workdir));
}

inline QApplication* gl_app(const std::string& workdir, int width = 1600, int height = 1200)
{
	static QApplication* a = nullptr;
	if(!a)
	{
		gl_env(workdir, width, height);
		static int argc = 1;
		static char name[] = "c29";
		static char* argv[] = {name, nullptr};
		a = new QApplication(argc, argv);
	}
	return a;
}
#endif
