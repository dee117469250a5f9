// Common driver of the conformance harnesses.
//
// Protocol: stdin holds cases. A case starts with a line "case <id>" and continues with one
// operation per line (a name and integer/word arguments). The harness executes every operation
// against the real code through its public interface and writes one JSON object per operation to
// the file descriptor 3 (or stdout if fd 3 is closed): the operation, its arguments, and the
// state observed after it. Cases run in forked children; a child that dies yields the event
// {"op":"Crash"} for its case and the remaining cases go on in a new child.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <csignal>

namespace vf {

    struct Case {
        long id;
        std::vector<std::string> ops;
    };

    inline int & out_fd()
    {
        static int fd = 1;
        return fd;
    }

    inline void write_all(const std::string & s)
    {
        const char * p = s.data();
        size_t n = s.size();
        while (n > 0) {
            ssize_t k = ::write(out_fd(), p, n);
            if (k <= 0)
                ::_exit(97);
            p += k;
            n -= static_cast<size_t>(k);
        }
    }

    // a JSON object under construction
    class Event {
        std::string _s = "{";
        bool _first = true;
        void key(const char * k)
        {
            if (!_first)
                _s += ",";
            _first = false;
            _s += "\"";
            _s += k;
            _s += "\":";
        }

      public:
        static std::string str(const std::string & v)
        {
            std::string r = "\"";
            for (char c : v) {
                if (c == '"' || c == '\\') {
                    r += '\\';
                    r += c;
                } else if (static_cast<unsigned char>(c) < 32) {
                    r += ' ';
                } else
                    r += c;
            }
            return r + "\"";
        }
        static std::string val(long v) { return std::to_string(v); }
        static std::string val(int v) { return std::to_string(v); }
        static std::string val(bool v) { return v ? "true" : "false"; }
        static std::string val(size_t v) { return std::to_string(v); }
        static std::string val(const std::string & v) { return str(v); }
        static std::string val(const char * v) { return str(v); }
        template <class T, size_t N>
        static std::string val(const std::array<T, N> & v)
        {
            return val(std::vector<T>(v.begin(), v.end()));
        }
        template <class T>
        static std::string val(const std::vector<T> & v)
        {
            std::string r = "[";
            bool f = true;
            for (size_t i = 0; i < v.size(); ++i) {
                if (!f)
                    r += ",";
                f = false;
                r += val(static_cast<T>(v[i]));
            }
            return r + "]";
        }
        template <class T>
        Event & put(const char * k, const T & v)
        {
            key(k);
            _s += val(v);
            return *this;
        }
        Event & raw(const char * k, const std::string & json)
        {
            key(k);
            _s += json;
            return *this;
        }
        void emit() const { write_all(_s + "}\n"); }
    };

    using case_fn = std::function<void(const Case &)>;

    inline void event_case(long id)
    {
        Event e;
        e.put("op", "Reset").put("case", id);
        e.emit();
    }

    // run all the cases read from stdin, {batch} of them per forked child
    inline int run(const case_fn & fn, size_t batch, unsigned timeout_s = 60)
    {
        ::signal(SIGPIPE, SIG_DFL);
        struct rlimit core = { 0, 0 };
        ::setrlimit(RLIMIT_CORE, &core);
        // everything the library prints is discarded: the events go to a private descriptor
        int keep = ::dup(1);
        out_fd() = keep;
        int null = ::open("/dev/null", O_WRONLY);
        ::dup2(null, 1);
        if (!std::getenv("VF_STDERR"))
            ::dup2(null, 2);

        std::vector<Case> cases;
        std::string line;
        while (std::getline(std::cin, line)) {
            if (line.rfind("case ", 0) == 0)
                cases.push_back({ std::atol(line.c_str() + 5), {} });
            else if (!line.empty() && !cases.empty())
                cases.back().ops.push_back(line);
        }

        size_t i = 0;
        while (i < cases.size()) {
            size_t end = std::min(cases.size(), i + batch);
            int progress[2];
            if (::pipe(progress) != 0)
                return 98;
            pid_t pid = ::fork();
            if (pid < 0)
                return 98;
            if (pid == 0) {
                ::close(progress[0]);
                for (size_t c = i; c < end; ++c) {
                    ::alarm(timeout_s);
                    event_case(cases[c].id);
                    fn(cases[c]);
                    char done = 1;
                    if (::write(progress[1], &done, 1) != 1)
                        ::_exit(97);
                }
                ::_exit(0);
            }
            ::close(progress[1]);
            size_t done = 0;
            char buffer[4096];
            ssize_t k;
            while ((k = ::read(progress[0], buffer, sizeof buffer)) > 0)
                done += static_cast<size_t>(k);
            ::close(progress[0]);
            int status = 0;
            ::waitpid(pid, &status, 0);
            if (WIFEXITED(status) && WEXITSTATUS(status) == 97)
                return 97;
            if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)
                return 96;    // killed from outside: out of memory, not a verdict
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
                i = end;
            } else {
                Event e;
                e.put("op", "Crash")
                    .put("signal", WIFSIGNALED(status) ? WTERMSIG(status) : 0)
                    .put("status", WIFEXITED(status) ? WEXITSTATUS(status) : 0);
                e.emit();
                i = i + done + 1;
            }
        }
        return 0;
    }

    // the words of an operation
    inline std::vector<std::string> words(const std::string & s)
    {
        std::istringstream in(s);
        std::vector<std::string> r;
        std::string w;
        while (in >> w)
            r.push_back(w);
        return r;
    }

    inline int num(const std::string & s) { return std::atoi(s.c_str()); }
}
