// Drives the real CheckManager.  stdin lines (fields separated by \x1f):
//   D                      dump the registry:  name, level, options, fixits...
//   E 0|1 <CLAZY_CHECKS> 0|1 <CLAZY_CHECKS_AS_ERRORS>   following queries run in a fresh process with that environment
//   Q <arg>...             requestedChecks(args) -> names ; remaining args
//   A                      checksAsErrors()
//   S <str>                checksForCommaSeparatedString
// every reply is one line on fd 3 (stdout); a crashed child yields "CRASH".
#include "checkmanager.h"
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>
static std::vector<std::string> split(const std::string &s)
{
    std::vector<std::string> r(1);
    for (char c : s) { if (c == '\x1f') r.emplace_back(); else r.back() += c; }
    return r;
}
static void put(std::string s) { s += '\n'; (void)!write(1, s.data(), s.size()); }
static void query(const std::vector<std::string> &f)
{
    auto *m = CheckManager::instance();
    if (f[0] == "Q") {
        std::vector<std::string> a(f.begin() + 1, f.end());
        auto l = m->requestedChecks(a);
        std::string o;
        for (auto &c : l) o += c.name + ":" + std::to_string(int(c.level)) + ",";
        o += '\x1f';
        for (auto &x : a) o += x + '\x1e';
        put(o);
    } else if (f[0] == "S") {
        auto l = m->checksForCommaSeparatedString(f[1]);
        std::string o;
        for (auto &c : l) o += c.name + ":" + std::to_string(int(c.level)) + ",";
        put(o);
    } else if (f[0] == "A") {
        std::string o;
        for (auto &x : m->checksAsErrors()) o += x + ",";
        put(o);
    } else if (f[0] == "D") {
        for (int lv = -1; lv <= 3; ++lv) {
            std::string o = "L" + std::to_string(lv);
            for (auto &c : m->availableChecks(CheckLevel(lv))) {
                o += '\x1f' + c.name + '\x1e' + std::to_string(int(c.level)) + '\x1e' + std::to_string(c.options);
                for (auto &x : m->availableFixIts(c.name)) o += '\x1e' + x.name;
            }
            put(o);
        }
    }
}
int main()
{
    std::ios::sync_with_stdio(false);
    std::vector<std::string> lines;
    for (std::string s; std::getline(std::cin, s);) lines.push_back(s);
    for (size_t i = 0; i < lines.size();) {
        auto e = split(lines[i]);
        size_t j = i + 1;
        while (j < lines.size() && lines[j][0] != 'E') ++j;
        size_t k = i + (e[0] == "E" ? 1 : 0);
        while (k < j) { // restart after a crash, skipping the crashed query
            int p[2]; (void)!pipe(p);
            pid_t c = fork();
            if (!c) {
                close(2);
                if (e[0] == "E") {
                    e[1] == "1" ? setenv("CLAZY_CHECKS", e[2].c_str(), 1) : unsetenv("CLAZY_CHECKS");
                    e[3] == "1" ? setenv("CLAZY_CHECKS_AS_ERRORS", e[4].c_str(), 1) : unsetenv("CLAZY_CHECKS_AS_ERRORS");
                }
                for (size_t q = k; q < j; ++q) { unsigned n = q; (void)!write(p[1], &n, sizeof n); query(split(lines[q])); }
                _exit(0);
            }
            close(p[1]);
            unsigned n, lastq = k; while (read(p[0], &n, sizeof n) == sizeof n) lastq = n;
            close(p[0]);
            int st; waitpid(c, &st, 0);
            if (st == 0) break;
            put("CRASH"); k = lastq + 1;
        }
        i = j;
    }
}
