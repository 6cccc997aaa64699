// RawOutStream and RawInStream, each line in a process of its own.
//   O mode op op ...     mode file, std (standard output is a file), pipe, append, offset
//       ops B:b K:b:n F P W:k:b1:..:b6
//   I mode segs op op ...   mode file, std, pipe:n,n,.. (sizes of the writes); segs b:n,b:n,...
//       ops b y k:n f q
// Files are made in the current directory.
#include "h.hpp"
#include "globaldefs.hpp"
#include "Streams.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
namespace bwtc { int verbosity = 0; }
using namespace bwtc;

static std::vector<std::string> split(const std::string &s, char c) {
  std::vector<std::string> r;
  std::istringstream in(s);
  std::string x;
  while (std::getline(in, x, c)) r.push_back(x);
  return r;
}
static std::string segs(const Bytes &b) {
  std::string s = "[";
  size_t i = 0;
  while (i < b.size()) {
    size_t k = i + 1;
    while (k < b.size() && b[k] == (unsigned char)(b[k - 1] + 1)) ++k;
    s += (i ? ",[" : "[") + std::to_string(b[i]) + "," + std::to_string(k - i) + "]";
    i = k;
  }
  return s + "]";
}
static Bytes slurp(const std::string &f) {
  Bytes b;
  FILE *h = fopen(f.c_str(), "rb");
  if (!h) return b;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, h)) > 0) b.insert(b.end(), buf, buf + n);
  fclose(h);
  return b;
}
static int rep;        // where the child reports
static void say(const std::string &s) { if (write(rep, s.data(), s.size()) < 0) _exit(99); }
static std::string nums(const std::vector<std::string> &p, size_t from) {
  std::string s = "[";
  for (size_t i = from; i < p.size(); ++i) s += (i > from ? "," : "") + p[i];
  return s + "]";
}
static bool firstOp;
static void opBegin(const char *o, const std::string &a) {
  say(std::string(firstOp ? "" : ",") + "{\"o\":\"" + o + "\",\"a\":" + a);
  firstOp = false;
}
static void opEnd(const std::string &r, const std::string &d) { say(",\"r\":" + r + ",\"d\":" + d + ",\"e\":0}"); }

int main() {
  std::string line;
  signal(SIGPIPE, SIG_DFL);
  std::string base = "s" + std::to_string(getpid()) + ".";
  int turn = 0;
  // all of the input first, so that nothing of it is left in the buffers
  std::vector<std::string> lines;
  while (std::getline(std::cin, line)) lines.push_back(line);
  for (size_t ln = 0; ln < lines.size(); ++ln) {
    line = lines[ln];
    std::vector<std::string> w = split(line, ' ');
    std::string f = base + std::to_string(turn++);
    bool out = w[0] == "O";
    std::string mode = split(w[1], ':')[0];
    Bytes data;
    if (!out) {
      std::vector<std::string> sg = split(w[2], ',');
      if (w[2] != "-") for (size_t i = 0; i < sg.size(); ++i) {
        int b = atoi(sg[i].c_str());
        long n = atol(sg[i].c_str() + sg[i].find(':') + 1);
        for (long k = 0; k < n; ++k) data.push_back((unsigned char)(b + k));
      }
      FILE *h = fopen(f.c_str(), "wb");
      if (data.size() && fwrite(&data[0], 1, data.size(), h) != data.size()) return 3;
      fclose(h);
    } else if (mode == "offset" || mode == "append") {
      FILE *h = fopen(f.c_str(), "wb");
      fwrite("hello", 1, 5, h);
      fclose(h);
    }
    int p[2];
    if (pipe(p)) return 3;
    pid_t c = fork();
    if (c == 0) {
      close(p[0]);
      rep = p[1];
      firstOp = true;
      pid_t helper = 0;
      if (out) {
        if (mode == "std") { int d = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(d, 1); close(d); }
        if (mode == "append") { int d = open(f.c_str(), O_WRONLY | O_APPEND); dup2(d, 1); close(d); }
        if (mode == "offset") { int d = open(f.c_str(), O_WRONLY); lseek(d, 5, SEEK_SET); dup2(d, 1); close(d); }
        if (mode == "pipe") {
          int q[2];
          if (pipe(q)) _exit(98);
          helper = fork();
          if (helper == 0) {
            close(q[1]); close(rep);
            int d = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            char buf[4096];
            ssize_t n;
            while ((n = read(q[0], buf, sizeof buf)) > 0) if (write(d, buf, n) != n) _exit(1);
            _exit(0);
          }
          close(q[0]); dup2(q[1], 1); close(q[1]);
        }
        {
          RawOutStream s(mode == "file" ? f : "");
          std::vector<long> marks;
          for (size_t i = 2; i < w.size(); ++i) {
            std::vector<std::string> a = split(w[i], ':');
            opBegin(a[0].c_str(), nums(a, 1));
            std::string r = "[]";
            if (a[0] == "B") s.writeByte(atoi(a[1].c_str()));
            else if (a[0] == "K") {
              Bytes b;
              long n = atol(a[2].c_str());
              for (long k = 0; k < n; ++k) b.push_back((unsigned char)(atoi(a[1].c_str()) + k));
              b.push_back(0);
              s.writeBlock(&b[0], &b[0] + n);
            } else if (a[0] == "F") {
              s.flush();
              struct stat st;
              r = stat(f.c_str(), &st) == 0 ? "[" + std::to_string((long)st.st_size) + "]" : "[-1]";
            } else if (a[0] == "P") {
              marks.push_back(s.getPos());
              r = "[" + std::to_string(marks.back()) + "]";
            } else {
              uint64 v = 0;
              for (int k = 0; k < 6; ++k) v = (v << 8) | atoi(a[2 + k].c_str());
              s.write48bits(v, marks[atoi(a[1].c_str()) - 1]);
            }
            opEnd(r, "[]");
          }
        }
        fflush(stdout);
        close(1);
        if (helper) waitpid(helper, 0, 0);
        _exit(0);
      }
      if (mode == "std") { int d = open(f.c_str(), O_RDONLY); dup2(d, 0); close(d); }
      if (mode == "pipe") {
        int q[2];
        if (pipe(q)) _exit(98);
        helper = fork();
        if (helper == 0) {
          close(q[0]); close(rep);
          std::vector<std::string> ch = split(split(w[1], ':')[1], ',');
          size_t at = 0, k = 0;
          while (at < data.size()) {
            size_t n = std::min<size_t>(atol(ch[k++ % ch.size()].c_str()), data.size() - at);
            if (write(q[1], &data[at], n) != (ssize_t)n) _exit(1);
            at += n;
            if (k < 6) usleep(300);
          }
          _exit(0);
        }
        close(q[1]); dup2(q[0], 0); close(q[0]);
      }
      {
        clearerr(stdin);
        RawInStream s(mode == "file" ? f : "");
        for (size_t i = 3; i < w.size(); ++i) {
          std::vector<std::string> a = split(w[i], ':');
          opBegin(a[0].c_str(), nums(a, 1));
          std::string r = "[]", d = "[]";
          if (a[0] == "b") r = s.readBit() ? "[1]" : "[0]";
          else if (a[0] == "y") r = "[" + std::to_string((int)s.readByte()) + "]";
          else if (a[0] == "f") s.flushBuffer();
          else if (a[0] == "q") {
            uint64 v = s.read48bits();
            r = "[";
            for (int k = 5; k >= 0; --k) r += std::to_string((int)((v >> 8 * k) & 255)) + (k ? "," : "]");
            if (v >> 48) r = "[-1]";
          } else {
            size_t n = atol(a[1].c_str());
            Bytes b(n + 2, 0xA5);
            size_t k = s.readBlock(&b[1], n);
            bool ok = b[0] == 0xA5 && b[n + 1] == 0xA5;
            b.erase(b.begin());
            b.resize(k <= n ? k : n);
            r = ok ? "[" + std::to_string(k) + "]" : "[-1]";
            d = segs(b);
          }
          opEnd(r, d);
        }
      }
      _exit(0);
    }
    close(p[1]);
    std::string ops;
    char buf[65536];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) ops.append(buf, n);
    close(p[0]);
    int st;
    waitpid(c, &st, 0);
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    if (ops.size() && ops[ops.size() - 1] != '}') ops += ",\"r\":[],\"d\":[],\"e\":1}";
    Json j;
    if (out) {
      data = slurp(f);
      bool pre = true;
      if (mode == "offset" || mode == "append") {
        pre = data.size() >= 5 && memcmp(&data[0], "hello", 5) == 0;
        data.erase(data.begin(), data.begin() + std::min<size_t>(5, data.size()));
      }
      j.str("ev", "out").str("mode", mode).raw("ops", "[" + ops + "]").raw("data", segs(data)).num("rc", rc).num("prefix", pre);
    } else {
      j.str("ev", "in").str("mode", mode).raw("ops", "[" + ops + "]").raw("data", segs(data)).num("rc", rc);
    }
    unlink(f.c_str());
    j.print();
  }
}
