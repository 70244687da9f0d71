// Scenario generation: one seed decides everything.
#include "sim.h"
#include "happ.h"
#include <algorithm>
#include <cerrno>
#include "keys.inc"

struct W { // weights of a profile
  int cmin = 3, cmax = 14;
  double burst = .5, tls = .06, embed = .25, debug = .35, root = .2, raw = 0;
  double popular = .05, wedge = 0, oldlog = .05, longrule = .12, limits = .15, secs = 0, lists = .15, biglist = .1, listfault = .05;
  double admin = .1, api = .72, upload = .12, post = .3, param = .3, filter = .3, badpath = .12, dots = .05;
  double odd = .12, bad = .08, hdrs = .4, sess = .35, xreal = .12;
  double trunc = .1, fin = .25, rst = .06, split = .6, pause = .15;
  double eintr = .12, rshort = .1, rerr = .03, seintr = .1, sshort = .12, serr = .03, slow = .1, stall = .08, persist = .3;
  double file = .06, disk = .04, accept = .08, fdlim = .05, wall = .08, marks = .15, work = .25, pthr = .08;
  double crash = 0, rounds = 0, startup = 0, queue = .002, bigroutes = .03, bigbody = .06, eager = .3;
  double stransient = .02, jitter = .03, flood = 0, history = 0, mixcase = .02, xlines = .15, helpers = .03, rotate = .02, rmtmp = .03, alloc = .02, lull = .05, surplus = .04; double preserve = .5; // same uploads twice
};

static const char *EXT[] = {".html", ".js", ".png", ".jpg", ".jpeg", ".zip", ".css", ".svg", ".ico", ".txt", ".csv", ".yaml", ".bin", ".json", ""};
static const char *FEXT[] = {".txt", ".html", ".css", ".svg", ".yaml", ".csv", ".json", ".txt"};

struct Gen {
  Rng r; Scenario s; W w; int tok = 0; std::string prop;
  std::vector<std::pair<std::string, std::string>> popular;
  std::string longmethod; // its method, if it has one
  std::string longurl; // the path of a long rule
  std::vector<std::string> www; // static files (relative)
  std::vector<std::string> ips; std::vector<std::string> bodies; // earlier uploads
  bool more = false;
  Gen(u64 seed) : r(seed) {}
  bool ch(double p) { return r.chance(p); }
  std::string alnum(int n) { std::string o; for (int i = 0; i < n; i++) o += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[r.below(62)]; return o; }
  std::string printable(int n) { std::string o; for (int i = 0; i < n; i++) o += (char)(33 + r.below(94)); return o; }
  std::string binary(size_t n) { std::string o(n, 0); for (auto &c : o) c = (char)r.below(256); return o; }
  size_t sz() { switch (r.below(10)) { case 0: return 0; case 1: return 1; case 2: return r.below(5000); case 3: return 4090 + r.below(20); case 4: return ch(w.bigbody) ? 10000 + r.below(150000) : r.below(9000); case 5: return 510 + r.below(6); default: return r.below(400); } }
  std::string token() { return strf("T%d%s", tok++, alnum(2).c_str()); }
  std::string ip() { return r.pick(ips); }

  void world() {
    s.embed = ch(w.embed); s.tls = ch(w.tls); s.debug = ch(w.debug);
    if (ch(w.root)) { s.root = r.pick(std::vector<std::string>{"/srv/w1", "/opt/wayuu/root", "/w", "/etc/wayuu2"}); }
    else if (ch(.1)) s.opt["passroot"] = 1;
    if (s.embed && ch(.6)) s.opt["logfile"] = 1;
    s.opt["eager"] = ch(w.eager) ? r.range(1, 3) : r.range(3, 12);
    int hf = r.below(5); s.opt["heapfill"] = hf == 0 ? -1 : hf == 1 ? 0 : hf == 2 ? 'A' : 0xA5;
    if (ch(.1)) s.opt["bindaddr"] = r.range(1, 4);
    if (ch(.1)) s.opt["port"] = ch(.5) ? r.range(1, 65535) : ch(.5) ? r.range(40000, 65535) : ch(.5) ? 65535 : 1;
    s.opt["walltime"] = 1700000000 + (int64_t)r.below(86400 * 700);
    if (ch(.5)) s.opt["wallfrac"] = 1000000 - (int64_t)r.below(ch(.5) ? 8000 : 80000); // a second ends while the first clients are served
    if (ch(.15)) { static const int64_t t[] = {1798761599, 1835481599, 2147483647, 1830297599, 1709251199, 1767225599, 2177452799, 3000000000}; s.opt["walltime"] = t[r.below(8)] - (ch(.7) ? r.below(3) : r.below(60)); }
    if (ch(.3)) { static const int tz[] = {330, -480, 60, 765, -720, 1}; s.opt["tz"] = tz[r.below(6)]; }
    // how long the host has been up: about to pass 2^31 or 2^32 milliseconds, microseconds or seconds, or years
    if (ch(.3)) { static const int64_t up[] = {2147483648, 4294967296, 2147484, 4294967, 0, 2147483648000, 315360000000, 60000}; int64_t u = up[r.below(8)]; s.opt["uptime"] = std::max<int64_t>(0, u - (int64_t)r.below(ch(.5) ? 3000 : 60000)); }
    std::string R = s.root, W_ = R + "/www";
    for (auto d : {R + "/etc", R + "/ssl", W_, W_ + "/sub", W_ + "/sub/deep", W_ + "/empty", R + "/www2", std::string("/etc"), std::string("/srv/data")}) s.dirs.push_back(d);
    auto secret = [&](const std::string &p) { s.files.push_back({p, "SECRET-" + alnum(12) + " content of " + p + "\n"}); };
    secret(R + "/etc/secret.html"); secret("/etc/passwd"); secret(R + "/www2/page.html"); secret(R + "/secret.txt"); secret(R + "/index.html"); secret("/srv/data/private.txt");
    if (R != "/etc/wayuu") { secret("/etc/wayuu/www/page0.html"); secret("/etc/wayuu/www/index.html"); }
    if (s.tls || ch(.3)) { s.files.push_back({R + "/ssl/cert.pem", KEY_CERT}); s.files.push_back({R + "/ssl/key.pem", std::string("SECRET-KEY\n") + KEY_KEY}); }
    if (!ch(.12)) s.files.push_back({W_ + "/index.html", "<html>index " + alnum((int)sz()) + "</html>"});
    if (ch(.7)) { s.files.push_back({W_ + "/favicon.ico", binary(sz())}); }
    if (ch(.7)) { s.files.push_back({W_ + "/sub/index.html", "<html>sub " + alnum(20) + "</html>"}); }
    int n = r.range(3, 8);
    for (int i = 0; i < n; i++) {
      std::string p = std::string("/") + (ch(.25) ? "sub/" : ch(.1) ? "sub/deep/" : "") + "page" + std::to_string(i) + EXT[r.below(15)];
      if (ch(.04)) p = "/sub.d/page" + std::to_string(i) + EXT[r.below(13)];
      if (ch(.03)) p = "/.." + alnum(3) + ".txt";
      if (ch(.12)) { static const char *odd[] = {"/index.css", "/index.txt", "/index.html.zip", "/indexes.html", "/index", "/sub/index.txt", "/sub/index.css", "/favicon.png", "/favicon.ico.txt", "/sub/favicon.ico", "/page.tar.zip", "/my.page.html", "/apps.html", "/wwwpage.html", "/sub/.hidden", "/sub/a.b/c", "/x.html.bin", "/.html"}; p = odd[r.below(18)]; bool dup = false; for (auto &o : www) if (o == p) dup = true; if (dup) continue; }
      www.push_back(p);
      s.files.push_back({W_ + p, ch(.5) ? binary(sz()) : "file " + p + " " + alnum((int)sz())});
    }
    for (int i = 0; i < 16; i++) s.files.push_back({strf("/srv/data/f%d%s", i, FEXT[i & 7]), i == 3 ? "" : "data" + std::to_string(i) + (ch(.3) ? binary(sz()) : alnum((int)sz()))});
    ips = {"10.0.0.1", "10.0.0.2", "10.0.0.11", "110.0.0.1", "10.0.0.12", "192.168.1.1", "92.168.1.10"};
    while ((int)ips.size() > 2 && ch(.35)) ips.erase(ips.begin() + r.below(ips.size()));
  }
  int kind() { if (ch(w.helpers)) return 13; static const int k[] = {0, 0, 0, 1, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 11}; return k[r.below(15)]; }
  void routes() {
    auto add = [&](const std::string &t, int k) { Route x; x.tmpl = t; x.handler = k; x.filter = ch(w.filter) ? 2 : 0; s.routes.push_back(x); };
    std::vector<std::string> pool = {"GET:/a", "GET:/ab", "GET:/a/b", "POST:/a", "PUT:/a", "DELETE:/a", "GET:/b/c/d", "POST:/form", "PUT:/form/x", "GET:/", "GET:/a/resource/with/a/rather/long/name/one", "GET:/a/resource/with/a/rather/long/name/two", "GET:/a/resource/with/a/rather/long/name"};
    std::vector<std::string> par = {"GET:/item/{id}", "GET:/a/{x}", "POST:/item/{id}", "GET:/user/{name}", "DELETE:/item/{id}", "PUT:/p/q/{key}", "GET:/it{z}", "GET:/a/resource/with/a/rather/long/name/{which}"};
    int n = r.range(2, 8);
    for (int i = 0; i < n; i++) { if (ch(w.param)) add(r.pick(par), kind()); else add(r.pick(pool), kind()); }
    add("POST:/up", 5); if (ch(.3)) add("POST:/up2/{id}", 5); if (ch(.2)) add("PUT:/up", 5);
    if (ch(.5)) add("GET:/probe", 0);
    if (ch(.3)) add("GET:/echo", 11);
    if (ch(.06)) add("GET:/none", 12);
    for (size_t i = s.routes.size(); i > 1; i--) std::swap(s.routes[i - 1], s.routes[r.below(i)]);
    if (ch(w.bigroutes)) { int m = ch(.5) ? r.range(100, 128) : r.range(129, 138); for (int i = (int)s.routes.size(); i < m; i++) add(strf("GET:/many/r%d", i), 0); }
  }
  struct Rq { std::string bytes; size_t line = 0, head = 0; };
  std::string other_cookies() { // cookies before the session's, some of which look like it
    std::string o;
    for (int i = r.range(1, 3); i > 0; i--) {
      switch (r.below(7)) {
      case 0: o += "WSSESSION" + alnum(r.range(1, 6)) + "=" + alnum(4); break;
      case 1: o += alnum(r.range(1, 6)) + "WSSESSION=" + alnum(4); break;
      case 2: o += alnum(5) + "=WSSESSION" + alnum(3); break;
      case 3: o += alnum(5) + "=WSSESSION=" + alnum(3); break;
      case 4: o += alnum(6); break;
      default: o += alnum(r.range(0, 12)) + "=" + alnum(3);
      }
      o += ch(.8) ? "; " : ch(.5) ? ";" : ";  ";
    }
    return o;
  }
  std::string headers(bool &sess) {
    std::string o; sess = false;
    int n = ch(w.hdrs) ? r.range(1, 6) : r.range(0, 2);
    if (ch(.04)) n = r.range(17, 26);
    for (int i = 0; i < n; i++) {
      switch (r.below(9)) {
      case 0: o += "User-Agent: " + (ch(.1) ? alnum(r.range(1, 2)) : "sim/" + alnum(r.range(1, 40))) + "\r\n"; break;
      case 1: o += "Referer: " + (ch(.1) ? alnum(r.range(1, 2)) : "http://" + alnum(r.range(1, 30)) + "/") + "\r\n"; break;
      case 2: o += "Host: " + alnum(8) + ":4443\r\n"; break;
      case 3: if (ch(.1)) o += (ch(.5) ? "X-Note: " : "Accept: ") + alnum(3) + "; WSSESSION=" + alnum(5) + "\r\n"; else o += "Accept: */*\r\n"; break;
      case 4: o += "X-Echo: " + alnum(r.range(1, 60)) + (ch(.3) ? ":" + alnum(4) : "") + "\r\n"; break;
      case 5: o += "X-" + alnum(r.range(1, 20)) + ":" + (ch(.5) ? " " : "") + printable(r.range(1, 50)) + "\r\n"; break;
      case 6: if (ch(w.odd)) o += "X-" + alnum(r.range(55, 70)) + ": " + alnum(r.range(245, 262)) + "\r\n"; else o += "Accept-Encoding: gzip\r\n"; break;
      case 7: if (ch(w.odd)) o += "X-Long: " + alnum(ch(.3) ? r.range(1000, 4000) : ch(.3) ? r.range(1005, 1025) : r.range(900, 985)) + "\r\n"; break;
      case 8: if (ch(w.odd)) o += std::string("X-Empty:") + (ch(.5) ? " " : "") + "\r\n"; break;
      }
    }
    if (ch(w.sess)) {
      sess = true;
      std::string v = alnum(r.range(1, 40)); int c = (int)r.below(10);
      if (ch(w.odd)) { int m = (int)r.below(4); if (m == 0) v = alnum(62); else if (m == 1) v = alnum(63); else if (m == 2) v = alnum(r.range(64, 90)); else v = printable(r.range(1, 60)); }
      if (c < 5) o += std::string("X-Session:") + (ch(.85) ? " " : ch(.5) ? "" : "  ") + v + "\r\n";
      else if (c < 8) o += "Cookie: WSSESSION=" + v + "\r\n";
      else if (c == 8) o += "Cookie: " + other_cookies() + "WSSESSION=" + v + (ch(.3) ? "; " + alnum(r.range(1, 9)) + "=" + (ch(.4) ? "WSSESSION=" : "") + alnum(3) : "") + "\r\n";
      else o += "Authorization: Bearer " + v + "\r\n";
      if (ch(.08)) { std::string k = "Cookie: " + (ch(.5) ? other_cookies() : "") + "WSSESSION=" + alnum(r.range(1, 30)) + "\r\n"; if (o.find("Cookie:") == std::string::npos) o = ch(.5) ? o + k : k + o; }
    }
    if (ch(w.xreal * .15)) o += std::string("X-Real-IP:") + (ch(.5) ? "" : ch(.5) ? " " : "   ") + "\r\n";
    else if (ch(w.xreal)) o += std::string(ch(.75) ? "X-Real-IP: " : ch(.5) ? "X-Real-IP:" : "X-Real-IP:   ") + (ch(.5) ? strf("172.16.%d.%d", r.range(0, 255), r.range(0, 255)) : ch(.2) ? strf("2001:db8:%x:%x::%x", r.range(0, 65535), r.range(0, 65535), r.range(0, 65535)) : ch(.85) ? strf("1%02d.1%02d.1%02d.1%02d", r.range(0, 99), r.range(0, 99), r.range(0, 99), r.range(0, 99)) : ch(.3) ? alnum(r.range(16, 24)) : alnum(r.range(16, 40))) + "\r\n";
    return o;
  }
  std::string part_data(const std::string &bd, bool file) {
    std::string d = file ? binary(sz()) : alnum(r.range(0, 40));
    if (file && ch(.4)) d = "text\r\n\r\nmore " + alnum(r.range(0, 100));
    if (ch(.15)) d += "; filename=\"evil\"" + alnum(3);
    if (file && ch(.1)) d += "form-data; name=\"zz\"\r\n\r\n" + alnum(4);
    if (!file && ch(.1)) d += "\r\nsecond line";
    if (file && ch(.1)) d += "\r\n";
    if (file && ch(.1)) d += std::string("\0\0x", 3);
    size_t p; while ((p = d.find("--" + bd)) != std::string::npos) d[p] = '_';
    return d;
  }
  // multipart body; sets the header value
  std::string multipart(std::string &ct) {
    if (!bodies.empty() && ch(w.preserve * .4)) { size_t i = r.below(bodies.size() / 2) * 2; ct = bodies[i]; return bodies[i + 1]; }
    std::string bd = ch(.5) ? "----WebKitFormBoundary" + alnum(16) : alnum(r.range(1, 10));
    if (ch(.1)) bd = alnum(r.range(60, 70));
    if (bd.size() < 6 && ch(.8)) bd += "XyZ019";
    int n = ch(.5) ? 1 : r.range(1, 4); std::string o, last; bool equal = ch(.15); if (equal) n = r.range(2, 4);
    for (int i = 0; i < n; i++) {
      bool file = equal || ch(.7);
      o += "--" + bd + "\r\nContent-Disposition: form-data; name=\"" + alnum(r.range(1, 12)) + "\"";
      if (file) { o += "; filename=\"" + alnum(r.range(1, ch(.05) ? 200 : 20)) + (ch(.7) ? ".bin" : "") + "\""; if (ch(.7)) o += std::string("\r\nContent-Type: ") + (ch(.5) ? "application/octet-stream" : "text/plain"); }
      else if (ch(.1)) o += "\r\nContent-Type: text/plain";
      std::string pd = part_data(bd, file); if (equal && i && ch(.8)) pd = last; last = pd;
      o += "\r\n\r\n" + pd + "\r\n";
    }
    o += "--" + bd + "--" + (ch(.8) ? "\r\n" : "");
    ct = "multipart/form-data; boundary=" + bd;
    bodies.push_back(ct); bodies.push_back(o);
    return o;
  }
  std::string params() {
    std::string q = "?t=" + token();
    if (ch(.7)) q += strf("&s=%d", ch(.12) ? (int)sz() * 3 : r.range(0, 600));
    if (ch(.4)) { static const int st[] = {200, 201, 400, 401, 403, 404, 429, 500}; q += strf("&st=%d", st[r.below(8)]); }
    else if (ch(.02)) { static const int st[] = {204, 302, 405, 409, 503, 888, 0, -1}; q += strf("&st=%d", st[r.below(8)]); }
    if (ch(w.work)) q += strf("&w=%d", ch(.5) ? r.range(1, 300) : ch(.7) ? r.range(300, 9000) : r.range(9000, 60000));
    else if (ch(w.wedge)) q += strf("&w=%d", r.range(4000000, 45000000)); // the application hangs
    if (ch(w.marks)) q += strf("&m=%d", r.range(1, 10));
    if (ch(.12)) q += strf("&rj=%d", r.range(1, 2));
    if (ch(.3)) q += strf("&fl=%d", r.range(0, 15));
    if (ch(.06)) q += "&x=a?b";
    if (ch(.05)) q += "&y=" + printable(r.range(1, 20));
    if (ch(w.odd * .5)) q += "&z=" + alnum(r.range(60, ch(.5) ? 150 : 250));
    for (auto &c : q) if (c == ' ') c = '_';
    return q;
  }
  std::string static_path() {
    std::string R = s.root; (void)R;
    if (ch(w.dots) && ch(.35)) { // a path that goes down and up again at random
      std::string o; int depth = 0, n = r.range(1, ch(.3) ? 30 : 9);
      static const char *tgt[] = {"/etc/secret.html", "/secret.txt", "/www2/page.html", "/ssl/key.pem", "/index.html", "/www/index.html", "/www"};
      for (int i = 0; i < n; i++) switch (r.below(6)) { case 0: if (depth == 0) { o += "/sub"; depth++; break; } if (depth == 1) { o += "/deep"; depth++; break; } o += "/."; break; case 1: o += "/."; break; case 2: o += "/"; break; case 3: if (depth > 0) { o += "/.."; depth--; break; } default: o += "/."; }
      while (depth-- >= 0) { o += "/.."; if (ch(.3)) o += ch(.5) ? "/." : "/"; }
      o += tgt[r.below(7)];
      if (o.size() < 180) return o;
    }
    if (ch(w.dots)) {
      static const char *p[] = {"/../etc/secret.html", "/../secret.txt", "/sub/../../etc/secret.html", "//../www2/page.html", "/sub/deep/../../../secret.txt", "/../www2/page.html", "/../../../etc/passwd", "/../../../../../../etc/passwd", "/./../secret.txt", "/sub/../index.html", "/../www/index.html", "/..", "/../", "/sub/..", "/%2e%2e/secret.txt", "/../ssl/key.pem", "/..//..//secret.txt", "/empty/../../ssl/key.pem", "/nosuch/../../secret.txt", "/index.html/../../secret.txt",
        "/%2E%2E/secret.txt", "/..%2fsecret.txt", "/%2e%2e%2fsecret.txt", "/.%2e/secret.txt", "/%252e%252e/secret.txt", "/..\\secret.txt", "/..;/secret.txt", "/..././secret.txt", "/....//secret.txt", "/...//./secret.txt", "/sub/.../../../secret.txt", "/sub/%2e%2e/%2e%2e/etc/secret.html", "/..%5csecret.txt", "/sub/....//....//secret.txt", "/.//..//secret.txt", "/./sub/./../../secret.txt", "/index.html%00/../../secret.txt", "/sub/index.html/../../../secret.txt"};
      return p[r.below(38)];
    }
    if (ch(w.badpath)) { static const char *p[] = {"/missing.html", "/sub/missing.css", "/nodir/x.txt", "/empty/", "/nodir/", "/sub", "/empty", "/page0.html/x", "/ap", "/apix.txt", "/sub/deep/"}; return p[r.below(9) + (ch(.1) ? 2 : 0)]; }
    int k = (int)r.below(8);
    if (k == 0) return "/"; if (k == 1) return "/index.html"; if (k == 2) return ch(.5) ? "/sub/" : "/favicon.ico";
    std::string p = r.pick(www);
    if (ch(.05)) p = "/" + p;
    return p;
  }
  Rq request() {
    Rq q; std::string body, ct, path, method = "GET"; bool up = false;
    if (ch(w.api)) {
      if (ch(w.upload)) { std::vector<const Route *> u; for (auto &x : s.routes) if (x.handler == 5) u.push_back(&x); const Route *x = u[r.below(u.size())]; up = true; size_t c = x->tmpl.find(':'); method = x->tmpl.substr(0, c); path = x->tmpl.substr(c + 1); }
      else if (ch(w.badpath)) { static const char *p[] = {"/nosuch", "", "/a/", "/aa", "/item/", "/x/GET:/a", "/item", "/b/c", "/a/b/c", "/POST:/a", "/proba"}; path = p[r.below(11)]; static const char *m[] = {"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS"}; method = m[ch(.8) ? r.below(4) : r.below(7)]; }
      else { const Route &x = s.routes[r.below(std::min<size_t>(s.routes.size(), 128))]; size_t c = x.tmpl.find(':'); method = x.tmpl.substr(0, c); path = x.tmpl.substr(c + 1); if (ch(.04)) method = ch(.5) ? "GET" : "POST"; }
      size_t b = path.find('{'); if (b != std::string::npos) path = path.substr(0, b) + (ch(.9) ? alnum(r.range(1, ch(.1) ? 100 : 12)) : ch(.5) ? "" : alnum(3) + "/" + alnum(3));
      path = "/api" + path;
      if (ch(w.odd * .2)) path += "/" + alnum(r.range(50, 200));
    } else { path = static_path(); if (ch(.06)) method = "POST"; else if (ch(.03)) method = ch(.5) ? "HEAD" : "PATCH"; }
    if (ch(w.mixcase) && path.size() > 1) { size_t from = path.compare(0, 4, "/api") == 0 ? 4 : 1; for (size_t i = from; i < path.size(); i++) if (ch(.4) && isalpha((unsigned char)path[i])) path[i] ^= 32; if (from == 1 && path.size() >= 4 && !strncasecmp(path.c_str(), "/api", 4)) path[1] = 'q'; }
    if (w.popular > 0 && !up && path.compare(0, 4, "/api") == 0) { // a few addresses that everyone asks for
      if (popular.empty() && ch(w.popular)) popular.resize(r.range(2, 4)); else if (popular.empty()) w.popular = 0;
      if (!popular.empty() && ch(.85)) { auto &x = popular[r.below(popular.size())]; if (x.second.empty()) x = {method, path}; else { method = x.first; path = x.second; } }
    }
    if (!longurl.empty() && !up && ch(.5)) { path = longurl; if (!longmethod.empty()) method = longmethod; if (ch(.3)) path.resize(path.size() - r.range(1, 3)); else if (ch(.5)) path += alnum(r.range(1, 5)); }
    path += params();
    if (path.size() > 254) path.resize(254);
    bool ss; std::string h = headers(ss);
    if (up && ch(.93)) body = multipart(ct);
    else if ((method == "POST" || method == "PUT") ? ch(.9) : ch(.06)) {
      if (ch(.5)) body = "k=" + alnum((int)std::min<size_t>(sz(), 30000)); else body = ch(.7) ? alnum((int)sz()) : binary(sz());
      if (ch(.6)) ct = ch(.5) ? "application/json" : ch(.5) ? "application/x-www-form-urlencoded" : "text/plain; charset=utf-8";
    }
    std::string cl;
    bool odd = ch(w.odd);
    if (!ct.empty()) cl += std::string("Content-Type:") + (odd && body.find("Content-Disp") == std::string::npos && ch(.4) ? "" : " ") + ct + "\r\n";
    if (!body.empty() || ch(.05)) cl += std::string(odd && ch(.3) ? "content-length:" : "Content-Length:") + (odd ? (ch(.5) ? "" : ch(.5) ? "  " : " ") : " ") + std::to_string(body.size()) + "\r\n";
    std::string line = method + " " + path + (ch(.95) ? " HTTP/1.1\r\n" : " HTTP/1.0\r\n");
    if (ch(.5)) h = cl + h; else h = h + cl;
    q.line = line.size();
    q.bytes = line + h + "\r\n"; q.head = q.bytes.size();
    if (ch(.25) && ch(w.odd)) { // lines that end with LF, all of them or some
      bool all = ch(.5); std::string b;
      for (size_t i = 0; i < q.bytes.size(); i++) if (q.bytes[i] != '\r' || i + 1 == q.bytes.size() || q.bytes[i + 1] != '\n' || (!all && ch(.5))) b += q.bytes[i];
      q.bytes = b; q.line = b.find('\n') + 1; q.head = b.size();
    }
    q.bytes += body;
    if (!more && ch(w.surplus)) { // bytes that do not belong to the request
      more = true;
      switch (r.below(4)) { case 0: q.bytes += "\r\n"; break; case 1: { Rq x = request(); q.bytes += x.bytes; break; } case 2: q.bytes += binary(r.range(1, 300)); break; default: q.bytes += alnum(r.range(1, ch(.3) ? 20000 : 500)); }
      more = false;
    }
    return q;
  }
  // syntactically broken or extreme input
  Rq nasty() {
    Rq q; std::string o; bool ss;
    switch (r.below(37)) {
    case 0: o = "\r\n"; break;
    case 1: o = "\n"; break;
    case 2: o = "A\n"; break;
    case 3: o = "GET /" + alnum(r.range(240, 300)) + " HTTP/1.1\r\n\r\n"; break;
    case 4: o = "GET /" + alnum(r.range(900, 3000)) + " HTTP/1.1\r\n" + headers(ss) + "\r\n"; break;
    case 5: o = "GET ? HTTP/1.1\r\n\r\n"; break;
    case 6: o = "GET  HTTP/1.1\r\n\r\n"; break;
    case 7: o = binary(r.range(1, 3000)) + "\r\n\r\n"; break;
    case 8: { Rq x = request(); o = x.bytes.substr(0, x.line) + "X-Big: " + printable(r.range(1000, 4000)) + "\r\n" + x.bytes.substr(x.line); break; }
    case 9: { Rq x = request(); o = x.bytes.substr(0, x.line); int n = r.range(20, 120); for (int i = 0; i < n; i++) o += "H" + std::to_string(i) + ": " + alnum(5) + "\r\n"; o += x.bytes.substr(x.line); break; }
    case 10: { static const char *v[] = {"99999999999999999999", "4294967295", "4294967296", "2147483647", "2147483648", "-1", "-5", "abc", "", "0", "10000000", "1e5", "5;", "9223372036854775807", "18446744073709551615"}; o = "POST /api/up HTTP/1.1\r\nContent-Length: " + std::string(v[r.below(15)]) + "\r\n\r\n" + alnum(r.range(0, 50)); break; }
    case 11: o = "POST /api/up HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=" + printable(r.range(90, 900)) + "\r\nContent-Length: 50\r\n\r\n" + alnum(50); break;
    case 12: { std::string ct, b = multipart(ct); int m = (int)r.below(8);
      if (m == 0 && b.size() > 3) b.resize(b.size() - r.below(b.size() / 2 + 1)); else if (m == 1) b[r.below(b.size())] = 0; else if (m == 2) b.erase(r.below(b.size()), r.below(20) + 1); else if (m == 3) b = b + b;
      else if (m == 4) { std::string bd = ct.substr(ct.find('=') + 1); b = "--" + bd + "\r\nform-data; name=\"" + alnum(3); if (ch(.5)) b += "\"\r\n\r\n"; b += "--" + bd; if (ch(.5)) b += "--" + bd + "--" + bd; }
      else if (m == 5) { size_t p = b.find("; filename="); if (p != std::string::npos) b.insert(p + 12, alnum(r.range(200, 600))); }
      else if (m == 6) { size_t p = b.find("name=\""); if (p != std::string::npos) b.insert(p + 6, printable(r.range(1, 400))); } else { for (int i = 0; i < 6; i++) b[r.below(b.size())] = (char)r.below(256); }
      if (ch(.12)) { int n1 = r.range(60, 600), n2 = r.range(1, n1); b = "--b\r\n" + std::string(n1, 'p') + "\r\nform-data; name=\"" + alnum(3) + "\"" + (ch(.5) ? "; filename=\"f\"" : "") + "\r\n\r\nv\r\n--b\r\n" + std::string(n2, 'q') + "\r\n--b--"; ct = "multipart/form-data; boundary=b"; }
      if (b.empty()) b = "x";
      bodies.resize(bodies.size() >= 2 ? bodies.size() - 2 : 0);
      o = "POST /api/up?t=" + token() + " HTTP/1.1\r\nContent-Type: " + ct + "\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; break; }
    case 13: o = "POST /api/up HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=\r\nContent-Length: 30\r\n\r\n------------------------------"; break;
    case 14: o = "GET /api/" + alnum(240) + " HTTP/1.1\r\n\r\n"; break;
    case 34: { // headers given more than once
      Rq x = request(); o = x.bytes; std::string add;
      static const char *k[] = {"Content-Type: text/plain", "X-Session: a", "Cookie: WSSESSION=b", "Authorization: Bearer c", "X-Real-IP: 1.2.3.4", "User-Agent: u", "Referer: r", "Content-Type: multipart/form-data; boundary=b", "X-Echo: e", "Content-Length: 0", "content-type: x/y"};
      int kinds = r.range(1, 3); for (int i = 0; i < kinds; i++) { std::string h = k[r.below(11)]; for (int n = r.range(2, 5); n > 0; n--) add += h + (ch(.5) ? alnum(r.range(1, 9)) : "") + "\r\n"; }
      size_t p = o.find("\r\n"); if (p != std::string::npos) o.insert(p + 2, add); break; }
    case 15: { Rq x = request(); o = x.bytes; if (!o.empty()) for (int i = r.range(1, 5); i > 0; i--) o[r.below(o.size())] = (char)r.below(256); break; }
    case 35: case 36: { static const char *m[] = {"GET", "POST", "PUT", "DELETE"}; o = m[r.below(4)] + alnum(r.range(1, ch(.3) ? 900 : 250)) + (ch(.8) ? " /api/" : " /") + alnum(r.range(1, 240)) + (ch(.5) ? "?t=" + token() : "") + " HTTP/1.1\r\n\r\n"; break; }
    case 16: o = alnum(r.range(200, 1100)) + " / HTTP/1.1\r\n\r\n"; break;
    case 17: o = "GET / HTTP/1.1\r\nX-Session: " + alnum(r.range(60, 600)) + "\r\n\r\n"; break;
    case 18: o = "GET /api/a?t=" + token() + " HTTP/1.1\r\nX-Real-IP: " + alnum(r.range(20, 600)) + "\r\n\r\n"; break;
    case 19: o = "GET /api/a?t=" + token() + " HTTP/1.1\r\nCookie:" + alnum(r.range(0, 9)) + "\r\n\r\n"; break;
    case 20: o = "GET /api/a?t=" + token() + " HTTP/1.1\r\nContent-Type:" + alnum(r.range(0, 3)) + "\r\nX-Real-IP:\r\nX-Session:\r\nAuthorization:\r\nContent-Length:\r\n\r\n"; break;
    case 21: o = "GET /api/item/" + alnum(r.range(50, 230)) + " HTTP/1.1\r\nContent-Length: " + std::to_string(r.range(1, 5)) + "\r\n\r\nabcde"; break;
    case 22: o = "GET"; if (ch(.5)) o += " "; o += "\r\n\r\n"; break;
    case 23: o = "GET / HTTP/1.1\n\n"; break;
    case 24: o = "GET /?" + std::string(r.range(1, 5), '?') + " HTTP/1.1\r\n\r\n"; break;
    case 25: o = std::string("GET /\0abc HTTP/1.1\r\n\r\n", 23); break;
    case 26: o = "GET / HTTP/1.1\r\n:\r\n: x\r\nx:\r\n::::\r\n\r\n"; break;
    case 27: o = "POST /api/" + alnum(r.range(1, 200)) + "? HTTP/1.1\r\nContent-Length: 1\r\n\r\n"; break;
    case 28: { o = "GET / HTTP/1.1\r\n"; std::string l = "X: " + alnum(1023 - 3 - (int)r.below(3)); o += l + "\r\nContent-Length: 5\r\n\r\n"; break; }
    case 29: { Rq x = request(); std::string pad; while (pad.size() < 3000) { pad += "%n%s%x%d"; } o = "GET /%s%n%x?t=%n%s HTTP/1.1\r\nUser-Agent: " + pad.substr(0, r.range(1, 900)) + "\r\nX-Session: %s%n\r\n\r\n"; break; }
    case 30: o = "GET /" + std::string(r.range(1, 250), ch(.5) ? '/' : '.') + " HTTP/1.1\r\n\r\n"; break;
    case 31: o = "POST /api/up?t=" + token() + " HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=b\r\nContent-Length: " + std::to_string(r.range(1, 12)) + "\r\n\r\n--b--b--b--b"; break;
    case 32: { std::string f = "Content-Disposition: form-data; name=\"" + alnum(1) + "\"\r\n\r\n", b; int n = r.range(2, 40); for (int i = 0; i < n; i++) b += "--b\r\n" + f + (ch(.5) ? "" : "v") + "\r\n"; b += "--b--"; o = "POST /api/up?t=" + token() + " HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=b\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; break; }
    default: { std::string b; int n = r.range(2, 30); for (int i = 0; i < n; i++) b += "--b\r\nform-data; name=\"f\"; filename=\"x\"\r\n\r\n\r\n"; b += "--b--"; o = "POST /api/up?t=" + token() + " HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=b\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; break; }
    }
    q.bytes = o; q.line = std::min(o.size(), o.find('\n') == std::string::npos ? o.size() : o.find('\n') + 1); q.head = o.find("\r\n\r\n") == std::string::npos ? o.size() : o.find("\r\n\r\n") + 4;
    return q;
  }
  void deliver(ClientSpec &c, const std::string &bytes, u64 first) {
    std::vector<size_t> cuts;
    if (ch(w.split) && bytes.size() > 1) {
      int m = (int)r.below(4);
      int n = m == 0 ? (int)std::min<size_t>(bytes.size() - 1, 400) : r.range(1, 8);
      if (m == 0) for (int i = 1; i <= n; i++) cuts.push_back(i); else for (int i = 0; i < n; i++) cuts.push_back(1 + r.below(bytes.size() - 1));
      if (ch(.3)) { size_t p = bytes.find("\r\n\r\n"); if (p != std::string::npos && p + 2 < bytes.size()) { cuts.push_back(p + 1 + r.below(std::min<size_t>(4, bytes.size() - p - 1))); } }
      std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    }
    size_t a = 0; u64 d = first; bool fast = ch(.4);
    for (size_t i = 0; i <= cuts.size(); i++) {
      size_t b = i < cuts.size() ? cuts[i] : bytes.size();
      if (b > a) c.acts.push_back({d, 'S', bytes.substr(a, b - a)});
      a = b;
      d = fast ? r.below(30) : ch(w.pause) ? r.range(5000, 120000) : r.below(cuts.size() > 50 ? 40 : 2000);
    }
  }
  u64 lull() { double u = r.uni(); return (u64)(1e6 * __builtin_pow(120.0, u)); } // a second to two minutes
  int rderr() { static const int e[] = {EIO, EIO, EIO, ENOMEM, ESTALE, ETIMEDOUT, EISDIR}; return e[r.below(6)]; }
  int wrerr() { static const int e[] = {ENOSPC, ENOSPC, EIO, EDQUOT, EFBIG, ENOMEM, EROFS}; return e[r.below(6)]; }
  void netfaults(int id, size_t len) {
    auto f = [&](const char *k, int64_t off, int err, int64_t arg) { Fault x; x.kind = k; x.client = id; x.off = off; x.err = err; x.arg = arg; s.faults.push_back(x); };
    if (ch(w.eintr)) for (int i = r.range(1, 3); i > 0; i--) { int64_t o = r.below(len + 1); for (int k = ch(.35) ? r.range(2, 9) : 1; k > 0; k--) f("recv", o, EINTR, 0); }
    if (ch(w.rshort)) for (int i = r.range(1, 3); i > 0; i--) f("recv", r.below(len + 1), 0, 1 + r.below(20));
    if (ch(w.rerr)) f("recv", r.below(len + 1), ch(.7) ? ECONNRESET : ETIMEDOUT, 0);
    auto soff = [&] { if (s.tls && ch(.5)) return (int64_t)(1000 + r.below(3000)); return (int64_t)(ch(.5) ? r.below(250) : ch(.6) ? r.below(1200) : r.below(60000)); };
    if (ch(w.seintr)) for (int i = r.range(1, 3); i > 0; i--) { int64_t o = soff(); for (int k = ch(.35) ? r.range(2, 9) : 1; k > 0; k--) f("send", o, EINTR, 0); }
    if (ch(w.stransient)) f("send", soff(), ch(.5) ? ENOBUFS : ENOMEM, 0);
    if (ch(w.sshort)) for (int i = r.range(1, 4); i > 0; i--) f("send", soff(), 0, 0);
    if (ch(w.serr)) f("send", soff(), ch(.5) ? EPIPE : ECONNRESET, 0);
    if (ch(w.alloc)) f("alloc", ch(.8) ? r.range(1, 6) : -r.range(1, 4), ENOMEM, 0);
  }
  void client(u64 base, int epoch, int group, bool only_good = false) {
    ClientSpec c; c.ip = ip(); c.tls = s.tls && !ch(.12); c.epoch = epoch; c.group = group;
    c.at = base + (ch(w.burst) ? r.below(300) : r.below(60000));
    Rq q; bool bad = !only_good && ch(w.bad);
    if (s.rawhandler) { q.bytes = alnum(r.range(1, 100)) + "\r\n"; q.line = q.head = q.bytes.size(); }
    else q = bad ? nasty() : request();
    int id = (int)s.clients.size();
    std::string b = q.bytes; char end = 0; u64 endd = 0;
    if (!only_good && ch(w.trunc) && b.size() > 1) {
      size_t k; switch (r.below(5)) { case 0: k = r.below(q.line + 1); break; case 1: k = q.head ? r.below(q.head + 1) : 0; break; case 2: k = b.size() - 1 - r.below(std::min<size_t>(3, b.size() - 1)); break; case 3: k = q.head < b.size() ? q.head + r.below(b.size() - q.head) : r.below(b.size()); break; default: k = r.below(b.size()); }
      b.resize(std::min(k, b.size()));
      end = "FFRCH"[r.below(5)]; endd = r.below(3000);
    } else if (!only_good && ch(w.fin)) { end = 'F'; endd = r.below(2000); }
    else if (!only_good && ch(w.rst)) { end = ch(.5) ? 'R' : 'C'; endd = ch(.5) ? r.below(300) : r.below(60000); }
    deliver(c, b, r.below(500));
    if (!only_good && ch(w.lull) && c.acts.size()) { auto &a = c.acts[r.below(c.acts.size())]; a.delay += lull(); }
    if (end && end != 'H') c.acts.push_back({endd, end, ""});
    if (ch(w.slow)) c.read_rate = r.range(1, 400) * (ch(.5) ? 1 : 20);
    if (ch(.3)) c.window = r.range(1, 3000); else if (ch(.2)) c.window = 1 << 20;
    if (!only_good && ch(w.stall)) { c.read_stop = ch(.5) ? r.below(300) : r.below(20000); c.persist = ch(w.persist); c.resume = ch(w.lull * 4) ? lull() : r.range(100, 90000); if (ch(.5)) c.window = r.range(1, 2000); }
    if (c.tls && ch(.12) && c.acts.size()) { // plain bytes in the middle of the session
      size_t k = ch(.5) ? 0 : r.below(c.acts.size());
      Rq x = request(); Action p; p.delay = r.below(3000); p.type = 'P'; p.data = ch(.6) ? x.bytes : ch(.5) ? b : binary(r.range(1, 60));
      if (ch(.5)) p.data = (ch(.5) ? alnum(5) : std::string("\x17\x03\x03\0", 4) + std::string(1, (char)r.range(20, 60))) + p.data; // what a reader of records takes first
      if (p.data[0] == 23 && p.data.size() > 5) p.data.insert(5, binary((unsigned char)p.data[4]));
      if (ch(.5)) for (auto &a : c.acts) { if (a.type == 'S' && a.data.size() > 2 && ch(.5)) { a.data.resize(1 + r.below(a.data.size() - 1)); } }
      c.acts.insert(c.acts.begin() + k + (ch(.8) ? 0 : 1), p);
      while (!c.acts.empty() && ch(.6) && c.acts.back().type == 'S' && c.acts.size() > k + 2) c.acts.pop_back();
    }
    if (c.tls && ch(.12)) { c.tls_cut = ch(.6) ? r.below(400) : r.below(1500); c.tls_cut_kind = "FRH"[r.below(3)]; }
    netfaults(id, b.size());
    s.clients.push_back(c);
  }
  std::string list_text(bool allow) {
    std::string o; std::vector<std::string> l;
    int n = r.range(0, 5);
    for (int i = 0; i < n; i++) { int k = (int)r.below(6); std::string x = ip(); if (k == 0) x += "1"; else if (k == 1) x = "1" + x; else if (k == 2 && x.size() > 3) x.pop_back(); else if (k == 3) x = strf("10.%d.%d.%d", r.range(0, 255), r.range(0, 255), r.range(0, 255)); if (x != "10.9.9.9" || allow) l.push_back(x); }
    if (ch(w.biglist)) { int m = r.range(300, 1500); for (int i = 0; i < m; i++) l.push_back(strf("172.%d.%d.%d", r.range(16, 31), r.range(0, 255), r.range(0, 255))); }
    if (allow) { l.push_back("10.9.9.9"); if (ch(.5)) for (auto &x : ips) if (ch(.6)) l.push_back(x); }
    for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[r.below(i)]);
    const char *nl = ch(.85) ? "\n" : "\r\n";
    if (ch(w.xlines)) for (auto &x : l) if (ch(.3) || (x.size() && l.size() < 10 && ch(.3))) { // several words on a line, comments, very long lines
      int k = (int)r.below(6);
      if (k == 0) x = x + "1 " + x; else if (k == 1) x = "1" + x + " " + x; else if (k == 2) x = x + " # office"; else if (k == 3) x = "  " + x; else if (k == 4) x = x + "1, " + x;
      else { static const int bd[] = {64, 100, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4096, 8192}; int m = bd[r.below(14)] - (int)r.below(18); std::string pad; while ((int)pad.size() < m) pad += ch(.5) ? strf("172.20.%d.%d ", r.range(0, 255), r.range(0, 255)) : "x "; pad.resize(std::max(1, m)); pad.back() = ' '; x = pad + x; }
    }
    for (size_t i = 0; i < l.size(); i++) o += l[i] + (i + 1 < l.size() || ch(.8) ? nl : "");
    if (ch(.08)) o = "\n" + o;
    return o;
  }
  void lists() {
    std::string E = s.root + "/etc/";
    bool any = false;
    if (ch(w.lists)) { any = true; s.files.push_back({E + "deny", list_text(false)}); }
    if (ch(w.lists)) { any = true; s.files.push_back({E + "allow", list_text(true)}); }
    if (any && ch(w.admin * 2)) for (int i = r.range(1, 4); i > 0; i--) {
      WorldEvent e; bool al = ch(.5); e.path = E + (al ? "allow" : "deny"); e.at = r.below(60000); e.kind = ch(.8) ? "put" : "rm"; if (e.kind == "put") e.data = list_text(al); s.events.push_back(e);
    }
    if (any && ch(w.listfault)) for (int i = r.range(1, 3); i > 0; i--) {
      Fault f; f.kind = "file"; f.path = E + (ch(.5) ? "allow" : "deny"); static const char *op[] = {"open", "read", "stat", "open", "read", "seek"}; f.op = op[r.below(6)]; f.off = ch(.5) ? r.range(1, 6) : -r.range(1, 4); static const int er[] = {EIO, EMFILE, EACCES, ENFILE, ENOMEM}; f.err = f.op == "read" || f.op == "seek" ? rderr() : er[r.below(5)]; if (f.op == "read" && ch(.3) && f.off > 0) { f.err = 0; f.arg = r.range(1, 50); } s.faults.push_back(f);
    }
  }
  void old_logs() { // what earlier runs left, possibly torn at the end by a power failure
    if (!ch(w.oldlog)) return;
    std::string t; int n = ch(.2) ? r.range(200, 1500) : r.range(1, 20);
    for (int i = 0; i < n; i++) t += strf("%s - - [%02d/Nov/2017:%02d:%02d:%02d +0000] \"GET /api/%s HTTP/1.1\" 200 %d \"-\" \"-\" %d.%03d\n", ip().c_str(), r.range(1, 30), r.range(0, 23), r.range(0, 59), r.range(0, 59), token().c_str(), r.range(0, 9000), r.range(0, 9), r.range(0, 999));
    if (ch(.5)) t.resize(t.size() - r.range(1, 60));
    s.files.push_back({"/var/log/wayuu-access.log", t});
  }
  void limits() {
    if (!ch(w.limits)) return;
    std::string t; int n = r.range(1, 4);
    if (ch(.08)) { int m = r.range(5, 62); for (int i = 0; i < m; i++) t += strf("/many%d,%d,%d\n", i, r.range(1, 5), r.range(1, 5)); }
    static const char *p[] = {"/", "/api", "/api/a", "/api/up", "/sub", "/page", "/api/item", "/zzz"};
    if (ch(w.longrule)) { // a rule with a long path and requests for it
      longurl = ch(.5) ? "/api/" : "/sub/";
      if (ch(.7)) for (int k = 0; k < 20; k++) { // served by a handler that takes time
        auto &x = s.routes[r.below(s.routes.size())]; size_t b = x.tmpl.find('{'), c = x.tmpl.find(':');
        if (x.handler == 5 || b == std::string::npos) continue;
        longurl = "/api" + x.tmpl.substr(c + 1, b - c - 1); longmethod = x.tmpl.substr(0, c); break;
      }
      longurl += alnum(r.range(20, 180 - (int)longurl.size())); std::string rule = longurl + alnum(r.range(0, 20));
      t += rule + strf(",%d,%d\n", r.range(1, 3), r.range(1, 3)); longurl = rule;
    }
    if (ch(.1)) t = std::string(ch(.5) ? "/apix" : "/xxxx") + std::string(r.range(505, 509), 'x') + ",1,1\n" + t; // about as long as a path may be
    bool wide = w.secs > 0 && ch(.3), brief = w.secs > 0 && ch(.15); // rules that only limit the time
    for (int i = 0; i < n; i++) {
      std::string cm = ch(.3) ? ", " : ",";
      t += std::string(p[r.below(8)]) + (wide ? strf("%s%d%s%d", cm.c_str(), r.range(30, 100), cm.c_str(), r.range(20, 100)) : strf("%s%d%s%d", cm.c_str(), r.range(1, 4), cm.c_str(), r.range(1, 3)));
      if (ch(w.secs)) t += cm + strf("%d", brief ? 1 : ch(.7) ? r.range(1, 4) : ch(.8) ? r.range(8, 25) : r.range(58, 130));
      t += "\n";
      if (ch(.15)) t += "# comment\n";
      if (ch(.05)) t += "/broken\n";
    }
    if (ch(.04)) for (int i = 0; i < 70; i++) t += strf("/many%d,5,5\n", i);
    if (ch(.06)) { // a path that fits nowhere
      std::string l = ch(.5) ? "/" + alnum(ch(.5) ? r.range(511, 3000) : r.range(20000, 60000)) : std::string(ch(.5) ? r.range(512, 600) : r.range(1000, 50000), '/');
      l += ",1,1\n"; size_t q = t.find('\n'); if (ch(.4) || q == std::string::npos) t += l; else t.insert(ch(.5) ? 0 : q + 1, l);
    }
    s.files.push_back({s.root + "/etc/limits", t});
  }
  void world_faults() {
    std::string R = s.root;
    if (ch(w.wall)) for (int i = r.range(1, 3); i > 0; i--) { WorldEvent e; e.kind = "wallstep"; e.at = r.below(80000); static const int64_t d[] = {-3600000, 3600000, -1000, 1000, -86400000, 999, -250, 86400000ll * 30}; e.arg = d[r.below(8)]; s.events.push_back(e); }
    if (ch(w.jitter)) { u64 span = ch(.5) ? 4000 : 30000; int n = r.range(20, 90); int64_t step = ch(.5) ? 1000 : r.range(1, 40) * 1000; for (int i = 0; i < n; i++) { WorldEvent e; e.kind = "wallstep"; e.at = 300 + r.below(span); e.arg = ch(.5) ? step : -step; s.events.push_back(e); } }
    if (ch(w.admin)) for (int i = r.range(1, 4); i > 0; i--) {
      WorldEvent e; e.at = r.below(60000); std::string f = ch(.15) ? "/index.html" : ch(.7) && !www.empty() ? r.pick(www) : ""; e.path = f.empty() ? strf("/srv/data/f%d%s", 0, "") : R + "/www" + f;
      if (f.empty()) { int k = r.range(0, 15); e.path = strf("/srv/data/f%d%s", k, FEXT[k & 7]); }
      int k = (int)r.below(6); e.kind = k < 3 ? "put" : k == 3 ? "rm" : k == 4 ? "truncate" : "append"; e.arg = r.below(200); e.data = "new version " + (ch(.5) ? binary(sz()) : alnum((int)sz())); s.events.push_back(e);
    }
    if (ch(w.rotate)) for (int i = r.range(1, 2); i > 0; i--) { WorldEvent e; e.kind = "rotate"; e.at = r.below(ch(.5) ? 5000 : 60000); s.events.push_back(e); }
    if (ch(w.rmtmp)) for (int i = r.range(1, 2); i > 0; i--) { WorldEvent e; e.kind = "rmtmp"; e.at = r.below(ch(.5) ? 5000 : 60000); s.events.push_back(e); }
    if (ch(w.file)) for (int i = r.range(1, 3); i > 0; i--) {
      Fault f; f.kind = "file"; int k = (int)r.below(6);
      static const char *ro[] = {"open", "read", "stat", "seek", "open", "read"}; static const char *wo[] = {"open", "write", "close", "write", "mkdir"};
      static const int er[] = {EIO, EMFILE, ENFILE, EACCES, ENOMEM};
      if (k < 3) { f.path = ch(.5) ? "*" : R + "/www/*"; f.op = ro[r.below(6)]; if (f.path == "*") f.path = "/srv/data/*"; }
      else { f.path = ch(.3 + w.helpers * .4) ? "/srv/data/out-*" : "/tmp/wayuu/*"; f.op = wo[r.below(4)]; }
      f.off = ch(.7) ? r.range(1, 8) : -r.range(1, 8);
      f.err = f.op == "write" ? wrerr() : f.op == "close" ? (ch(.6) ? EIO : wrerr()) : f.op == "read" || f.op == "seek" ? rderr() : er[r.below(5)];
      if (f.op == "write") f.arg = ch(.5) ? 0 : r.below(3000);
      if (f.op == "write" && ch(.2)) f.err = 0, f.arg = 1 + r.below(300);
      if (f.op == "read" && ch(.3)) f.err = 0, f.arg = 1 + r.below(300);
      s.faults.push_back(f);
    }
    if (ch(w.disk)) { size_t t = 0; for (auto &f : s.files) t += f.second.size(); s.opt["diskcap"] = (int64_t)t + r.below(ch(.5) ? 3000 : 40000); }
    if (ch(w.accept)) for (int i = r.range(1, 4); i > 0; i--) { Fault f; f.kind = "accept"; f.off = r.range(1, 12); static const int er[] = {ECONNABORTED, EINTR, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPROTO, EPERM, ENETDOWN, EHOSTUNREACH, ENONET, ENOPROTOOPT, EOPNOTSUPP, ENETUNREACH, EHOSTDOWN, EAGAIN}; f.err = er[r.below(ch(.6) ? 7 : 16)]; s.faults.push_back(f); }
    if (s.tls && ch(.08)) for (int i = r.range(1, 3); i > 0; i--) { Fault f; f.kind = "sslnew"; f.off = r.range(1, 10); f.err = ENOMEM; s.faults.push_back(f); }
    if (ch(w.fdlim)) s.opt["fdlimit"] = r.range(s.tls ? 8 : 7, 16);
    if (ch(w.pthr)) { if (ch(.5)) s.opt["maxthreads"] = r.range(1, 6); else for (int i = r.range(1, 4); i > 0; i--) { Fault f; f.kind = "pthread"; f.off = r.range(1, 200); f.err = EAGAIN; s.faults.push_back(f); } }
  }
  // one static file that is replaced again and again by others of the same size, and read in between
  void versions() {
    if (www.empty()) return;
    std::string f = r.pick(www), p = s.root + "/www" + f; size_t n = 0;
    for (auto &x : s.files) if (x.first == p) n = x.second.size();
    if (!n || f.find("..") != std::string::npos) return;
    int m = r.range(1, 4); u64 t = 300, gap = ch(.7) ? r.range(3000, 30000) : r.range(30000, 2000000);
    auto get = [&] { ClientSpec c; c.ip = ip(); c.tls = s.tls && !ch(.12); c.at = t + r.below(gap); c.acts.push_back({0, 'S', "GET " + f + "?t=" + token() + " HTTP/1.1\r\n\r\n"}); s.clients.push_back(c); };
    for (int i = 0; i <= m; i++) {
      for (int k = r.range(1, 3); k > 0; k--) get();
      t += gap;
      if (i < m) { WorldEvent e; e.at = t; e.path = p; e.kind = "put"; e.data = strf("v%d ", i) + alnum((int)std::min<size_t>(n, 20000)); e.data.resize(n, 'z'); s.events.push_back(e); t += r.range(1, 300); }
    }
  }
  void startup() {
    // something may be broken before the first connection
    int k = (int)r.below(18); Fault f; f.kind = "startup";
    switch (k) {
    case 0: f.op = "socket"; f.err = EMFILE; s.faults.push_back(f); break;
    case 1: f.op = "bind"; f.err = ch(.4) ? EADDRINUSE : ch(.5) ? EACCES : EADDRNOTAVAIL; s.faults.push_back(f); break;
    case 2: f.op = "listen"; f.err = EADDRINUSE; s.faults.push_back(f); break;
    case 3: f.op = "setsockopt"; f.err = ENOMEM; s.faults.push_back(f); break;
    case 4: s.files.push_back({"/tmp/wayuu", "in the way"}); s.opt["fatal"] = 1; for (size_t i = 0; i < s.events.size();) { if (s.events[i].kind == "rmtmp") s.events.erase(s.events.begin() + i); else i++; } break;
    case 5: { Fault g; g.kind = "file"; g.path = "/tmp/wayuu"; g.op = "mkdir"; g.off = -1; g.err = ch(.5) ? ENOSPC : EACCES; s.faults.push_back(g); s.opt["fatal"] = 1; break; }
    case 6: if (s.tls) { std::string p = s.root + "/ssl/" + (ch(.5) ? "cert.pem" : "key.pem"); for (auto it = s.files.begin(); it != s.files.end(); ++it) if (it->first == p) { if (ch(.4)) s.files.erase(it); else if (ch(.5)) it->second = "garbage\n"; else it->second.resize(it->second.size() / 2); break; } s.opt["fatal"] = 1; } break;
    case 7: if (s.tls) { for (auto &x : s.files) if (x.first == s.root + "/ssl/key.pem") x.second = KEY_OTHER; s.opt["fatal"] = 1; } break;
    case 12: case 13: {
      std::string p = s.root + "/etc/limits"; bool have = false; for (auto &x : s.files) if (x.first == p) { have = true; if (x.second.empty()) x.second = "/api,100,50\n"; }
      if (!have) s.files.push_back({p, "/api,100,50\n"});
      Fault g; g.kind = "file"; g.path = p; g.op = k == 12 ? "open" : "read"; g.off = ch(.5) ? 1 : -1;
      static const int er[] = {EACCES, EMFILE, ENFILE, ENOMEM, EIO}; g.err = k == 12 ? er[r.below(5)] : rderr();
      s.faults.push_back(g); s.opt["fatal"] = 1; break; }
    case 8: s.opt["maxthreads"] = 0; break;
    case 14: case 15: { static const int e[] = {4, 5, 6, 8, 9}; s.opt["badarg"] = s.embed ? e[r.below(5)] : r.range(1, 13); break; }
    case 9: s.opt["maxthreads"] = r.range(1, 5); break;
    case 10: if (!s.embed) { Fault g; g.kind = "file"; g.path = "/var/log/wayuu.log"; g.op = "open"; g.off = -1; g.err = ch(.5) ? EACCES : ENOSPC; s.faults.push_back(g); s.opt["fatal"] = 1; } break;
    case 11: if (s.tls) { f.op = "sslctx"; f.err = ENOMEM; s.faults.push_back(f); } else if (s.root != "/etc/wayuu" && !s.embed) { s.root = "/no/such/root"; s.opt["fatal"] = 1; for (size_t i = 0; i < s.dirs.size();) { if (s.dirs[i].compare(0, 8, "/no/such") == 0) s.dirs.erase(s.dirs.begin() + i); else i++; } } break;
    }
  }
  void conf() {
    s.mode = "conf"; s.opt["eager"] = 70;
    int n = r.range(1, 6);
    std::vector<std::string> paths;
    for (int i = 0; i < n; i++) {
      ConfJob j; j.path = strf("/etc/conf%d.conf", i); if (ch(.12)) j.path = strf("/etc/%s%d.conf", alnum(r.range(60, 230)).c_str(), i); j.delay = ch(.5) ? 0 : r.below(300);
      bool big = ch(.15); // more than a stdio buffer holds
      int m = big || ch(.1) ? 20 : ch(.05) ? 0 : r.range(1, 8);
      for (int k = 0; k < m; k++) {
        bool multi = ch(.4); std::string it = std::string(multi ? "m" : "s") + (char)('0' + r.below(4)) + "=";
        auto val = [&](int mx) { std::string v; int l = r.range(1, mx); for (int x = 0; x < l; x++) v += ch(.9) ? alnum(1)[0] : multi ? "/.:;-_ #"[r.below(8)] : "/.:;-_ #=,"[r.below(10)]; v[0] = 'v'; v.back() = 'e'; return v; };
        if (!multi) { if (!ch(.04)) it += val(big ? 480 : ch(.05) ? 400 : ch(.04) ? 2500 : 30); }
        else { int e = ch(.1) ? 20 : r.range(1, 6); for (int x = 0; x < e; x++) it += (x ? "," : "") + val(ch(.05) ? 48 : 20); }
        j.items.push_back(it);
      }
      int t = (int)r.below(4); j.type = t == 0 ? 0 : t == 1 ? 1 : 2;
      if (j.type == 1) {
        std::string txt; bool crlf = ch(.1);
        for (auto &x : j.items) {
          std::string l = x; size_t q = l.find('=');
          if (ch(.1)) l.insert(q + 1, r.range(1, 3), ' ');
          if (ch(.1)) l.insert(q, r.range(1, 3), ch(.7) ? ' ' : '\t');
          if (ch(.08)) l.insert(0, r.range(1, 3), ' ');
          if (ch(.08)) l += "  ";
          if (ch(.06)) l = "other" + l;
          if (l[0] == 'm' && ch(.15)) for (int e = r.range(15, 60); e > 0; e--) l += ",v" + alnum(r.range(0, 5)) + "e";
          if (l[0] == 'm' && ch(.1)) l.insert(q + 1, ",");
          if (ch(.02)) { static const char *odd[] = {"==", "=", "= =", "nodelimiter", "", " ", "=s0", "s1==", "==s2=x", ",", "m0=,", "m1=,,,"}; txt += std::string(odd[r.below(12)]) + (crlf ? "\r\n" : "\n"); }
          txt += l + (crlf ? "\r\n" : "\n");
        } if (ch(.2) && !txt.empty()) txt.pop_back(); if (!ch(.05)) s.files.push_back({j.path, txt});
      } else if (ch(.3)) s.files.push_back({j.path, "s0=old\ns1=stale\n"});
      s.jobs.push_back(j); paths.push_back(j.path);
    }
    s.dirs.push_back("/etc");
    if (ch(.55)) for (int i = r.range(1, 3); i > 0; i--) {
      Fault f; f.kind = "file"; f.path = r.pick(paths); static const char *op[] = {"open", "read", "write", "close", "write", "read"}; f.op = op[r.below(6)]; f.off = ch(.6) ? r.range(1, 3) : -r.range(1, 2);
      f.err = f.op == "write" ? wrerr() : f.op == "close" ? (ch(.6) ? EIO : wrerr()) : f.op == "open" ? (ch(.5) ? EACCES : EMFILE) : rderr(); if (f.op == "write") f.arg = ch(.5) ? 0 : r.below(100);
      if ((f.op == "write" || f.op == "read") && ch(.3)) f.err = 0, f.arg = 1 + r.below(30);
      s.faults.push_back(f);
    }
    if (ch(.1)) { size_t t = 0; for (auto &f : s.files) t += f.second.size(); s.opt["diskcap"] = (int64_t)t + r.below(300); }
  }
  void flood() {
    // many clients at the same instant for many idle workers
    s.opt["eager"] = r.range(8, 72); s.opt["fdlimit"] = 4000; s.tls = false; s.opt.erase("maxthreads");
    int n = r.range(18, 70); w.split *= .2; w.stall *= .3; w.trunc *= .3;
    for (int i = 0; i < n; i++) client(300, 0, 0);
    u64 t = 300 + r.below(200); for (auto &c : s.clients) if (!ch(.1)) c.at = t + r.below(ch(.5) ? 3 : 60);
    if (ch(.5)) for (auto &c : s.clients) if (!c.acts.empty() && !ch(.1)) c.acts[0].delay += r.range(20000, 90000); // every one keeps its worker busy for long
  }
  void history() {
    // so many connections that the queue has wrapped around, then an ordinary mix
    s.opt["eager"] = r.range(1, 4); s.opt["fdlimit"] = 4000; s.tls = false; s.opt.erase("maxthreads");
    int n = r.range(1000, 1050);
    std::vector<std::string> keep = ips;
    for (int i = 0; i < n; i++) {
      ClientSpec c; c.ip = ip(); c.at = 100 + i * 40 + r.below(20); c.window = 1 << 20;
      c.acts.push_back({0, 'S', strf("GET /api/nosuch?t=%s HTTP/1.1\r\n\r\n", token().c_str())});
      s.clients.push_back(c);
    }
    u64 base = 100 + (u64)n * 40; int m = r.range(6, 20);
    for (int i = 0; i < m; i++) client(ch(.5) ? base - r.below(1200) : base, 0, 0);
  }
  void queue_run() {
    // more connections than the queue holds
    s.opt["maxthreads"] = r.range(1, 2); s.opt["eager"] = 4; s.opt["fdlimit"] = 4000; s.opt["nosched"] = ch(.5); s.tls = false;
    int n = r.range(1026, 1045) + (int)s.opt["maxthreads"];
    ips = {"10.0.0.1", "10.0.0.2", "10.0.0.3"};
    for (int i = 0; i < n; i++) {
      ClientSpec c; c.ip = ip(); c.at = i < 3 ? 100 : 2000 + i * 12; c.window = 1 << 20;
      std::string q = i < 3 ? strf("GET /page0.zz?t=%s HTTP/1.1\r\n", token().c_str()) : strf("GET /api/nosuch?t=%s HTTP/1.1\r\n\r\n", token().c_str());
      c.acts.push_back({0, 'S', q});
      if (i < 3) c.acts.push_back({r.range(60000, 120000) + 0ull, 'S', "\r\n"});
      s.clients.push_back(c);
    }
  }
};

static W profile(const std::string &p, Rng &r) {
  W w;
  if (p == "C01") { w.surplus = .08; w.api = .92; w.hdrs = .8; w.sess = .5; w.split = .8; w.eintr = .25; w.odd = .3; w.bad = .05; w.cmax = 18; w.work = .2; w.xreal = .25; w.lull = .12; }
  else if (p == "C02") { w.cmax = 24; w.burst = .8; w.stall = .15; w.rst = .12; w.queue = .02; w.flood = .12; w.history = .03; w.pthr = .2; w.raw = .12; w.accept = .15; }
  else if (p == "C03") { w.limits = 1; w.longrule = .25; w.burst = .85; w.work = .7; w.api = .85; w.cmin = 6; w.cmax = 22; w.trunc = .2; w.rst = .15; w.fdlim = .02; w.file = .02; w.mixcase = .25; w.flood = .02; }
  else if (p == "C04") { w.lists = .8; w.xlines = .4; w.biglist = .4; w.listfault = .4; w.admin = .35; w.cmax = 18; w.fdlim = .12; w.bad = .03; }
  else if (p == "C05") { w.lull = .09; w.surplus = .1; w.sshort = .5; w.seintr = .4; w.serr = .15; w.stransient = .2; w.slow = .3; w.stall = .25; w.sess = .6; w.odd = .35; w.tls = .15; w.bigbody = .3; w.bad = .05; w.rst = .15; }
  else if (p == "C06") { w.surplus = .08; w.trunc = .6; w.post = .6; w.upload = .35; w.rerr = .2; w.eintr = .2; w.odd = .25; w.api = .9; }
  else if (p == "C07") { w.bad = .6; w.trunc = .25; w.rst = .15; w.accept = .3; w.fdlim = .15; w.odd = .4; w.embed = .4; w.upload = .3; w.serr = .1; w.alloc = .2; }
  else if (p == "C08") { w.cmax = 24; w.burst = .8; w.trunc = .25; w.rst = .15; w.fdlim = .15; w.file = .15; w.limits = .3; w.lists = .3; w.serr = .1; w.queue = .006; w.work = .2; }
  else if (p == "C09") { w.rounds = 1; w.cmin = 2; w.cmax = 6; w.bad = .2; w.trunc = .25; w.limits = .3; w.lists = .35; w.upload = .25; w.tls = .2; w.serr = .1; w.api = .65; w.bigbody = .02; }
  else if (p == "C10") { w.upload = .85; w.api = .97; w.file = .25; w.disk = .2; w.fdlim = .08; w.work = .6; w.preserve = .9; w.burst = .8; w.trunc = .08; w.bad = .04; w.rmtmp = .25; w.alloc = .1; }
  else if (p == "C11") { w.oldlog = .2; w.cmax = 20; w.wall = .4; w.jitter = .4; w.sshort = .2; w.work = .4; w.burst = .8; w.hdrs = .8; w.bad = .04; w.limits = .15; w.file = .02; w.stall = .15; w.rotate = .2; }
  else if (p == "C12") { w.marks = .85; w.jitter = .5; w.debug = .6; w.cmax = 18; w.burst = .9; w.wall = .25; w.api = .92; w.bad = .05; }
  else if (p == "C13") { w.limits = 1; w.wedge = .1; w.secs = .85; w.wall = .5; w.stall = .35; w.persist = .8; w.trunc = .45; w.work = .4; w.burst = .5; w.cmax = 10; w.bad = .02; w.tls = .1; w.file = .01; w.fdlim = .01; w.accept = .03; }
  else if (p == "C14") { w.api = .08; w.dots = .6; w.root = .5; w.bad = .1; }
  else if (p == "C15") { w.api = .2; w.badpath = .25; w.dots = .04; w.file = .3; w.admin = .4; w.fdlim = .08; w.root = .35; w.bad = .03; w.stall = .15; w.bigbody = .25; w.alloc = .08; }
  else if (p == "C16") { w.popular = .25; w.api = .97; w.badpath = .3; w.param = .5; w.filter = .6; w.bigroutes = .12; w.bad = .04; w.burst = .7; w.upload = .05; }
  else if (p == "C17") { w.tls = 1; w.cmax = 8; w.trunc = .1; w.serr = .06; w.eintr = .25; w.seintr = .2; w.accept = .04; w.bad = .06; }
  else if (p == "C19") { w.startup = .8; w.tls = .4; w.cmax = 6; w.embed = .3; w.pthr = .3; }
  else if (p == "C24") { w.helpers = .85; w.api = .97; w.upload = .08; w.badpath = .03; w.file = .35; w.disk = .1; w.fdlim = .1; w.bad = .02; w.burst = .9; w.work = .1; w.cmax = 18; w.trunc = .03; w.rst = .05; w.debug = .15; }
  else if (p == "C20") { w.oldlog = .2; w.crash = 1; w.upload = .45; w.preserve = .9; w.cmax = 12; w.api = .8; w.bad = .03; w.disk = .02; w.tls = .05; w.file = .02; w.wall = .03; }
  (void)r;
  return w;
}
static const char *ALL[] = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C24"};
Scenario scenario_gen(const std::string &prop, u64 seed) {
  Gen g(seed * 1000003ull + std::hash<std::string>()(prop) % 997);
  std::string p = prop;
  bool special = prop == "C09" || prop == "C13" || prop == "C17" || prop == "C18" || prop == "C19" || prop == "C20";
  if (g.ch(special ? .06 : .2)) p = ALL[g.r.below(21)];
  g.w = profile(p, g.r); g.prop = p;
  g.s.prop = prop; g.s.seed = seed;
  g.s.sched_mode = 1; g.s.sched_seed = g.r.next();
  if (p == "C18") { g.conf(); return g.s; }
  // sometimes a much quieter world, so that one rare thing can be seen alone
  if (g.ch(.25)) { W &w = g.w; double k = .25; w.rerr *= k; w.serr *= k; w.rst *= k; w.accept *= k; w.file *= k; w.fdlim *= k; w.stall *= k; if (p != "C07") w.bad *= k; if (p != "C06" && p != "C13") w.trunc *= k; w.disk *= k; }
  g.world();
  if (g.ch(g.w.raw)) { g.s.rawhandler = true; g.s.embed = true; g.s.tls = false; }
  g.routes();
  if (g.ch(g.w.queue)) { g.queue_run(); return g.s; }
  if (g.ch(g.w.history)) { g.history(); g.world_faults(); return g.s; }
  if (g.ch(g.w.flood)) { g.flood(); g.world_faults(); g.s.opt["fdlimit"] = 4000; g.s.opt.erase("maxthreads"); return g.s; }
  g.lists(); g.limits(); g.old_logs();
  bool secs = false; for (auto &f : g.s.files) if (f.first == g.s.root + "/etc/limits") { int mx = 0; size_t q = 0; while (q < f.second.size()) { size_t e = f.second.find('\n', q); std::string l = f.second.substr(q, e - q); int n = 0; for (char c : l) n += c == ','; if (n >= 3) { secs = true; mx = std::max(mx, atoi(l.c_str() + l.rfind(',') + 1)); } q = e + 1; } if (secs) g.s.opt["settle_ms"] = (mx + 7) * 1000; }
  if (g.w.rounds > 0 && g.ch(g.w.rounds)) {
    g.s.opt["rounds"] = 6; g.s.opt["eager"] = g.r.range(2, 5); g.w.admin = 0; g.w.wall = 0; g.w.disk = 0;
    int n = g.r.range(g.w.cmin, g.w.cmax);
    for (int i = 0; i < n; i++) g.client(200, 0, 1);
    if (g.ch(.3)) for (int i = g.r.range(1, 3); i > 0; i--) g.client(200, 0, 0);
    g.world_faults();
    g.s.faults.erase(std::remove_if(g.s.faults.begin(), g.s.faults.end(), [](const Fault &f) { return f.kind == "file" && f.off > 0; }), g.s.faults.end());
    return g.s;
  }
  if (p == "C20" && g.ch(.2)) { g.s.opt["eager"] = g.r.range(1, 2); g.w.upload = .9; g.w.preserve = 1; g.w.api = 1; g.w.work = .9; g.w.cmax = 5; g.w.filter = .1; }
  int n = g.r.range(g.w.cmin, g.w.cmax);
  if (g.ch(.1)) n = g.r.range(1, 3);
  if (g.w.crash > 0 && g.ch(g.w.crash)) {
    int e = g.ch(.2) ? 2 : 1;
    for (int i = 0; i < n; i++) g.client(300, 0, 0);
    size_t first = g.s.clients.size();
    for (int k = 1; k <= e; k++) {
      for (size_t i = 0; i < first; i++) if (g.ch(.6)) { ClientSpec c = g.s.clients[i]; c.epoch = k; c.ip = g.ip(); c.read_stop = -1; g.s.clients.push_back(c); }
      for (int i = g.r.range(0, 4); i > 0; i--) g.client(300, k, 0);
    }
    bool ops = g.ch(.35);
    for (int k = 0; k < e; k++) if (ops) g.s.crash.push_back(CRASH_OPS + (k ? 1 + g.r.below(6) : 1 + g.r.below(g.ch(.5) ? 8 : 40))); else { double u = g.r.uni(); g.s.crash.push_back((u64)(300 * __builtin_pow(60.0, u)) + 200); }
  } else for (int i = 0; i < n; i++) g.client(300, 0, 0);
  if (p == "C13") for (auto &c : g.s.clients) { // long lived requests
    if (g.ch(.25) && !c.acts.empty()) { for (auto &a : c.acts) if (a.type == 'S' && g.ch(.3)) { a.delay += g.r.range(200000, 6000000); break; } }
  }
  if (p == "C13" && g.ch(.15)) { // many that hang at the same time
    g.s.opt["eager"] = g.r.range(10, 40); g.s.opt["fdlimit"] = 4000; g.s.opt.erase("maxthreads"); g.w.trunc = .9;
    size_t k = g.s.clients.size(); for (int i = g.r.range(10, 30); i > 0; i--) g.client(300, 0, 0);
    for (; k < g.s.clients.size(); k++) { auto &a = g.s.clients[k].acts; if (g.ch(.7)) while (!a.empty() && a.back().type != 'S') a.pop_back(); }
  }
  if (p == "C13" && g.ch(.35)) { int span = g.r.range(2, 30); for (auto &c : g.s.clients) if (g.ch(.7)) c.at += g.r.below(span * 1000000ull); } // places are used again long after
  if (p == "C15" && g.ch(.15)) g.versions();
  g.world_faults();
  if (p == "C13" && g.s.opt.count("settle_ms")) for (auto &e : g.s.events) if (e.kind == "wallstep") e.at = g.r.below(6000000);
  if (g.ch(.2)) g.s.opt["timewait"] = 1;
  if (g.w.startup > 0 && g.ch(g.w.startup)) g.startup();
  return g.s;
}
