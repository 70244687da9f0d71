#include "model.h"
#include <algorithm>
#include <cctype>
#include <strings.h>

static bool sp(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
std::string trim_ws(const std::string &s) { size_t a = 0, b = s.size(); while (a < b && sp(s[a])) a++; while (b > a && sp(s[b - 1])) b--; return s.substr(a, b - a); }
bool istarts(const std::string &s, const std::string &p) { return s.size() >= p.size() && !strncasecmp(s.c_str(), p.c_str(), p.size()); }
std::string lower(std::string s) { for (auto &c : s) c = tolower(c); return s; }
std::string show(const std::string &s, size_t n) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size() && i < n; i++) { unsigned char c = s[i]; if (c == '\r') o += "\\r"; else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += strf("\\x%02x", c); else o += c; }
  if (s.size() > n) o += strf("...(%zu bytes)", s.size());
  return o + "\"";
}
static bool printable(const std::string &s) { for (unsigned char c : s) if (c < 32 || c == 127) return false; return true; }

static bool parse_multipart(const std::string &body, const std::string &b, std::vector<Part> &parts) {
  // --B CRLF headers CRLF CRLF data CRLF ( --B ... )* --B--
  std::string d = "--" + b;
  if (b.empty() || body.compare(0, d.size() + 2, d + "\r\n")) return false;
  size_t p = d.size() + 2;
  for (;;) {
    size_t he = body.find("\r\n\r\n", p);
    if (he == std::string::npos) return false;
    std::string head = body.substr(p, he - p);
    if (head.find('\0') != std::string::npos) return false;
    size_t de = body.find(d, he + 4); // the delimiter may not occur inside the data
    if (de == std::string::npos || de < he + 4 + 2 || body.compare(de - 2, 2, "\r\n")) return false;
    Part x;
    // first header line: Content-Disposition: form-data; name="..."[; filename="..."]
    size_t le = head.find("\r\n"); std::string l = head.substr(0, le);
    std::string want = "Content-Disposition: form-data; name=\"";
    if (l.compare(0, want.size(), want)) return false;
    size_t q = l.find('"', want.size()); if (q == std::string::npos) return false;
    x.name = l.substr(want.size(), q - want.size());
    std::string rest = l.substr(q + 1);
    if (!rest.empty()) {
      std::string fw = "; filename=\"";
      if (rest.compare(0, fw.size(), fw) || rest.back() != '"' || rest.size() < fw.size() + 1) return false;
      x.file = true; x.filename = rest.substr(fw.size(), rest.size() - fw.size() - 1);
    }
    if (le != std::string::npos) {
      std::string more = head.substr(le + 2);
      if (more.find("\"") != std::string::npos) return false;
    }
    for (unsigned char c : x.name + x.filename) if (!(isalnum(c) || c == '.' || c == '_' || c == '-')) return false;
    if (x.name.empty() || (x.file && x.filename.empty()) || x.filename.size() > 200) return false;
    x.data = body.substr(he + 4, de - 2 - (he + 4));
    parts.push_back(x);
    p = de + d.size();
    if (body.compare(p, 2, "--") == 0) return body.find(d, p) == std::string::npos;
    if (body.compare(p, 2, "\r\n")) return false;
    p += 2;
  }
}

Req parse_req(const std::string &s, const std::string &peer) {
  Req r; r.ip = peer;
  size_t nl = s.find('\n');
  if (nl == std::string::npos) { if (s.size() < 1000) r.incomplete = true; return r; }
  r.line = true; r.line_end = nl + 1;
  if (nl + 1 > 1000) return r;
  std::string l = s.substr(0, nl + 1);
  bool canon = true, cr = l.size() >= 2 && l[l.size() - 2] == '\r'; // a line ends with LF, the CR before it is optional
  std::string body_l = cr ? l.substr(0, l.size() - 2) : l.substr(0, l.size() - 1);
  r.reqline = body_l;
  size_t a = body_l.find(' '), b = a == std::string::npos ? a : body_l.find(' ', a + 1);
  if (b == std::string::npos || !printable(body_l)) canon = false;
  else {
    r.method = body_l.substr(0, a); r.url = body_l.substr(a + 1, b - a - 1);
    std::string ver = body_l.substr(b + 1);
    if (ver != "HTTP/1.1" && ver != "HTTP/1.0") canon = false;
    if (r.url.empty() || r.url[0] != '/' || r.url.size() > 254 || r.method.empty() || r.method.size() > 20) canon = false;
    for (unsigned char c : r.method) if (!isupper(c)) canon = false;
    r.known_method = r.method == "GET" || r.method == "POST" || r.method == "PUT" || r.method == "DELETE";
    if (!r.known_method && (istarts(r.method, "GET") || istarts(r.method, "POST") || istarts(r.method, "PUT") || istarts(r.method, "DELETE"))) canon = false;
    size_t q = r.url.find('?');
    r.path = r.url.substr(0, q); r.query = q == std::string::npos ? "" : r.url.substr(q + 1);
    r.api = r.path.compare(0, 4, "/api") == 0;
    if (!r.api && istarts(r.url, "/api")) canon = false; // mixed case
    if (r.api) { r.path = r.path.substr(4); if (!r.path.empty() && r.path[0] != '/') canon = false; }
  }
  r.canon_line = canon;
  r.canon = canon;
  // headers
  size_t p = nl + 1;
  bool longline = false;
  int nx = 0, nc = 0, nip = 0, nct = 0, ncl = 0, nauth = 0;
  std::string cookie, auth;
  for (;;) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) {
      if (s.size() - p >= 1000) longline = true;
      if (!longline) r.incomplete = true;
      return r;
    }
    std::string h = s.substr(p, e + 1 - p);
    p = e + 1;
    if (h == "\r\n" || h == "\n") break;
    if (h.find('\0') != std::string::npos) r.canon = false;
    std::string t = h.substr(0, h.size() - 1); if (!t.empty() && t.back() == '\r') t.pop_back();
    if (t.find('\r') != std::string::npos) r.canon = false;
    size_t c = t.find(':');
    // the start of an overlong header is kept and the rest of it is skipped, which is only exact for a header with no meaning to the server
    if (h.size() > 1000 && (c == std::string::npos || c > 200)) longline = true;
    if (c == std::string::npos) continue;
    std::string name = trim_ws(t.substr(0, c)), val = trim_ws(t.substr(c + 1));
    r.headers.push_back({name, val});
    std::string ln = lower(name);
    bool raw = t.substr(0, c) == name;
    static const char *special[] = {"content-length", "content-type", "x-real-ip", "x-session", "authorization", "cookie"};
    for (auto x : special) if (ln == x) { if (!raw) r.canon = false; if (h.size() > 1000) longline = true; }
    if (ln == "content-length") {
      ncl++;
      bool ok = !val.empty() && val.size() <= 18; for (unsigned char k : val) if (!isdigit(k)) ok = false;
      if (!ok) r.cl_canon = false; else r.cl = strtoll(val.c_str(), nullptr, 10);
    }
    if (ln == "content-type") {
      nct++; r.has_ctype = true; size_t q = val.find(';'); r.ctype = trim_ws(val.substr(0, q));
      r.multipart = false;
      if (istarts(val, "multipart/form-data")) {
        r.multipart = true;
        size_t bp = lower(val).find("boundary=");
        std::string bd = bp == std::string::npos ? "" : val.substr(bp + 9);
        if (bd.empty() || bd.size() > 70 || val != "multipart/form-data; boundary=" + bd) r.ctype_known = true, r.parts_canon = false, r.body = "";
        else r.body = bd; // kept here until the body is read
        for (unsigned char k : bd) if (!isalnum(k) && k != '-') r.body = "";
        if (t.substr(c + 1) != " " + val) r.body = "";
      }
    }
    if (ln == "x-real-ip") { nip++; if (!val.empty()) r.ip = val; if (val.size() > 24) r.ip_known = false; for (unsigned char k : val) if (!isalnum(k) && k != '.' && k != ':') r.ip_known = false; }
    if (ln == "x-session") { nx++; r.session = val; }
    if (ln == "authorization") { nauth++; auth = val; }
    if (ln == "cookie") { nc++; cookie = t; }
    if (name == "Referer" && r.referer.empty()) r.referer = val;
    if (name == "User-Agent" && r.ua.empty()) r.ua = val;
  }
  r.head = true; r.head_end = p;
  if (longline) r.canon = false;
  if (nip > 1) r.ip_known = false;
  if (nct > 1) r.ctype_known = false, r.parts_canon = false;
  if (ncl > 1) r.cl_canon = false;
  if (nauth + nx > 1 || nc > 1) r.session_mode = 3;
  else if ((nauth || nx) && nc) { // a header goes before the cookie
    if (nauth) r.session = auth;
    if (r.session.empty() || r.session.size() > 63 || !printable(r.session) || !printable(cookie)) r.session_mode = 3;
  }
  else if (nx || nauth) { if (nauth) r.session = auth; if (r.session.size() > 63 || !printable(r.session)) r.session_mode = 1; }
  else if (nc) {
    // the session is the value of the cookie WSSESSION
    std::string w = "WSSESSION=", v = cookie.substr(7); bool found = false;
    for (size_t q = 0; q <= v.size() && !found;) { size_t e = v.find(';', q); std::string k = trim_ws(v.substr(q, e == std::string::npos ? e : e - q)); if (k.compare(0, w.size(), w) == 0) { found = true; r.session = trim_ws(k.substr(w.size())); } if (e == std::string::npos) break; q = e + 1; }
    if (!printable(cookie)) r.session_mode = 3;
    else if (r.session.size() >= 60) r.session_mode = 1;
  }
  std::string bd = r.body; r.body = "";
  if (!r.cl_canon) return r;
  r.need = r.head_end;
  if (r.api && r.known_method && r.cl > 0) {
    r.need += (size_t)r.cl;
    if (s.size() < r.need) { if (!longline) r.incomplete = true; return r; }
    r.body = s.substr(r.head_end, (size_t)r.cl);
  }
  r.complete = true;
  if (r.multipart && r.cl > 0 && !bd.empty() && nct == 1) r.parts_canon = parse_multipart(r.body, bd, r.parts);
  return r;
}

const std::string *Resp::get(const char *n) const { for (auto &h : headers) if (!strcasecmp(h.first.c_str(), n)) return &h.second; return nullptr; }
// partial: the connection broke, the text may stop anywhere
Resp parse_resp(const std::string &s, bool partial) {
  Resp r; r.any = !s.empty();
  if (s.empty()) return r;
  const std::string pre = "HTTP/1.1 ";
  size_t n = std::min(pre.size(), s.size());
  if (s.compare(0, n, pre, 0, n)) { r.err = "does not begin with an HTTP/1.1 status line: " + show(s); return r; }
  size_t p = 0; bool first = true;
  for (;;) {
    size_t e = s.find("\r\n", p);
    if (e == std::string::npos) {
      std::string rest = s.substr(p);
      if (!partial) { r.err = "header section is not terminated: " + show(rest); return r; }
      if (rest.find('\n') != std::string::npos || rest.find('\0') != std::string::npos) r.err = "malformed header text " + show(rest);
      return r;
    }
    std::string l = s.substr(p, e - p); p = e + 2;
    if (l.find('\n') != std::string::npos || l.find('\r') != std::string::npos || l.find('\0') != std::string::npos) { r.err = "control character in header line " + show(l); return r; }
    if (first) {
      first = false;
      if (l.size() < 12 || !isdigit((unsigned char)l[9]) || !isdigit((unsigned char)l[10]) || !isdigit((unsigned char)l[11]) || (l.size() > 12 && l[12] != ' ')) { r.err = "bad status line " + show(l); return r; }
      r.status = atoi(l.c_str() + 9);
      continue;
    }
    if (l.empty()) { r.head = true; r.body = s.substr(p); break; }
    size_t c = l.find(':');
    if (c == std::string::npos || c == 0 || !strncmp(l.c_str(), "HTTP/", 5)) { r.err = "line in the header section is not a header: " + show(l); return r; }
    for (size_t i = 0; i < c; i++) { unsigned char k = l[i]; if (!(isalnum(k) || strchr("!#$%&'*+-.^_`|~", k))) { r.err = "bad header name " + show(l); return r; } }
    r.headers.push_back({l.substr(0, c), trim_ws(l.substr(c + 1))});
  }
  int ncl = 0, nct = 0;
  for (auto &h : r.headers) {
    if (!strcasecmp(h.first.c_str(), "Content-Length")) {
      ncl++; r.has_cl = true; r.cl = 0;
      if (h.second.empty()) r.err = "bad Content-Length";
      for (unsigned char k : h.second) { if (!isdigit(k)) r.err = "bad Content-Length"; r.cl = r.cl * 10 + (k - '0'); }
    }
    if (!strcasecmp(h.first.c_str(), "Content-Type")) nct++;
  }
  if (ncl > 1 || nct > 1) r.err = "duplicate Content-Length or Content-Type";
  return r;
}

std::string ctype_of(const std::string &path, bool &known) {
  known = true;
  size_t sl = path.rfind('/'); std::string base = sl == std::string::npos ? path : path.substr(sl + 1), dir = sl == std::string::npos ? "" : path.substr(0, sl);
  size_t d = base.rfind('.');
  if (d == std::string::npos) { if (dir.find('.') != std::string::npos) known = false; return "text/html"; }
  if (d == 0) known = false;
  std::string e = base.substr(d);
  static const std::map<std::string, std::string> m = {{".html", "text/html"}, {".js", "text/html"}, {".png", "image/png"}, {".jpg", "image/jpeg"}, {".jpeg", "image/jpeg"}, {".zip", "application/zip"}, {".css", "text/css"}, {".svg", "image/svg+xml"}, {".ico", "image/vnd.microsoft.icon"}, {".txt", "text/plain"}, {".csv", "text/csv"}, {".yaml", "text/yaml"}};
  auto i = m.find(e);
  return i == m.end() ? "application/octet-stream" : i->second;
}
int route_of(const Scenario &sc, const std::string &method, const std::string &path, std::string &param, std::string &value) {
  std::string m = method + ":" + path;
  for (size_t i = 0; i < sc.routes.size(); i++) {
    const std::string &t = sc.routes[i].tmpl;
    size_t b = t.find('{');
    param.clear();
    if (b == std::string::npos) { if (t == m) return (int)i; continue; }
    std::string pre = t.substr(0, b);
    if (m.size() > pre.size() && m.compare(0, pre.size(), pre) == 0) { param = t.substr(b + 1, t.size() - b - 2); value = m.substr(pre.size()); return (int)i; }
  }
  param.clear();
  return -1;
}
std::vector<Rule> parse_rules(const std::string &t) {
  std::vector<Rule> v; size_t p = 0;
  while (p < t.size() && v.size() < 64) {
    size_t e = t.find('\n', p); std::string l = t.substr(p, e == std::string::npos ? e : e - p); p = e == std::string::npos ? t.size() : e + 1;
    if (l.empty() || l[0] != '/') continue;
    std::vector<std::string> f; size_t q = 0;
    for (;;) { size_t c = l.find(',', q); f.push_back(l.substr(q, c == std::string::npos ? c : c - q)); if (c == std::string::npos) break; q = c + 1; }
    if (f.size() < 3 || f[0].size() >= 512) continue; // ignored
    v.push_back({f[0], atoll(f[1].c_str()), atoll(f[2].c_str()), f.size() > 3 ? atoll(f[3].c_str()) : 0});
  }
  return v;
}
bool list_has(const std::string &t, const std::string &ip) {
  size_t p = 0;
  while (p <= t.size()) {
    size_t e = t.find('\n', p); std::string l = t.substr(p, e == std::string::npos ? e : e - p);
    // the address stands alone: no letter, digit, dot, colon or dash touches it
    auto word = [](unsigned char c) { return isalnum(c) || c == '.' || c == ':' || c == '-'; };
    for (size_t q = l.find(ip); q != std::string::npos; q = l.find(ip, q + 1)) if ((!q || !word(l[q - 1])) && (q + ip.size() >= l.size() || !word(l[q + ip.size()]))) return true;
    if (e == std::string::npos) break;
    p = e + 1;
  }
  return false;
}
