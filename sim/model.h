// Reference model of requests and responses.
#pragma once
#include "sim.h"
struct Part { std::string name, filename, data; bool file = false; };
struct Req {
  bool line = false;       // a complete request line is there
  bool canon_line = false; // ... and it is in the canonical form
  bool head = false;       // header section complete
  bool canon = false;      // whole request canonical
  bool complete = false;   // everything the server must wait for has arrived
  bool incomplete = false; // certainly not complete
  size_t line_end = 0, head_end = 0, need = 0;
  std::string reqline, method, url, path, query;
  bool api = false, known_method = false;
  struct H { std::string name, value; };
  std::vector<H> headers;
  std::string session; int session_mode = 0; // 0 exact, 1 prefix of session, 2 substring of session or empty, 3 unknown
  std::string ip; bool ip_known = true;
  std::string ctype; bool has_ctype = false, ctype_known = true;
  int64_t cl = -1; bool cl_canon = true;
  std::string body;
  bool multipart = false, parts_canon = false;
  std::vector<Part> parts;
  std::string referer, ua;
};
Req parse_req(const std::string &bytes, const std::string &peer);
struct Resp {
  bool any = false, head = false; std::string err; // err: malformed
  int status = 0;
  std::vector<std::pair<std::string, std::string>> headers;
  std::string body;
  bool has_cl = false; int64_t cl = 0;
  const std::string *get(const char *n) const;
};
Resp parse_resp(const std::string &tx, bool partial);
std::string ctype_of(const std::string &path, bool &known);
int route_of(const Scenario &sc, const std::string &method, const std::string &path, std::string &param, std::string &value);
struct Rule { std::string path; int64_t total, per_ip, secs; };
std::vector<Rule> parse_rules(const std::string &text);
bool list_has(const std::string &text, const std::string &ip);
std::string trim_ws(const std::string &s);
bool istarts(const std::string &s, const std::string &p);
std::string lower(std::string s);
std::string show(const std::string &s, size_t n = 120);
