/* The application that embeds the server in simulated runs: it uses only the public API of /repo. */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/socket.h>
#include <unistd.h>
#include "wayuu.h"
#include "file_utils.h"
#include "json_utils.h"
#include "string_utils.h"
#include "happ.h"

static const char *mimes[] = {"text/html", "image/png", "image/jpeg", "application/zip", "text/css", "text/plain", "text/csv", "text/yaml", "application/octet-stream", "application/x-unknown"};

static void observe(int kind, int route, api_request *req)
{
  H_begin(kind, route, req->method, req->path, req->query_string, req->form, req->session, req->IP, req->url, req->content_type, req->request_line);
  for (int i = 0; i < req->n_headers && i < HTTP_MAX_HEADERS; i++)
    H_header(req->headers[i].name, req->headers[i].value);
}
static void marks(struct hparams *p, int n)
{
  char text[800];
  for (int i = 0; i < n; i++)
  {
    char fillb[601];
    int len = (p->size * 7 + i * 131) % 600;
    memset(fillb, 'a' + (i % 26), len);
    fillb[len] = 0;
    int lvl = i % 4;
    snprintf(text, sizeof text, "MARK:%s:%d:%s:KRAM", p->token, i, fillb);
    if (lvl == 0) { H_mark(LOG_INFO, text, 1); log_info("%s", text); H_mark(LOG_INFO, text, 0); }
    if (lvl == 1) { H_mark(LOG_WARN, text, 1); log_warn("MARK:%s:%d:%s:KRAM", p->token, i, fillb); H_mark(LOG_WARN, text, 0); }
    if (lvl == 2) { H_mark(LOG_DEBUG, text, 1); log_debug("%s", text); H_mark(LOG_DEBUG, text, 0); }
    if (lvl == 3) { H_mark(LOG_ERROR, text, 1); log_error("%s:%s", "MARK", text + 5); H_mark(LOG_ERROR, text, 0); }
  }
}
static char *json_body(struct hparams *p)
{
  int n = p->size + strlen(p->token) + 64;
  char *b = malloc(n);
  int k = snprintf(b, n, "{\"t\":\"%s\",\"d\":\"", p->token);
  H_body(p->token, p->size, 1, b + k);
  strcat(b + k, "\"}");
  return b;
}
static char *ser(void *o) { char *b = malloc(strlen((char *)o) + 40); sprintf(b, "{\"v\":\"%s\"}", (char *)o); return b; }

/* ---- the library's helpers, called by many threads at once with different data ---- */
static unsigned long hr(unsigned long *s) { *s = *s * 6364136223846793005ul + 1442695040888963407ul; return *s >> 33; }
static void word(unsigned long *s, int min, int max, char *out)
{
  int n = min + hr(s) % (max - min + 1);
  for (int i = 0; i < n; i++) out[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[hr(s) % 62];
  out[n] = 0;
}
static void same(const char *name, const char *got, const char *want) { H_helper(name, got && !strcmp(got, want), got ? got : "(null)", want); }
static void helpers(struct hparams *p)
{
  unsigned long s = 99991ul * p->size + 7;
  for (char *t = p->token; *t; t++) s = (s ^ (unsigned char)*t) * 1099511628211ul;
  int rounds = 2 + hr(&s) % 5;
  for (int round = 0; round < rounds; round++)
  {
    char w[12][80], text[1200], want[2400];
    int n = 1 + hr(&s) % 12;
    switch (hr(&s) % 22)
    {
    case 0: case 1:
    {
      static const char *delims[] = {",", "&", ";", "/", ", "};
      const char *d = delims[hr(&s) % 5];
      int big = hr(&s) % 8 == 0;
      text[0] = 0;
      for (int i = 0; i < n; i++)
      {
        word(&s, 1, big ? 79 : 20, w[i]);
        if (i || hr(&s) % 10 == 0) strcat(text, d);
        strcat(text, w[i]);
      }
      char copy[1200]; strcpy(copy, text);
      str_list_t *l = split(text, (char *)d);
      char cnt[20]; sprintf(cnt, "%d", l->n_str); sprintf(want, "%d", n);
      same("split-count", cnt, want);
      for (int i = 0; i < n && i < l->n_str; i++) same("split", l->strings[i], w[i]);
      same("split-source", text, copy);
      free_str_list_t(l);
      break;
    }
    case 21: /* parts that are about as long as a part may be, or longer */
    {
      int len[3]; char *t = malloc(9000), *q = t, *part[3];
      for (int i = 0; i < 3; i++)
      {
        len[i] = hr(&s) % 2 ? MAX_SPLIT_STR_LEN - 3 + hr(&s) % 6 : 1 + hr(&s) % 2500;
        part[i] = malloc(len[i] + 1); memset(part[i], 'a' + hr(&s) % 26, len[i]); part[i][len[i]] = 0;
        q += sprintf(q, "%s%s", i ? ":" : "", part[i]);
      }
      str_list_t *l = split(t, ":");
      H_helper("split-count", l->n_str == 3, "other", "3");
      for (int i = 0; i < 3 && i < l->n_str; i++)
      {
        char *got = l->strings[i];
        if (len[i] < MAX_SPLIT_STR_LEN) same("split", got, part[i]);
        else H_helper("split-cut", strlen(got) >= MAX_SPLIT_STR_LEN - 1 && !strncmp(got, part[i], strlen(got)), got, "the beginning of the part");
      }
      free_str_list_t(l);
      l = split_once(t, ":");
      H_helper("split-once-count", l->n_str == 2, "other", "2");
      if (len[0] < MAX_SPLIT_STR_LEN) same("split-once", l->strings[0], part[0]);
      if (l->n_str == 2 && len[1] + 1 + len[2] < MAX_SPLIT_STR_LEN) same("split-once", l->strings[1], t + len[0] + 1);
      free_str_list_t(l);
      for (int i = 0; i < 3; i++) free(part[i]);
      free(t);
      break;
    }
    case 2:
    {
      word(&s, 1, 60, w[0]); word(&s, 1, 60, w[1]);
      sprintf(text, "%s:%s%s:%s", w[0], hr(&s) % 2 ? " " : "", w[1], w[1]);
      sprintf(want, "%s:%s", w[1], w[1]);
      str_list_t *l = split_once(text, ":");
      H_helper("split-once-count", l->n_str == 2, "other", "2");
      if (l->n_str == 2) { same("split-once", l->strings[0], w[0]); same("split-once", l->strings[1], want); }
      free_str_list_t(l);
      break;
    }
    case 3: case 4:
    {
      int len = hr(&s) % 4 == 0 ? 510 + hr(&s) % 5 : hr(&s) % 1100;
      char *b = malloc(len + 1), out[40];
      for (int i = 0; i < len; i++) b[i] = hr(&s);
      H_md5(b, len, want);
      md5sum(out, b, len);
      same("md5sum", out, want);
      free(b);
      break;
    }
    case 5:
    {
      char *arr[12];
      strcpy(want, "["); 
      for (int i = 0; i < n; i++) { word(&s, 1, 40, w[i]); arr[i] = w[i]; sprintf(want + strlen(want), "%s\"%s\"", i ? "," : "", w[i]); }
      strcat(want, "]");
      char *j = json_array_of_strings(arr, n);
      same("json-strings", j, want);
      free(j);
      break;
    }
    case 6:
    {
      int arr[12];
      strcpy(want, "[");
      for (int i = 0; i < n; i++) { arr[i] = (int)(hr(&s) * 2654435761ul); sprintf(want + strlen(want), "%s%d", i ? "," : "", arr[i]); }
      strcat(want, "]");
      char *j = json_array_of_ints(arr, n);
      same("json-ints", j, want);
      free(j);
      break;
    }
    case 7:
    {
      word(&s, 1, 30, w[0]); word(&s, 0, 70, w[1]);
      char *j = json_key_value(w[0], w[1]); sprintf(want, "\"%s\":\"%s\"", w[0], w[1]); same("json-pair", j, want); free(j);
      int v = (int)(hr(&s) * 2654435761ul);
      j = json_key_value_int(w[0], v); sprintf(want, "\"%s\":%d", w[0], v); same("json-int", j, want); free(j);
      j = json_key_value_uint32_t(w[0], v); sprintf(want, "\"%s\":%u", w[0], (unsigned)v); same("json-uint", j, want); free(j);
      j = json_key_value_bool(w[0], v & 1); sprintf(want, "\"%s\":%s", w[0], v & 1 ? "true" : "false"); same("json-bool", j, want); free(j);
      break;
    }
    case 8:
    {
      char *arr[12]; want[0] = 0;
      for (int i = 0; i < n; i++) { word(&s, 1, 40, w[i]); arr[i] = w[i]; sprintf(want + strlen(want), "%s%s", i ? "--" : "", w[i]); }
      char *j = join(arr, n, "--");
      same("join", j, want);
      free(j);
      word(&s, 1, 30, w[0]); word(&s, 1, 30, w[1]);
      sprintf(text, "%s=%s", w[0], w[1]);
      j = rtrim(text, '='); same("rtrim", j, w[0]); free(j);
      sprintf(text, "  \t%s %s\r\n", w[0], w[1]); sprintf(want, "%s %s", w[0], w[1]);
      trim(text); same("trim", text, want);
      break;
    }
    case 9:
    {
      word(&s, 1, 60, w[0]); word(&s, 0, 60, w[1]);
      sprintf(text, "/%s%s%s", w[0], w[1][0] ? "?" : "", w[1]); sprintf(want, "/%s", w[0]);
      path_and_query_t *q = get_path_and_query_string(text);
      same("path", q->path, want);
      if (w[1][0]) same("query", q->query, w[1]);
      free_path_and_query_t(q);
      break;
    }
    case 12:
    {
      int st = (int)(hr(&s) % 4) - 1;
      static const char *names[] = {"FAIL", "OK", "ERROR", "WARNING"};
      call_response_t r;
      memset(&r, 0, sizeof r);
      word(&s, 0, 40, w[0]); word(&s, 0, 40, w[1]);
      if (hr(&s) % 2) w[0][0] = 0;
      if (hr(&s) % 2) w[1][0] = 0;
      r.status = st; strcpy(r.text, w[0]); strcpy(r.description, w[1]);
      r.additional_info = hr(&s) % 2 ? "{\"a\":1}" : NULL;
      sprintf(want, "{\"RSP\":\"%s\"", names[st + 1]);
      if (w[0][0]) sprintf(want + strlen(want), ", \"info\":\"%s\"", w[0]);
      if (w[1][0]) sprintf(want + strlen(want), ", \"description\":\"%s\"", w[1]);
      sprintf(want + strlen(want), ",\"data\":%s}", r.additional_info ? r.additional_info : "\"\"");
      char *j = return_response(r);
      same("return-response", j, want);
      free(j);
      break;
    }
    case 13:
    {
      word(&s, 1, 40, w[0]); word(&s, 1, 12, w[1]); word(&s, 0, 40, w[2]);
      for (char *c = w[0]; *c; c++) if (*c == w[1][0]) *c = '.';
      for (char *c = w[2]; *c; c++) if (*c == w[1][0]) *c = '.';
      int total = sprintf(text, "%s%s%s", w[0], w[1], w[2]), at = strlen(w[0]) + strlen(w[1]);
      char *b = malloc(total); memcpy(b, text, total); /* exactly the data, nothing behind it */
      char cnt[30];
      for (char *c = w[1] + 1; *c; c++) if (*c == w[1][0]) at = -2; /* a repetition: leave it */
      if (at < 0) { free(b); break; }
      sprintf(want, "%d", at); sprintf(cnt, "%ld", text_find_after(b, w[1], 0, total)); same("find", cnt, want);
      sprintf(want, "-1"); sprintf(cnt, "%ld", text_find_after(b, w[1], strlen(w[0]) + 1, total)); same("find-none", cnt, want);
      sprintf(cnt, "%ld", text_find_after(b, w[1], 0, at - 1)); same("find-cut", cnt, want);
      free(b);
      break;
    }
    case 14:
    {
      conf_item *it; char *mv[12];
      word(&s, 1, 30, w[0]); word(&s, 1, 70, w[1]);
      int multi = hr(&s) % 2;
      if (multi) { for (int i = 0; i < n; i++) { word(&s, 1, 40, w[i]); mv[i] = w[i]; } word(&s, 1, 30, text); it = new_conf_item_with_values(text, "", mv, n); }
      else it = new_conf_item_with_values(w[0], w[1], NULL, 0);
      char *line = conf_item_to_string(it);
      if (multi) { sprintf(want, "%s=", text); for (int i = 0; i < n; i++) sprintf(want + strlen(want), "%s%s", i ? "," : "", w[i]); }
      else sprintf(want, "%s=%s", w[0], w[1]);
      same("conf-line", line, want);
      conf_item *back = conf_parse_line(line, multi);
      char cnt[20];
      same("conf-key", back->key, multi ? text : w[0]);
      sprintf(cnt, "%d", back->n_multivalues); sprintf(want, "%d", multi ? n : 0);
      same("conf-count", cnt, want);
      if (!multi) same("conf-value", back->value, w[1]);
      for (int i = 0; multi && i < n && i < back->n_multivalues; i++) same("conf-values", back->multivalue[i], w[i]);
      free_conf_item(back); free_conf_item(it); free(line);
      break;
    }
    case 15:
    {
      static const struct { const char *ext, *type; } t[] = {{".html", CONTENT_TYPE_TEXT_HTML}, {".png", CONTENT_TYPE_IMAGE_PNG}, {".jpg", CONTENT_TYPE_IMAGE_JPEG}, {".zip", CONTENT_TYPE_ZIP}, {".css", CONTENT_TYPE_CSS}, {".svg", CONTENT_TYPE_SVG}, {".txt", CONTENT_TYPE_TEXT_PLAIN}, {".csv", CONTENT_TYPE_TEXT_CSV}, {".zzz", CONTENT_TYPE_OCTET_STREAM}, {"", CONTENT_TYPE_TEXT_HTML}};
      int k = hr(&s) % 10;
      word(&s, 1, 40, w[0]);
      sprintf(text, "%s%s", w[0], t[k].ext);
      char *c = get_content_type(text);
      same("content-type", c, t[k].type);
      free(c);
      break;
    }
    case 16:
    {
      word(&s, 1, 40, w[0]); word(&s, 1, 40, w[1]);
      sprintf(text, "%s\r\n%s", w[0], w[1]); chop_string(text); same("chop", text, w[0]);
      const char *l1[] = {"!", w[0], ""}, *l2[] = {"!", "%", ""};
      sprintf(text, "%s%s", w[0], w[1]);
      H_helper("startswithany", startswithany(text, l1), "false", "true");
      H_helper("startswithany", !startswithany(text, l2), "true", "false");
      H_helper("isalnum", string_isalnum(text), "false", "true");
      strcat(text, "-");
      H_helper("isalnum", !string_isalnum(text), "true", "false");
      break;
    }
    case 17: /* nested: splitting the parts of a split, as request parsing does */
    {
      text[0] = 0;
      for (int i = 0; i < n; i++) { word(&s, 1, 20, w[i]); sprintf(text + strlen(text), "%s%s=%d", i ? "&" : "", w[i], i); }
      str_list_t *l = split(text, "&");
      H_helper("split-count", l->n_str == n, "other", "");
      for (int i = 0; i < n && i < l->n_str; i++)
      {
        str_list_t *kv = split(l->strings[i], "=");
        sprintf(want, "%d", i);
        H_helper("split-count", kv->n_str == 2, "other", "2");
        if (kv->n_str == 2) { same("split", kv->strings[0], w[i]); same("split", kv->strings[1], want); }
        free_str_list_t(kv);
      }
      free_str_list_t(l);
      break;
    }
    case 18: /* a description of a configuration file, as large as it may be */
    {
      conf_item *items[20]; int big = hr(&s) % 2; size_t room = 300000;
      int m = big ? 20 : n; char *exp = malloc(room), *q = exp, *v = malloc(3000);
      word(&s, 1, 40, w[0]);
      q += sprintf(q, "[path=%s,n_items=%d", w[0], m);
      for (int i = 0; i < m; i++)
      {
        word(&s, 1, 20, w[1]);
        if (hr(&s) % 2)
        {
          int len = big ? hr(&s) % 2500 : hr(&s) % 40; memset(v, 'v', len + 1); v[len + 1] = 0;
          items[i] = new_conf_item_with_values(w[1], v, NULL, 0);
          q += sprintf(q, ",%s=%s", w[1], v);
        }
        else
        {
          char *mv[12];
          for (int k = 0; k < n; k++) { mv[k] = w[2 + k % 8]; if (k < 8) word(&s, 1, 40, mv[k]); }
          items[i] = new_conf_item_with_values(w[1], "", mv, n);
          q += sprintf(q, ",%s=", w[1]);
          for (int k = 0; k < n; k++) q += sprintf(q, "%s%s", k ? "," : "", mv[k]);
        }
      }
      strcpy(q, "]");
      serializable *z = new_serializable(strdup(w[0]), items, m);
      char *got = serializable_to_string(z);
      same("serializable", got, exp);
      free(got); free(exp); free(v); free_serializable(z);
      break;
    }
    case 19: /* many and long texts */
    {
      int m = 1 + hr(&s) % 300, at = hr(&s) % m;
      char **arr = malloc(m * sizeof(char *)), *exp = malloc(m * 64 + 9000), *q = exp; int *ints = malloc(m * sizeof(int));
      q += sprintf(q, "[");
      for (int i = 0; i < m; i++)
      {
        int len = i == at ? hr(&s) % 4000 : hr(&s) % 30;
        arr[i] = malloc(len + 1); for (int k = 0; k < len; k++) arr[i][k] = 'a' + hr(&s) % 26; arr[i][len] = 0;
        if (i) *q++ = ',';
        q += sprintf(q, "\"%s\"", arr[i]);
      }
      strcpy(q, "]");
      char *j = json_array_of_strings(arr, m); same("json-strings", j, exp); free(j);
      q = exp + sprintf(exp, "[");
      for (int i = 0; i < m; i++) { ints[i] = hr(&s) % 3 ? (int)(hr(&s) * 2654435761ul) : (int)0x80000000; q += sprintf(q, "%s%d", i ? "," : "", ints[i]); }
      strcpy(q, "]");
      j = json_array_of_ints(ints, m); same("json-ints", j, exp); free(j);
      exp[0] = 0; q = exp;
      for (int i = 0; i < m; i++) q += sprintf(q, "%s%s", i ? ";" : "", arr[i]);
      j = join(arr, m, ";"); same("join", j, exp);
      free(j);
      j = json_array_of_strings(arr, 0); same("json-strings", j, "[]"); free(j);
      j = json_array_of_ints(NULL, 3); same("json-ints", j, "[]"); free(j);
      for (int i = 0; i < m; i++) free(arr[i]);
      free(arr); free(exp); free(ints);
      break;
    }
    case 20: /* the error of a handler, however long its texts are */
    {
      int l1 = hr(&s) % 2 ? hr(&s) % 30 : hr(&s) % 900, l2 = hr(&s) % 2 ? hr(&s) % 200 : hr(&s) % 2000;
      char *code = malloc(l1 + 1), *msg = malloc(l2 + 1); memset(code, 'c', l1); code[l1] = 0; memset(msg, 'm', l2); msg[l2] = 0;
      wayuu_error_t *e = new_error_with_values(code, msg);
      if (l1 >= HTTP_MAX_ERROR_CODE_LEN) code[strlen(e->code)] = 0;
      if (l2 >= HTTP_MAX_ERROR_MSG_LEN) msg[strlen(e->message)] = 0;
      sprintf(want, "{\"code\":\"%s\",\"message\":\"%s\"}", l1 ? code : "UNKNOWN", msg);
      char *j = wayuu_error_t_json_serializer(e);
      if (l1 < HTTP_MAX_ERROR_CODE_LEN || l2 < HTTP_MAX_ERROR_MSG_LEN || strlen(want) < 2400) same("error-json", j, want);
      free(j); free(e); free(code); free(msg);
      break;
    }
    case 10:
    {
      static const int sizes[] = {1, 2, 17, 512, 4096, 8192};
      char path[200];
      snprintf(path, sizeof path, "/srv/data/%s", p->file);
      long max = hr(&s) % 3 == 0 ? 0 : sizes[hr(&s) % 6];
      char *out = malloc(max ? max : 500000);
      memset(out, 'Z', max ? max : 500000);
      read_file(out, path, max);
      long len = strnlen(out, max ? max : 500000);
      H_file_read(path, out, len, max);
      free(out);
      break;
    }
    default:
    {
      char path[200];
      int len = hr(&s) % 3 ? hr(&s) % 200 : hr(&s) % 12000;
      char *b = malloc(len + 1);
      for (int i = 0; i < len; i++) b[i] = hr(&s);
      snprintf(path, sizeof path, "/srv/data/out-%s", p->token);
      for (int k = 0; k < 1 + (int)(s & 1); k++)
      {
        int ok = write_file(path, b, len);
        H_file_written(path, ok, b, len);
        if (len > 3) len /= 2;
      }
      remove(path);
      free(b);
      break;
    }
    }
  }
}

/* The framework ignores a response with a status that it does not know */
static int supported(int status)
{
  return status == 200 || status == 201 || status == 400 || status == 401 || status == 403 || status == 404 || status == 429 || status == 500;
}

static void handle(int i, api_request *req)
{
  struct hparams p;
  observe(1, i, req);
  H_params(1, i, req->query_string, &p);
  if (p.marks) marks(&p, p.marks);
  if (p.work) H_work(p.work);
  switch (p.kind)
  {
  case 0: case 11:
  {
    if (p.kind == 11)
    {
      char *h = http_get_header(req, "X-Echo");
      H_got_header("X-Echo", h);
      if (strlen(h)) free(h);
      http_log_headers(req);
    }
    char *b = json_body(&p);
    H_expect(200, "application/json", b, strlen(b), 1, 1);
    return_json(req, b);
    free(b);
    break;
  }
  case 1:
  {
    char *b = json_body(&p);
    if (supported(p.status)) H_expect(p.status, "application/json", b, strlen(b), 1, 1);
    if (p.status == 201 && p.size % 2) created_with_json(req, b);
    else return_json_with_status(req, p.status, b);
    free(b);
    break;
  }
  case 2:
    H_expect(p.status, NULL, "", 0, 1, 1);
    switch (p.status)
    {
    case 201: created(req); break;
    case 400: bad_request(req); break;
    case 401: not_authenticated(req); break;
    case 403: forbidden(req); break;
    case 404: not_found(req); break;
    case 500: internal_server_error(req); break;
    case 429: too_many_connections(req); break;
    default: ok(req);
    }
    break;
  case 3:
  {
    char path[200];
    snprintf(path, sizeof path, "/srv/data/%s", p.file);
    FILE *fp = fopen(path, "r");
    if (!fp) { H_expect(500, NULL, "", 0, 1, 1); internal_server_error(req); break; }
    if (supported(p.status)) H_expect_file(path);
    return_json_stream(req, p.status, fp);
    fclose(fp);
    break;
  }
  case 4:
  {
    char *b = malloc(p.size + 1);
    const char *m = mimes[p.size % 10];
    H_body(p.token, p.size, 0, b);
    H_expect(p.status, p.size % 10 == 9 ? mimes[8] : m, b, p.size, 0, 0);
    return_headers_with_mime(req, p.status, (char *)m);
    send_empty_line(req);
    http_print(req, b, p.size);
    free(b);
    break;
  }
  case 5:
  {
    char *names[64]; int n = 0;
    char *f = strdup(req->form);
    char *q = f;
    while (q && n < 64)
    {
      char *e = strchr(q, '&');
      if (e) *e = 0;
      if (!strncmp(q, "tmpfile=", 8)) names[n++] = strdup(q + 8);
      q = e ? e + 1 : NULL;
    }
    free(f);
    for (int k = 0; k < n; k++) H_tmpfile(names[k], 0);
    if (p.work) H_work(p.work);
    for (int k = 0; k < n; k++) H_tmpfile(names[k], 1);
    for (int k = 0; k < n; k++)
    {
      char path[600];
      snprintf(path, sizeof path, "%s/%s", FILE_DOWNLOAD_TMP_DIR, names[k]);
      remove(path);
      free(names[k]);
    }
    char *b = json_body(&p);
    H_expect(200, "application/json", b, strlen(b), 1, 1);
    return_json(req, b);
    free(b);
    break;
  }
  case 6:
  {
    char *b = malloc(p.size + 1);
    H_body(p.token, p.size, 1, b);
    if (supported(p.status)) H_expect(p.status, NULL, b, strlen(b), 1, 1);
    send_http_status(req, p.status, b);
    free(b);
    break;
  }
  case 7:
  {
    json_list_t l;
    l.size = p.size % 30;
    l.serializer = ser;
    l.elements = malloc(sizeof(void *) * (l.size + 1));
    char *exp = malloc(l.size * 100 + 10);
    strcpy(exp, "[");
    for (int k = 0; k < l.size; k++)
    {
      char *v = malloc(80);
      snprintf(v, 80, "%s-%d", p.token, k);
      l.elements[k] = v;
      sprintf(exp + strlen(exp), "%s{\"v\":\"%s\"}", k ? "," : "", v);
    }
    strcat(exp, "]");
    H_expect(200, "application/json", exp, strlen(exp), 1, 1);
    return_json_list(req, l);
    free(exp);
    break;
  }
  case 8:
  {
    char msg[1000], exp[1200];
    H_body(p.token, p.size % 900, 1, msg);
    char *code = p.token[0] ? p.token : "E0";
    wayuu_error_t *e = new_error_with_values(code, msg);
    snprintf(exp, sizeof exp, "{\"code\":\"%s\",\"message\":\"%s\"}", code, msg);
    int st = p.status == 403 || p.status == 500 ? p.status : 400;
    H_expect(st, "application/json", exp, strlen(exp), 1, 1);
    if (st == 403) forbidden_with_error(req, e);
    else if (st == 500) internal_server_error_with_error(req, e);
    else bad_request_with_error(req, e);
    free(e);
    break;
  }
  case 9:
  {
    char path[200];
    snprintf(path, sizeof path, "/srv/data/%s", p.file);
    H_expect_file(path);
    if (direct_file(req, path) < 0) { H_expect(404, NULL, "", 0, 1, 1); not_found(req); }
    break;
  }
  case 10:
  {
    char head[300];
    char *b = malloc(p.size + 1);
    H_body(p.token, p.size, 0, b);
    H_expect(p.status, "application/x-sim", b, p.size, 1, 0);
    snprintf(head, sizeof head, "HTTP/1.1 %d SIM\r\nContent-Type: application/x-sim\r\nContent-Length: %d\r\n\r\n", p.status, p.size);
    http_print_str(req, head);
    int k = p.size / 3;
    http_print(req, b, k);
    http_print(req, b + k, p.size - k);
    free(b);
    break;
  }
  case 13:
  {
    helpers(&p);
    char *b = json_body(&p);
    H_expect(200, "application/json", b, strlen(b), 1, 1);
    return_json(req, b);
    free(b);
    break;
  }
  default:
    break; /* no response */
  }
  H_end(1, 1);
}
static bool filter(int i, api_request *req)
{
  struct hparams p;
  observe(0, i, req);
  H_params(0, i, req->query_string, &p);
  if (p.work) H_work(p.work / 2);
  if (p.reject)
  {
    if (p.reject == 1) { H_expect(403, NULL, "", 0, 1, 1); forbidden(req); }
    else { H_expect(401, NULL, "", 0, 1, 1); not_authenticated(req); }
    H_end(0, 0);
    return false;
  }
  H_end(0, 1);
  return true;
}
#define TR(n) static void h##n(api_request *r) { handle(n, r); } static bool f##n(api_request *r) { return filter(n, r); }
#define TR10(n) TR(n##0) TR(n##1) TR(n##2) TR(n##3) TR(n##4) TR(n##5) TR(n##6) TR(n##7) TR(n##8) TR(n##9)
TR(0) TR(1) TR(2) TR(3) TR(4) TR(5) TR(6) TR(7) TR(8) TR(9)
TR10(1) TR10(2) TR10(3) TR10(4) TR10(5) TR10(6) TR10(7) TR10(8) TR10(9) TR10(10) TR10(11) TR10(12) TR10(13)
#define L(n) h##n,
#define L10(n) L(n##0) L(n##1) L(n##2) L(n##3) L(n##4) L(n##5) L(n##6) L(n##7) L(n##8) L(n##9)
static request_handler handlers[] = {L(0) L(1) L(2) L(3) L(4) L(5) L(6) L(7) L(8) L(9) L10(1) L10(2) L10(3) L10(4) L10(5) L10(6) L10(7) L10(8) L10(9) L10(10) L10(11) L10(12) L10(13)};
#undef L
#define L(n) f##n,
static request_filter filters[] = {L(0) L(1) L(2) L(3) L(4) L(5) L(6) L(7) L(8) L(9) L10(1) L10(2) L10(3) L10(4) L10(5) L10(6) L10(7) L10(8) L10(9) L10(10) L10(11) L10(12) L10(13)};

void app_register_routes(void)
{
  router_init();
  int n = H_nroutes();
  for (int i = 0; i < n && i < 140; i++)
  {
    char *t = strdup(H_route_template(i));
    router_add_route(t, handlers[i], H_route_filter(i) ? filters[i] : NULL);
    free(t);
  }
}
static void raw_handler(int sock)
{
  H_raw(sock, 0);
  char line[300]; int n = 0;
  while (n < 299)
  {
    char c; int r = recv(sock, &c, 1, 0);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) break;
    line[n++] = c;
    if (c == '\n') break;
  }
  line[n] = 0;
  if (n && line[n - 1] == '\n')
  {
    char out[400];
    int k = 4 + n, o = 0;
    memcpy(out, "RAW ", 4); memcpy(out + 4, line, n);
    while (o < k) { int r = send(sock, out + o, k - o, 0); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; o += r; }
  }
  H_raw(sock, 1);
  close(sock);
}
void app_embedded(void)
{
  strcpy(WAYUU_WS_ROOT, H_root());
  sprintf(WAYUU_STATIC_ROOT, "%s/%s", H_root(), DEFAULT_STATIC_ROOT);
  strcpy(WWW_INDEX, DEFAULT_WWW_INDEX);
  strcpy(FAVICON_URL, DEFAULT_FAVICON_URL);
  WAYUU_SSL_ON = H_tls();
  if (H_debug()) log_set_level(LOG_DEBUG);
  if (H_logfile()) log_set_file("/var/log/app.log");
  app_register_routes();
  ws_launch(H_port(), (char *)H_bind(), H_rawhandler() ? raw_handler : NULL);
}

/* ---- configuration jobs ---- */
static serializable *make_items(void *in)
{
  int job = (int)(long)in;
  int n = H_job_n(job);
  conf_item *items[_CONF_MAX_ITEMS];
  for (int i = 0; i < n; i++)
  {
    char *s = strdup(H_job_item(job, i));
    char *eq = strchr(s, '=');
    *eq = 0;
    char *mv[_CONF_MAX_MULTI_ELEMENTS]; int m = 0;
    if (s[0] == 'm')
    {
      char *q = eq + 1;
      while (q && m < _CONF_MAX_MULTI_ELEMENTS) { char *c = strchr(q, ','); if (c) *c = 0; mv[m++] = q; q = c ? c + 1 : NULL; }
      items[i] = new_conf_item_with_values(s, "", mv, m);
    }
    else items[i] = new_conf_item_with_values(s, eq + 1, mv, 0);
    free(s);
  }
  return new_serializable(strdup(H_job_path(job)), items, n);
}
static int on_item(void *out, conf_item *it)
{
  H_conf_read_item((int)(long)out, it->key, it->value, it->n_multivalues, it->multivalue);
  return 0;
}
static void *job_thread(void *arg)
{
  int job = (int)(long)arg;
  int t = H_job_type(job);
  if (H_job_delay(job)) H_work(H_job_delay(job));
  if (t == 0 || t == 2) H_conf_write(job, write_conf(arg, make_items));
  if (t == 1 || t == 2)
  {
    key_flags fl;
    fl.size = 8;
    static char *keys[] = {"s0", "s1", "s2", "s3", "m0", "m1", "m2", "m3"};
    for (int i = 0; i < 8; i++) { fl.flags[i].key = keys[i]; fl.flags[i].is_multi = i >= 4; }
    H_conf_read(job, parse((char *)H_job_path(job), on_item, arg, fl));
  }
  return NULL;
}
void app_conf_jobs(void)
{
  int n = H_njobs();
  pthread_t th[64];
  for (int i = 0; i < n; i++) pthread_create(&th[i], NULL, job_thread, (void *)(long)i);
  for (int i = 0; i < n; i++) pthread_join(th[i], NULL);
}
