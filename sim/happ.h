/* Interface between the simulated application (app.c, compiled against the headers of /repo) and the harness. */
#ifndef HAPP_H
#define HAPP_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#define NTRAMP 200
/* implemented by the harness */
struct hparams { int kind; int size; int status; int work; int marks; int reject; char token[64]; char file[128]; };
void H_begin(int kind, int route, const char *method, const char *path, const char *query, const char *form, const char *session,
             const char *ip, const char *url, const char *ctype, const char *reqline);
void H_header(const char *name, const char *value);
void H_end(int kind, int result);
void H_params(int kind, int route, const char *query, struct hparams *p);
void H_expect(int status, const char *ctype, const char *body, long len, int has_cl, int logs);
void H_expect_file(const char *path);
void H_work(int us);
void H_mark(int level, const char *text, int enter);
void H_tmpfile(const char *name, int stage);
void H_body(const char *token, int size, int text, char *out); /* out: size + 1 bytes */
void H_helper(const char *name, int ok, const char *got, const char *want);
void H_md5(const char *data, int len, char *out);
void H_file_read(const char *path, const char *got, long len, long maxlen);
void H_file_written(const char *path, int result, const char *data, int len);
void H_got_header(const char *name, const char *value);
void H_conf_write(int job, int rc);
void H_conf_read_item(int job, const char *key, const char *value, int n, char *const *multi);
void H_conf_read(int job, int rc);
int H_job_type(int job);
int H_job_delay(int job);
const char *H_job_path(int job);
int H_job_n(int job);
const char *H_job_item(int job, int i);
int H_njobs(void);
int H_nroutes(void);
const char *H_route_template(int i);
int H_route_filter(int i);
void H_raw(int sock, int stage);
const char *H_root(void);
int H_tls(void);
int H_debug(void);
int H_rawhandler(void);
int H_port(void);
const char *H_bind(void);
int H_logfile(void);
int H_list_api(void);

/* implemented by app.c */
void app_register_routes(void);
void app_embedded(void);
void app_conf_jobs(void);
int wayuu_main(int argc, char **argv);
#ifdef __cplusplus
}
#endif
#endif
