/* Interface between the controller (main executable) and the per-rank shared library. */
#ifndef VH_H
#define VH_H
#ifdef __cplusplus
extern "C" {
#endif
/* services the controller gives to rank code */
int  vh_rank(void);                 /* world rank of the running coroutine */
int  vh_size(void);
void vh_yield(void);                /* let the scheduler pick another rank */
void vh_progress(void);
void vh_report(int opidx, const char* json);   /* this rank's part of the event of operation opidx */
void vh_event(const char* json);    /* an event of its own, written now */
void vh_opbegin(int opidx);
const char* vh_script(int opidx);   /* text of this rank's part of operation opidx; NULL past the end */
const char* vh_opkind(int opidx);
unsigned vh_rand(void);
const char* vh_dir(void);           /* scratch directory of this case */
void vh_fail(const char* what);     /* records a failure event and ends the case */
void vh_sched(int opidx, int mode, unsigned seed); /* another kind of schedule from here on */
void vh_stop(void);                 /* this rank does nothing more in this case */
int  vh_leftover(void);             /* messages sent and not received so far, all communicators */
int  vh_leftover_self(void);
long vh_tick(void);                 /* next number of one counter shared by all ranks */
/* what the per-rank library exports */
typedef void (*vh_main_t)(int rank, int size);
#ifdef __cplusplus
}
#endif
#endif
