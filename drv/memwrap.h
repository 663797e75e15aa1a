#ifndef MEMWRAP_H
#define MEMWRAP_H
void mw_in(void);               /* allocations from here on belong to the library */
void mw_out(void);
int mw_check(void);             /* number of library blocks with overwritten guard bytes, ever */
int mw_live(void);              /* library blocks in use */
int mw_badfree(void);
#endif
