#include <mpi.h>
int mpi_live(void);             /* communicators, types and requests of the library that are still held */
void mpi_rank_start(int rank, int nranks, int fd, int late, int solo);
void mpi_live_reset(void);
void mpi_rank_done(void);
/* runs until every rank is done: 0 ok, 1 a rank ended early, 2 deadlock, 3 erroneous use */
int mpi_coordinate(int nranks, int *fd, unsigned seed, FILE *log, int trace, const char **why);
extern int drv_line;            /* number of the call being executed */
