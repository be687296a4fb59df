/* Interposed allocator: fill patterns, live block accounting, failure of the n-th allocation.
   Linked with -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free */
#ifndef WRAP_H
#define WRAP_H
extern int  wr_fill;          /* -1: off, else the byte new memory is filled with */
extern int  wr_tag;           /* 0: allocations are not recorded, else recorded with this tag */
extern long wr_count;         /* allocations since wr_count was last set to 0 */
extern long wr_fail_at;       /* 0: none; n: the n-th allocation counted fails */
long wr_live(int tag);        /* live recorded blocks with that tag (0: all) */
const char *wr_site(int tag); /* where the first of them was allocated */
void wr_forget(void);
#endif
