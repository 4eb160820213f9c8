#include <stddef.h>
void ledger_enter(int tag);
void ledger_leave(void);
size_t ledger_live(int tag);
int ledger_owns(int tag, const void *p);
int ledger_inside(int tag, const void *p, size_t n);
void ledger_check(void);
void ledger_report(void);
