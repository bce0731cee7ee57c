//@prop: C14
//@tus: %base
//@bound: lock, sequential: 3 execution contexts (symbolic process and thread ids, pairwise different as pairs), NOPS symbolic lock/try_lock/unlock, recursive and non-recursive
//@bound: lock, concurrent: 2 to 3 threads, NK critical sections each via symbolic lock/try_lock, all sequentially consistent interleavings; data protected by the lock is checked for happens-before order
//@bound: semaphore: symbolic initial value (all 32-bit values), NOPS operations sequentially; 2 to 3 threads with symbolic post/wait/tryWait
//@stub: getpid/pthread_self return the identity chosen by the harness; the clock of timedWait advances by a symbolic amount per reading
//@job: name=seq defs="-DSEQ -DNOPS=5" reach=locked,recursed,refused,deadlock,notowned
//@job: name=semseq defs="-DSEMSEQ -DNOPS=4" reach=overflow,empty,taken,toolarge
//@job: name=semtimed defs="-DSEMTIMED" reach=timeout,got
#include "c14_spin.inc.hpp"
