//@prop: C14
//@tus: %base -iceoryx_hoofs/posix/time/source/adaptive_wait.cpp @rt/adaptive_wait_stub.cpp
//@stub: the back-off between two polls of a busy-waiting thread (yield/sleep with growing duration) is modelled as giving way to the other threads; the real back-off code runs in the sequential jobs
//@bound: lock, sequential: 3 execution contexts (symbolic process and thread ids, pairwise different as pairs), NOPS symbolic lock/try_lock/unlock, recursive and non-recursive
//@bound: lock, concurrent: 2 to 3 threads, NK critical sections each via symbolic lock/try_lock, all sequentially consistent interleavings; data protected by the lock is checked for happens-before order
//@bound: semaphore: symbolic initial value (all 32-bit values), NOPS operations sequentially; 2 to 3 threads with symbolic post/wait/tryWait
//@stub: getpid/pthread_self return the identity chosen by the harness; the clock of timedWait advances by a symbolic amount per reading
//@job: name=conc2 defs="-DCONC -DNT=2 -DNK=2" reach=done,tryfail args="--joinite"
//@job: name=race2 defs="-DCONC -DRACE -DNT=2 -DNK=1" reach=done,tryfail
//@job: name=rec2 defs="-DCONC -DNT=2 -DNK=1 -DREC" reach=done
//@job: name=conc3 defs="-DCONC -DNT=3 -DNK=1" reach=done,tryfail
//@job: name=xproc defs="-DCONC -DNT=2 -DNK=2 -DSAMETID" reach=done
//@job: name=xproc3 defs="-DCONC -DNT=3 -DNK=2 -DXPROC -DREC -DONLYLOCK" reach=
//@job: name=sem2 defs="-DSEM -DNT=2 -DNK=2 -DNINIT=1" reach=done,empty args="--joinite"
//@job: name=sem3 defs="-DSEM -DNT=3 -DNK=1 -DNINIT=1" reach=done,empty
//@job: name=semwait defs="-DSEMWAIT -DNT=2" reach=done
//@job: name=conc3b defs="-DCONC -DNT=3 -DNK=2" reach=done,tryfail tier=thorough
//@job: name=sem3b defs="-DSEM -DNT=3 -DNK=2 -DNINIT=1" reach=done,empty tier=thorough
#include "c14_spin.inc.hpp"
