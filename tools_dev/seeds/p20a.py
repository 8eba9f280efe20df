exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P20"
EDITS = [("TimBase/src/Thread/SmartLock.cc", """        while( readers || writers )
          cond.wait();
        writer_id = self();""", """        if( readers || writers )
          cond.wait();
        writer_id = self();""")]
NEEDS = "a writer waiting while two readers hold the lock and leave one after the other (or two writers queue up behind a writer)"
BREAKS = "a writer enters while another reader still holds the lock: the wait is not re-tested after a wakeup"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-ltimbase"
FILES = {"demo.cc": r'''
#include <TimBase/Thread.h>
#include <TimBase/Thread/SmartLock.h>
#include <pthread.h>
#include <unistd.h>
#include <stdio.h>
namespace T = LOFAR::Thread;
static T::SmartLock lk;
static volatile int entered = 0;
static void * writer (void *) { lk.wlock(); entered = 1; lk.wunlock(); return 0; }
static void * reader (void *) { usleep(100000); lk.runlock(); return 0; }
int main ()
{
  alarm(60);
  // three readers; two of them leave; the writer must go on waiting for the third
  lk.rlock(); lk.rlock(); lk.rlock();
  pthread_t w,r1,r2;
  pthread_create(&w,0,writer,0);
  usleep(200000);
  pthread_create(&r1,0,reader,0);
  pthread_create(&r2,0,reader,0);
  pthread_join(r1,0); pthread_join(r2,0);
  usleep(300000);
  if( entered ) { printf("writer entered while a reader holds the lock\n"); return 1; }
  lk.runlock();
  pthread_join(w,0);
  if( !entered ) return 1;
  printf("ok\n");
  return 0;
}
'''}
