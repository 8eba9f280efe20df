MX="TimBase/src/Thread/Mutex.h"; SL="TimBase/src/Thread/SmartLock.cc"; SH="TimBase/src/Thread/SmartLock.h"; CO="TimBase/src/Thread/Condition.h"
M=[
("bad",MX,"      pthread_mutex_t *old = pmutex;\n      init(mutex.mutex,options);\n      if( old )","      pthread_mutex_t *old = pmutex;\n      init(mutex.mutex,options);\n      if( old && old != pmutex )"),
("bad",MX,"      release();\n      init(mutex.mutex,options);","      pmutex = 0;\n      init(mutex.mutex,options);"),
("bad",MX,"        if( pthread_mutex_trylock(pmutex) != 0 )\n          pmutex = 0;","        pthread_mutex_trylock(pmutex);"),
("bad",MX,"&attr,PTHREAD_MUTEX_RECURSIVE_NP","&attr,PTHREAD_MUTEX_ERRORCHECK_NP"),
("bad",CO,"      ts.tv_nsec %= 1000000000;\n",""),
("bad",CO,"return pthread_cond_broadcast(&cond);","return 0;"),
("bad",SL,"while( readers || writers )","while( writers )"),
("bad",SL,"while( readers > 1 || writers )","while( readers > 2 || writers )"),
("bad",SL,"        while( writers )\n          cond.wait();\n      }\n      readers++;","        if( writers )\n          cond.wait();\n      }\n      readers++;"),
("bad",SH,"      if( right.plock )\n        right.plock->rlock();\n      release();\n      plock = right.plock;","      release();\n      plock = right.plock;"),
("bad","TimBase/src/Thread/Thread.cc","      Thread::Mutex::Lock lock(thread_map_mutex_);\n      return thread_map_[id];","      return thread_map_[id];"),
("bad","OCTOPUSSY/src/Dispatcher.cc","  Thread::Mutex::Lock lock(wpmutex);\n  WPI","  Thread::Mutex::Lock(wpmutex);\n  WPI"),
("ok",SL,"        while( readers > 1 || writers )\n          cond.wait();","        for(;;)\n        {\n          if( readers <= 1 && !writers )\n            break;\n          cond.wait();\n        }"),
("ok",MX,"      int ret = pmutex ? pthread_mutex_unlock(pmutex) : 0;\n      pmutex = 0;\n      return ret;","      if( !pmutex )\n        return 0;\n      pthread_mutex_t *p = pmutex;\n      pmutex = 0;\n      return pthread_mutex_unlock(p);"),
("ok",CO,"      ts.tv_sec += ts.tv_nsec/1000000000;\n      ts.tv_nsec %= 1000000000;","      while( ts.tv_nsec >= 1000000000 )\n      {\n        ts.tv_sec++;\n        ts.tv_nsec -= 1000000000;\n      }"),
]
